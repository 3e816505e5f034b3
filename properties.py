NA = {}
TRUST = ' Trusted: rustc/LLVM lowering, the executor in engine/, z3, the models of libc calls; sampled paths are re-run on the native build and must agree.'
prop('P01', 'Syntax descriptors decode back to the value written, consuming exactly its bits',
 'Every value written with a variable-length, little-endian, LEB128, signed or non-symmetric descriptor is read back unchanged by the matching reader, which consumes exactly the bits written and leaves everything after them untouched. A stream that ends in the middle of a value is rejected (by a panic), never turned into a value and never waited on forever.',
 ['inputs'], 'all 32-bit values for variable-length codes, all values of 1..8-byte little-endian codes, all values below 2^56 for LEB128, all widths 1..32 and values of signed codes, all n < 2^32 and v < n of non-symmetric codes; every input of up to 9 bits for the truncation part',
 'The tests sample a few dozen values per descriptor; the boundaries (all-ones, powers of two, the largest value) and truncated streams are not among them.',
 ['src/bool_coder.rs'], [('encode_uvlc/decode_uvlc, encode_le/decode_le, encode_leb128/decode_leb128, encode_su/decode_su, encode_ns/decode_ns', 'src/bool_coder.rs')],
 'All values inside the stated bounds, by bit-vector reasoning over the real encoder and decoder code.' + TRUST)
prop('P02', 'The entropy decoder recovers every coded symbol sequence',
 'Whatever symbols, literals and fixed-probability bits are entropy-coded, and whatever valid adapting probability distributions they are coded with, decoding the produced bytes with the same initial distributions yields exactly the coded sequence.',
 ['inputs', 'histories'], 'single symbols under every two-symbol distribution and counter; every two-symbol distribution after any of several coded prefixes; every sequence of 10 to 12 symbols over skewed adapting distributions; every run pattern a^i b^j a^k up to i=40; every literal of up to 8 bits between symbols; every fixed probability',
 'The tests code one random sequence with one fixed probability per run; carry propagation, range underflow and extreme probabilities need specific histories.',
 ['src/bool_coder.rs'], [('encode_symbol, encode_bool, renormalisation and carry; decode_symbol', 'src/bool_coder.rs')],
 'Bounded: the distributions and histories in the quantifier; distributions of more than three symbols are covered for the probability update (P04) but not for every value here.' + TRUST)
prop('P03', 'An entropy-coded chunk is whole bytes and its decoder consumes exactly it',
 'A finished entropy-coded chunk occupies a whole number of bytes; a decoder told that size recovers the symbols and, when finished, has consumed exactly those bytes, including unused padding bytes inside the chunk and nothing after them. A coder reused for chunk after chunk produces the same bytes as a fresh one.',
 ['inputs', 'histories'], 'two consecutive chunks of up to 4 and 3 symbols, one symbol under every two-symbol distribution, up to 6 symbols with up to 3 padding bytes, literals of up to 16 bits',
 'The tests never place two chunks in one stream, never inspect what is left of the queue and never reuse a coder after finishing it.',
 ['src/bool_coder.rs'], [('init_encoder/exit_encoder, init_decoder/exit_decoder and the consumed-bit accounting', 'src/bool_coder.rs')],
 'All symbol choices inside the bounds; longer chunks are outside.' + TRUST)
prop('P04', 'Probability adaptation follows the format rule and is equal on both sides',
 'Coding a symbol changes its distribution by exactly the AV1 adaptation rule: every entry moves the rate-dependent fraction (rate 4, plus one once the counter exceeds 31, plus the floor of log2 of the number of symbols) towards the target that gives the coded symbol all mass but 32 units per symbol, and the counter saturates at 32. The distribution stays strictly increasing and ends at 32768, and the encoder and the decoder arrive at the same distribution.',
 ['inputs', 'histories'], 'every strictly increasing distribution of 2 symbols, of 3 to 8 symbols (13 and 16 thorough) in which the coded symbol is likely, sparse families of 13 and 16 symbols, every counter value, histories of up to 70 symbols',
 'The tests use a single fixed-probability path that never adapts.',
 ['src/bool_coder.rs'], [('the update loops of encode_symbol and decode_symbol', 'src/bool_coder.rs')],
 'All distributions in the stated families; for 3 or more symbols the coded symbol has a lower-bounded probability so that the number of renormalisation cases stays small.' + TRUST)
prop('P05', 'Descriptors are written in exactly their AV1 bit representation',
 'The bits appended for a fixed-width field, a variable-length, LEB128, little-endian, signed or non-symmetric value are exactly those the AV1 format defines (most significant bit first, LEB128 and little-endian bytes least significant first, minimal length), alignment appends only zero bits up to the next byte boundary, and bits already present are never changed.',
 ['inputs'], 'all values and widths in each descriptor\'s domain (non-symmetric: n up to 65535)',
 'A round-trip test cannot see an encoder and decoder that agree on a wrong representation, and the tests sample few values.',
 ['src/bool_coder.rs'], [('push_bits_with_size, push_bits_align, encode_uvlc, encode_leb128, encode_le, encode_su, encode_ns', 'src/bool_coder.rs')],
 'All values inside the bounds, against an independent reference written from the format.' + TRUST)
prop('P06', 'Integer helpers are exact over their whole domain',
 'The highest-set-bit functions and the floor of log2 are exact for every non-zero 16-, 32- and 64-bit operand (and 0 for zero where a table is used); rounding shifts round to nearest with halves away from zero, symmetrically for negative operands in the signed form; clamp, minimum, maximum and absolute value are exact.',
 ['inputs'], 'all 16-, 32- and 64-bit operands, shifts 0..32, all clamp bounds',
 'No test calls them.', ['src/util.rs'], [('msb16, msb32, msb64, FloorLog2!, Round2!, Round2Signed!, Clip3!, Min!, Max!, Abs!', 'src/util.rs')],
 'All operands inside the bounds.' + TRUST)
prop('P07', 'Unit headers name their kind and temporal units are exactly length-delimited',
 'Every unit starts with a header whose type field is the AV1 number of its kind, with forbidden, extension, size and reserved bits clear; the unit is its header, its payload and zero bits to the next byte. Writing a temporal unit to the output produces exactly nested byte counts (temporal unit, frame unit, unit length) that match what follows, consecutive units follow one another with nothing between, padding units are that many zero bytes, and a temporal delimiter is empty and starts a new frame.',
 ['inputs', 'histories'], 'all eight kinds for the header; sequence headers, delimiters, content-light metadata and padding (around the one/two byte length boundary) for framing, alone and in every sequence of two',
 'No test writes a unit.', ['src/obu_encoder.rs', 'src/binary_writer.rs'], [('encode_obu_header, encode_obu, encode_temporal_unit', 'src/obu_encoder.rs')],
 'All field values within the bounds, output observed through an in-memory file standing in for the operating system. Frame and tile-group payloads are outside this property.' + TRUST)
prop('P08', 'Sequence headers carry every setting so that a reader recovers it',
 'Reading a written sequence header by its own syntax recovers every setting: profile, still-picture flags, all operating points, maximum frame size for every size from 1 to 65536, frame-id lengths, coding-tool flags and choices, colour configuration, timing, decoder-model and operating parameters, film grain flag. Fields the syntax conditions away are absent, nothing follows the last field, and writing the same header again gives the same bits.',
 ['inputs', 'configurations'], 'every value of every field, all flag combinations, 1 to 32 operating points, up to 2 operating-parameter sets; regions are varied jointly within a harness and held at their defaults in the others',
 'No test writes a sequence header.', ['src/obu_encoder.rs', 'src/sequence_header.rs'], [('OBU_SEQUENCE_HEADER arm of the payload writer', 'src/obu_encoder.rs'), ('SequenceHeader::new', 'src/sequence_header.rs')],
 'All values inside the bounds, against a reference reader written in the harness. The field order is the one of the AV1 draft the code implements.' + TRUST)
prop('P09', 'Metadata units carry their type and every field',
 'Every metadata unit (content light level, mastering display, ITU-T T.35 country code, scalability modes and structures, timecode) starts with its AV1 metadata type number and holds every field in order at its width, so that a reader of the syntax recovers them all and nothing else follows.',
 ['inputs'], 'every field value of every kind; scalability structures of 1 to 4 layers and up to 255 groups or 7 references; timecodes with any present prefix of seconds, minutes, hours and offsets of 0 to 31 bits',
 'No test writes metadata.', ['src/obu_encoder.rs', 'src/obu.rs'], [('OBU_METADATA arm of the payload writer', 'src/obu_encoder.rs')],
 'All values inside the bounds, against a reference reader.' + TRUST)
prop('P10', 'The output holds exactly the bits written, however the calls and transfers split',
 'After any sequence of single-bit writes, multi-bit writes and alignments, the output file or standard output holds exactly those bits, most significant bit first, zero-filled only by alignment, in order and complete, even when the operating system accepts only part of a transfer or interrupts it. An existing file is replaced, not appended to.',
 ['inputs', 'histories', 'fault_sequences'], 'every sequence of three calls of up to 11 bits, every bit value, every short-write split and interruption point of small outputs, outputs around the 8 KiB buffer size',
 'No test writes through the writer, and none can control how the operating system splits transfers.', ['src/binary_writer.rs'], [('write_bit, write_bits, byte_align', 'src/binary_writer.rs')],
 'All call sequences and transfer splits inside the bounds; read/write/open are modelled by an in-memory file compiled into the harness.' + TRUST)
prop('P11', 'Reading a plane delivers the next input bytes in order, however they arrive',
 'Reading a plane fills it with exactly the next bytes of the input, in order and without gaps or repeats across planes, and reports how many were available, no matter how the operating system splits or interrupts the reads; samples wider than a byte receive the byte values. A missing file and a failing device are reported as errors.',
 ['inputs', 'fault_sequences'], 'every content and every short-read split and interruption point for files and standard input of up to 7 bytes in planes of 3, 2 and 1; planes beyond the internal buffer in fixed piece sizes; every failure point of a small read',
 'No test reads input, and none can control read splits.', ['src/binary_reader.rs'], [('read_to_vec', 'src/binary_reader.rs')],
 'All contents and splits inside the bounds.' + TRUST)
prop('P12', 'The command line is parsed completely; anything malformed is rejected',
 'For every argument list the parser either applies every option in it (long or short name; the last value given for an option wins; options not given keep their defaults of 4294967295 frames and 30/1 frames per second) or rejects the list with an error; it never panics and never ignores an argument. Sizes are WIDTHxHEIGHT, counts are decimal, frame rates are N or N/D with non-zero D; a configuration is valid exactly when input, output, size and counts are present, both dimensions are in 1..8191 and the frame rate is positive.',
 ['inputs', 'configurations'], 'argument lists, option names and values up to the stated lengths; every configuration for validation',
 'No test parses arguments.', ['src/option.rs'], [('parse, the option table, validate_config, init_config', 'src/option.rs')],
 'All strings within the length bounds, against an independent reference parser.' + TRUST)
HDR = ' Decided against a reference reader of the whole frame header syntax written in the harness (field order of the AV1 draft the code implements); each harness varies one region of the settings jointly and leaves the others at their defaults.'
prop('P13', 'Frame headers open with type, visibility, ids and refresh a reader recovers',
 'Reading a written frame header recovers show-existing (with nothing but the frame index, presentation delay and frame id after it, and every slot refreshed exactly when a key frame is shown), frame type, visibility, error resilience, screen-content and integer-motion choices, frame id, order hint, primary reference, buffer removal delays of exactly the operating points the frame belongs to, refresh flags and reference order hints. Values the format implies (shown key and switch frames: error resilient, refreshing all; intra or resilient frames: no primary reference; still pictures with the reduced header) are not written and are what the encoder goes on with; references whose id or order hint no longer fits become invalid. Nothing follows the last field.',
 ['inputs', 'configurations'], 'all values and flag combinations of these settings with id lengths of 3 to 16 bits, order hints of 1 to 8 bits, delays of 1 to 32 bits, up to 3 operating points',
 'No test writes a frame header.', ['src/obu_encoder.rs', 'src/frame.rs', 'src/encoder.rs'], [('opening part of the OBU_FRAME_HEADER arm, from show_existing_frame to ref_order_hint', 'src/obu_encoder.rs')],
 'All values inside the bounds.' + HDR + TRUST)
prop('P14', 'Frame headers carry frame size, render size, superres and uniform tile layout',
 'Reading a written frame header recovers the frame size (in the bit widths the sequence header announced; not written when it is the sequence maximum and not overridden), the super-resolution denominator and the resulting coded width, the render size whenever it differs from the upscaled frame size, and the number of uniformly spaced tile columns and rows, the context tile and the tile size width; the tile boundaries the encoder goes on with are the ones a decoder derives.',
 ['inputs', 'configurations'], 'frame sizes up to 4096x2304 in one tile and every size whose superblock grid is up to 8x8, 80x1 or 1x80 (plus selected grids up to 65536x65536) in every legal tile count, both superblock sizes, all denominators, all render sizes',
 'No test writes a frame header; tile counts, increments and rounding depend on size, superblock size and limits together.', ['src/obu_encoder.rs', 'src/frame.rs'], [('frame size, superres, render size and tile info in the OBU_FRAME_HEADER arm', 'src/obu_encoder.rs'), ('tile_cols_log2, tile_rows_log2', 'src/frame.rs')],
 'All values inside the bounds. Non-uniform tile spacing and sizes taken from a reference are not implemented in the encoder and are outside.' + HDR + TRUST)
prop('P15', 'Frame headers carry references, motion settings and global motion',
 'Reading a written inter frame header recovers the reference slots (or the short signaling), frame id differences, vector precision, interpolation filter, motion-mode, reference-vector, warped-motion and compound settings, and for each reference the global motion model and every parameter exactly, coded relative to the previous parameters (the identity when there is no primary reference). Order hints and sign bias of the references, whether skip mode is allowed (a past and a future reference, or two distinct past ones) and its two nearest references are those a decoder derives. Intra frames carry none of it.',
 ['inputs', 'configurations', 'histories'], 'all reference slots, id differences of 2 to 15 bits, all flag combinations, all order hints of 1 to 8 bits (skip mode: 3 references of 3 bits, 2 of 8 bits, 4 of 5 bits thorough), every value and previous value of each global motion parameter of each model',
 'No test writes a frame header; order-hint wraparound and relative parameter coding depend on values and history together.', ['src/obu_encoder.rs'], [('inter part, skip mode and global motion of the OBU_FRAME_HEADER arm', 'src/obu_encoder.rs')],
 'All values inside the bounds; one global motion parameter is varied at a time.' + HDR + TRUST)
prop('P16', 'Frame headers carry quantizer and segmentation, and losslessness follows',
 'Reading a written frame header recovers the base quantizer index, every delta (chroma deltas shared unless sent separately, absent for monochrome), quantizer matrices, the segmentation update flags and every enabled feature value of every segment in its width and signedness, and the per-block quantizer and loop-filter delta settings. A segment counts as lossless exactly when its resulting quantizer index is 0 with no deltas; the frame is lossless exactly when all segments are, and lossless segments use the flattest matrix.',
 ['inputs', 'configurations'], 'all quantizer indices and deltas, all matrix levels, every value of each feature alone and among all others, every subset of features in one segment and of segments for one feature, up to 3 segments with any quantizer feature at once',
 'No test writes a frame header.', ['src/obu_encoder.rs', 'src/frame.rs'], [('quantization, segmentation, delta q/lf and lossless derivation in the OBU_FRAME_HEADER arm', 'src/obu_encoder.rs')],
 'All values inside the bounds.' + HDR + TRUST)
prop('P17', 'Frame headers carry filters, transform mode and film grain',
 'Reading a written frame header recovers loop filter levels, sharpness and deltas, CDEF damping and strengths, loop restoration types and unit sizes, transform mode, reduced transform set and film grain parameters; each group is absent exactly when the format implies it (lossless, intra block copy, tool disabled in the sequence, monochrome, frame neither shown nor showable), with the implied values in force. Nothing follows the last field.',
 ['inputs', 'configurations'], 'all values and flag combinations of these settings; up to 14 luma and 10 chroma grain points and all autoregression lags',
 'No test writes a frame header.', ['src/obu_encoder.rs', 'src/frame.rs'], [('loop filter, cdef, restoration, tx mode and film grain in the OBU_FRAME_HEADER arm', 'src/obu_encoder.rs')],
 'All values inside the bounds.' + HDR + TRUST)
prop('P18', 'Block-level symbols use the distribution of their context',
 'For every symbol of the block syntax above the coefficients (partition, prediction modes, references, compound and filter choices, motion vectors, palettes, segments, transform size and type), the encoder codes exactly the given value with exactly the distribution the AV1 format selects for that symbol, derived from the block and from the blocks directly above and to the left (none outside the frame). It adapts that distribution and no other, so a decoder following the same rules stays in step.',
 ['inputs', 'configurations'], 'all values of each symbol, all availabilities and all consistent combinations of the neighbours\' references, sizes, filters and flags, all block and transform sizes and modes',
 'No test codes a block-level symbol; a wrong context still yields a decodable-looking stream and shows only for particular pairs of neighbours.', ['src/bool_coder.rs', 'src/common.rs', 'src/constants.rs', 'src/frame.rs'], [('BoolCoder::encode_<element>', 'src/bool_coder.rs'), ('count_refs, ref_count_ctx, get_tx_set', 'src/common.rs'), ('block and transform size tables', 'src/constants.rs'), ('get_above_mi, get_left_mi', 'src/frame.rs')],
 'All values inside the bounds, starting from the default distributions. Oracle: context rules of the AV1 format written out independently in the harness.' + TRUST)
prop('P19', 'A run writes the stream its arguments and input call for, or fails visibly',
 'Run with an input and an output, each a file or the standard stream, the program reads frames of the configured size and writes to that output, and only there, exactly the stream: one temporal unit with a sequence header announcing the configured size as soon as one whole frame within the frame limit has arrived, and nothing when none has. Messages never mix into the stream. A malformed or invalid command line, an input or output that cannot be opened, and a failing read or write all end with a failing exit status and never report success; a refused command line leaves no output, and a failing read leaves what was due before it.',
 ['inputs', 'fault_sequences', 'configurations'], 'frames of 1x1 to 3x3 pixels and selected sizes up to 176x144, frame limits 0 to 3 or none, inputs around 0 to 3 frames long with any first bytes, files (new or overwritten) and standard streams, every position of one failing or interrupted transfer with every transfer size 1 to 5, ten kinds of refused command line',
 'No test runs the program.', ['src/main.rs', 'src/option.rs', 'src/frame.rs', 'src/binary_reader.rs', 'src/binary_writer.rs', 'src/obu_encoder.rs', 'src/sequence_header.rs'], [('main: reading, encoding and writing loop', 'src/main.rs'), ('parse, validate_config', 'src/option.rs'), ('flush', 'src/binary_writer.rs'), ('read_to_vec', 'src/binary_reader.rs'), ('encode_temporal_unit', 'src/obu_encoder.rs')],
 'All inputs and transfer outcomes inside the bounds, over an in-memory model of files and standard streams. The program does not encode frames yet; their contents are outside.' + TRUST)
prop('P20', 'Coefficient symbols use the distribution of their context',
 'For every symbol of the transform coefficient syntax (all-zero flag, end-of-block position, base levels, ranges, DC sign), the encoder codes exactly the given value with exactly the distribution the AV1 format selects, derived from the transform size and type, the plane, the position and the already coded neighbouring coefficients and blocks, and adapts that distribution and no other. The transform type in force is the coded one for luma, the covered luma block\'s for inter chroma and the prediction mode\'s for intra chroma, reduced to the allowed set.',
 ['inputs', 'configurations'], 'every transform size, type and set, plane and subsampling; positions near all edges and all positions of 8x8 blocks; neighbouring coefficients of any value -300..300; neighbouring level and sign contexts of any value; every symbol value',
 'No test codes a coefficient symbol; a wrong context shows only in a decoder, for particular neighbouring values.', ['src/bool_coder.rs', 'src/common.rs', 'src/constants.rs'], [('BoolCoder::encode_all_zero, encode_eob_pt_*, encode_coeff_base, encode_coeff_base_eob, encode_coeff_br, encode_dc_sign', 'src/bool_coder.rs'), ('compute_tx_type, get_tx_class, get_coeff_base_ctx', 'src/common.rs'), ('context offset tables', 'src/constants.rs')],
 'All values inside the bounds, starting from the default distributions of quantizer class 0 (the code has no other yet). Oracle: context rules of the AV1 format written out independently in the harness.' + TRUST)
prop('P21', 'Frames hold every sample and unit, and block geometry is consistent',
 'A new frame of any size holds exactly its luma samples, its chroma samples rounded up for odd sizes, and a mode-info place for every 4x4 unit of the whole 8x8 blocks covering it; neighbours above and left are exactly the adjoining units and absent at the frame edge. Block, transform, chroma and partition sizes, transform sets and classes, tile counts, order-hint distances (wrapping to the nearer side), reference directions and counts and copies of partition trees and film grain settings are those the format defines for every argument.',
 ['inputs', 'configurations'], 'frames of up to 24x24 samples and strips of up to 70, unit counts for any size below 2^31, all block, transform and partition sizes and sets, up to 64 tile rows and columns, all order hints of 1 to 8 bits, trees of depth 2 with any contents',
 'No test looks at a frame or a size table; a wrong entry shows only for blocks of that size or at an odd frame edge.', ['src/frame.rs', 'src/common.rs', 'src/constants.rs', 'src/block.rs'], [('Frame::new, mi_rows, mi_cols, get_*_mi, tile counts', 'src/frame.rs'), ('size and set helpers, get_relative_dist', 'src/common.rs'), ('size tables', 'src/constants.rs'), ('PartitionTree::clone', 'src/block.rs')],
 'All values inside the bounds.' + TRUST)
prop('P22', 'The default probability distributions are well formed and unaltered',
 'Every default distribution rises strictly to 32768 with a fresh use count, so every symbol of every alphabet can be coded under it and is read back by a decoder with equal adaptation; and the defaults a stream starts from are the values of the AV1 format, entry by entry, since a decoder starts from its own copy of them.',
 ['inputs'], 'every entry of every table, every symbol under every default distribution',
 'The tests use two fixed distributions of their own.', ['src/cdf.rs', 'src/bool_coder.rs'], [('default_cdf', 'src/cdf.rs')],
 'All entries and symbols. The values are pinned as read in the original tree; there is no copy of the specification in the sandbox to compare with.' + TRUST)
prop('P23', 'Segments, skips, CDEF and delta settings of blocks reach the decoder',
 'For every block, a decoder reading the block\'s symbols in order recovers its segment number (predicted from the blocks above, left and diagonally above, and taken from the prediction when the block is skipped), its skip flag (absent where its segment implies it), the CDEF index of each 64x64 area (carried once, by the first block there that is not skipped, and in force for exactly the areas the block covers), and its quantizer and loop filter deltas of any size and sign; the values in force in the encoder afterwards are those the decoder recovers, and nothing else is carried.',
 ['inputs', 'configurations', 'histories'], 'all segment numbers, predictions and last active segments; all CDEF widths and indices, five block sizes in four superblocks; all quantizer and loop filter deltas at every resolution against several running values (thorough: all)',
 'No test codes a block; a number off by one or a bit too few shows only for large deltas, rare predictions or blocks late in a superblock.', ['src/tile_encoder.rs', 'src/bool_coder.rs'], [('TileEncoder::encode_segment_id, encode_mode_info', 'src/tile_encoder.rs'), ('BoolCoder::encode_segment_id, encode_delta_q_abs, encode_delta_lf_abs, encode_literal', 'src/bool_coder.rs')],
 'All values inside the bounds. Oracle: a reference decoder of these elements in the harness, reading with the repository\'s arithmetic decoder (P02).' + TRUST)
prop('P24', 'References, prediction modes and motion vectors of blocks reach the decoder',
 'For every block predicted from other frames, a decoder holding the same list of candidate vectors recovers its reference frames (single or any allowed pair, or implied by its segment), its prediction mode, its choice among the candidates, and each of its motion vectors exactly: vectors taken from candidates are those candidates, new vectors are prediction plus coded difference, at each precision, for each reference separately; intra block copy starts from the first candidate that is not zero or the default area above or left. The block in the encoder afterwards has the recovered mode, references and vectors.',
 ['inputs', 'configurations'], 'all allowed references and pairs, all modes with 0 to 4 candidates and all choices, vector differences of all classes, signs and fractions in either or both components (thorough: all differences up to 16384)',
 'No test codes a vector; a wrong prediction or a difference never written yields a decodable stream with wrong pictures.', ['src/tile_encoder.rs', 'src/bool_coder.rs'], [('TileEncoder::encode_mode_info, assign_mv', 'src/tile_encoder.rs'), ('BoolCoder::encode_mv_*, encode_single_ref_*, encode_comp_*', 'src/bool_coder.rs')],
 'All values inside the bounds; the list of candidates itself is taken from the encoder. Oracle: a reference decoder of these elements in the harness.' + TRUST)
prop('P25', 'Loop restoration units are coded once each and their filters reach the decoder',
 'Over all superblocks of a frame, every loop restoration unit of every plane is coded exactly once, by the superblock that contains its top left sample (with subsampling, superresolution and any unit size; none with intra block copy), and a decoder recovers its type, its wiener coefficients or its self-guided set and weights (including implied weights), each coded relative to the last one used in its plane; filters recorded for the frame are those recovered.',
 ['inputs', 'configurations', 'histories'], 'all values of all coefficients against all references; all sets, all weights against nine references (thorough: all); frames of 11 widths and heights (thorough: all to 400), units of 64 to 256, both superblock sizes, three subsamplings, three superresolution denominators (thorough: all)',
 'No test codes a restoration unit; a wrong range or a wrong unit shows only for values near the limits or units cut by the frame edge.', ['src/tile_encoder.rs', 'src/constants.rs'], [('TileEncoder::encode_lr', 'src/tile_encoder.rs'), ('wiener and sgrproj tables', 'src/constants.rs')],
 'All values inside the bounds. Oracle: a reference decoder of restoration units in the harness; ownership of units stated as containment of their top left sample.' + TRUST)
prop('P26', 'A tile group carries every tile\'s own data, sized and in order',
 'A tile group announces its first and last tile, and then carries for each of its tiles, in order, the size of its data (except for the last) and exactly that data; each tile is coded by a freshly started and properly ended arithmetic coder over exactly the superblocks between its own row and column boundaries, starting from the frame\'s quantizer, zero loop filter deltas and default restoration references; each superblock starts with its deltas and CDEF indices unset. A superblock\'s first block is the largest the frame edges allow, coding tiles of any size ends normally, and the frame counts as complete with its last tile.',
 ['inputs', 'configurations'], 'up to 3 by 3 tiles of 0 to 3 superblocks each way, both superblock sizes; single-superblock frames of all sizes 8 to 64 in steps of 8 (thorough: 128) and frames of up to 2 by 2 superblocks; whole and partial groups with size fields of 1 to 4 bytes',
 'No test codes a tile.', ['src/obu_encoder.rs', 'src/tile_encoder.rs', 'src/bool_coder.rs'], [('OBU_TILE_GROUP payload', 'src/obu_encoder.rs'), ('TileEncoder::encode_tile, encode_superblock, encode_partition', 'src/tile_encoder.rs'), ('init_encoder, exit_encoder, encode_le', 'src/bool_coder.rs')],
 'All values inside the bounds. Oracle: a reference reader of tile groups in the harness. Outside: the choice of partition (there is no cost function) and its contexts beyond the first block.' + TRUST)
prop('P27', 'Motion vector candidates are what neighbours and the motion field offer',
 'The candidate list of a block starts with the vectors of the adjoining blocks above, to the left and at the top right (only where inside the tile and already coded) that use its reference frame or pair, then those of the motion field samples it covers (only if the frame uses reference frame vectors), in that order, each distinct vector once and eight at most; repeated ones add their weight, by the length of the shared edge, and adjoining ones outrank the rest. Blocks in global mode under a rotated or zoomed model offer the global vector here. Global vectors follow from the model at the block\'s centre, and every vector is brought to the frame\'s precision. The counts of matching sides and of neighbours with new vectors and the zero-vector context agree with it, whatever the previous block left behind.',
 ['inputs', 'configurations'], 'every block size, precision and model type; all values of each global parameter and vector component; every mode and reference match of a neighbour; neighbours of 4 to 128 samples; tile and frame edges; distinct, repeated, missing and too many vectors',
 'No test builds a list of candidates; a wrong one yields a stream whose vectors decode to something else.', ['src/tile_encoder.rs', 'src/constants.rs'], [('TileEncoder::find_mv_stack, add_ref_mv_candidate, is_inside', 'src/tile_encoder.rs')],
 'All values inside the bounds. Oracle: the same steps of the AV1 format written out independently in the harness. Outside: the steps the code does not have yet (farther rows and columns, extension samples, extra search, sorting, clamping).' + TRUST)
