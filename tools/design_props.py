"""text of DESIGN.md section 2: id -> (how, oracle, bounds beyond the quantifier, why)"""
D = {
'P01': ('Encode a symbolic value into the bit queue after a symbolic prefix bit and before a symbolic suffix, decode with the real reader; assert value, remaining queue. Truncation: every bit string shorter than a code must panic (a path that returns or exceeds the step budget is the violation).', 'identity; the untouched suffix', 19),
'P02': ('Real encoder then real decoder in one path, with symbolic distribution values, counters and symbols (`split` on the symbols, distributions left symbolic in the one- and two-symbol harnesses). Long outstanding-carry runs come from run patterns over skewed distributions.', 'identity of symbol sequences', 107),
'P03': ('Two chunks are written back to back, each decoded with its size; queue contents compared after `exit_decoder`; a reused coder compared with a fresh one.', 'byte counts; the second chunk must still decode', 10),
'P04': ('One coded symbol under a symbolic distribution; every entry afterwards compared with the rule; histories drive the counter through its saturation.', 'adaptation rule of the format, written as arithmetic in the harness', 16),
'P05': ('Bits appended by the real encoders compared with an independent bit-by-bit construction.', 'format definition of each descriptor', 15),
'P06': ('Direct: function result against a loop-free definition, all operands symbolic.', 'mathematical definitions', 10),
'P07': ('Real unit writer into the in-memory file; nested lengths parsed back by the harness.', 'reference parser of the length-delimited format', 10),
'P08': ('Symbolic settings → real sequence header payload → reference reader in the harness reads every field; each field compared; the bit queue must be empty; written twice gives the same bits. `SequenceHeader::new` for every configured size.', 'reference reader (`rd.rs`)', 56),
'P09': ('As P08 for each metadata kind.', 'reference reader', 14),
'P10': ('Every sequence of calls (kinds and widths split, bit values symbolic) into the in-memory file, with every split of `write(2)` and one interruption as symbolic schedule.', 'the concatenated bits', 11),
'P11': ('Symbolic contents and symbolic transfer sizes of `read(2)`, interruption and failure points.', 'the bytes in order', 11),
'P12': ('Symbolic argument bytes through the real parser; reference parser on the same bytes; accepted/rejected and every resulting field compared; panics are violations.', 'independent parser written from the option documentation', 27),
'P13': ('Symbolic frame/sequence settings → real frame header payload → reference reader of the *whole* frame header (`hdr.rs`) parses it with only decoder-side knowledge; all recovered fields and the encoder state derived for later use are compared; the queue must be empty.', 'reference reader', 19),
'P14': ('As P13 for size, superres, render size, tile info; tile starts recomputed from the format.', 'reference reader; tile derivation', 74),
'P15': ('As P13 for references, motion flags, skip mode, global motion; parameters read back with the decoder side of the subexponential code.', 'reference reader; skip-mode derivation; inverse recentering', 33),
'P16': ('As P13 for quantizer, segmentation, delta q/lf; lossless derivation.', 'reference reader', 29),
'P17': ('As P13 for loop filter, CDEF, restoration, transform mode, film grain.', 'reference reader', 13),
'P18': ('For each `encode_<element>`: symbolic neighbour blocks and symbol; the reference rule picks the distribution; the real function is run on a coder whose distributions are the defaults; assert that exactly the chosen distribution was adapted, by exactly that symbol (whole-context comparison of all tables before and after, done byte-wise on the concrete tables) and that the arithmetic coder state equals coding that symbol with it.', 'context rules of the format, independent re-derivation in the harness', 46),
'P19': ('The real `main` on a symbolic command line/environment over the in-memory file system: file, stdin/stdout, sizes, frame limits, contents, short/failing transfers; outputs and exit status compared.', 'reference composition of the stream; sequence header decoded', 10),
'P20': ('As P18 for the coefficient elements, with symbolic coefficients and level/sign contexts.', 'context rules of the format', 120),
'P21': ('Direct calls with all arguments symbolic or split; frames are really allocated for small sizes.', 'geometry written as arithmetic (shifts of log2 sizes), not tables', 9),
'P22': ('Every default distribution visited at a symbolic table/row index; strictly rising, terminator, counter; every symbol coded and decoded; position-dependent digest of all entries against pinned digests.', 'form: format rule; values: digests of the original tree', 25),
'P23': ('The real `encode_block` on prepared neighbours and context, everything coded followed by a marker; a reference decoder reads the symbols back and must find the settings, then the marker.', 'reference decoder (segment interleaving, delta escapes, CDEF areas)', 85),
'P24': ('As P23 for inter blocks: references, modes, candidate choices and vectors; vectors also through `assign_mv` alone.', 'reference decoder of references, modes and vector differences', 65),
'P25': ('The real `encode_lr` on every superblock of a frame with prepared units; decoded units compared with the prepared and the recorded ones.', 'reference decoder of units (sub-exponential codes); ownership as containment', 60),
'P26': ('The real `encode_tile` and tile group OBU; tiles lie outside the small frame so that only restoration units are coded; groups are parsed back and each tile decoded.', 'reference reader of tile groups; tile boundaries as arithmetic', 25),
'P27': ('The real `find_mv_stack` on prepared neighbours, motion field and global models; one component or parameter symbolic at a time, everything else split; the resulting list, weights, counts and contexts compared.', 'the steps of the format written out in the harness', 20),
}
