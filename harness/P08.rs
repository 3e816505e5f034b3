// P08: a sequence header is written so that a reader following its syntax recovers every setting.
include!("common.rs");
include!("vfs.rs");
include!("rd.rs");
use binary_writer::*; use bool_coder::*; use obu::*; use obu::OBU::*; use obu_encoder::*; use encoder::*; use sequence_header::*; use constants::*;

const CP: [u8; 12] = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22];
const TC: [u8; 19] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];
const MC: [u8; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
fn with<F: FnOnce(&mut OBUEncoder)>(ectx: &Rc<RefCell<EncoderContext>>, f: F) { let mut w = BinaryWriter::file("vfs:out").unwrap(); let mut c = BoolCoder::new(); let mut e = OBUEncoder::new(ectx, &mut w, &mut c); f(&mut e); }
fn ctx() -> Rc<RefCell<EncoderContext>> { Rc::new(RefCell::new(EncoderContext::new())) }
// reference reader: everything a decoder learns, in header order
struct Seen { v: Vec<u64> }
impl Seen { fn p(&mut self, x: u64) -> u64 { self.v.push(x); x } }
const NA: u64 = 1 << 40;
#[derive(Clone, Copy)] struct Want { profile: u64, still: u64, reduced: u64 }
fn color(r: &mut Rd, profile: u64, cc: &ColorConfig) {
    r.flag(cc.high_bitdepth, "high-bitdepth"); let mut depth = if cc.high_bitdepth { 10 } else { 8 };
    if profile == 2 && cc.high_bitdepth { r.flag(cc.twelve_bit, "twelve-bit"); if cc.twelve_bit { depth = 12; } }
    let mono = if profile != 1 { r.flag(cc.mono_chrome, "monochrome"); cc.mono_chrome } else { false };
    r.flag(cc.color_description.is_some(), "color-description-present"); let mut srgb = false;
    if let Some(d) = cc.color_description { r.is(8, d.color_primaries as u64, "color-primaries"); r.is(8, d.transfer_characteristics as u64, "transfer-characteristics"); r.is(8, d.matrix_coefficients as u64, "matrix-coefficients");
        srgb = d.color_primaries as u8 == 1 && d.transfer_characteristics as u8 == 13 && d.matrix_coefficients as u8 == 0; }
    if mono { r.flag(cc.color_range, "color-range"); return; }
    if !srgb { r.flag(cc.color_range, "color-range"); let (sx, sy);
        if profile == 0 { sx = true; sy = true; } else if profile == 1 { sx = false; sy = false; } else if depth == 12 { r.flag(cc.subsampling_x, "subsampling-x"); sx = cc.subsampling_x; if sx { r.flag(cc.subsampling_y, "subsampling-y"); sy = cc.subsampling_y; } else { sy = false; } } else { sx = true; sy = false; }
        if sx && sy { r.is(2, cc.chroma_sample_position as u64, "chroma-sample-position"); } }
    r.flag(cc.separate_uv_delta_q, "separate-uv-delta-q");
}
fn log2_ceil_bits(v: u64) -> usize { let mut n = 1; while n < 16 && (v >> n) != 0 { n += 1; } n }
fn dims(r: &mut Rd, w: u64, h: u64) { // w, h: maximum dimensions; the signalled widths must suffice and the values come back
    let nw = split(r.f(4)) as usize + 1; let nh = split(r.f(4)) as usize + 1; r.is(nw, w - 1, "max-frame-width"); r.is(nh, h - 1, "max-frame-height");
    let _ = log2_ceil_bits; }
struct Tools { c: EncoderContext, s: SequenceHeader }
fn sym_color() -> ColorConfig { let mut cc = EncoderContext::new().color_config; cc.high_bitdepth = any_bool("hbd"); cc.twelve_bit = any_bool("12b"); cc.mono_chrome = any_bool("mono");
    cc.color_description = if any_bool("desc") { Some(ColorDescription { color_primaries: any_enum("cp", &CP), transfer_characteristics: any_enum("tc", &TC), matrix_coefficients: any_enum("mc", &MC) }) } else { None };
    cc.color_range = any_bool("range"); cc.subsampling_x = any_bool("sx"); cc.subsampling_y = any_bool("sy"); cc.chroma_sample_position = any_enum("csp", &[0, 1, 2, 3]); cc.separate_uv_delta_q = any_bool("sep"); cc }
fn sym_ops(s: &mut SequenceHeader, n: u64) { s.operating_points.clear(); for _ in 0..n { let l = any_in("level", 0, 32) as u8; s.operating_points.push(OperatingPoint { idc: any_in("idc", 0, 4096) as u16, seq_level_idx: l, seq_tier: if l > 7 { Some(any_bool("tier")) } else { None } }); } }
struct Flags { reduced: bool, still: bool, profile: u8, fid: Option<(u8, u8)>, sb128: bool, fi: bool, ief: bool, ii: bool, mk: bool, wm: bool, df: bool, oh: bool, jc: bool, rm: bool, csct: bool, fsct: usize, cim: bool, fim: usize, ohb: u8, sr: bool, cdef: bool, lr: bool, fg: bool }
fn zero_flags() -> Flags { Flags { reduced: false, still: false, profile: 0, fid: None, sb128: true, fi: false, ief: false, ii: false, mk: false, wm: false, df: false, oh: false, jc: false, rm: false, csct: false, fsct: 0, cim: false, fim: 0, ohb: 1, sr: false, cdef: false, lr: false, fg: false } }
fn sym_flags(reduced: bool) -> Flags { Flags { reduced: reduced, still: any_bool("still"), profile: split(any_in("profile", 0, 3)) as u8, fid: if !reduced && any_bool("fid") { Some((any_in("dlen", 2, 18) as u8, any_in("alen", 1, 9) as u8)) } else { None },
    sb128: any_bool("sb128"), fi: any_bool("fi"), ief: any_bool("ief"), ii: any_bool("ii"), mk: any_bool("mk"), wm: any_bool("wm"), df: any_bool("df"), oh: any_bool("oh"), jc: any_bool("jc"), rm: any_bool("rm"), csct: any_bool("csct"), fsct: any_in("fsct", 0, 2) as usize,
    cim: any_bool("cim"), fim: any_in("fim", 0, 2) as usize, ohb: any_in("ohb", 1, 9) as u8, sr: any_bool("sr"), cdef: any_bool("cdef"), lr: any_bool("lr"), fg: any_bool("fg") } }
fn put(f: &Flags, s: &mut SequenceHeader, c: &mut EncoderContext) {
    c.reduced_still_picture_header = f.reduced; s.still_picture = f.still; s.profile = f.profile; s.frame_id = f.fid.map(|(d, a)| FrameID { delta_frame_id_length: d, additional_frame_id_length: a });
    c.use_128x128_superblock = f.sb128; s.enable_filter_intra = f.fi; s.enable_intra_edge_filter = f.ief; s.enable_interintra_compound = f.ii; s.enable_masked_compound = f.mk; c.enable_warped_motion = f.wm; s.enable_dual_filter = f.df; c.enable_order_hint = f.oh;
    s.enable_jnt_comp = f.jc; c.enable_ref_frame_mvs = f.rm; s.seq_choose_screen_content_tools = f.csct; c.seq_force_screen_content_tools = f.fsct; s.seq_choose_integer_mv = f.cim; c.seq_force_integer_mv = f.fim; c.order_hint_bits = f.ohb;
    c.enable_superres = f.sr; c.enable_cdef = f.cdef; c.enable_restoration = f.lr; c.film_grain_params = if f.fg { Some(::frame::FilmGrainParams::new()) } else { None };
}
// (idc, level, tier)
fn head(r: &mut Rd, f: &Flags, ops: &[(u64, u64, Option<bool>)], w: u64, h: u64) {
    r.is(3, f.profile as u64, "profile"); r.flag(f.still, "still-picture"); r.flag(f.reduced, "reduced-header");
    if f.reduced { r.is(5, ops[0].1, "level"); } else { r.is(5, ops.len() as u64 - 1, "operating-point-count"); for &(i, l, t) in ops { r.is(12, i, "operating-point-idc"); r.is(5, l, "level"); if l > 7 { r.flag(t == Some(true), "tier"); } } }
    dims(r, w, h);
    if !f.reduced { r.flag(f.fid.is_some(), "frame-ids-present"); if let Some((d, a)) = f.fid { r.is(4, d as u64 - 2, "delta-frame-id-length"); r.is(3, a as u64 - 1, "additional-frame-id-length"); } }
    r.flag(f.sb128, "128x128-superblocks"); r.flag(f.fi, "filter-intra"); r.flag(f.ief, "intra-edge-filter");
    if !f.reduced { r.flag(f.ii, "interintra"); r.flag(f.mk, "masked-compound"); r.flag(f.wm, "warped-motion"); r.flag(f.df, "dual-filter"); r.flag(f.oh, "order-hint"); if f.oh { r.flag(f.jc, "jnt-comp"); r.flag(f.rm, "ref-frame-mvs"); }
        r.flag(f.csct, "choose-screen-content"); if !f.csct { r.is(1, f.fsct as u64, "force-screen-content"); } if f.csct || f.fsct > 0 { r.flag(f.cim, "choose-integer-mv"); if !f.cim { r.is(1, f.fim as u64, "force-integer-mv"); } }
        if f.oh { r.is(3, f.ohb as u64 - 1, "order-hint-bits"); } }
    r.flag(f.sr, "superres"); r.flag(f.cdef, "cdef"); r.flag(f.lr, "restoration");
}
fn ops_of(s: &SequenceHeader) -> Vec<(u64, u64, Option<bool>)> { s.operating_points.iter().map(|o| (o.idc as u64, o.seq_level_idx as u64, o.seq_tier)).collect() }
struct Tail { ti: Option<TimingInfo>, dmi: Option<[u64; 6]>, odm: Vec<(u64, Option<u64>, Option<[u64; 6]>)> }
fn tail(r: &mut Rd, f: &Flags, t: &Tail) {
    if !f.reduced { r.flag(t.ti.is_some(), "timing-info-present"); if let Some(ti) = t.ti { r.is(32, ti.num_units_in_display_tick as u64, "display-tick"); r.is(32, ti.time_scale as u64, "time-scale"); r.flag(ti.equal_picture_interval, "equal-picture-interval");
            if ti.equal_picture_interval { check(r.uvlc() + 1 == ti.num_ticks_per_picture as u64, "ticks-per-picture"); }
            r.flag(t.dmi.is_some(), "decoder-model-present"); if let Some(d) = t.dmi { r.is(4, d[0], "bitrate-scale"); r.is(4, d[1], "buffer-size-scale"); r.is(5, d[2] - 1, "buffer-delay-length"); r.is(32, d[3], "decoding-tick"); r.is(5, d[4] - 1, "removal-delay-length"); r.is(5, d[5] - 1, "presentation-delay-length"); } } }
    let dmi = if f.reduced || t.ti.is_none() { None } else { t.dmi };
    r.flag(t.odm.len() > 0, "operating-parameters-present");
    if t.odm.len() > 0 { r.is(5, t.odm.len() as u64 - 1, "operating-parameters-count");
        for o in &t.odm { r.is(12, o.0, "operating-parameters-idc"); r.flag(o.1.is_some(), "display-delay-present"); if let Some(d) = o.1 { r.is(4, d - 1, "display-delay"); }
            if let Some(d) = dmi { r.flag(o.2.is_some(), "decoder-model-for-point"); if let Some(p) = o.2 { check(r.uvlc() + 1 == p[0], "bitrate"); check(r.uvlc() + 1 == p[1], "buffer-size"); r.is(1, p[2], "cbr"); let n = split(d[2]) as usize; r.is(n, p[3], "decoder-buffer-delay"); r.is(n, p[4], "encoder-buffer-delay"); r.is(1, p[5], "low-delay"); } } } }
    r.flag(f.fg, "film-grain-present"); r.end("header-length");
}
fn no_tail() -> Tail { Tail { ti: None, dmi: None, odm: vec![] } }
fn go(f: Flags, s: SequenceHeader, cc: ColorConfig, t: Tail, twice: bool) {
    let (w, h) = (s.max_frame_width as u64, s.max_frame_height as u64); let ops = ops_of(&s); let x = ctx(); let mut s = s;
    { let mut c = x.borrow_mut(); put(&f, &mut s, &mut c); c.color_config = cc; c.timing_info = t.ti;
      s.decoder_model_info = t.dmi.map(|d| DecoderModelInfo { bitrate_scale: d[0] as u8, buffer_size_scale: d[1] as u8, encoder_decoder_buffer_delay_length: d[2] as u8, num_units_in_decoding_tick: d[3] as u32, buffer_removal_delay: 0, buffer_removal_delay_length: d[4] as u8, buffer_removal_delay_present: false, frame_presentation_delay_length: d[5] as u8 });
      c.operating_points_decoder_model = t.odm.iter().map(|o| OperatingPointsDecoderModel { idc: o.0 as u16, initial_display_delay: o.1.map(|d| d as u8), operating_parameters_info: o.2.map(|p| OperatingParametersInfo { bitrate: p[0] as u32, buffer_size: p[1] as u32, cbr_flag: p[2] == 1, decoder_buffer_delay: p[3] as u32, encoder_buffer_delay: p[4] as u32, low_delay_mode_flag: p[5] == 1 }) }).collect(); }
    let mut b = vec![]; let mut b2 = vec![]; let mut o = OBU_SEQUENCE_HEADER(s);
    with(&x, |e| { e.encode_obu_payload(&mut o, &mut b); if twice { e.encode_obu_payload(&mut o, &mut b2); } }); out_bits(&b);
    let mut r = Rd::new(&b); head(&mut r, &f, &ops, w, h); color(&mut r, f.profile as u64, &cc); tail(&mut r, &f, &t);
    if twice { check(b == b2, "repeated-header-is-identical"); }
}
// maximum dimensions: every value up to 65536, other settings at their defaults; the frame size may be below the maximum
#[no_mangle] pub extern "C" fn vh_dims() {
    let (w, h) = (any_in("w", 1, 65537), any_in("h", 1, 65537)); let mut s = SequenceHeader::new(w as usize, h as usize);
    check(s.frame_width as u64 == w && s.max_frame_width as u64 == w && s.frame_height as u64 == h && s.max_frame_height as u64 == h, "new-header-size");
    if any_bool("larger") { s.max_frame_width = any_in("mw", w, 65537) as usize; s.max_frame_height = any_in("mh", h, 65537) as usize; }
    go(zero_flags(), s, EncoderContext::new().color_config, no_tail(), false);
}
// every coding-tool flag, frame ids, film grain, profile, reduced and full headers
#[no_mangle] pub extern "C" fn vh_tools() { let f = sym_flags(false); go(f, SequenceHeader::new(64, 48), EncoderContext::new().color_config, no_tail(), any_bool("twice")); }
#[no_mangle] pub extern "C" fn vh_reduced() { let f = sym_flags(true); let mut s = SequenceHeader::new(any_in("w", 1, 9) as usize, any_in("h", 1, 5) as usize); sym_ops(&mut s, 1); let mut t = no_tail(); if any_bool("ti") { t.ti = Some(TimingInfo { num_units_in_display_tick: 1, time_scale: 25, equal_picture_interval: false, num_ticks_per_picture: 1 }); } go(f, s, sym_color(), t, false); }
#[no_mangle] pub extern "C" fn vh_ops() { let mut s = SequenceHeader::new(64, 48); let n = split(any_in("n", 1, 5)); sym_ops(&mut s, n); go(zero_flags(), s, EncoderContext::new().color_config, no_tail(), false); }
#[no_mangle] pub extern "C" fn vh_ops_many() { let mut s = SequenceHeader::new(64, 48); s.operating_points.clear(); let n = split(any_in("n", 1, 33)); for i in 0..n { s.operating_points.push(OperatingPoint { idc: any_in("idc", 0, 4096) as u16, seq_level_idx: if i & 1 == 1 { any_in("level", 8, 32) as u8 } else { any_in("level", 0, 8) as u8 }, seq_tier: if i & 1 == 1 { Some(any_bool("tier")) } else { None } }); } go(zero_flags(), s, EncoderContext::new().color_config, no_tail(), false); }
#[no_mangle] pub extern "C" fn vh_color() { let mut f = zero_flags(); f.profile = split(any_in("profile", 0, 3)) as u8; go(f, SequenceHeader::new(64, 48), sym_color(), no_tail(), any_bool("twice")); }
fn sym_timing() -> TimingInfo { TimingInfo { num_units_in_display_tick: any("tick"), time_scale: any("scale"), equal_picture_interval: any_bool("eq"), num_ticks_per_picture: { let n: u32 = any("ticks"); assume(n > 0); n } } }
fn sym_dmi() -> [u64; 6] { [any_in("brs", 0, 16), any_in("bss", 0, 16), any_in("edl", 1, 33), any::<u32>("tick2") as u64, any_in("rdl", 1, 33), any_in("pdl", 1, 33)] }
#[no_mangle] pub extern "C" fn vh_timing() { let mut t = no_tail(); if any_bool("ti") { t.ti = Some(sym_timing()); } if any_bool("dmi") { t.dmi = Some(sym_dmi()); } go(zero_flags(), SequenceHeader::new(64, 48), EncoderContext::new().color_config, t, any_bool("twice")); }
fn sym_params(n: usize, full: bool) -> (u64, Option<u64>, Option<[u64; 6]>) { (any_in("idc", 0, 4096), if any_bool("idd") { Some(any_in("delay", 1, 17)) } else { None }, if any_bool("opi") {
    let (b, s) = if full { (any::<u32>("bitrate") as u64, any::<u32>("bufsize") as u64) } else { (any_in("bitrate", 1, 200), any_in("bufsize", 1, 200)) }; assume(b > 0 && s > 0); let m = 1u64 << n; Some([b, s, any_in("cbr", 0, 2), any_in("dbd", 0, m), any_in("ebd", 0, m), any_in("low", 0, 2)]) } else { None }) }
#[no_mangle] pub extern "C" fn vh_params() { let mut t = no_tail(); t.ti = Some(TimingInfo { num_units_in_display_tick: 1, time_scale: 25, equal_picture_interval: false, num_ticks_per_picture: 1 }); let n = [1, 8, 31, 32][split(any_in("n", 0, 4)) as usize];
    if any_bool("dmi") { t.dmi = Some([1, 2, n as u64, 3, 4, 5]); } t.odm = vec![sym_params(n, true)]; go(zero_flags(), SequenceHeader::new(64, 48), EncoderContext::new().color_config, t, false); }
#[no_mangle] pub extern "C" fn vh_params2() { let mut t = no_tail(); t.ti = Some(TimingInfo { num_units_in_display_tick: 1, time_scale: 25, equal_picture_interval: false, num_ticks_per_picture: 1 }); let n = 8;
    if any_bool("dmi") { t.dmi = Some([1, 2, n as u64, 3, 4, 5]); } t.odm = vec![sym_params(n, false), sym_params(n, false)]; go(zero_flags(), SequenceHeader::new(64, 48), EncoderContext::new().color_config, t, false); }
harnesses![vh_dims, vh_tools, vh_reduced, vh_ops, vh_ops_many, vh_color, vh_timing, vh_params, vh_params2];
//@ run vh_dims workers=2
//@ run vh_tools workers=4
//@ run vh_reduced workers=4
//@ run vh_ops
//@ run vh_ops_many
//@ run vh_color workers=2
//@ run vh_timing workers=2
//@ run vh_params workers=4
//@ run vh_params2 workers=4
//@ bounds every settings value in its field's range (all 65536 widths and heights, all flag combinations, all enum values); 1 to 32 operating points; up to two operating-parameter sets; settings regions varied jointly within a harness and fixed at defaults in the others
//@ outside values outside a field's range (operating points 0, sizes above 65536); regions that vary in different harnesses are not varied jointly
