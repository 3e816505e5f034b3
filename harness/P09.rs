// P09: metadata OBUs carry their type and every field, recoverable by a reader of the metadata syntax.
include!("common.rs");
include!("vfs.rs");
include!("rd.rs");
use binary_writer::*; use bool_coder::*; use obu::*; use obu::OBU::*; use obu::MetaData::*; use obu_encoder::*; use encoder::*;

fn put(m: MetaData) -> Vec<u8> { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut w = BinaryWriter::file("vfs:out").unwrap(); let mut c = BoolCoder::new(); let mut e = OBUEncoder::new(&ectx, &mut w, &mut c);
    let mut b = vec![]; let mut o = OBU_METADATA(m); e.encode_obu_payload(&mut o, &mut b); let mut b2 = vec![]; e.encode_obu_payload(&mut o, &mut b2); check(b == b2, "repeatable"); out_bits(&b); b }
fn ty(r: &mut Rd, t: u64) { check(r.leb128() == t, "metadata-type"); }
#[no_mangle] pub extern "C" fn vh_cll() { let (a, b): (u16, u16) = (any("cll"), any("fall")); let v = put(METADATA_TYPE_HDR_CLL { max_cll: a, max_fall: b }); let mut r = Rd::new(&v); ty(&mut r, 1); r.is(16, a as u64, "max-cll"); r.is(16, b as u64, "max-fall"); r.end("length"); }
#[no_mangle] pub extern "C" fn vh_mdcv() { let x: [u16; 3] = any("x"); let y: [u16; 3] = any("y"); let (wx, wy): (u16, u16) = (any("wx"), any("wy")); let (a, b): (u32, u32) = (any("max"), any("min"));
    let v = put(METADATA_TYPE_HDR_MDCV { primary_chromaticity_x: x, primary_chromaticity_y: y, white_point_chromaticity_x: wx, white_point_chromaticity_y: wy, luminance_max: a, luminance_min: b }); let mut r = Rd::new(&v); ty(&mut r, 2);
    for i in 0..3 { r.is(16, x[i] as u64, "primary-x"); r.is(16, y[i] as u64, "primary-y"); } r.is(16, wx as u64, "white-x"); r.is(16, wy as u64, "white-y"); r.is(32, a as u64, "luminance-max"); r.is(32, b as u64, "luminance-min"); r.end("length"); }
#[no_mangle] pub extern "C" fn vh_t35() { let cc: u16 = any_in("cc", 0, 256) as u16; let v = put(METADATA_TYPE_ITUT_T35 { country_code: cc, payload_bytes: vec![] }); let mut r = Rd::new(&v); ty(&mut r, 4); r.is(8, cc as u64, "country-code"); if cc == 0xff { r.f(8); } r.end("length"); }
fn sym_opt(n: &str, hi: u64) -> Option<u8> { if any_bool("present") { Some(any_in(n, 0, hi) as u8) } else { None } }
#[no_mangle] pub extern "C" fn vh_timecode() {
    let ct = any_in("ct", 0, 32) as u8; let s = sym_opt("s", 60); let m = if s.is_some() { sym_opt("m", 60) } else { None }; let h = if m.is_some() { sym_opt("h", 24) } else { None }; let tol = split(any_in("tol", 0, 32)) as u8; let tov: u32 = any("tov"); assume(tol >= 32 || tov < 1u32 << tol);
    let v = put(METADATA_TYPE_TIMECODE { counting_type: ct, seconds: s, minutes: m, hours: h, time_offset_length: tol, time_offset_value: tov }); let mut r = Rd::new(&v); ty(&mut r, 5); r.is(5, ct as u64, "counting-type");
    let full = r.f(1) == 1; if full { check(s.is_some() && m.is_some() && h.is_some(), "full-timestamp"); if let (Some(s), Some(m), Some(h)) = (s, m, h) { r.is(6, s as u64, "seconds"); r.is(6, m as u64, "minutes"); r.is(5, h as u64, "hours"); } }
    else { r.flag(s.is_some(), "seconds-present"); if let Some(s) = s { r.is(6, s as u64, "seconds"); r.flag(m.is_some(), "minutes-present"); if let Some(m) = m { r.is(6, m as u64, "minutes"); r.flag(h.is_some(), "hours-present"); if let Some(h) = h { r.is(5, h as u64, "hours"); } } } }
    r.is(5, tol as u64, "time-offset-length"); r.is(tol as usize, tov as u64, "time-offset-value"); r.end("length");
}
const MODES: [ScalabilityModeIdc; 15] = [ScalabilityModeIdc::SCALABILITY_L1T2, ScalabilityModeIdc::SCALABILITY_L1T3, ScalabilityModeIdc::SCALABILITY_L2T1, ScalabilityModeIdc::SCALABILITY_L2T2, ScalabilityModeIdc::SCALABILITY_L2T3, ScalabilityModeIdc::SCALABILITY_S2T1, ScalabilityModeIdc::SCALABILITY_S2T2, ScalabilityModeIdc::SCALABILITY_S2T3,
    ScalabilityModeIdc::SCALABILITY_L2T1h, ScalabilityModeIdc::SCALABILITY_L2T2h, ScalabilityModeIdc::SCALABILITY_L2T3h, ScalabilityModeIdc::SCALABILITY_S2T1h, ScalabilityModeIdc::SCALABILITY_S2T2h, ScalabilityModeIdc::SCALABILITY_S2T3h, ScalabilityModeIdc::SCALABILITY_SS];
#[no_mangle] pub extern "C" fn vh_scal_mode() { let k = split(any_in("mode", 0, 14)); let v = put(METADATA_TYPE_SCALABILITY { mode_idc: MODES[k as usize], structure: None }); let mut r = Rd::new(&v); ty(&mut r, 3); r.is(8, k, "mode"); r.end("length"); }
fn scal(nd: u64, ns: u64, ng: u64, maxref: u64) {
    let mut st = ScalabilityStructure { spatial_layer_dimensions: vec![], spatial_layer_descriptions: vec![], temporal_groups: vec![] }; let (mut d, mut s, mut g) = (vec![], vec![], vec![]);
    for _ in 0..nd { let (w, h): (u16, u16) = (any("w"), any("h")); d.push((w, h)); st.spatial_layer_dimensions.push(SpatialLayerDimension { max_width: w, max_height: h }); }
    for _ in 0..ns { let x: u8 = any("ref"); s.push(x); st.spatial_layer_descriptions.push(SpatialLayerDescription { ref_id: x }); }
    for _ in 0..ng { let (t, a, b) = (any_in("tid", 0, 8) as u8, any_in("tsw", 0, 2) as u8, any_in("ssw", 0, 2) as u8); let n = split(any_in("nref", 0, maxref + 1)); let mut p: Vec<u8> = vec![]; for _ in 0..n { p.push(any("diff")); } g.push((t, a, b, p.clone())); st.temporal_groups.push(TemporalGroup { temporal_id: t, temporal_switching_up_point_flag: a, spatial_switching_up_point_flag: b, ref_pic_diffs: p }); }
    let v = put(METADATA_TYPE_SCALABILITY { mode_idc: MODES[14], structure: Some(st) }); let mut r = Rd::new(&v); ty(&mut r, 3); r.is(8, 14, "mode"); let cnt = if nd > ns { nd } else { ns };
    r.is(2, cnt - 1, "spatial-layer-count"); r.flag(nd > 0, "dimensions-present"); r.flag(ns > 0, "descriptions-present"); r.flag(ng > 0, "temporal-group-present"); r.is(3, 0, "reserved");
    for &(w, h) in &d { r.is(16, w as u64, "layer-width"); r.is(16, h as u64, "layer-height"); } for &x in &s { r.is(8, x as u64, "layer-ref"); }
    if ng > 0 { r.is(8, ng, "temporal-group-size"); for x in &g { r.is(3, x.0 as u64, "temporal-id"); r.is(1, x.1 as u64, "temporal-switch"); r.is(1, x.2 as u64, "spatial-switch"); r.is(3, x.3.len() as u64, "reference-count"); for &q in &x.3 { r.is(8, q as u64, "reference-diff"); } } }
    r.end("length");
}
#[no_mangle] pub extern "C" fn vh_scal() { let n = split(any_in("n", 1, 5)); let (hd, hs) = (any_bool("dims"), any_bool("descs")); assume(hd || hs); scal(if hd { n } else { 0 }, if hs { n } else { 0 }, split(any_in("groups", 0, 3)), 2); }
#[no_mangle] pub extern "C" fn vh_scal_refs() { scal(1, 0, 1, 7); }
#[no_mangle] pub extern "C" fn vh_scal_groups() { scal(0, 1, split(any_in("groups", 0, 256)), 0); }
harnesses![vh_cll, vh_mdcv, vh_t35, vh_timecode, vh_scal_mode, vh_scal, vh_scal_refs, vh_scal_groups];
//@ run vh_cll
//@ run vh_mdcv
//@ run vh_t35
//@ run vh_timecode
//@ run vh_scal_mode
//@ run vh_scal workers=2
//@ run vh_scal_refs
//@ run vh_scal_groups workers=2
//@ bounds every field value of every metadata kind; 1 to 4 spatial layers, up to 2 temporal groups with up to 2 references, one group with up to 7 references, up to 255 groups without references; time offsets of 0 to 31 bits
//@ outside ITU-T T.35 payload bytes and the extension byte's value (the encoder has no syntax for them); timecodes with minutes but no seconds (not expressible in the syntax)
