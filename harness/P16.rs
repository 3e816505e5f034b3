// P16: quantizer, quantizer matrices, segmentation, delta q / delta lf and the lossless decisions derived from them.
include!("common.rs"); include!("vfs.rs"); include!("rd.rs"); include!("hdr.rs");
const BITS: [u32; 8] = [8, 6, 6, 6, 6, 3, 0, 0];
fn planes(h: &mut H) { h.mono = any_bool("mono"); h.sep = !h.mono && any_bool("separate"); h.diff = h.sep && any_bool("diff"); }
fn deltas(h: &mut H) { for i in 0..5 { h.dq[i] = any_in("delta-q", 0, 128) as isize - 64; } if h.mono { for i in 1..5 { h.dq[i] = 0; } } if !h.diff { h.dq[3] = h.dq[1]; h.dq[4] = h.dq[2]; } }
#[no_mangle] pub extern "C" fn vh_quant() { let mut h = h0(); planes(&mut h); h.bq = any("q"); deltas(&mut h); header(&h); }
#[no_mangle] pub extern "C" fn vh_qm() { let mut h = h0(); planes(&mut h); h.bq = any_in("q", 0, 256) as u8; if any_bool("qm") { let a: [u8; 3] = any("qm"); for i in 0..3 { assume(a[i] < 16); } h.qm = Some(a); if !h.sep { h.qm = Some([a[0], a[1], a[1]]); } } header(&h); }
#[no_mangle] pub extern "C" fn vh_qm_segments() { let mut h = h0(); h.sep = any_bool("separate"); let a: [u8; 3] = any("qm"); for i in 0..3 { assume(a[i] < 16); } h.qm = Some(a); if !h.sep { h.qm = Some([a[0], a[1], a[1]]); } h.bq = any("q"); h.seg = true; h.um = true; h.ud = true; let k = split(any_in("k", 0, 8)) as usize; h.fv[k][0] = Some(any_in("v", 0, 511) as isize - 255); header(&h); }
fn fval(j: usize) -> isize { let m = 1i64 << BITS[j]; if j < 5 { any_in("feature", 0, 2 * m as u64) as isize - m as isize } else if j == 5 { any_in("feature", 0, 8) as isize } else { 0 } }
fn segkind(h: &mut H) { h.seg = true; h.ft = split(any_in("ft", 0, 2)) as u8; if h.ft == INTER { h.show = false; h.er = any_bool("er"); h.prim = any_in("prim", 0, 8) as u8; } h.bq = any("q"); let none = h.ft == KEY || h.er || h.prim == 7; h.um = any_bool("update-map"); h.tu = any_bool("temporal"); h.ud = any_bool("update-data"); if none { h.um = true; h.tu = false; h.ud = true; } if !h.um { h.tu = false; } }
/// the update flags, with one feature set
#[no_mangle] pub extern "C" fn vh_seg_flags() { let mut h = h0(); segkind(&mut h); h.fv[2][1] = Some(fval(1)); header(&h); }
/// segmentation off: nothing else is written whatever the other settings are
#[no_mangle] pub extern "C" fn vh_seg_off() { let mut h = h0(); h.ft = split(any_in("ft", 0, 2)) as u8; h.show = h.ft == KEY; h.bq = any("q"); h.um = any_bool("um"); h.tu = any_bool("tu"); h.ud = any_bool("ud"); header(&h); }
/// any subset of the features in any one segment
fn seg_on(h: &mut H) { h.seg = true; h.um = true; h.ud = true; h.bq = 120; }
fn fixed(j: usize, k: usize) -> isize { [k as isize * 9 - 31, 17 - k as isize * 5, 63, -64 + k as isize, k as isize, (k as isize * 3) & 7, 0, 0][j] }
#[no_mangle] pub extern "C" fn vh_seg_mask() { let mut h = h0(); seg_on(&mut h); let k = split(any_in("k", 0, 8)) as usize; for j in 0..8 { if any_bool("feature-on") { h.fv[k][j] = Some(fixed(j, k)); } } header(&h); }
/// any one feature in any subset of segments
#[no_mangle] pub extern "C" fn vh_seg_feature() { let mut h = h0(); seg_on(&mut h); let j = split(any_in("j", 0, 8)) as usize; for k in 0..8 { if any_bool("feature-on") { h.fv[k][j] = Some(fixed(j, k)); } } header(&h); }
/// every value of every feature, alone and among all the others
#[no_mangle] pub extern "C" fn vh_seg_value() { let mut h = h0(); seg_on(&mut h); h.bq = any("q"); let (k, j) = (split(any_in("k", 0, 8)) as usize, split(any_in("j", 0, 8)) as usize); if any_bool("others") { for a in 0..8 { for b in 0..8 { h.fv[a][b] = Some(fixed(b, a)); } } } let v = fval(j); assume(j != 0 || v >= -255); h.fv[k][j] = Some(v); header(&h); }
/// lossless: a segment is lossless exactly when its quantizer index is 0 and no delta applies
#[no_mangle] pub extern "C" fn vh_lossless() { let mut h = h0(); h.bq = any("q"); planes(&mut h); deltas(&mut h); h.seg = any_bool("seg"); h.um = true; h.ud = true; let k = 3 * split(any_in("k", 0, 2)) as usize; h.fv[k][0] = if any_bool("feature-on") { Some(any_in("v", 0, 511) as isize - 255) } else { None }; h.cdef = true; h.lr = true; header(&h); }
#[no_mangle] pub extern "C" fn vh_lossless_all() { let mut h = h0(); h.bq = any("q"); h.seg = true; h.um = true; h.ud = true; let m = split(any_in("m", 0, 8)) as usize; for k in 0..8 { h.fv[k][0] = Some(if k == m || k == (m + 3) % 8 || k == (m + 7) % 8 { any_in("v", 0, 511) as isize - 255 } else { -255 }); } h.cdef = true; h.lr = true; header(&h); }
/// delta q and delta lf
#[no_mangle] pub extern "C" fn vh_delta() { let mut h = h0(); h.ft = split(any_in("ft", 0, 2)) as u8; h.show = h.ft == KEY; h.fsct = 1; h.ibc = any_bool("ibc"); h.bq = any("q"); h.dqp = any_bool("dq-present"); h.dqr = any_in("dq-res", 0, 4) as u8; h.dlp = any_bool("dlf-present"); h.dlr = any_in("dlf-res", 0, 4) as u8; h.dlm = any_bool("dlf-multi"); header(&h); }
harnesses![vh_quant, vh_qm, vh_qm_segments, vh_seg_flags, vh_seg_off, vh_seg_mask, vh_seg_feature, vh_seg_value, vh_lossless, vh_lossless_all, vh_delta];
//@ run vh_quant
//@ run vh_qm
//@ run vh_qm_segments
//@ run vh_seg_flags
//@ run vh_seg_off
//@ run vh_seg_mask
//@ run vh_seg_feature
//@ run vh_seg_value
//@ run vh_lossless workers=2
//@ run vh_lossless_all workers=2
//@ run vh_delta
//@ bounds all base indices and deltas (-64..63); all matrix levels; segment features as in the quantifier; key and inter frames with and without a primary reference
//@ outside arbitrary values in all 64 features at once; settings inherited from a primary reference (not implemented)
