// P15: inter references, motion settings and global motion in the frame header.
include!("common.rs"); include!("vfs.rs"); include!("rd.rs"); include!("hdr.rs");
fn inter(h: &mut H) { h.ft = if any_bool("switch") { SWITCH } else { INTER }; h.show = any_bool("show"); h.er = any_bool("er"); }
/// reference indices, short signaling, delta frame ids
#[no_mangle] pub extern "C" fn vh_refs() { let mut h = h0(); inter(&mut h); h.oh = any_bool("oh"); h.short = any_bool("short"); h.last = any_in("last", 0, 8) as u8; h.gold = any_in("gold", 0, 8) as u8; let a: [u8; 7] = any("idx"); for i in 0..7 { assume(a[i] < 8); } h.idx = a; header(&h); }
#[no_mangle] pub extern "C" fn vh_delta_ids() { let mut h = h0(); inter(&mut h); let dl = split(any_in("dlen", 2, 16)); h.fid = Some((dl as u8, 1)); h.id = 3; h.rid = [3; 8]; h.oh = any_bool("oh"); h.short = h.oh; let a: [u16; 7] = any("did"); for i in 0..7 { assume(a[i] >= 1 && (a[i] as u64) <= 1 << dl); h.did[i] = a[i] as usize; } header(&h); }
/// precision, filters, motion modes, reference motion vectors, warped motion
#[no_mangle] pub extern "C" fn vh_motion() { let mut h = h0(); inter(&mut h); h.ovr = any_bool("ovr"); h.oh = any_bool("oh"); h.refmvs = h.oh && any_bool("refmvs"); h.rfmv = any_bool("use-refmvs"); h.hp = any_bool("hp"); h.fsct = split(any_in("sct", 0, 2)) as usize; h.fim = if h.fsct > 0 { split(any_in("imv", 0, 2)) as usize } else { 2 }; h.fsw = any_bool("switchable"); h.filt = any_in("filter", 0, 4) as u8; h.filt = split(h.filt as u64) as u8; h.mms = any_bool("mms"); h.warped = any_bool("warped"); h.aw = any_bool("allow-warped"); header(&h); }
/// order hints and sign bias of the references
fn hints(h: &mut H, two: bool) { h.oh = true; let n = 1u64 << h.ohb; h.order = any_in("order", 0, n) as u8; let a: [u8; 8] = any("hints"); for i in 0..8 { assume((a[i] as u64) < n); h.xroh[i] = a[i] as usize; } for i in 0..7 { h.idx[i] = if two { (i & 1) as u8 } else { 6 - i as u8 }; } }
#[no_mangle] pub extern "C" fn vh_hints() { let mut h = h0(); h.ohb = split(any_in("ohb", 1, 9)) as u8; h.ft = INTER; h.show = false; hints(&mut h, false); header(&h); }
#[no_mangle] pub extern "C" fn vh_hint_slots() { let mut h = h0(); h.ohb = 4; h.ft = INTER; h.show = false; hints(&mut h, false); let k = split(any_in("k", 0, 7)) as usize; h.idx[k] = split(any_in("slot", 0, 8)) as u8; header(&h); }
/// skip mode: allowed exactly with a past and a future, or two different past, references; the two nearest are chosen
fn skip(ohb: u8, refs: usize) { let mut h = h0(); h.ohb = ohb; h.ft = INTER; h.show = any_bool("show"); h.oh = true; h.rsel = any_bool("rsel"); h.skm = any_bool("skm"); let n = 1u64 << ohb; h.order = any_in("order", 0, n) as u8; let o = h.order as usize; for i in 0..8 { h.xroh[i] = o; } for i in 0..refs { h.xroh[i] = any_in("hint", 0, n) as usize; } let rot = split(any_in("rot", 0, 7)) as usize; for i in 0..7 { h.idx[i] = ((i + rot) % 7) as u8; } header(&h); }
#[no_mangle] pub extern "C" fn vh_skip() { skip(3, 3); }
#[no_mangle] pub extern "C" fn vh_skip_wide() { skip(8, 2); }
#[no_mangle] pub extern "C" fn vh_skip_deep() { skip(5, 4); }
#[no_mangle] pub extern "C" fn vh_skip_off() { let mut h = h0(); inter(&mut h); h.oh = any_bool("oh"); h.ohb = 4; h.rsel = any_bool("rsel"); h.skm = any_bool("skm"); if h.oh { h.order = 6; h.xroh = [2, 9, 6, 6, 6, 6, 6, 6]; h.idx = [0, 1, 2, 3, 4, 5, 6]; h.roh = h.xroh; } header(&h); }
/// global motion: kinds for every reference, then every value of each parameter for one reference
#[no_mangle] pub extern "C" fn vh_gm_kinds() { let mut h = h0(); h.ft = INTER; h.show = false; h.er = any_bool("er"); for r in 1..8 { if r == 1 || r == 4 || r == 7 { h.isg[r] = any_bool("global"); h.rz[r] = any_bool("rot-zoom"); h.tr[r] = any_bool("translation"); } } header(&h); }
fn gm(kind: u64, par: usize, rf: usize, prevfix: bool) { let mut h = h0(); h.ft = INTER; h.show = false; h.hp = any_bool("hp"); h.er = prevfix; h.isg[rf] = true; h.rz[rf] = kind == 2; h.tr[rf] = kind == 1; let (ab, pb) = if par < 2 { if kind == 1 { (9 - !h.hp as u32, 3 - !h.hp as u32) } else { (12, 6) } } else { (12, 15) }; let (pd, rnd) = (16 - pb, if par % 3 == 2 { 1isize << 16 } else { 0 }); let m = 1i64 << ab;
    let v = any_in("value", 0, (2 * m + 1) as u64) as i64 - m; h.gm[rf][par] = ((v << pd) as isize) + rnd; if !prevfix { let p = any_in("previous", 0, (2 * m + 1) as u64) as i64 - m; h.pgm[rf][par] = ((p << pd) as isize) + rnd; } if kind == 2 { h.gm[rf][4] = -h.gm[rf][3]; h.gm[rf][5] = h.gm[rf][2]; } header(&h); }
fn gm_pick(prevfix: bool) { let k = split(any_in("kind", 1, 4)); let par = split(any_in("param", 0, 6)) as usize; assume(match k { 1 => par < 2, 2 => par < 4, _ => true }); gm(k, par, 1, prevfix); }
#[no_mangle] pub extern "C" fn vh_gm_value() { gm_pick(true); }
#[no_mangle] pub extern "C" fn vh_gm_delta() { gm_pick(false); }
#[no_mangle] pub extern "C" fn vh_gm_ref() { let r = split(any_in("ref", 1, 8)) as usize; gm(3, 5, r, true); }
/// without a primary reference the parameters of earlier frames must not matter
#[no_mangle] pub extern "C" fn vh_gm_stale() { let mut h = h0(); h.ft = if any_bool("switch") { SWITCH } else { INTER }; h.show = false; h.er = any_bool("er"); h.prim = split(any_in("prim", 5, 8)) as u8; let par = split(any_in("param", 0, 6)) as usize; h.isg[2] = true; let v = any_in("value", 0, 9) as i64 - 4; h.gm[2][par] += (v << 10) as isize; let p = any_in("previous", 0, 8191) as i64 - 4095; for k in 1..8 { h.pgm[k][par] += (p << if par < 2 { 10 } else { 1 }) as isize; } header(&h); }
harnesses![vh_refs, vh_delta_ids, vh_motion, vh_hints, vh_hint_slots, vh_skip, vh_skip_wide, vh_skip_deep, vh_skip_off, vh_gm_kinds, vh_gm_value, vh_gm_delta, vh_gm_ref, vh_gm_stale];
//@ run vh_refs
//@ run vh_delta_ids
//@ run vh_motion
//@ run vh_hints
//@ run vh_hint_slots
//@ run vh_skip
//@ run vh_skip_wide
//@ run vh_skip_deep tier=thorough
//@ run vh_skip_off
//@ run vh_gm_kinds
//@ run vh_gm_value workers=2
//@ run vh_gm_delta workers=2
//@ run vh_gm_ref
//@ run vh_gm_stale
//@ bounds reference slots 0..7; all flags; order hints of 1..8 bits; skip mode over up to 3 (4 thorough) distinct references of up to 5 bits or 2 of 8 bits, in all rotations; every value and previous value of one global motion parameter per model; models of three references jointly
//@ outside deriving reference slots from short signaling (not implemented); several global motion parameters with arbitrary values at once; parameter values that are not multiples of their precision
