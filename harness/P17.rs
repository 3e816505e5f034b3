// P17: loop filter, CDEF, loop restoration, transform mode, film grain in the frame header.
include!("common.rs"); include!("vfs.rs"); include!("rd.rs"); include!("hdr.rs");
fn some_q(h: &mut H) { h.bq = any("q"); h.mono = any_bool("mono"); if any_bool("screen") { h.fsct = 1; h.ibc = any_bool("ibc"); } }
#[no_mangle] pub extern "C" fn vh_lf() { let mut h = h0(); some_q(&mut h); let a: [u8; 4] = any("level"); for i in 0..4 { assume(a[i] < 64); } h.lvl = a; h.sharp = any_in("sharp", 0, 8) as u8; h.den = any_bool("delta-enabled"); h.dupd = any_bool("delta-update"); header(&h); }
#[no_mangle] pub extern "C" fn vh_lf_deltas() { let mut h = h0(); h.bq = 9; h.den = true; h.dupd = true; let k = split(any_in("k", 0, 8)) as usize; for i in 0..8 { if i == k || i == (k + 3) % 8 { h.ur[i] = any_bool("update-ref"); h.rd[i] = any_in("ref-delta", 0, 128) as isize - 64; } else { h.ur[i] = i % 2 == 0; h.rd[i] = i as isize * 7 - 30; } } for i in 0..2 { h.um2[i] = any_bool("update-mode"); h.md[i] = any_in("mode-delta", 0, 64) as u8; } header(&h); }
/// no strengths given at all where the format implies them
#[no_mangle] pub extern "C" fn vh_cdef_off() { let mut h = h0(); h.cdef = any_bool("cdef"); h.bq = any("bq"); h.ibc = any_bool("ibc"); h.fsct = 1; h.sct = 1; assume(!h.cdef || h.bq == 0 || h.ibc); h.damp = any_in("damping", 3, 7) as u8; h.cbits = any_in("bits", 0, 4) as u8; h.cy = vec![]; h.cu = vec![]; header(&h); }
#[no_mangle] pub extern "C" fn vh_cdef() { let mut h = h0(); some_q(&mut h); h.cdef = any_bool("cdef"); h.damp = any_in("damping", 3, 7) as u8; h.cbits = split(any_in("bits", 0, 4)) as u8; let n = 1usize << h.cbits; h.cy = (0..n).map(|_| (any_in("pri", 0, 16) as u8, any_in("sec", 0, 5) as u8)).collect(); h.cu = (0..n).map(|_| (any_in("uv-pri", 0, 16) as u8, any_in("uv-sec", 0, 5) as u8)).collect(); let t = split(any_in("t", 0, n as u64)) as usize; for i in 0..n { if i != t { assume(h.cy[i].1 < 3 && h.cu[i].1 < 3); } } header(&h); }
#[no_mangle] pub extern "C" fn vh_lr() { let mut h = h0(); some_q(&mut h); h.lr = any_bool("lr"); h.sb128 = any_bool("sb128"); h.profile = split(any_in("profile", 0, 3)) as u8; assume(!(h.mono && h.profile == 1)); h.lrt = any_in("type", 0, 4) as u8; h.lrs = split(any_in("shift", 0, 3)) as usize; assume(!h.sb128 || h.lrs > 0); h.lruv = any_in("uv-shift", 0, 2) as usize; header(&h); }
#[no_mangle] pub extern "C" fn vh_tx() { let mut h = h0(); some_q(&mut h); if any_bool("inter") { h.ft = INTER; h.show = false; h.ibc = false; } h.txs = any_bool("select"); h.redtx = any_bool("reduced"); h.rsel = any_bool("rsel"); header(&h); }
// film grain
fn g0() -> Grain { Grain { apply: true, seed: any("seed"), update: true, refi: 0, ny: 0, yv: vec![], ys: vec![], cfl: false, ncb: 0, ncr: 0, cbv: vec![], cbs: vec![], crv: vec![], crs: vec![], scal: any_in("scaling", 8, 12) as usize, lag: 0, cy: vec![], cb: vec![0; 25], cr: vec![0; 25], shift: any_in("ar-shift", 6, 10) as usize, gss: any_in("scale-shift", 0, 4) as usize, m: [0; 6], ov: any_bool("overlap"), clip: any_bool("clip") } }
fn pts(n: u64) -> Vec<u8> { let mut v = vec![]; for _ in 0..n { v.push(any("point")); } v }
fn coef(n: u64) -> Vec<i16> { let mut v = vec![]; for _ in 0..n { v.push(any_in("coefficient", 0, 256) as i16 - 128); } v }
#[no_mangle] pub extern "C" fn vh_grain_kinds() { let mut h = h0(); h.ft = split(any_in("ft", 0, 4)) as u8; h.show = any_bool("show"); h.showable = any_bool("showable"); let mut g = g0(); g.apply = any_bool("apply"); g.update = any_bool("update"); g.refi = any_in("ref", 0, 8) as usize; if any_bool("present") { h.fg = Some(g); } header(&h); }
#[no_mangle] pub extern "C" fn vh_grain_luma() { let mut h = h0(); h.mono = any_bool("mono"); let mut g = g0(); let n = split(any_in("luma-points", 0, 15)); g.ny = n as usize; g.yv = pts(n); g.ys = pts(n); g.lag = split(any_in("lag", 0, 4)) as usize; g.cy = coef(24); h.fg = Some(g); header(&h); }
fn chroma(h: &mut H, ny: u64, ncb: u64, ncr: u64, lag: u64, cfl: bool) { let mut g = g0(); g.ny = ny as usize; g.yv = pts(ny); g.ys = pts(ny); g.cfl = cfl; g.ncb = ncb as usize; g.ncr = ncr as usize; g.cbv = pts(ncb); g.cbs = pts(ncb); g.crv = pts(ncr); g.crs = pts(ncr); g.lag = lag as usize; g.cy = coef(24); g.cb = coef(25); g.cr = coef(25); for i in 0..6 { g.m[i] = any_in("mult", 0, if i % 3 == 2 { 512 } else { 256 }) as usize; } h.fg = Some(g); header(h); }
#[no_mangle] pub extern "C" fn vh_grain_chroma() { let mut h = h0(); h.mono = any_bool("mono"); h.profile = if h.mono { 0 } else { split(any_in("profile", 0, 3)) as u8 }; let cfl = any_bool("cfl"); let ny = split(any_in("luma-points", 0, 3)); let none = h.mono || cfl || (h.profile == 0 && ny == 0); let (a, b) = if none { (0, 0) } else { (split(any_in("cb-points", 0, 3)), split(any_in("cr-points", 0, 3))) }; chroma(&mut h, ny, a, b, split(any_in("lag", 0, 4)), cfl); }
#[no_mangle] pub extern "C" fn vh_grain_many() { let mut h = h0(); let (a, b) = (split(any_in("cb-points", 0, 11)), split(any_in("cr-points", 0, 11))); chroma(&mut h, 1, a, b, 1, false); }
harnesses![vh_lf, vh_lf_deltas, vh_cdef, vh_cdef_off, vh_lr, vh_tx, vh_grain_kinds, vh_grain_luma, vh_grain_chroma, vh_grain_many];
//@ run vh_lf
//@ run vh_lf_deltas
//@ run vh_cdef
//@ run vh_cdef_off
//@ run vh_lr
//@ run vh_tx
//@ run vh_grain_kinds
//@ run vh_grain_luma
//@ run vh_grain_chroma
//@ run vh_grain_many
//@ bounds all values of each field, 1 to 8 cdef strengths (one per path may be 3 or 4), restoration shifts 0..2, two arbitrary reference deltas per path with the others fixed, up to 14 luma and 10 chroma points, all lags
//@ outside all eight reference deltas arbitrary at once; different restoration types per plane (the encoder has one setting)
