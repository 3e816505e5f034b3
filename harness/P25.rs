// P25: loop restoration units: each is coded once, with the superblock it starts in, and a decoder recovers its filter.
//@ run vh_wiener workers=4
//@ run vh_selfguided workers=3
//@ run vh_sets workers=1
//@ run vh_chain workers=2
//@ run vh_area workers=4
//@ run vh_selfguided_all tier=thorough workers=6
//@ run vh_area_all tier=thorough workers=6
//@ bounds every value of every wiener coefficient against every reference value, luma and both chroma planes; every self-guided set, every weight against nine reference values of each weight (thorough: all); every sequence of three units of each type; frames of 11 widths and heights (thorough: every width to 400) with units of 64, 128 and 256 samples, both superblock sizes, three subsamplings, superresolution off and denominators 9, 13 and 16
//@ outside how filters are chosen (not implemented); values a decoder cannot represent
include!("common.rs");
include!("blk.rs");
include!("tile.rs");

include!("lr.rs");
fn in_force(f: &Frame, plane: usize, row: usize, col: usize, u: &Unit) {
    check(f.lr_type[plane][row][col] as usize == u.t, "type-in-force");
    if u.t == 1 { for p in 0..2 { for j in 0..3 { check(f.lr_wiener[plane][row][col][p][j] == u.w[p][j], "filter-in-force"); } } }
    if u.t == 2 { check(f.lr_sgr_set[plane][row][col] == u.s, "set-in-force"); for i in 0..2 { check(f.lr_sgr_xqd[plane][row][col][i] == u.x[i], "weights-in-force"); } }
}
/// the units `us` of `plane` in one row of one superblock, coded and decoded starting from `refs`
fn row(plane: usize, allowed: usize, refs: Refs, us: &[Unit]) {
    let n = us.len(); let mut f = blank(64 * n, 64); let e = context(&f); room(&mut f, 1, n); let mut sb = Superblock::new(BLOCK_128X128, 0, 0);
    for p in 0..3 { sb.lr_units.push(vec![vec![]]); if p == plane { for u in us { sb.lr_units[p][0].push(lr_unit(u)); } } }
    f.superblocks = vec![vec![sb]]; f.subsampling_x = false; f.subsampling_y = false; f.use_superres = false; f.allow_intrabc = false;
    { let mut x = e.borrow_mut(); x.upscaled_width = 64 * n; x.frame_restoration_type = [RESTORE_NONE; 3]; x.frame_restoration_type[plane] = lrt(allowed); x.loop_restoration_size = [64; 3]; x.ref_lr_wiener[plane] = refs.w; x.ref_sgr_xqd[plane] = refs.x; }
    let o = coded(&e, &mut |t, o| t.encode_lr(o, &mut f, 0, 0, BLOCK_128X128));
    let mut d = Dec::new(o); let d = &mut d; let mut r = refs;
    for i in 0..n { let u = read_unit(d, allowed, plane, &mut r); same_unit(&u, &us[i], plane); in_force(&f, plane, 0, i, &u); }
    d.at_end("nothing-else"); let x = e.borrow();
    for i in 0..2 { check(x.ref_sgr_xqd[plane][i] == r.x[i], "next-reference"); for j in (plane > 0) as usize..3 { check(x.ref_lr_wiener[plane][i][j] == r.w[i][j], "next-reference"); } }
}

#[no_mangle] pub extern "C" fn vh_wiener() {
    let plane = pickn("plane", 3); let j = pickn("coefficient", 3); assume(plane == 0 || j > 0); let n = (HIGH[j] - LOW[j] + 1) as u64;
    let (v, r) = (LOW[j] + pickn("value", n) as isize, LOW[j] + pickn("reference", n) as isize); let pass = (v + r) as usize & 1;
    let mut refs = MID; refs.w[pass][j] = r; let mut u = plain(); u.t = 1; u.w[pass][j] = v; row(plane, if v & 2 == 0 { 1 } else { 3 }, refs, &[u]);
}
fn selfguided(all: bool) {
    let i = pickn("weight", 2); let v = XLOW[i] + pickn("value", 128) as isize;
    let r = XLOW[i] + if all { pickn("reference", 128) } else { [0, 1, 31, 63, 64, 65, 96, 126, 127][pickn("reference", 9)] } as isize;
    let mut refs = MID; refs.x[i] = r; let mut u = plain(); u.t = 2; u.s = if i == 0 { 9 } else { 10 }; u.x[i] = v; row(if v & 1 == 0 { 0 } else { 2 }, if v & 2 == 0 { 2 } else { 3 }, refs, &[u]);
}
#[no_mangle] pub extern "C" fn vh_selfguided() { selfguided(false) }
#[no_mangle] pub extern "C" fn vh_selfguided_all() { selfguided(true) }
#[no_mangle] pub extern "C" fn vh_sets() {
    let mut u = plain(); u.t = 2; u.s = pickn("set", 16); u.x[0] = -96 + 8 * pickn("weight0", 16) as isize - (u.s as isize & 1); assume(u.x[0] >= -96); u.x[1] = [-32, 3, 95][pickn("weight1", 3)];
    row(pickn("plane", 3), 2, MID, &[u]);
}
/// two units one after the other: references follow
#[no_mangle] pub extern "C" fn vh_chain() {
    let plane = pickn("plane", 3); let allowed = 1 + pickn("allowed", 3); let mut us = [plain(), plain()];
    for k in 0..2 {
        let t = pickn(if k == 0 { "type0" } else { "type1" }, 3); assume(allowed == 3 || t == 0 || t == allowed); us[k].t = t; us[k].s = [4, 12, 15][pickn(if k == 0 { "set0" } else { "set1" }, 3)]; assume(t == 2 || us[k].s == 4);
        us[k].w = if k == 0 { [[-5, 8, 46], [10, -23, -17]] } else { [[1, -3, 20], [-2, 5, 40]] }; us[k].x = if k == 0 { [31, -32] } else { [-80, 90] };
        if plane > 0 { us[k].w[0][0] = 0; us[k].w[1][0] = 0; }
    }
    row(plane, allowed, MID, &us);
}
/// over all superblocks of a frame, each unit is coded once, by the superblock holding its top left sample
fn area(w: usize, h: usize, unit: usize, shift: usize, big: bool, ss: usize, denom: usize, copy: bool) {
    let (sx, sy) = ([0, 1, 1][ss], [0, 0, 1][ss]); let (num, den) = if denom > 8 { (denom, 8) } else { (1, 1) }; let fw = if denom > 8 { (w * 8 + denom / 2) / denom } else { w };
    let mut f = blank(fw, h); f.subsampling_x = sx == 1; f.subsampling_y = sy == 1; f.use_superres = denom > 8; f.allow_intrabc = copy; let e = context(&f);
    let size = [unit, unit >> shift, unit >> shift];
    { let mut x = e.borrow_mut(); x.upscaled_width = w; x.superres_denom = denom; x.use_128x128_superblock = big; x.frame_restoration_type = [RESTORE_SWITCHABLE, RESTORE_NONE, RESTORE_SWITCHABLE]; x.loop_restoration_size = size; }
    let s4 = if big { 32 } else { 16 }; let (sr, sc) = ((f.mi_rows() + s4 - 1) / s4, (f.mi_cols() + s4 - 1) / s4);
    let count = |len: usize, u: usize| { let n = (len + u / 2) / u; if n > 1 { n } else { 1 } };
    let rows = |p: usize| count(if p > 0 && sy == 1 { (h + 1) / 2 } else { h }, size[p]); let cols = |p: usize| count(if p > 0 && sx == 1 { (w + 1) / 2 } else { w }, size[p]);
    let owns_row = |p: usize, r: usize, u: usize| { let m = if p > 0 && sy == 1 { 2 } else { 4 }; r * s4 * m <= u * size[p] && u * size[p] < (r + 1) * s4 * m };
    let owns_col = |p: usize, c: usize, u: usize| { let m = if p > 0 && sx == 1 { 2 } else { 4 }; c * s4 * m * num <= u * size[p] * den && u * size[p] * den < (c + 1) * s4 * m * num };
    room(&mut f, 8, 8); let kind = |p: usize, r: usize, c: usize| Unit { t: 2 * ((r * 5 + c * 3 + p / 2) & 1), w: [[0; 3]; 2], s: (r * 7 + c * 3 + p) & 15, x: [-32, 31] };
    f.superblocks = vec![]; let mut order = vec![];
    for r in 0..sr { let mut line = vec![]; for c in 0..sc {
        let mut sb = Superblock::new(if big { BLOCK_128X128 } else { BLOCK_64X64 }, c * s4 * 4, r * s4 * 4);
        for p in 0..3 { let mut plane = vec![]; for y in 0..rows(p) { if !owns_row(p, r, y) { continue; } let mut l = vec![]; for x in 0..cols(p) { if owns_col(p, c, x) { l.push(lr_unit(&kind(p, y, x))); if p != 1 && !copy { order.push((p, y, x)); } } } plane.push(l); } sb.lr_units.push(plane); }
        line.push(sb); } f.superblocks.push(line); }
    let o = coded(&e, &mut |t, o| for r in 0..sr { for c in 0..sc { t.encode_lr(o, &mut f, r * s4, c * s4, if big { BLOCK_128X128 } else { BLOCK_64X64 }); } });
    let mut d = Dec::new(o); let d = &mut d; let zero = Refs { w: [[0; 3]; 2], x: [0, 0] }; let mut refs = [zero; 3];
    for &(p, y, x) in order.iter() { let u = read_unit(d, 3, p, &mut refs[p]); let k = kind(p, y, x); same_unit(&u, &k, p); in_force(&f, p, y, x, &u); }
    d.at_end("nothing-else"); let mut set = 0; for p in 0..3 { for y in 0..8 { for x in 0..8 { if f.lr_type[p][y][x] != RESTORE_SWITCHABLE { set += 1; } } } }
    check(set == order.len(), "each-unit-once"); if !copy { check(set == rows(0) * cols(0) + rows(2) * cols(2), "every-unit-covered"); }
}
#[no_mangle] pub extern "C" fn vh_area() {
    const S: [usize; 11] = [8, 63, 64, 65, 95, 96, 97, 160, 200, 224, 320]; let wide = pickn("wide", 2) == 1; let n = S[pickn("size", 11)]; let m = [16, 161][pickn("other", 2)]; let (w, h) = if wide { (n, m) } else { (m, n) };
    let unit = 64 << pickn("unit", 3); let shift = if unit > 64 { pickn("shift", 2) } else { 0 }; let ss = pickn("subsampling", 3); assume(ss == 2 || shift == 0); let denom = [8, 9, 13, 16][pickn("superres", 4)]; assume(wide || denom == 8);
    let big = if unit < 256 && ss != 1 { pickn("big", 2) == 1 } else { w & 1 == 1 }; assume(unit >> shift >= 32); area(w, h, unit, shift, big, ss, denom, ss == 1 && unit == 64);
}
#[no_mangle] pub extern "C" fn vh_area_all() {
    let wide = pickn("wide", 2) == 1; let n = 1 + pickn("size", 400); let (w, h) = if wide { (if n < 16 { 16 } else { n }, 96) } else { (96, n) };
    let unit = 64 << pickn("unit", 3); let big = pickn("big", 2) == 1; let denom = if wide { 8 + pickn("superres", 9) } else { 8 }; area(w, h, unit, 0, big, 2, denom, false);
}
harnesses!(vh_wiener, vh_selfguided, vh_sets, vh_chain, vh_area, vh_selfguided_all, vh_area_all);
