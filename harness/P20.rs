// P20: every coefficient syntax element is coded with the distribution the AV1 format selects for it.
//@ run vh_class workers=4
//@ run vh_type_of workers=2
//@ run vh_base workers=4
//@ run vh_base_table workers=2
//@ run vh_base_eob workers=2
//@ run vh_br workers=4
//@ run vh_zero_luma workers=2
//@ run vh_zero_chroma workers=2
//@ run vh_dc_sign workers=2
//@ bounds every transform size, type, set and plane; every position of a transform block near its edges and corner (all positions of 8x8); neighbouring coefficients of any value -300..300; contexts of up to four 4x4 units above and left of any value 0..255; every symbol value
//@ outside the quantizer class of the coefficient distributions (the code uses class 0 throughout, marked FIXME); which coefficients are coded (no caller yet); eob_extra is taken with the context index it is given
include!("common.rs");
include!("blk.rs");

fn setup(n: usize, types: &[(usize, usize, u8)]) -> Frame {
    let mut f = Frame::new(FrameType::INTER_FRAME, n * 4, n * 4); let mut rows = vec![];
    for r in 0..n { let mut v = vec![]; for c in 0..n { let mut m = mi0(); for &(y, x, t) in types { if y == r && x == c { m.tx_type = unsafe { ::std::mem::transmute(t) }; } } v.push(Some(m)); } rows.push(v); }
    f.mis = rows; f
}
/// the transform type a luma block of type `t` has when coded as a block of size `tx` (number in the TxType order)
fn in_force(t: usize, tx: usize, lossless: bool, inter: bool, red: bool) -> usize {
    let (w, h) = (TW[tx], TH[tx]); let (mn, mx) = if w < h { (w, h) } else { (h, w) };
    if lossless || mx > 32 { return 0; }
    let ok = if inter { if red || mx == 32 { t == 0 || t == 9 } else if mn == 16 { t < 12 } else { true } }
             else if mx == 32 { t == 0 } else if red || mn == 16 { t < 4 || t == 9 } else { t < 4 || (t >= 9 && t < 12) };
    if ok { t } else { 0 }
}
/// 0: both directions (or neither), 1: horizontal only, 2: vertical only.  V_* are 10, 12, 14 and H_* are 11, 13, 15.
fn class(t: usize) -> usize { if t < 10 { 0 } else if t % 2 == 0 { 2 } else { 1 } }
/// transform types allowed for this block, as (type, class): one of each class where there is one
fn typed(tx: usize, c: usize) -> Option<(u8, bool)> { for &(t, inter) in [(0u8, false), (11, false), (10, false), (13, true), (12, true), (0, true)].iter() { if class(t as usize) == c && in_force(t as usize, tx, false, inter, false) == t as usize { return Some((t, inter)); } } None }

/// the end-of-block position class: its context is whether the transform works in both directions
#[no_mangle] pub extern "C" fn vh_class() {
    let tx = pickn("tx", 19); let t = pickn("type", 16); let (lossless, inter, red) = (pickn("lossless", 2) == 1, pickn("inter", 2) == 1, pickn("reduced", 2) == 1);
    let c = (class(in_force(t, tx, lossless, inter, red)) != 0) as usize; let p = pickn("ptype", 2);
    let mut f = setup(2, &[(1, 1, t as u8)]); let f = &mut f;
    let k = (tx + t) % 7;   // each element with about a seventh of the cases here, all of them below
    let s = 1 + p;
    match k { 0 => elem!("eob_pt_16", s, |e, o, x| e.encode_eob_pt_16(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_16[0][p][c]),
              1 => elem!("eob_pt_32", s, |e, o, x| e.encode_eob_pt_32(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_32[0][p][c]),
              2 => elem!("eob_pt_64", s, |e, o, x| e.encode_eob_pt_64(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_64[0][p][c]),
              3 => elem!("eob_pt_128", s, |e, o, x| e.encode_eob_pt_128(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_128[0][p][c]),
              4 => elem!("eob_pt_256", s, |e, o, x| e.encode_eob_pt_256(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_256[0][p][c]),
              5 => elem!("eob_pt_512", s, |e, o, x| e.encode_eob_pt_512(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_512[0][p][c]),
              _ => elem!("eob_pt_1024", s, |e, o, x| e.encode_eob_pt_1024(o, x, s, f, 1, 1, DC_PRED, lossless, inter, red, 0, ts(tx), 1, 1, p), eob_pt_1024[0][p][c]) }
}
/// where the transform type comes from: the block itself, for inter chroma the first luma block it covers, for intra chroma its mode; and every symbol
#[no_mangle] pub extern "C" fn vh_type_of() {
    const MODE: [usize; 14] = [0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0];
    let which = pickn("which", 11);
    if which < 3 {
        let here: u8 = 10 + pickn("type", 2) as u8; let there: u8 = if here == 10 { 9 } else { 0 }; let (y, x) = (pickn("y", 4), pickn("x", 4));
        match which {
            0 => { let mut f = setup(4, &[(y, x, here)]); let t = compute_tx_type(0, TX_4X4, x, y, &mut f, false, true, false, DC_PRED, 0, 0); check(t as usize == here as usize, "luma-transform-type"); out(t as u64); }
            1 => { let (sx, sy) = (pickn("sx", 2), pickn("sy", 2)); let (r, c) = (pickn("mi_row", 4), pickn("mi_col", 4));
                   let (ly, lx) = (y << sy, x << sx); let (ly, lx) = (if ly < r { r } else { ly }, if lx < c { c } else { lx });
                   let mut f = setup(8, &[(ly, lx, here)]); f.subsampling_x = sx == 1; f.subsampling_y = sy == 1; let p = 1 + pickn("plane", 2);
                   let t = compute_tx_type(p, TX_4X4, x, y, &mut f, false, true, false, DC_PRED, r, c); check(t as usize == here as usize, "inter-chroma-transform-type"); out(t as u64); }
            _ => { let tx = pickn("tx", 19); let m = pickn("mode", 14); let (ll, red) = (any_bool("lossless"), any_bool("reduced")); let p = 1 + pickn("plane", 2); let mut f = setup(2, &[(0, 0, there)]);
                   let t = compute_tx_type(p, ts(tx), 0, 0, &mut f, ll, false, red, ym(m), 0, 0); check(t as usize == in_force(MODE[m], tx, ll, false, red), "intra-chroma-transform-type"); out(t as u64); }
        }
        return;
    }
    let mut f = setup(2, &[]); let f = &mut f; let (p, c) = (pickn("ptype", 2), pickn("vertical", 2)); f.mis[1][0].as_mut().unwrap().tx_type = if c == 1 { V_DCT } else { DCT_DCT };
    let s = pickn("symbol", [5, 6, 7, 8, 9, 10, 11, 2][which - 3]);
    match which { 3 => elem!("eob_pt_16", s, |e, o, x| e.encode_eob_pt_16(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_4X4, 0, 1, p), eob_pt_16[0][p][c]),
                  4 => elem!("eob_pt_32", s, |e, o, x| e.encode_eob_pt_32(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_8X4, 0, 1, p), eob_pt_32[0][p][c]),
                  5 => elem!("eob_pt_64", s, |e, o, x| e.encode_eob_pt_64(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_8X8, 0, 1, p), eob_pt_64[0][p][c]),
                  6 => elem!("eob_pt_128", s, |e, o, x| e.encode_eob_pt_128(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_8X16, 0, 1, p), eob_pt_128[0][p][c]),
                  7 => elem!("eob_pt_256", s, |e, o, x| e.encode_eob_pt_256(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_16X16, 0, 1, p), eob_pt_256[0][p][c]),
                  8 => elem!("eob_pt_512", s, |e, o, x| e.encode_eob_pt_512(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_8X16, 0, 1, p), eob_pt_512[0][p][c]),
                  9 => elem!("eob_pt_1024", s, |e, o, x| e.encode_eob_pt_1024(o, x, s, f, 1, 0, DC_PRED, false, true, false, 0, TX_16X8, 0, 1, p), eob_pt_1024[0][p][c]),
                  _ => { let (z, k) = (pickn("size_ctx", 5), pickn("eob_ctx", 9)); elem!("eob_extra", s, |e, o, x| e.encode_eob_extra(o, x, s, z, p, k), eob_extra[0][z][p][k]) } }
}
/// the neighbours that have been coded before, as (row, column) distance, by class
const NEAR: [[(usize, usize); 5]; 3] = [[(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)], [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)], [(0, 1), (1, 0), (2, 0), (3, 0), (4, 0)]];
fn near(v: usize, n: usize) -> usize { let k = pickn("at", 6); match k { 0 => 0, 1 => 1, 2 => 2, 3 => n - 1, 4 => n - 2, _ => v % n } }
/// quantized block with the given positions symbolic
fn coeffs(w: usize, h: usize, at: &[(usize, usize)]) -> Vec<isize> {
    let mut q: Vec<isize> = (0..w * h).map(|i| 7 - (i % 15) as isize).collect();
    for &(r, c) in at { if r < h && c < w { let v = any::<i16>("coeff"); assume(v >= -300 && v <= 300); q[r * w + c] = v as isize; } } q
}
fn mag(q: &[isize], w: usize, h: usize, at: &[(usize, usize)], cap: u64) -> u64 { let mut m = 0; for &(r, c) in at { if r < h && c < w { let v = q[r * w + c]; let a = (if v < 0 { -v } else { v }) as u64; m += if a < cap { a } else { cap }; } } m }
fn base_offset(tx: usize, row: usize, col: usize) -> usize {
    if TW[tx] < TH[tx] && row < 2 { 11 } else if TW[tx] > TH[tx] && col < 2 { 16 } else if row + col < 2 { 1 } else if row + col < 4 { 6 } else { 21 }
}
fn adj(n: usize) -> usize { if n > 32 { 32 } else { n } }
fn base_ctx(tx: usize, c: usize, row: usize, col: usize, m: u64) -> usize {
    let k = { let k = (m + 1) >> 1; split(if k < 4 { k } else { 4 }) as usize };
    if c == 0 { if row == 0 && col == 0 { 0 } else { k + base_offset(tx, row, col) } } else { let i = if c == 2 { row } else { col }; k + 26 + 5 * (if i < 2 { i } else { 2 }) }
}
/// neighbours of any value: 4 transform sizes, every class, positions at the corners and edges
#[no_mangle] pub extern "C" fn vh_base() {
    let tx = [1usize, 5, 6, 12][pickn("size", 4)]; let (w, h) = (adj(TW[tx]), adj(TH[tx])); let c = pickn("class", 3);
    let (t, inter) = match typed(tx, c) { Some(x) => x, None => return };
    let (row, col) = (near(3, h), near(3, w)); let at: Vec<(usize, usize)> = NEAR[c].iter().map(|&(r, k)| (row + r, col + k)).collect();
    let q = coeffs(w, h, &at); let k = base_ctx(tx, c, row, col, mag(&q, w, h, &at, 3)); let s = pickn("symbol", 2) + 2;
    let mut f = setup(2, &[(1, 0, t)]); let f = &mut f; let scan = [3usize, row * w + col, 5];
    elem!("coeff_base", s, |e, o, x| e.encode_coeff_base(o, x, s, ts(tx), 1, 1, 0, 0, 1, &scan, 1, f, false, inter, false, DC_PRED, 1, 0, &q), coeff_base[0][1][1][k])
}
/// every size and position class with fixed coefficients; every size context, plane type and symbol
#[no_mangle] pub extern "C" fn vh_base_table() {
    let tx = pickn("tx", 19); let (w, h) = (adj(TW[tx]), adj(TH[tx])); let (row, col) = (pickn("row", if h < 6 { h as u64 } else { 6 }), pickn("col", if w < 6 { w as u64 } else { 6 })); let c = pickn("class", 3);
    let (t, inter) = match typed(tx, c) { Some(x) => x, None => return };
    let at: Vec<(usize, usize)> = NEAR[c].iter().map(|&(r, k)| (row + r, col + k)).collect(); let q = coeffs(w, h, &[]); let k = base_ctx(tx, c, row, col, mag(&q, w, h, &at, 3));
    let (z, p, s) = ((row + tx) % 5, (col + tx) % 2, (row + col + tx) % 4); let mut f = setup(2, &[(0, 0, t)]); let f = &mut f; let scan = [row * w + col];
    elem!("coeff_base", s, |e, o, x| e.encode_coeff_base(o, x, s, ts(tx), z, p, 0, 0, 0, &scan, 0, f, false, inter, false, DC_PRED, 0, 0, &q), coeff_base[0][z][p][k])
}
/// the last coefficient: by how far along the scan it lies
#[no_mangle] pub extern "C" fn vh_base_eob() {
    let tx = pickn("tx", 19); let n = adj(TW[tx]) * adj(TH[tx]); let c = any_in("c", 0, 1024) as usize; assume(c < n); let (z, p, s) = (tx % 5, pickn("ptype", 2), pickn("symbol", 3));
    let k = split(if c == 0 { 0 } else if c <= n / 8 { 1 } else if c <= n / 4 { 2 } else { 3 }) as usize;
    let mut f = setup(2, &[]); let f = &mut f; let q = coeffs(adj(TW[tx]), adj(TH[tx]), &[]); let scan: Vec<usize> = (0..n).collect();
    elem!("coeff_base_eob", s, |e, o, x| e.encode_coeff_base_eob(o, x, s, ts(tx), z, p, 0, 0, 0, &scan, c, f, false, true, false, DC_PRED, 0, 0, &q), coeff_base_eob[0][z][p][k])
}
/// levels above the base range
#[no_mangle] pub extern "C" fn vh_br() {
    const AT: [[(usize, usize); 3]; 3] = [[(0, 1), (1, 0), (1, 1)], [(0, 1), (1, 0), (0, 2)], [(0, 1), (1, 0), (2, 0)]];
    let tx = [0usize, 1, 6, 11][pickn("size", 4)]; let (w, h) = (adj(TW[tx]), adj(TH[tx])); let c = pickn("class", 3);
    let (t, inter) = match typed(tx, c) { Some(x) => x, None => return };
    let (row, col) = (near(2, h), near(2, w)); let at: Vec<(usize, usize)> = AT[c].iter().map(|&(r, k)| (row + r, col + k)).collect();
    let q = coeffs(w, h, &at); let m = mag(&q, w, h, &at, 15); let m = { let k = (m + 1) >> 1; split(if k < 6 { k } else { 6 }) as usize };
    let k = m + if row == 0 && col == 0 { 0 } else if (c == 0 && row < 2 && col < 2) || (c == 1 && col == 0) || (c == 2 && row == 0) { 7 } else { 14 };
    let (z, p, s) = (pickn("size_ctx", 5), (row + c) % 2, (row + col) % 4); let zz = if z < 3 { z } else { 3 };
    let mut f = setup(2, &[(1, 1, t)]); let f = &mut f;
    elem!("coeff_br", s, |e, o, x| e.encode_coeff_br(o, x, s, f, z, false, inter, false, DC_PRED, row * w + col, p, ts(tx), 1, 1, 0, &q, 1, 1), coeff_br[0][zz][p][k])
}
/// 4x4 units around a transform block at unit (y4, x4): contexts symbolic directly above and left, other values everywhere else
struct Around { f: Frame, up: Vec<(usize, usize)>, left: Vec<(usize, usize)> }
fn around(n: usize, plane: usize, sx: usize, sy: usize, w4: usize, h4: usize, y4: usize, x4: usize, lv: &Fn(&str) -> usize, dc: &Fn(&str) -> usize) -> Around {
    let mut f = setup(n, &[]); f.frame_width = n * 4; f.frame_height = n * 4; f.subsampling_x = sx == 1; f.subsampling_y = sy == 1;
    for r in 0..n { for c in 0..n { let m = f.mis[r][c].as_mut().unwrap(); m.level_context = [200; 3]; m.dc_context = [(r + c) % 3; 3]; } }
    let (mut up, mut left) = (vec![], vec![]);
    if y4 > 0 { for k in 0..w4 { let c = (x4 + k) << sx; if c < n { let m = f.mis[(y4 << sy) - 1][c].as_mut().unwrap(); m.level_context[plane] = lv("above"); m.dc_context[plane] = dc("sign_above"); up.push((m.level_context[plane], m.dc_context[plane])); } } }
    if x4 > 0 { for k in 0..h4 { let r = (y4 + k) << sy; if r < n { let m = f.mis[r][(x4 << sx) - 1].as_mut().unwrap(); m.level_context[plane] = lv("left"); m.dc_context[plane] = dc("sign_left"); left.push((m.level_context[plane], m.dc_context[plane])); } } }
    Around { f: f, up: up, left: left }
}
fn lvl(n: &str) -> usize { any::<u8>(n) as usize }
fn sgn(n: &str) -> usize { any_in(n, 0, 3) as usize }
#[no_mangle] pub extern "C" fn vh_zero_luma() {
    let tx = [0usize, 1, 5, 2, 14][pickn("size", 5)]; let (w4, h4) = (TW[tx] / 4, TH[tx] / 4); let b = [0usize, 3, 1, 6, 17, 9][pickn("block", 6)]; assume(BW[b] >= TW[tx] && BH[b] >= TH[tx]);
    let (y4, x4) = (pickn("y4", 3) * 2, pickn("x4", 3) * 2); let mut a = around(6, 0, 0, 0, w4, h4, y4, x4, &lvl, &|_| 1);
    let (mut t, mut l) = (0, 0); for &(v, _) in &a.up { if v > t { t = v; } } for &(v, _) in &a.left { if v > l { l = v; } }
    let whole = BW[b] == TW[tx] && BH[b] == TH[tx]; let (hi, lo) = (if t > l { t } else { l }, if t < l { t } else { l });
    let k = split(if whole { 0 } else if hi == 0 { 1 } else if lo == 0 { 2 + (hi > 3) as u64 } else if hi <= 3 { 4 } else if lo <= 3 { 5 } else { 6 }) as usize;
    let (z, s) = (tx % 5, pickn("symbol", 2)); let f = &mut a.f;
    elem!("all_zero", s, |e, o, x| e.encode_all_zero(o, x, s, 0, ts(tx), z, f, bs(b), y4, x4, w4, h4, x4, y4), txb_skip[0][z][k])
}
#[no_mangle] pub extern "C" fn vh_zero_chroma() {
    let plane = 1 + pickn("plane", 2); let ss = pickn("subsampling", 3); let (sx, sy) = ((ss > 0) as usize, (ss > 1) as usize);
    let tx = [0usize, 1, 5][pickn("size", 3)]; let (w4, h4) = (TW[tx] / 4, TH[tx] / 4); let b = [3usize, 6, 9][pickn("block", 3)]; let (bw, bh) = (BW[b] >> sx, BH[b] >> sy); assume(bw >= TW[tx] && bh >= TH[tx]);
    let n = 8; let (y4, x4) = (pickn("y4", 2) * 2, pickn("x4", 2) * 2); let mut a = around(n, plane, sx, sy, w4, h4, y4, x4, &lvl, &sgn);
    let (mut t, mut l) = (0, 0); for &(v, d) in &a.up { t |= v | d; } for &(v, d) in &a.left { l |= v | d; }
    let k = split(7 + (t != 0) as u64 + (l != 0) as u64) as usize + if bw * bh > TW[tx] * TH[tx] { 3 } else { 0 };
    let (z, s) = (tx % 5, pickn("symbol", 2)); let f = &mut a.f;
    elem!("all_zero", s, |e, o, x| e.encode_all_zero(o, x, s, plane, ts(tx), z, f, bs(b), y4 << sy, x4 << sx, w4, h4, x4, y4), txb_skip[0][z][k])
}
#[no_mangle] pub extern "C" fn vh_dc_sign() {
    let plane = pickn("plane", 3); let ss = if plane > 0 { pickn("subsampling", 3) } else { 0 }; let (sx, sy) = ((ss > 0) as usize, (ss > 1) as usize);
    let (w4, h4) = (1 + pickn("w4", 2), 1 + pickn("h4", 2)); let n = 8; let (y4, x4) = (pickn("y4", 4), pickn("x4", 4)); let mut a = around(n, plane, sx, sy, w4, h4, y4, x4, &|_| 9, &sgn);
    let mut d = 0i64; for &(_, v) in a.up.iter().chain(a.left.iter()) { d += (v == 2) as i64 - (v == 1) as i64; }
    let k = split(if d < 0 { 1 } else if d > 0 { 2 } else { 0 }) as usize; let (p, s) = ((plane > 0) as usize, pickn("symbol", 2)); let f = &mut a.f;
    elem!("dc_sign", s, |e, o, x| e.encode_dc_sign(o, x, s, p, f, plane, y4 << sy, x4 << sx, w4, h4, x4, y4), dc_sign[0][p][k])
}
harnesses![vh_class, vh_type_of, vh_base, vh_base_table, vh_base_eob, vh_br, vh_zero_luma, vh_zero_chroma, vh_dc_sign];
