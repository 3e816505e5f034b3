// P23: the settings a block carries (segment, skip, CDEF index, quantizer and loop filter deltas) are recovered by a decoder.
//@ run vh_segment workers=4
//@ run vh_seg_skip workers=2
//@ run vh_cdef workers=2
//@ run vh_delta_q workers=2
//@ run vh_delta_lf workers=2
//@ run vh_delta_q_all tier=thorough workers=4
//@ bounds every segment number with every last active segment and every neighbouring segment above, left and diagonal, inside and at both frame edges; every CDEF width and index for five block sizes in four superblocks, first or later in their 64x64; every quantizer delta against three running values (thorough: all); every loop filter delta of each of the four filters against three running values; all resolutions
//@ outside frames with several tiles (contexts are taken from the frame); is_inter and what follows it (P24)
include!("common.rs");
include!("blk.rs");
include!("tile.rs");
#[allow(unused_imports)] use constants::FrameType;

/// the segment number a decoder predicts, and the distribution it reads with
fn seg_pred(u: i8, l: i8, ul: i8) -> (usize, usize) {
    let p = if u < 0 && l < 0 { 0 } else if u < 0 { l } else if l < 0 { u } else if ul == u { u } else { l };
    let c = if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 };
    (p as usize, c)
}
/// decoder side of the interleaving of numbers around their prediction
fn deinterleave(d: usize, r: usize, max: usize) -> usize {
    if r == 0 { return d; }
    if r >= max - 1 { return max - 1 - d; }
    let near = if d % 2 == 1 { r as isize + (d as isize + 1) / 2 } else { r as isize - d as isize / 2 };
    if 2 * r < max { if d <= 2 * r { near as usize } else { d } } else if d <= 2 * (max - r - 1) { near as usize } else { max - 1 - d }
}
fn read_segment(d: &mut Dec, u: i8, l: i8, ul: i8, last: usize, skip: bool) -> usize {
    let (p, c) = seg_pred(u, l, ul); if skip { return p; }
    let s = sym!(d, segment_id[c]); check(s <= last, "coded-segment-number-in-range"); deinterleave(s, p, last + 1)
}
fn neighbours(f: &mut Frame, r: usize, c: usize, u: i8, l: i8, ul: i8) {
    let mut put = |y: usize, x: usize, s: i8| { let mut m = mi0(); m.segment_id = s as usize; f.mis[y][x] = Some(m); };
    if r > 0 { put(r - 1, c, u); } if c > 0 { put(r, c - 1, l); } if r > 0 && c > 0 { put(r - 1, c - 1, ul); }
}

#[no_mangle] pub extern "C" fn vh_segment() {
    let last = pickn("last", 8); let n = last as u64 + 1; let seg = pickn("segment", n);
    let (r, c) = (2 * pickn("row", 2), 2 * pickn("col", 2));
    let u = if r > 0 { pickn("above", n) as i8 } else { -1 }; let l = if c > 0 { pickn("left", n) as i8 } else { -1 }; let ul = if r > 0 && c > 0 { pickn("diagonal", n) as i8 } else { -1 };
    let pre = pickn("before_skip", 2) == 1; let skip = if (seg + last) % 3 == 0 || (r + c == 0) { pickn("skip", 2) == 1 } else { false };
    let mut f = blank(16, 16); f.segmentation_params.segmentation_enabled = true; neighbours(&mut f, r, c, u, l, ul);
    let e = context(&f); let lossless = seg as u8 & 1 == 1;
    { let mut x = e.borrow_mut(); x.last_active_seg_id = last; x.seg_id_pre_skip = pre; for i in 0..8 { x.lossless_array[i] = (i & 1 == 1) == lossless; } }
    let mut tree = PartitionTree::new(BLOCK_8X8); tree.segment_id = seg; tree.skip = skip; let mut sb = Superblock::new(BLOCK_64X64, 0, 0); let mut ll = false;
    let o = coded(&e, &mut |t, o| { t.encode_block(&mut sb, r, c, &mut f, o, &mut tree); ll = t.lossless; });
    let mut d = Dec::new(o); let d = &mut d;
    let mut got = 0; if pre { got = read_segment(d, u, l, ul, last, false); }
    check(sym!(d, skip[0]) == skip as usize, "skip-recovered");
    if !pre { got = read_segment(d, u, l, ul, last, skip); }
    if !pre && skip { check(tree.segment_id == got, "skipped-block-takes-the-predicted-segment"); } else { check(got == seg && tree.segment_id == seg, "segment-recovered"); }
    check(ll == ((got & 1 == 1) == lossless), "losslessness-of-the-segment");
    check(sym!(d, is_inter[0]) == 0, "nothing-in-between"); d.at_end("nothing-else");
}
/// segments whose blocks are all skipped carry no skip flag; with segmentation off no segment is carried
#[no_mangle] pub extern "C" fn vh_seg_skip() {
    let on = pickn("enabled", 2) == 1; let last = 3 + pickn("last", 5); let seg = pickn("segment", 4); let has = pickn("skip_segment", 5); let pre = pickn("before_skip", 2) == 1; let skip = pickn("skip", 2) == 1;
    let mut f = blank(16, 16); f.segmentation_params.segmentation_enabled = on; if has < 4 { f.segmentation_params.feature_value[has][6] = Some(0); }
    let e = context(&f); { let mut x = e.borrow_mut(); x.last_active_seg_id = last; x.seg_id_pre_skip = pre; }
    let mut tree = PartitionTree::new(BLOCK_8X8); tree.segment_id = seg; tree.skip = skip; let mut sb = Superblock::new(BLOCK_64X64, 0, 0);
    let o = coded(&e, &mut |t, o| t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree));
    let mut d = Dec::new(o); let d = &mut d; let mut got = 0; let mut s = true;
    if pre && on { got = read_segment(d, -1, -1, -1, last, false); }
    if !(pre && on && got == has) { s = sym!(d, skip[0]) == 1; check(s == skip, "skip-recovered"); }
    if !pre && on { got = read_segment(d, -1, -1, -1, last, s); }
    check(tree.skip == s, "skip-in-force"); check(tree.segment_id == got, "segment-in-force"); if on && !(s && !pre) { check(got == seg, "segment-recovered"); }
    check(sym!(d, is_inter[0]) == 0, "nothing-in-between"); d.at_end("nothing-else");
}
/// CDEF indices: once per 64x64, for every 64x64 the block covers and no other
#[no_mangle] pub extern "C" fn vh_cdef() {
    const SIZES: [BlockSize; 6] = [BLOCK_8X8, BLOCK_64X64, BLOCK_128X64, BLOCK_64X128, BLOCK_128X128, BLOCK_32X32];
    let k = pickn("size", 6); let bits = pickn("bits", 4); let idx = pickn("index", 1 << bits) as isize; let (sr, sc) = (pickn("sb_row", 2) * 32, pickn("sb_col", 2) * 32);
    let (w, h) = (BW[SIZES[k] as usize] / 4, BH[SIZES[k] as usize] / 4);
    let (r, c) = if k == 4 { (sr, sc) } else { (sr + if h < 32 { pickn("half_row", 2) * 16 } else { 0 }, sc + if w < 32 { pickn("half_col", 2) * 16 } else { 0 }) };
    let off = if k == 0 { 6 * pickn("inside", 2) } else { 0 }; let skip = pickn("skip", 2) == 1; let known = pickn("known", 3);   // known: none, its own, all others
    let gate = pickn("gate", 4);
    let mut f = blank(8, 8); f.mis = vec![vec![None; 64]; 64]; f.frame_width = 256; f.frame_height = 256; f.cdef_params.cdef_bits = bits as u8;
    let mut was = vec![vec![-1isize; 64]; 64]; for y in 0..4 { for x in 0..4 { let own = 16 * y == r && 16 * x == c; if known == 1 && own || known == 2 && !own { was[16 * y][16 * x] = 9; } } }
    f.cdef_idx = was.clone(); f.allow_intrabc = gate == 3;
    let e = context(&f); { let mut x = e.borrow_mut(); x.enable_cdef = gate != 1; x.coded_lossless = gate == 2; x.mi_row_starts = vec![0, 64]; x.mi_col_starts = vec![0, 64]; }
    let mut tree = PartitionTree::new(SIZES[k]); tree.cdef_idx = idx; tree.skip = skip; let mut sb = Superblock::new(BLOCK_128X128, 0, 0);
    let o = coded(&e, &mut |t, o| t.encode_block(&mut sb, r + off, c + off, &mut f, o, &mut tree));
    let mut d = Dec::new(o); let d = &mut d; check(sym!(d, skip[0]) == skip as usize, "skip-recovered");
    if !skip && gate == 0 && was[r][c] == -1 { let got = d.l(bits as u8) as isize; check(got == idx, "cdef-index-recovered"); let mut y = r; while y < r + h { let mut x = c; while x < c + w { was[y][x] = got; x += 16; } y += 16; } }
    let mut same = true; for y in 0..4 { for x in 0..4 { same &= f.cdef_idx[16 * y][16 * x] == was[16 * y][16 * x]; } }
    check(same, "cdef-index-in-force-exactly-where-the-block-lies");
    check(sym!(d, is_inter[0]) == 0, "nothing-in-between"); d.at_end("nothing-else");
}
fn read_delta(d: &mut Dec, small: usize) -> isize {
    let mut a = small; if a == 3 { let n = d.l(3) as u8 + 1; a = d.l(n) as usize + (1 << n) + 1; }
    if a == 0 { 0 } else if d.l(1) == 1 { -(a as isize) } else { a as isize }
}
fn delta_q(cur: usize, q: usize, res: usize) {
    let skip = if q & 7 == 1 { pickn("skip", 2) == 1 } else { false }; let whole = if q & 7 < 3 { pickn("whole_superblock", 2) == 1 } else { false }; let due = if q & 7 == 2 { pickn("due", 2) == 1 } else { true };
    let mut f = blank(8, 8); f.mis = vec![vec![None; 2]; 2]; f.delta_q_params.delta_q_present = true; f.delta_q_params.delta_q_res = res as u8;
    let e = context(&f); { let mut x = e.borrow_mut(); x.current_q_index = cur; x.read_deltas = due; x.use_128x128_superblock = false; }
    let mut tree = PartitionTree::new(if whole { BLOCK_64X64 } else { BLOCK_32X64 }); tree.q_index = q; tree.skip = skip; let mut sb = Superblock::new(BLOCK_64X64, 0, 0);
    let o = coded(&e, &mut |t, o| t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree));
    let mut d = Dec::new(o); let d = &mut d; check(sym!(d, skip[0]) == skip as usize, "skip-recovered"); let mut now = cur as isize;
    if due && !(skip && whole) { let s = sym!(d, delta_q); now += read_delta(d, s) << res; check(now == q as isize, "quantizer-recovered"); }
    check(e.borrow().current_q_index as isize == now, "running-quantizer"); check(!e.borrow().read_deltas, "deltas-once-per-superblock");
    check(sym!(d, is_inter[0]) == 0, "nothing-in-between"); d.at_end("nothing-else");
}
#[no_mangle] pub extern "C" fn vh_delta_q() {
    let res = pickn("resolution", 4); let cur = [1, 128, 255][pickn("running", 3)]; let q = 1 + pickn("quantizer", 255); assume((q + 256 - cur) % (1 << res) == 0); delta_q(cur, q, res);
}
#[no_mangle] pub extern "C" fn vh_delta_q_all() {
    let res = pickn("resolution", 4); let cur = 1 + pickn("running", 255); let q = 1 + pickn("quantizer", 255); assume((q + 256 - cur) % (1 << res) == 0); delta_q(cur, q, res);
}
#[no_mangle] pub extern "C" fn vh_delta_lf() {
    let res = pickn("resolution", 4); let multi = pickn("multi", 2) == 1; let planes = if pickn("mono", 2) == 1 { 1 } else { 3 }; let n = if !multi { 1 } else if planes == 1 { 2 } else { 4 };
    let i = pickn("filter", n as u64); let cur = [-63isize, 0, 63][pickn("running", 3)]; let v = pickn("value", 127) as isize - 63; assume((v - cur) % (1 << res) == 0);
    let whole = if v & 15 == 3 { pickn("whole_skipped", 2) == 1 } else { false }; let present = if v & 15 == 5 { pickn("present", 2) == 1 } else { true };
    let mut f = blank(8, 8); f.mis = vec![vec![None; 2]; 2]; f.delta_q_params.delta_q_present = true; f.delta_lf_params.delta_lf_present = present; f.delta_lf_params.delta_lf_multi = multi; f.delta_lf_params.delta_lf_res = res as u8;
    let e = context(&f); let mut was = [8isize, 16, -8, 24]; was[i] = cur; let mut to = [0isize, 24, -24, 24]; to[i] = v;
    { let mut x = e.borrow_mut(); x.current_q_index = 7; x.read_deltas = true; x.num_planes = planes; x.delta_lf = was; }
    let mut tree = PartitionTree::new(if whole { BLOCK_128X128 } else { BLOCK_64X64 }); tree.q_index = 7; tree.delta_lf = to; tree.skip = whole; let mut sb = Superblock::new(BLOCK_128X128, 0, 0);
    let o = coded(&e, &mut |t, o| t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree));
    let mut d = Dec::new(o); let d = &mut d; check(sym!(d, skip[0]) == whole as usize, "skip-recovered");
    if !whole { check(sym!(d, delta_q) == 0, "no-quantizer-delta");
        if present { for j in 0..n { let s = if multi { sym!(d, delta_lf_multi[j]) } else { sym!(d, delta_lf) }; was[j] += read_delta(d, s) << res; check(was[j] == to[j], "filter-delta-recovered"); } } }
    check(e.borrow().delta_lf == was, "running-filter-deltas");
    check(sym!(d, is_inter[0]) == 0, "nothing-in-between"); d.at_end("nothing-else");
}
harnesses!(vh_segment, vh_seg_skip, vh_cdef, vh_delta_q, vh_delta_q_all, vh_delta_lf);
