// P26: tile groups: every tile is coded over its own area from a fresh state, and its data follows its size.
//@ run vh_tile workers=3
//@ run vh_block workers=4
//@ run vh_group workers=4
//@ run vh_frame workers=4
//@ run vh_block128 tier=thorough workers=6
//@ bounds tiles of up to 3 by 3 per frame, 0 to 3 superblocks each way, both superblock sizes, cut short or not; single-superblock frames of every size from 8 to 64 samples in steps of 8 (thorough: 128); frames of up to 2 by 2 superblocks coded to the end; groups of 1 to 9 tiles, whole and partial, with size fields of 1 to 4 bytes and restoration units of different lengths in each tile
//@ outside the choice of partition and blocks beyond the first of a superblock (the search has no cost function and takes the first partition; its contexts ignore the size of the neighbours); what a block codes (P23, P24)
include!("common.rs");
include!("vfs.rs");
include!("blk.rs");
include!("tile.rs");
include!("lr.rs");
use obu::*;
use obu::OBU::*;
use obu_encoder::*;
use binary_writer::*;

/// a tile encoder covers exactly the superblocks of its tile, starting from the frame's state
#[no_mangle] pub extern "C" fn vh_tile() {
    let (cols, rows) = (1 + pickn("cols", 3), 1 + pickn("rows", 3)); let n = pickn("tile", (cols * rows) as u64); let big = pickn("big", 2) == 1; let s = if big { 32 } else { 16 };
    let (w, h) = (pickn("width", 4), pickn("height", 3)); let cut = pickn("cut", 2); let deltas = pickn("deltas", 2) == 1;
    let (tc, tr) = (n % cols, n / cols);
    // this tile has w by h superblocks, the others one each way; the frame's own 8 by 8 samples lie before the first
    let starts = |count: usize, mine: usize, len: usize| { let mut v = vec![32]; for i in 0..count { let l = v[i] + if i == mine { if len > 0 { len * s - 8 * cut } else { 0 } } else { s }; v.push(l); } v };
    let (cs, rs) = (starts(cols, tc, w), starts(rows, tr, h)); let (c0, c1, r0, r1) = (cs[tc], cs[tc + 1], rs[tr], rs[tr + 1]);
    let mut f = blank(8, 8); f.tile_col_starts = vec![0; cols]; f.tile_row_starts = vec![0; rows]; f.cdef_idx = vec![vec![5; 240]; 240]; f.quantization_params.base_q_idx = 77; f.delta_q_params.delta_q_present = deltas;
    f.superblocks = vec![]; for r in 0..12 { let mut l = vec![]; for c in 0..12 { l.push(Superblock::new(BLOCK_64X64, 64 * c, 64 * r)); } f.superblocks.push(l); }
    let e = context(&f); { let mut x = e.borrow_mut(); x.mi_col_starts = cs; x.mi_row_starts = rs; x.tile_num = n; x.use_128x128_superblock = big; x.current_q_index = 3; x.delta_lf = [9; 4]; x.ref_sgr_xqd = [[7; 2]; 3]; x.ref_lr_wiener = [[[7; 3]; 2]; 3]; x.read_deltas = !deltas; }
    let mut b = (0, 0, 0, 0); let o = coded(&e, &mut |t, o| { t.encode_tile(&mut f, n, o); b = (t.mi_col_start, t.mi_col_end, t.mi_row_start, t.mi_row_end); });
    check(b == (c0, c1, r0, r1), "bounds-of-the-tile"); let mut d = Dec::new(o); d.at_end("nothing-coded-outside-the-frame");
    let mut visited = 0; let mut r = r0; while r < r1 { let mut c = c0; while c < c1 { visited += if big { 4 } else { 1 }; for i in 0..if big { 2 } else { 1 } { for j in 0..if big { 2 } else { 1 } { check(f.cdef_idx[r + 16 * i][c + 16 * j] == -1, "superblock-cleared"); } } c += s; } r += s; }
    let mut cleared = 0; for r in 0..15 { for c in 0..15 { if f.cdef_idx[16 * r][16 * c] == -1 { cleared += 1; } } } check(cleared == visited, "no-other-superblock-cleared");
    let x = e.borrow(); check(x.current_q_index == 77, "quantizer-reset"); for i in 0..4 { check(x.delta_lf[i] == 0, "loop-filter-deltas-reset"); }
    for p in 0..3 { for i in 0..2 { check(x.ref_sgr_xqd[p][i] == MID.x[i], "references-reset"); for j in 0..3 { check(x.ref_lr_wiener[p][i][j] == MID.w[i][j], "references-reset"); } } }
    if visited > 0 { check(x.read_deltas == deltas, "deltas-once-per-superblock"); }
}
/// the first block of a superblock is the largest the frame edges allow
fn block(w: usize, h: usize, big: bool) {
    let mut f = blank(w, h); let e = context(&f); f.cdef_idx = vec![vec![5; 64]; 64]; f.superblocks = vec![vec![Superblock::new(BLOCK_64X64, 0, 0)]]; f.allow_intrabc = true;
    { let mut x = e.borrow_mut(); x.use_128x128_superblock = big; x.upscaled_width = w; }
    let o = coded(&e, &mut |t, o| t.encode_tile(&mut f, 0, o)); let mut d = Dec::new(o); let d = &mut d; let mut n = if big { 5 } else { 4 };
    loop {
        let half = 2usize << n; let (has_rows, has_cols) = (half < (h + 7) / 8 * 8, half < (w + 7) / 8 * 8); let c: Vec<i32> = match n { 1 => d.t.partition_w8[0].to_vec(), 2 => d.t.partition_w16[0].to_vec(), 3 => d.t.partition_w32[0].to_vec(), 4 => d.t.partition_w64[0].to_vec(), _ => d.t.partition_w128[0].to_vec() };
        if has_rows && has_cols { let mut c = c; check(d.d.decode_symbol(&mut d.q, &mut c) == 0, "one-block"); break; }
        if has_rows || has_cols {
            let p = |i: usize| c[i] - c[i - 1]; let s = p(3) + p(4) + if has_cols { p(2) + p(6) + p(7) + if n < 5 { p(9) } else { 0 } } else { p(1) + p(5) + p(6) + if n < 5 { p(8) } else { 0 } };
            let mut c = [32768 - s, 32768, 0]; check(d.d.decode_symbol(&mut d.q, &mut c) == 0, "cut-by-one-edge"); break;
        }
        n -= 1;
    }
    check(sym!(d, skip[0]) == 0 && sym!(d, is_inter[0]) == 0, "block-of-the-partition"); d.at_end("nothing-else");
}
#[no_mangle] pub extern "C" fn vh_block() { let w = 8 + 8 * pickn("width", 8); let h = 8 + 8 * pickn("height", 8); block(w, h, false) }
#[no_mangle] pub extern "C" fn vh_block128() { let w = 8 + 8 * pickn("width", 16); let h = 8 + 8 * pickn("height", 16); block(w, h, true) }
struct Bits { b: Vec<u8>, p: usize }
impl Bits { fn take(&mut self, k: usize) -> usize { let mut v = 0; for _ in 0..k { check(self.p < self.b.len(), "group-complete"); if self.p < self.b.len() { v = v * 2 + self.b[self.p] as usize; } self.p += 1; } v } }
/// frames of several superblocks are coded to the end
#[no_mangle] pub extern "C" fn vh_frame() {
    let (w, h) = (8 + 32 * pickn("width", 4), 8 + 24 * pickn("height", 4)); assume(w > 64 || h > 64); let mut f = blank(w, h); f.cdef_idx = vec![vec![5; 64]; 64]; f.allow_intrabc = true; let e = context(&f); e.borrow_mut().use_128x128_superblock = false;
    let o = coded(&e, &mut |t, o| t.encode_tile(&mut f, 0, o)); check(o.len() > 24, "something-coded");
    let n = |k: usize| if k > 64 { 2 } else { 1 }; let mut left = 0; for r in 0..n(h) { for c in 0..n(w) { if f.cdef_idx[16 * r][16 * c] != -1 { left += 1; } } } check(left == 0, "every-superblock-visited");
}
/// a tile group OBU of tiles that each hold one restoration unit
#[no_mangle] pub extern "C" fn vh_group() {
    let (cols, rows) = (1 + pickn("cols", 3), 1 + pickn("rows", 3)); let n = cols * rows; let bytes = 1 + pickn("size_bytes", 4); let parts = pickn("parts", 2) == 1; let kind = pickn("kind", 4);
    let (first, last) = if parts && n > 1 { let a = pickn("start", n as u64); (a, a + pickn("count", (n - a) as u64)) } else { (0, n - 1) }; assume(!(parts && n > 4) || bytes == 1 + (first + last) % 4);
    let mut f = blank(8, 64 * rows); f.tile_col_starts = vec![0; cols]; f.tile_row_starts = vec![0; rows]; f.tile_groups = if parts { vec![0] } else { vec![] }; f.cdef_idx = vec![vec![5; 96]; 96]; f.use_superres = false; f.allow_intrabc = false; room(&mut f, rows, cols + 1);
    let unit = |t: usize| { let mut u = plain(); u.t = if kind == 1 && t & 1 == 1 { 0 } else { 2 }; u.s = t; u.x = match (kind + t) % 3 { 0 => [-96, 95], 1 => [31, -32], _ => [-31, 30] }; u };
    f.superblocks = vec![]; for r in 0..rows { let mut l = vec![]; for c in 0..cols + 1 { let mut s = Superblock::new(BLOCK_64X64, 64 * c, 64 * r); s.lr_units = vec![vec![vec![lr_unit(&unit(if c > 0 { r * cols + c - 1 } else { 0 }))]]]; l.push(s); } f.superblocks.push(l); }
    let e = context(&f); { let mut x = e.borrow_mut(); x.num_planes = 1; x.use_128x128_superblock = false; x.upscaled_width = 64 * (cols + 1); x.loop_restoration_size = [64; 3]; x.frame_restoration_type = [RESTORE_SGRPROJ, RESTORE_NONE, RESTORE_NONE];
        x.mi_col_starts = (1..cols + 2).map(|i| 16 * i).collect(); x.mi_row_starts = (0..rows + 1).map(|i| 16 * i).collect(); x.tile_size_bytes = bytes; x.seen_frame_header = true; x.tg_start = first; x.tg_end = last; }
    let mut o = vec![]; { let mut w = BinaryWriter::file("vfs:out").unwrap(); let mut c = BoolCoder::new(); let mut q = OBUEncoder::new(&e, &mut w, &mut c); q.encode_obu_payload(&mut OBU_TILE_GROUP(f), &mut o); } out_bits(&o);
    let mut q = Bits { b: o, p: 0 }; let q = &mut q; let log2 = |k: usize| if k > 2 { 2 } else { k - 1 }; let (mut a, mut b) = (0, n - 1);
    if n > 1 { if q.take(1) == 1 { let k = log2(cols) + log2(rows); a = q.take(k); b = q.take(k); } }
    while q.p % 8 > 0 { check(q.take(1) == 0, "alignment"); } check(a == first && b == last, "tiles-of-the-group");
    for t in first..last + 1 {
        let mut size = 0; if t < last { for i in 0..bytes { size += q.take(8) << (8 * i); } size += 1; } else { check(q.b.len() % 8 == 0 && q.b.len() > q.p, "last-tile-takes-the-rest"); if q.b.len() <= q.p { return; } size = (q.b.len() - q.p) / 8; }
        check(size < 64 && q.p + 8 * size <= q.b.len(), "tile-within-the-group"); if size >= 64 { return; }
        let mut data = vec![]; for _ in 0..8 * size { data.push(q.take(1) as u8); }
        let mut d = Dec::new(data); let mut r = MID; let u = read_unit(&mut d, 2, 0, &mut r); same_unit(&u, &unit(t), 0);
    }
    let x = e.borrow(); check(x.seen_frame_header == (last < n - 1), "frame-complete-with-its-last-tile"); check(x.tg_start == first && x.tg_end == last, "group-in-force");
}
harnesses!(vh_tile, vh_block, vh_block128, vh_group, vh_frame);
