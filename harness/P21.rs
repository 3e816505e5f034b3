// P21: frames have room for every sample and every 4x4 unit, and block, transform and tile geometry is consistent.
//@ run vh_planes workers=2
//@ run vh_units workers=2
//@ run vh_size workers=1
//@ run vh_neighbours workers=1
//@ run vh_tiles workers=1
//@ run vh_blocks workers=1
//@ run vh_subsampled workers=1
//@ run vh_partitions workers=1
//@ run vh_transforms workers=1
//@ run vh_find_tx workers=1
//@ run vh_sets workers=1
//@ run vh_refs workers=1
//@ run vh_distance workers=1
//@ run vh_vectors workers=1
//@ run vh_tree workers=1
//@ run vh_grain workers=1
//@ bounds frames of 1x1 to 24x24 samples and up to 70 in one dimension allocated, any size up to 2^31 for the unit counts; up to 64 tile columns and rows; all block sizes, partitions, subsamplings a stream may have, transform sizes and sets; all order hints of 1 to 8 bits; partition trees of depth 2 with any contents; film grain with up to 3 points
//@ outside vertical-only chroma subsampling, which the format does not have
include!("common.rs");
include!("blk.rs");
use block::*;

/// planes of a 4:2:0 frame of any size hold one value for every sample
#[no_mangle] pub extern "C" fn vh_planes() {
    let (w, h) = if pickn("strip", 2) == 0 { (1 + pickn("w", 24), 1 + pickn("h", 24)) } else { let (a, b) = (25 + pickn("long", 46), 1 + pickn("short", 3)); if pickn("wide", 2) == 1 { (a, b) } else { (b, a) } };
    let f = Frame::new(FrameType::KEY_FRAME, w, h);
    check(f.frame_width == w && f.frame_height == h && f.render_width == w && f.render_height == h, "frame-size");
    check(f.original_y.len() == w * h, "luma-plane-size");
    let n = (w / 2 + w % 2) * (h / 2 + h % 2);
    check(f.original_u.len() == n && f.original_v.len() == n, "chroma-plane-size");
    out(n as u64);
}
/// there is a place for the mode info of every 4x4 unit of every block, also of blocks cut by the frame edge
#[no_mangle] pub extern "C" fn vh_units() {
    let (a, b) = (1 + pickn("long", 70), [1, 4, 5, 8, 9][pickn("short", 5)]); let (w, h) = if pickn("wide", 2) == 1 { (a, b) } else { (b, a) };
    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    let (rows, cols) = (f.mi_rows(), f.mi_cols());
    check(f.mis.len() >= rows, "mode-info-rows"); for r in 0..rows { check(f.mis[r].len() >= cols, "mode-info-columns"); }
    let (r, c) = (rows - 1, cols - 1); f.mis[r][c] = Some(mi0()); check(f.get_mi(r, c).is_some(), "last-unit");
    out((rows * 1000 + cols) as u64);
}
/// unit counts of any frame size: whole 8x8 blocks covering the frame, and no more
#[no_mangle] pub extern "C" fn vh_size() {
    let mut f = Frame::new(FrameType::KEY_FRAME, 1, 1); let (w, h) = (any_in("w", 1, 1 << 31) as usize, any_in("h", 1, 1 << 31) as usize); f.frame_width = w; f.frame_height = h;
    let (r, c) = (f.mi_rows(), f.mi_cols());
    check(c % 2 == 0 && c * 4 >= w && c * 4 < w + 8, "unit-columns"); check(r % 2 == 0 && r * 4 >= h && r * 4 < h + 8, "unit-rows"); out(r as u64); out(c as u64);
}
/// the neighbours above and left are exactly the adjoining units, and absent at the frame edge
#[no_mangle] pub extern "C" fn vh_neighbours() {
    let mut f = Frame::new(FrameType::KEY_FRAME, 24, 16); let (rows, cols) = (f.mi_rows(), f.mi_cols());
    for r in 0..rows { for c in 0..cols { let mut m = mi0(); m.segment_id = r * 16 + c; f.mis[r][c] = Some(m); } }
    let (r, c) = (pickn("row", rows as u64), pickn("col", cols as u64)); let id = |m: Option<ModeInfo>| m.map(|m| m.segment_id);
    check(id(f.get_mi(r, c)) == Some(r * 16 + c), "own-unit");
    check(id(f.get_above_mi(r, c)) == if r == 0 { None } else { Some((r - 1) * 16 + c) }, "unit-above");
    check(id(f.get_left_mi(r, c)) == if c == 0 { None } else { Some(r * 16 + c - 1) }, "unit-left");
    f.mis[r][c] = None; check(f.get_mi(r, c).is_none(), "no-unit"); out((r * 16 + c) as u64);
}
#[no_mangle] pub extern "C" fn vh_tiles() {
    let mut f = Frame::new(FrameType::KEY_FRAME, 8, 8); let (a, b) = if pickn("rows", 2) == 0 { (1 + pickn("n", 64), 1 + pickn("m", 3)) } else { (1 + pickn("m", 3), 1 + pickn("n", 64)) };
    f.tile_col_starts = vec![0; a]; f.tile_row_starts = vec![0; b];
    check(f.tile_cols() == a && f.tile_rows() == b && f.num_tiles() == a * b, "tile-count");
    let (x, y) = (f.tile_cols_log2(), f.tile_rows_log2());
    check(1 << x >= a && (x == 0 || 1 << (x - 1) < a), "tile-columns-log2"); check(1 << y >= b && (y == 0 || 1 << (y - 1) < b), "tile-rows-log2"); out((x * 100 + y) as u64);
}
fn log2(x: usize) -> usize { let mut k = 0; while (2 << k) <= x { k += 1; } k }
fn dims(b: BlockSize) -> Option<(usize, usize)> { let i = b as usize; if i < 22 { Some((BW[i], BH[i])) } else { None } }
#[no_mangle] pub extern "C" fn vh_blocks() {
    let i = pickn("block", 22); let (w, h) = (BW[i], BH[i]); let s = if w < h { w } else { h };
    check(BLOCK_SIZES == 22 && BLOCK_INVALID as usize == 22, "block-count");
    check(block_width[i] == w && block_height[i] == h, "block-size");
    check(num_4x4_blocks_wide[i] == w / 4 && num_4x4_blocks_high[i] == h / 4, "block-units");
    check(mi_width_log2[i] == log2(w) - 2 && mi_height_log2[i] == log2(h) - 2, "block-units-log2");
    check(size_group[i] == if s >= 32 { 3 } else { log2(s) - 2 }, "block-size-group"); out(i as u64);
}
/// the chroma block of a luma block: half the size where subsampled, 4 at least; none where the format has no such block
#[no_mangle] pub extern "C" fn vh_subsampled() {
    let i = pickn("block", 22); let (w, h) = (BW[i], BH[i]); let k = pickn("format", 3); let (sx, sy) = (k > 0, k > 1); let p = pickn("plane", 3);
    let r = get_plane_residual_size(bs(i), p, sx, sy); let (sx, sy) = if p == 0 { (false, false) } else { (sx, sy) };
    let (cw, ch) = (if sx && w > 4 { w / 2 } else { w }, if sy && h > 4 { h / 2 } else { h });
    check(dims(r) == if sx && !sy && w < h { None } else { Some((cw, ch)) }, "chroma-block-size"); out(r as u64);
}
#[no_mangle] pub extern "C" fn vh_partitions() {
    let i = pickn("block", 22); let p = pickn("partition", 10); let (w, h) = (BW[i], BH[i]);
    let want = if w != h { None } else { match p { 0 => Some((w, h)), 1 | 4 | 5 => if w < 8 { None } else { Some((w, h / 2)) }, 2 | 6 | 7 => if w < 8 { None } else { Some((w / 2, h)) },
        3 => if w < 8 { None } else { Some((w / 2, h / 2)) }, 8 => if w < 16 || w > 64 { None } else { Some((w, h / 4)) }, _ => if w < 16 || w > 64 { None } else { Some((w / 4, h)) } } };
    check(dims(partition_subsize[p][i]) == want, "partition-size"); out(p as u64);
}
fn square(n: usize) -> usize { log2(n) - 2 }
#[no_mangle] pub extern "C" fn vh_transforms() {
    let i = pickn("tx", 19); let (w, h) = (TW[i], TH[i]); let (mn, mx) = if w < h { (w, h) } else { (h, w) };
    check(tx_width[i] == w && tx_height[i] == h, "transform-size"); check(1 << tx_width_log2[i] == w && 1 << tx_height_log2[i] == h, "transform-size-log2");
    check(tx_size_sqr[i] as usize == square(mn), "square-transform"); check(tx_size_sqr_up[i] as usize == square(mx), "covering-square-transform");
    let a = adjusted_tx_size[i] as usize; check(TW[a] == if w > 32 { 32 } else { w } && TH[a] == if h > 32 { 32 } else { h }, "coded-transform-area"); out(a as u64);
}
/// the transform of a size is the one of that size, and none where there is none
#[no_mangle] pub extern "C" fn vh_find_tx() {
    let (w, h) = if pickn("real", 2) == 1 { (4 << pickn("w", 5), 4 << pickn("h", 5)) } else { (any_in("width", 0, 200) as usize, any_in("height", 0, 200) as usize) };
    let mut want = 19; for i in 0..19 { if TW[i] == w && TH[i] == h { want = i; } }
    let t = find_tx_size(w, h) as usize; check(t == want, "transform-of-size"); out(t as u64);
}
/// which transform types a block may use
#[no_mangle] pub extern "C" fn vh_sets() {
    let tx = pickn("tx", 19); let t = pickn("type", 16); let (inter, red) = (pickn("inter", 2) == 1, any_bool("reduced"));
    let (w, h) = (TW[tx], TH[tx]); let (mn, mx) = if w < h { (w, h) } else { (h, w) };
    let ok = if mx > 32 { t == 0 } else if inter { if red || mx == 32 { t == 0 || t == 9 } else if mn == 16 { t < 12 } else { true } }
             else if mx == 32 { t == 0 } else if red || mn == 16 { t < 4 || t == 9 } else { t < 4 || (t >= 9 && t < 12) };
    let s = get_tx_set(ts(tx), inter, red); check(is_tx_type_in_set(s, unsafe { ::std::mem::transmute(t as u8) }, inter) == ok, "type-in-set");
    // the coded position names each type of a set once
    let inv = |l: &[TxType]| { let mut n = 0; for x in l.iter() { if *x as usize == t { n += 1; } } n };
    let n = if inter { match s { 1 => inv(&tx_type_inter_inv_set1), 2 => inv(&tx_type_inter_inv_set12), 3 => inv(&tx_type_inter_inv_set3), _ => ok as usize } } else { match s { 1 => inv(&tx_type_intra_inv_set1), 2 => inv(&tx_type_intra_inv_set2), _ => ok as usize } };
    check(n == ok as usize, "type-has-one-position");
    let c = get_tx_class(unsafe { ::std::mem::transmute(t as u8) }); check(c == if t < 10 { TX_CLASS_2D } else if t % 2 == 0 { TX_CLASS_VERT } else { TX_CLASS_HORIZ }, "transform-class"); out(s as u64);
}
/// directions of references and how often neighbours use them
#[no_mangle] pub extern "C" fn vh_refs() {
    let (a, b) = (pickn("a", 9) as i8 - 1, pickn("b", 9) as i8 - 1);
    check(check_backward(rf(a)) == (a >= 5), "backward"); check(is_samedir_ref_pair(rf(a), rf(b)) == (a > 0 && b > 0 && (a > 4) == (b > 4)), "same-direction");
    let mut f = Frame::new(FrameType::INTER_FRAME, 8, 8); let (r, c) = (pickn("row", 2), pickn("col", 2));
    let (mut up, mut left) = (mi0(), mi0()); up.ref_frame = [rf(a), rf(b)]; left.ref_frame = [rf(b), rf(4)]; f.mis[0][c] = Some(up); f.mis[r][0] = Some(left); if r == 1 && c == 0 { f.mis[0][0] = Some(up); }
    let x = pickn("of", 9) as i8 - 1; let mut n = 0; if r == 1 { n += (a == x) as usize + (b == x) as usize; } if c == 1 { n += (b == x) as usize + (4 == x) as usize; }
    check(count_refs(rf(x), &mut f, r, c) == n, "reference-count");
    let (p, q) = (any_in("p", 0, 9) as usize, any_in("q", 0, 9) as usize); let k = ref_count_ctx(p, q); check(k == if p < q { 0 } else if p == q { 1 } else { 2 }, "count-context"); out(k as u64);
}
/// distances between order hints wrap to the nearer side
#[no_mangle] pub extern "C" fn vh_distance() {
    let bits = 1 + pickn("bits", 8); let m = 1usize << bits; let (a, b) = (any_in("a", 0, 256) as usize, any_in("b", 0, 256) as usize); assume(a < m && b < m);
    let d = get_relative_dist(a, b, true, bits); check(d >= -(m as isize / 2) && d < m as isize / 2, "distance-range");
    check((b as isize + d + m as isize) as usize & (m - 1) == a, "distance-reaches"); out(d as u64);
    check(get_relative_dist(a, b, false, pickn("unused", 2)) == 0, "no-order-hints");
}
#[no_mangle] pub extern "C" fn vh_vectors() {
    let v = |n: &str| any::<i32>(n) as isize; let (a, b, c, d) = (v("a"), v("b"), v("c"), v("d")); let (p, q) = (MotionVector::new(a, b), MotionVector::new(c, d));
    let (s, t) = (p + q, p - q); check(s.x == a + c && s.y == b + d, "vector-sum"); check(t.x == a - c && t.y == b - d, "vector-difference");
    check((t + q) == p, "vector-inverse"); check((p == q) == (a == c && b == d), "vector-equality"); out(s.x as u64); out(t.y as u64);
}
fn leaf(n: u64) -> PartitionTree {
    let mut t = PartitionTree::new(bs(n as usize % 22)); let k = any::<[u8; 16]>("node"); t.segment_id = k[0] as usize; t.skip = k[1] & 1 == 1; t.cdef_idx = k[2] as isize - 1; t.q_index = k[3] as usize;
    t.delta_lf = [k[4] as isize - 128, k[5] as isize, k[6] as isize, k[7] as isize]; t.is_inter = k[1] & 2 == 2; t.new_mv = k[1] & 4 == 4; t.zero_mv = k[1] & 8 == 8; t.ref_mv = k[1] & 16 == 16; t.use_intrabc = k[1] & 32 == 32;
    for i in 0..8 { t.drl_mode[i] = (k[8] as usize + i) & 3; } t.mvs = [MotionVector::new(k[9] as isize, k[10] as isize), MotionVector::new(k[11] as isize, k[12] as isize)];
    t.ref_frame = [rf(1 + (n % 7) as i8), rf((n % 4) as i8 - 1)]; t.comp_mode = if n % 2 == 0 { CompMode::SINGLE_REFERENCE } else { CompMode::COMPOUND_REFERENCE }; t.comp_ref_type = if n % 3 == 0 { CompRefType::UNIDIR_COMP_REFERENCE } else { CompRefType::BIDIR_COMP_REFERENCE };
    t.compound_mode = ym(13 + n as usize % 13); t.part_type = unsafe { ::std::mem::transmute((n % 10) as u8) }; t
}
fn same_node(a: &PartitionTree, b: &PartitionTree) -> bool {
    a.part_type == b.part_type && a.bsize == b.bsize && a.segment_id == b.segment_id && a.skip == b.skip && a.cdef_idx == b.cdef_idx && a.q_index == b.q_index && a.delta_lf == b.delta_lf && a.is_inter == b.is_inter
      && a.ref_frame == b.ref_frame && a.comp_mode == b.comp_mode && a.comp_ref_type == b.comp_ref_type && a.compound_mode == b.compound_mode && a.new_mv == b.new_mv && a.zero_mv == b.zero_mv && a.ref_mv == b.ref_mv
      && a.drl_mode == b.drl_mode && a.use_intrabc == b.use_intrabc && a.mvs == b.mvs && a.partitions.len() == b.partitions.len()
}
/// a copied partition tree is equal in every field of every node
#[no_mangle] pub extern "C" fn vh_tree() {
    let n = pickn("shape", 10) as u64; let mut t = leaf(n); for i in 0..n % 5 { let mut c = leaf(n + 3 * i + 1); if i == 1 { c.partitions.push(leaf(n + 7)); } t.partitions.push(c); }
    let c = t.clone(); check(same_node(&t, &c), "copied-tree");
    for i in 0..t.partitions.len() { check(same_node(&t.partitions[i], &c.partitions[i]), "copied-child"); if t.partitions[i].partitions.len() > 0 { check(same_node(&t.partitions[i].partitions[0], &c.partitions[i].partitions[0]), "copied-grandchild"); } }
    let f = PartitionTree::new(bs(n as usize)); check(f.bsize as u64 == n && f.partitions.len() == 0 && f.part_type == PARTITION_NONE && !f.skip && !f.is_inter && !f.use_intrabc, "fresh-tree");
    let (x, y) = (any::<u16>("x") as usize, any::<u16>("y") as usize); let s = Superblock::new(BLOCK_64X64, x, y); check(s.x == x && s.y == y && s.mi_size == BLOCK_64X64 && s.part_tree.bsize == BLOCK_64X64, "fresh-superblock"); out(x as u64);
}
/// copied film grain parameters are equal in every field
#[no_mangle] pub extern "C" fn vh_grain() {
    let k = any::<[u8; 24]>("fields"); let n = pickn("points", 4); let mut g = FilmGrainParams::new();
    g.apply_grain = k[0] & 1 == 1; g.update_grain = k[0] & 2 == 2; g.chroma_scaling_from_luma = k[0] & 4 == 4; g.overlap_flag = k[0] & 8 == 8; g.clip_to_restricted_range = k[0] & 16 == 16;
    g.grain_seed = any::<u16>("seed"); g.film_grain_params_ref_idx = k[1] as usize; g.num_y_points = n; g.num_cb_points = k[2] as usize; g.num_cr_points = k[3] as usize; g.grain_scaling = k[4] as usize; g.ar_coeff_lag = k[5] as usize; g.ar_coeff_shift = k[6] as usize; g.grain_scale_shift = k[7] as usize;
    g.cb_mult = k[8] as usize; g.cb_luma_mult = k[9] as usize; g.cb_offset = k[10] as usize; g.cr_mult = k[11] as usize; g.cr_luma_mult = k[12] as usize; g.cr_offset = k[13] as usize;
    for i in 0..n { g.point_y_value.push(k[14] ^ i as u8); g.point_y_scaling.push(k[15] ^ i as u8); g.point_cb_value.push(k[16] ^ i as u8); g.point_cb_scaling.push(k[17] ^ i as u8); g.point_cr_value.push(k[18] ^ i as u8); g.point_cr_scaling.push(k[19] ^ i as u8);
        g.ar_coeffs_y.push(k[20] as i16 - i as i16); g.ar_coeffs_cb.push(k[21] as i16 - i as i16); g.ar_coeffs_cr.push(k[22] as i16 - i as i16); }
    let c = g.clone();
    check(c.apply_grain == g.apply_grain && c.update_grain == g.update_grain && c.chroma_scaling_from_luma == g.chroma_scaling_from_luma && c.overlap_flag == g.overlap_flag && c.clip_to_restricted_range == g.clip_to_restricted_range, "copied-flags");
    check(c.grain_seed == g.grain_seed && c.film_grain_params_ref_idx == g.film_grain_params_ref_idx && c.num_y_points == g.num_y_points && c.num_cb_points == g.num_cb_points && c.num_cr_points == g.num_cr_points, "copied-counts");
    check(c.grain_scaling == g.grain_scaling && c.ar_coeff_lag == g.ar_coeff_lag && c.ar_coeff_shift == g.ar_coeff_shift && c.grain_scale_shift == g.grain_scale_shift, "copied-scaling");
    check(c.cb_mult == g.cb_mult && c.cb_luma_mult == g.cb_luma_mult && c.cb_offset == g.cb_offset && c.cr_mult == g.cr_mult && c.cr_luma_mult == g.cr_luma_mult && c.cr_offset == g.cr_offset, "copied-chroma");
    check(c.point_y_value == g.point_y_value && c.point_y_scaling == g.point_y_scaling && c.point_cb_value == g.point_cb_value && c.point_cb_scaling == g.point_cb_scaling && c.point_cr_value == g.point_cr_value && c.point_cr_scaling == g.point_cr_scaling, "copied-points");
    check(c.ar_coeffs_y == g.ar_coeffs_y && c.ar_coeffs_cb == g.ar_coeffs_cb && c.ar_coeffs_cr == g.ar_coeffs_cr, "copied-coefficients"); out(c.grain_seed as u64);
}
harnesses![vh_planes, vh_units, vh_size, vh_neighbours, vh_tiles, vh_blocks, vh_subsampled, vh_partitions, vh_transforms, vh_find_tx, vh_sets, vh_refs, vh_distance, vh_vectors, vh_tree, vh_grain];
