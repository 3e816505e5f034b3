// P24: a block's references, prediction mode and motion vectors are recovered by a decoder with the same candidate list.
//@ run vh_refs workers=2
//@ run vh_segment_refs workers=1
//@ run vh_modes workers=4
//@ run vh_vector workers=4
//@ run vh_copy workers=2
//@ run vh_vector_all tier=thorough workers=6
//@ bounds every allowed single reference and reference pair, and references implied by segments; every single and compound mode with 0 to 4 candidates and every choice among them; vectors of every class with every fraction and the offsets 0, all ones and each single bit (thorough: every difference up to 16384), at each precision, with either component alone or both, for each reference; intra block copy predictions in 64x64 and 128x128 superblocks
//@ outside the candidate list itself (P27; the checks take the list the encoder holds); neighbouring blocks (contexts are P18)
include!("common.rs");
include!("blk.rs");
include!("tile.rs");
use constants::CompMode::*;
use constants::CompRefType::*;

const INVALID: isize = -1 << 15;
fn mv(x: isize, y: isize) -> MotionVector { MotionVector::new(x, y) }
/// a frame of `n` 8x8 blocks each way with a motion field of no candidates, and its context
fn scene(n: usize) -> (Frame, Rc<RefCell<EncoderContext>>) {
    let f = blank(8 * n, 8 * n); let e = context(&f); e.borrow_mut().motion_field_mvs = vec![vec![vec![mv(INVALID, INVALID); n]; n]; 8]; (f, e)
}
fn read_refs(d: &mut Dec, select: bool) -> (i8, i8) {
    if select && sym!(d, comp_mode[1]) == 1 {
        if sym!(d, comp_ref_type[2]) == 0 {
            if sym!(d, uni_comp_ref[1][0]) == 1 { return (5, 7); }
            if sym!(d, uni_comp_ref[1][1]) == 0 { return (1, 2); }
            return if sym!(d, uni_comp_ref[1][2]) == 1 { (1, 4) } else { (1, 3) };
        }
        let a = if sym!(d, comp_ref[1][0]) == 0 { 1 + sym!(d, comp_ref[1][1]) } else { 3 + sym!(d, comp_ref[1][2]) };
        let b = if sym!(d, comp_bwd_ref[1][0]) == 1 { 7 } else { 5 + sym!(d, comp_bwd_ref[1][1]) };
        return (a as i8, b as i8);
    }
    let a = if sym!(d, single_ref[1][0]) == 1 { if sym!(d, single_ref[1][1]) == 1 { 7 } else { 5 + sym!(d, single_ref[1][5]) } }
        else if sym!(d, single_ref[1][2]) == 1 { 3 + sym!(d, single_ref[1][4]) } else { 1 + sym!(d, single_ref[1][3]) };
    (a as i8, -1)
}
fn read_component(d: &mut Dec, x: usize, k: usize, int: bool, hp: bool) -> isize {
    let neg = sym!(d, mv_sign[x][k]) == 1; let c = sym!(d, mv_class[x][k]); let mut m = 0;
    if c == 0 { let b = sym!(d, mv_class0_bit[x][k]); let f = if int { 3 } else { sym!(d, mv_class0_fr[x][k][b]) }; let h = if hp { sym!(d, mv_class0_hp[x][k]) } else { 1 }; m = b * 8 + f * 2 + h + 1; }
    else { for i in 0..c { m += sym!(d, mv_bit[x][k][i]) << i; } let f = if int { 3 } else { sym!(d, mv_fr[x][k]) }; let h = if hp { sym!(d, mv_hp[x][k]) } else { 1 }; m = (2 << (c + 2)) + m * 8 + f * 2 + h + 1; }
    if neg { -(m as isize) } else { m as isize }
}
fn read_difference(d: &mut Dec, x: usize, int: bool, hp: bool) -> MotionVector {
    let j = sym!(d, mv_joint[x]); let y = if j >= 2 { read_component(d, x, 0, int, hp) } else { 0 }; let h = if j & 1 == 1 { read_component(d, x, 1, int, hp) } else { 0 }; mv(h, y)
}
fn pair(i: usize) -> (i8, i8) { if i < 7 { (i as i8 + 1, -1) } else if i < 11 { [(1, 2), (1, 3), (1, 4), (5, 7)][i - 7] } else { ((i as i8 - 11) / 3 + 1, (i as i8 - 11) % 3 + 5) } }
fn with_refs(t: &mut PartitionTree, i: usize) {
    let (a, b) = pair(i); t.is_inter = true; t.ref_frame = [rf(a), rf(b)]; t.comp_mode = if b > 0 { COMPOUND_REFERENCE } else { SINGLE_REFERENCE };
    t.comp_ref_type = if i < 11 { UNIDIR_COMP_REFERENCE } else { BIDIR_COMP_REFERENCE }; t.new_mv = true; t.zero_mv = false; t.compound_mode = GLOBAL_GLOBALMV;
}

#[no_mangle] pub extern "C" fn vh_refs() {
    let i = pickn("references", 23); let select = if i < 7 { pickn("select", 2) == 1 } else { true };
    let (mut f, e) = scene(1); f.reference_select = select; let mut tree = PartitionTree::new(BLOCK_128X128); with_refs(&mut tree, i); let mut sb = Superblock::new(BLOCK_128X128, 0, 0);
    let o = coded(&e, &mut |t, o| t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree));
    let mut d = Dec::new(o); let d = &mut d; check(sym!(d, skip[0]) == 0, "skip-recovered"); check(sym!(d, is_inter[0]) == 1, "inter-recovered");
    let got = read_refs(d, select); check(got == pair(i), "references-recovered"); check(tree.ref_frame[0] == rf(got.0) && tree.ref_frame[1] == rf(got.1), "references-in-force");
    if got.1 > 0 { check(sym!(d, compound_mode[0]) == 6, "mode-recovered"); } else { check(sym!(d, new_mv[0]) == 1 && sym!(d, zero_mv[1]) == 0, "mode-recovered"); }
    d.at_end("nothing-else"); check(tree.mvs[0] == mv(0, 0), "global-vector");
}
/// a segment that fixes the reference, skips or uses global motion implies reference and mode
#[no_mangle] pub extern "C" fn vh_segment_refs() {
    let k = pickn("feature", 4); let v = 1 + pickn("reference", 7) as isize;   // reference, global motion, skip, none
    let (mut f, e) = scene(1); f.reference_select = false; f.segmentation_params.segmentation_enabled = true; if k < 3 { f.segmentation_params.feature_value[0][[5, 7, 6][k]] = Some(v); }
    let pre = true; { let mut x = e.borrow_mut(); x.seg_id_pre_skip = pre; x.last_active_seg_id = 0; }
    let mut tree = PartitionTree::new(BLOCK_128X128); with_refs(&mut tree, v as usize - 1); let mut sb = Superblock::new(BLOCK_128X128, 0, 0); let mut mode = 0;
    let o = coded(&e, &mut |t, o| { t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree); mode = t.y_mode; });
    let mut d = Dec::new(o); let d = &mut d; sym!(d, segment_id[0]);
    if k != 2 { check(sym!(d, skip[0]) == 0, "skip-recovered"); }
    if k == 2 || k == 3 { check(sym!(d, is_inter[0]) == 1, "inter-recovered"); }
    let got = if k == 3 { read_refs(d, false).0 } else if k == 0 { v as i8 } else { 1 };
    check(got as isize == if k == 0 || k == 3 { v } else { 1 }, "reference-recovered"); check(tree.ref_frame[0] == rf(got) && tree.ref_frame[1] == NONE && tree.is_inter, "reference-in-force");
    if k == 0 || k == 3 { check(sym!(d, new_mv[0]) == 1 && sym!(d, zero_mv[1]) == 0, "mode-recovered"); }
    check(mode == GLOBALMV as usize, "mode-in-force"); d.at_end("nothing-else");
}
fn single_of(mode: YMode, i: usize) -> YMode {
    match mode {
        NEAREST_NEARESTMV => NEARESTMV, NEAR_NEARMV => NEARMV, GLOBAL_GLOBALMV => GLOBALMV, NEW_NEWMV => NEWMV,
        NEAREST_NEWMV => if i == 0 { NEARESTMV } else { NEWMV }, NEW_NEARESTMV => if i == 0 { NEWMV } else { NEARESTMV },
        NEAR_NEWMV => if i == 0 { NEARMV } else { NEWMV }, NEW_NEARMV => if i == 0 { NEWMV } else { NEARMV }, m => m }
}
/// every mode with every choice among the candidates of the motion field
#[no_mangle] pub extern "C" fn vh_modes() {
    let compound = pickn("compound", 2) == 1; let n = pickn("candidates", 5); let drl = [pickn("drl0", 2), pickn("drl1", 2), pickn("drl2", 2)];
    let (mut f, e) = scene(4); f.reference_select = true; f.allow_high_precision_mv = false; f.force_integer_mv = 0;
    // up to four candidates, both components even and far from one another
    let cand = |k: usize, r: usize| mv(40 + 100 * k as isize + 2 * r as isize, -60 - 30 * k as isize - 4 * r as isize);
    for k in 0..n { let (y, x) = (2 * (k / 2), 2 * (k % 2)); let mut g = e.borrow_mut(); g.motion_field_mvs[1][y][x] = cand(k, 0); g.motion_field_mvs[5][y][x] = cand(k, 1); }
    let mut tree = PartitionTree::new(BLOCK_128X128); with_refs(&mut tree, if compound { 11 } else { 0 }); tree.drl_mode[0] = drl[0]; tree.drl_mode[1] = drl[1]; tree.drl_mode[2] = drl[2];
    let mode = if compound { const M: [YMode; 8] = [NEAREST_NEARESTMV, NEAR_NEARMV, NEAREST_NEWMV, NEW_NEARESTMV, NEAR_NEWMV, NEW_NEARMV, GLOBAL_GLOBALMV, NEW_NEWMV]; let m = M[pickn("mode", 8)]; tree.compound_mode = m; m }
        else { match pickn("mode", 4) { 0 => { tree.new_mv = false; NEWMV } 1 => { tree.zero_mv = false; GLOBALMV } 2 => { tree.zero_mv = true; tree.ref_mv = false; NEARESTMV } _ => { tree.zero_mv = true; tree.ref_mv = true; NEARMV } } };
    let want = [mv(1000, -334), mv(-22, 7778)]; tree.mvs = want; let mut sb = Superblock::new(BLOCK_128X128, 0, 0);
    let (mut found, mut stack, mut zero, mut inforce) = (0, [[mv(0, 0); 2]; 8], 0, 0);
    let o = coded(&e, &mut |t, o| { t.encode_block(&mut sb, 0, 0, &mut f, o, &mut tree); found = t.num_mv_found; stack = t.ref_stack_mv; zero = t.zero_mv_context; inforce = t.y_mode; });
    check(found == n, "candidates-of-the-motion-field"); check(inforce == mode as usize, "mode-in-force");
    let mut d = Dec::new(o); let d = &mut d; check(sym!(d, skip[0]) == 0 && sym!(d, is_inter[0]) == 1, "inter-recovered"); check(read_refs(d, true) == pair(if compound { 11 } else { 0 }), "references-recovered");
    let got = if compound { ym(NEAREST_NEARESTMV as usize + sym!(d, compound_mode[0])) } else if sym!(d, new_mv[0]) == 0 { NEWMV } else if sym!(d, zero_mv[zero]) == 0 { GLOBALMV } else if sym!(d, ref_mv[0]) == 0 { NEARESTMV } else { NEARMV };
    check(got == mode, "mode-recovered"); if compound { check(tree.compound_mode == mode, "block-keeps-its-mode"); }
    let near = single_of(mode, 0) == NEARMV || single_of(mode, 1) == NEARMV; let mut idx = near as usize;
    if near || mode == NEWMV || mode == NEW_NEWMV { let s = near as usize; for k in s..s + 2 { if found > k + 1 { let b = sym!(d, drl_mode[0]); check(b == drl[k], "candidate-choice-recovered"); if b == 0 { idx = k; break; } idx = k + 1; } } }
    for i in 0..1 + compound as usize {
        let m = single_of(mode, i); let pos = if m == NEARESTMV || m == NEWMV && found <= 1 { 0 } else { idx };
        let p = if m == GLOBALMV { mv(0, 0) } else { stack[pos][i] };
        if m == NEWMV { check(p + read_difference(d, 0, false, false) == want[i] && tree.mvs[i] == want[i], "vector-recovered"); } else { check(tree.mvs[i] == p, "vector-of-the-candidate"); }
        if m != GLOBALMV && pos < n { check(p == cand(pos, i), "candidate-in-order"); }
    }
    d.at_end("nothing-else");
}
fn vector(v: isize, int: bool, hp: bool) {
    let (which, other) = (pickn("component", 2), [0isize, 8, -24][pickn("other", 3)]);
    let diff = if which == 0 { mv(v, other) } else { mv(other, v) }; let compound = pickn("compound", 2) == 1;
    let (mut f, e) = scene(1); f.force_integer_mv = int as u8 as _; f.allow_high_precision_mv = hp; let mut tree = PartitionTree::new(BLOCK_16X16); tree.ref_frame = [rf(1), rf(if compound { 7 } else { -1 })];
    let p = [mv(-40, 72), mv(16, -8)]; tree.mvs = [p[0] + diff, p[1] - diff]; let want = tree.mvs;
    let o = coded(&e, &mut |t, o| { t.ref_stack_mv[0] = p; t.num_mv_found = 1; t.y_mode = if compound { NEW_NEWMV } else { NEWMV } as usize; t.assign_mv(compound, &mut f, o, &mut tree); });
    let mut d = Dec::new(o); let d = &mut d;
    for i in 0..1 + compound as usize { check(p[i] + read_difference(d, 0, int, hp) == want[i], "vector-recovered"); }
    check(tree.mvs[0] == want[0] && tree.mvs[1] == want[1], "vector-in-force"); d.at_end("nothing-else");
}
#[no_mangle] pub extern "C" fn vh_vector() {
    let prec = pickn("precision", 3); let c = pickn("class", 11); let bits = if c == 0 { 1 } else { c }; let k = pickn("pattern", bits as u64 + 2);
    let d = if k == 0 { 0 } else if k == 1 { (1 << bits) - 1 } else { 1 << (k - 2) }; let fr = pickn("fraction", 8); assume(prec == 2 || fr & 1 == 1); assume(prec > 0 || fr == 7);
    let m = (if c == 0 { 0 } else { 8 << c }) + d * 8 + fr as isize + 1; let v = if pickn("negative", 2) == 1 { -m } else { m }; vector(v, prec == 0, prec == 2);
}
#[no_mangle] pub extern "C" fn vh_vector_all() {
    let v = split(any_in("difference", 0, 32769)) as isize - 16384; let prec = pickn("precision", 3); assume(prec == 2 || v % 2 == 0); assume(prec > 0 || v % 8 == 0); vector(v, prec == 0, prec == 2);
}
/// intra block copy: the prediction is the first candidate that is not zero, else the block a superblock above or, in the first row, to the left past the delay
#[no_mangle] pub extern "C" fn vh_copy() {
    let big = pickn("superblock128", 2) == 1; let sz: isize = if big { 128 } else { 64 }; let start = 32 * pickn("tile_row", 2); let row = start + pickn("row", 40); let k = pickn("candidates", 3);
    let diff = mv([0isize, 8, -1024][pickn("dx", 3)], [0isize, -16, 512][pickn("dy", 3)]);
    let (mut f, e) = scene(1); f.force_integer_mv = 1; f.allow_high_precision_mv = false; e.borrow_mut().use_128x128_superblock = big;
    let p = match k { 0 => mv(-8, 16), 1 => mv(0, -24), _ => if row as isize * 4 - sz < start as isize * 4 { mv(-(sz + 256) * 8, 0) } else { mv(0, -sz * 8) } };
    let mut tree = PartitionTree::new(BLOCK_8X8); tree.use_intrabc = true; tree.mvs[0] = p + diff; let want = tree.mvs[0];
    let o = coded(&e, &mut |t, o| { t.mi_row = row; t.mi_row_start = start; t.mi_row_end = 128; t.ref_stack_mv[0][0] = if k == 0 { p } else { mv(0, 0) }; t.ref_stack_mv[1][0] = if k < 2 { mv(0, -24) } else { mv(0, 0) }; t.assign_mv(false, &mut f, o, &mut tree); });
    let mut d = Dec::new(o); let d = &mut d; check(p + read_difference(d, 1, true, false) == want && tree.mvs[0] == want, "vector-recovered"); d.at_end("nothing-else");
}
harnesses!(vh_refs, vh_segment_refs, vh_modes, vh_vector, vh_vector_all, vh_copy);
