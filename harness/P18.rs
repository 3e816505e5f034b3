// P18: every mode, reference and partition syntax element is coded with the distribution the AV1 format selects for it.
//@ run vh_counts workers=2
//@ run vh_neighbours workers=2
//@ run vh_edges workers=2
//@ run vh_comp_mode
//@ run vh_comp_ref_type workers=2
//@ run vh_interp workers=2
//@ run vh_compound workers=2
//@ run vh_order_dist
//@ run vh_partition
//@ run vh_split_or
//@ run vh_tx_depth workers=2
//@ run vh_txfm_split workers=4
//@ run vh_intra workers=2
//@ run vh_uv workers=2
//@ run vh_cfl workers=2
//@ run vh_segment
//@ run vh_block_tables workers=2
//@ run vh_vectors workers=2
//@ run vh_palette workers=2
//@ run vh_misc
//@ run vh_tx_type workers=2
//@ bounds every symbol value of every element; every availability of the above and left block and every consistent pair of their reference frames, sizes, transform sizes, filters and flags; every block size, partition context, mode and context argument in its range
//@ outside distributions other than the default ones at the start (adaptation itself is P04); neighbours whose flags contradict their reference frames; palette colour hashes that cannot occur; partition flags of 8x8 blocks at a frame edge (cannot occur)
include!("common.rs");
include!("blk.rs");
/// a neighbour with any consistent references: intra (INTRA,NONE), single, inter-intra or compound
#[derive(Copy, Clone)] struct N { av: bool, r0: i8, r1: i8 }
fn any_refs(n: &str, av: bool) -> N {
    let r0 = any::<i8>(n); let r1 = any::<i8>(n);
    assume(r0 >= 0 && r0 <= 7 && r1 >= -1 && r1 <= 7 && (r0 > 0 || r1 == -1));
    N { av: av, r0: r0, r1: r1 }
}
fn put(m: &mut ModeInfo, n: N) { m.ref_frame = [rf(n.r0), rf(n.r1)]; m.intra = n.r0 <= 0; m.is_inter = n.r0 > 0; m.single = n.r1 <= 0; }
fn avail() -> (bool, bool) { let a = pickn("avail", 4); (a & 1 == 1, a & 2 == 2) }
/// current block at (1,1); above at (0,1), left at (1,0); the diagonal (0,0) is never consulted
fn frame(u: Option<ModeInfo>, l: Option<ModeInfo>, cur: Option<ModeInfo>) -> Frame {
    let mut f = Frame::new(FrameType::INTER_FRAME, 8, 8);
    let mut d = mi0(); d.intra = true; d.skip = true; d.skip_mode = 1; d.ref_frame = [ALTREF_FRAME, BWDREF_FRAME];
    f.mis = vec![vec![Some(d), u], vec![l, cur]]; f
}
fn refs_frame() -> (Frame, N, N) {
    let (au, al) = avail();
    let (u, l) = (any_refs("above", au), any_refs("left", al));
    let (mut mu, mut ml) = (mi0(), mi0()); put(&mut mu, u); put(&mut ml, l);
    (frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mi0())), u, l)
}
fn cnt(u: N, l: N, rs: &[i8]) -> u64 {
    let mut n = 0u64;
    for &r in rs { for x in [u, l].iter() { if x.av { n += (x.r0 == r) as u64 + (x.r1 == r) as u64; } } }
    n
}
fn cctx(a: u64, b: u64) -> usize { split((a >= b) as u64 + (a > b) as u64) as usize }

#[no_mangle] pub extern "C" fn vh_counts() {
    let (mut f, u, l) = refs_frame();
    let which = pickn("which", 14); let s = pickn("symbol", 2);
    let f = &mut f;
    let (fwd, bwd): (&[i8], &[i8]) = (&[1, 2, 3, 4], &[5, 6, 7]);
    match which {
        0 => { let c = cctx(cnt(u, l, &[1, 2]), cnt(u, l, &[3, 4])); elem!("comp_ref", s, |e, o, t| e.encode_comp_ref(o, t, s, f, 1, 1), comp_ref[c][0]) }
        1 => { let c = cctx(cnt(u, l, &[1]), cnt(u, l, &[2])); elem!("comp_ref_p1", s, |e, o, t| e.encode_comp_ref_p1(o, t, s, f, 1, 1), comp_ref[c][1]) }
        2 => { let c = cctx(cnt(u, l, &[3]), cnt(u, l, &[4])); elem!("comp_ref_p2", s, |e, o, t| e.encode_comp_ref_p2(o, t, s, f, 1, 1), comp_ref[c][2]) }
        3 => { let c = cctx(cnt(u, l, &[5, 6]), cnt(u, l, &[7])); elem!("comp_bwdref", s, |e, o, t| e.encode_comp_bwdref(o, t, s, f, 1, 1), comp_bwd_ref[c][0]) }
        4 => { let c = cctx(cnt(u, l, &[5]), cnt(u, l, &[6])); elem!("comp_bwdref_p1", s, |e, o, t| e.encode_comp_bwdref_p1(o, t, s, f, 1, 1), comp_bwd_ref[c][1]) }
        5 => { let c = cctx(cnt(u, l, fwd), cnt(u, l, bwd)); elem!("single_ref_p1", s, |e, o, t| e.encode_single_ref_p1(o, t, s, f, 1, 1), single_ref[c][0]) }
        6 => { let c = cctx(cnt(u, l, &[5, 6]), cnt(u, l, &[7])); elem!("single_ref_p2", s, |e, o, t| e.encode_single_ref_p2(o, t, s, f, 1, 1), single_ref[c][1]) }
        7 => { let c = cctx(cnt(u, l, &[1, 2]), cnt(u, l, &[3, 4])); elem!("single_ref_p3", s, |e, o, t| e.encode_single_ref_p3(o, t, s, f, 1, 1), single_ref[c][2]) }
        8 => { let c = cctx(cnt(u, l, &[1]), cnt(u, l, &[2])); elem!("single_ref_p4", s, |e, o, t| e.encode_single_ref_p4(o, t, s, f, 1, 1), single_ref[c][3]) }
        9 => { let c = cctx(cnt(u, l, &[3]), cnt(u, l, &[4])); elem!("single_ref_p5", s, |e, o, t| e.encode_single_ref_p5(o, t, s, f, 1, 1), single_ref[c][4]) }
        10 => { let c = cctx(cnt(u, l, &[5]), cnt(u, l, &[6])); elem!("single_ref_p6", s, |e, o, t| e.encode_single_ref_p6(o, t, s, f, 1, 1), single_ref[c][5]) }
        11 => { let c = cctx(cnt(u, l, fwd), cnt(u, l, bwd)); elem!("uni_comp_ref", s, |e, o, t| e.encode_uni_comp_ref(o, t, s, f, 1, 1), uni_comp_ref[c][0]) }
        12 => { let c = cctx(cnt(u, l, &[2]), cnt(u, l, &[3, 4])); elem!("uni_comp_ref_p1", s, |e, o, t| e.encode_uni_comp_ref_p1(o, t, s, f, 1, 1), uni_comp_ref[c][1]) }
        _ => { let c = cctx(cnt(u, l, &[3]), cnt(u, l, &[4])); elem!("uni_comp_ref_p2", s, |e, o, t| e.encode_uni_comp_ref_p2(o, t, s, f, 1, 1), uni_comp_ref[c][2]) }
    }
}
/// elements whose context adds a flag of each neighbour
#[no_mangle] pub extern "C" fn vh_neighbours() {
    let (au, al) = avail(); let s = pickn("symbol", 2); let which = pickn("which", 5);
    let (fu, fv) = (any_bool("flag_above"), any_bool("flag_left"));
    let (mut mu, mut ml) = (mi0(), mi0());
    { let mut set = |m: &mut ModeInfo, b: bool| match which {
        0 => m.skip = b, 1 => m.skip_mode = b as usize, 2 => m.seg_id_predicted = b as usize,
        3 => m.palette_size[0] = if b { 2 + any_in("colours", 0, 7) as usize } else { 0 },
        _ => put(m, N { av: true, r0: if b { 0 } else { any_in("ref", 1, 8) as i8 }, r1: -1 }) };
      set(&mut mu, fu); set(&mut ml, fv); }
    let (bu, bl) = (au && fu, al && fv);
    let mut f = frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mi0())); let f = &mut f;
    let sum = split(bu as u64 + bl as u64) as usize;
    match which {
        0 => elem!("skip", s, |e, o, t| e.encode_skip(o, t, s, f, 1, 1), skip[sum]),
        1 => elem!("skip_mode", s, |e, o, t| e.encode_skip_mode(o, t, s, f, 1, 1), skip_mode[sum]),
        2 => elem!("seg_id_predicted", s, |e, o, t| e.encode_seg_id_predicted(o, t, s, 1, 1, f), segment_id_predicted[sum]),
        3 => { let b = pickn("bsize_ctx", 7); elem!("has_palette_y", s, |e, o, t| e.encode_has_palette_y(o, t, s, f, 1, 1, b), palette_y_mode[b][sum]) }
        _ => {
            let c = split(if au && al { if fu && fv { 3 } else { (fu || fv) as u64 } } else if au || al { 2 * (bu || bl) as u64 } else { 0 }) as usize;
            elem!("is_inter", s, |e, o, t| e.encode_is_inter(o, t, s == 1, 1, 1, f), is_inter[c])
        }
    }
}
fn back(r: i8) -> bool { r >= 5 }
#[no_mangle] pub extern "C" fn vh_comp_mode() {
    let (mut f, u, l) = refs_frame(); let f = &mut f; let s = pickn("symbol", 2);
    let (us, ls, ui, li) = (u.r1 <= 0, l.r1 <= 0, u.r0 <= 0, l.r0 <= 0);
    let c = if u.av && l.av {
        if us && ls { (back(u.r0) ^ back(l.r0)) as u64 } else if us { 2 + (back(u.r0) || ui) as u64 } else if ls { 2 + (back(l.r0) || li) as u64 } else { 4 }
    } else if u.av { if us { back(u.r0) as u64 } else { 3 } } else if l.av { if ls { back(l.r0) as u64 } else { 3 } } else { 1 };
    let c = split(c) as usize;
    elem!("comp_mode", s, |e, o, t| e.encode_comp_mode(o, t, s, f, 1, 1), comp_mode[c])
}
fn samedir(a: i8, b: i8) -> bool { a > 0 && b > 0 && (a >= 5) == (b >= 5) }
#[no_mangle] pub extern "C" fn vh_comp_ref_type() {
    let (mut f, u, l) = refs_frame(); let f = &mut f; let s = pickn("symbol", 2);
    let uc = u.av && u.r0 > 0 && u.r1 > 0; let lc = l.av && l.r0 > 0 && l.r1 > 0;
    let (uu, lu) = (uc && samedir(u.r0, u.r1), lc && samedir(l.r0, l.r1));
    let c = if u.av && l.av && u.r0 > 0 && l.r0 > 0 {
        let sd = samedir(u.r0, l.r0) as u64;
        if !uc && !lc { 1 + 2 * sd } else if !uc { if lu { 3 + sd } else { 1 } } else if !lc { if uu { 3 + sd } else { 1 } }
        else if !uu && !lu { 0 } else if !(uu && lu) { 2 } else { 3 + ((u.r0 == 5) == (l.r0 == 5)) as u64 }
    } else if u.av && l.av { if uc { 1 + 2 * uu as u64 } else if lc { 1 + 2 * lu as u64 } else { 2 } }
    else if uc { 4 * uu as u64 } else if lc { 4 * lu as u64 } else { 2 };
    let c = split(c) as usize;
    elem!("comp_ref_type", s, |e, o, t| e.encode_comp_ref_type(o, t, s, f, 1, 1), comp_ref_type[c])
}
#[no_mangle] pub extern "C" fn vh_interp() {
    let (au, al) = avail(); let dir = pickn("dir", 2); let s = pickn("symbol", 3);
    let (u, l, cur) = (any_refs("above", au), any_refs("left", al), any_refs("current", true)); assume(cur.r0 > 0);
    let (mut mu, mut ml, mut mc) = (mi0(), mi0(), mi0()); put(&mut mu, u); put(&mut ml, l); put(&mut mc, cur);
    let fu = [any_in("filter", 0, 4) as u8, any_in("filter", 0, 4) as u8]; let fv = [any_in("filter", 0, 4) as u8, any_in("filter", 0, 4) as u8];
    mu.interp_filter = [fl(fu[0]), fl(fu[1])]; ml.interp_filter = [fl(fv[0]), fl(fv[1])];
    let tu = if au && (u.r0 == cur.r0 || u.r1 == cur.r0) { fu[dir] } else { 3 };
    let tl = if al && (l.r0 == cur.r0 || l.r1 == cur.r0) { fv[dir] } else { 3 };
    let m = if tl == tu { tl } else if tl == 3 { tu } else if tu == 3 { tl } else { 3 };
    let c = split((dir as u64 * 2 + (cur.r1 > 0) as u64) * 4 + m as u64) as usize;
    let mut f = frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mc)); let f = &mut f;
    elem!("interp_filter", s, |e, o, t| e.encode_interp_filter(o, t, fl(s as u8), f, 1, 1, dir), interp_filter[c])
}
/// comp_group_idx and compound_idx: neighbours' own choices, with order-hint distances equal or not
#[no_mangle] pub extern "C" fn vh_compound() {
    let (au, al) = avail(); let s = pickn("symbol", 2); let idx = pickn("which", 2) == 1;
    let (u, l) = (any_refs("above", au), any_refs("left", al));
    let (mut mu, mut ml) = (mi0(), mi0()); put(&mut mu, u); put(&mut ml, l);
    let v = [any_bool("group_above"), any_bool("idx_above"), any_bool("group_left"), any_bool("idx_left")];
    mu.comp_group_idx = v[0] as usize; mu.compound_idx = v[1] as usize; ml.comp_group_idx = v[2] as usize; ml.compound_idx = v[3] as usize;
    let mut f = frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mi0())); let f = &mut f;
    let part = |n: N, b: bool, alt: u64| if !n.av { 0 } else if n.r1 > 0 { b as u64 } else if n.r0 == 7 { alt } else { 0 };
    if idx {
        let eq = pickn("equal", 2); let hints = [0usize, 1, 2, 3, 6, 7, 5, 4];
        let refs = if eq == 1 { [LAST3_FRAME, ALTREF2_FRAME] } else { [LAST2_FRAME, ALTREF2_FRAME] };   // current hint 4: distances 1/1 and 2/1
        let c = split(eq as u64 * 3 + part(u, v[1], 1) + part(l, v[3], 1)) as usize;
        elem!("compound_idx", s, |e, o, t| e.encode_compound_idx(o, t, s, &hints, 4, &refs, f, 1, 1, true, 3), compound_idx[c])
    } else {
        let x = part(u, v[0], 3) + part(l, v[2], 3);
        let c = split(if x > 5 { 5 } else { x }) as usize;
        elem!("comp_group_idx", s, |e, o, t| e.encode_comp_group_idx(o, t, s, f, 1, 1), comp_group_idx[c])
    }
}
/// the distance part of compound_idx for any order hints
#[no_mangle] pub extern "C" fn vh_order_dist() {
    let bits = pickn("bits", 8) + 1; let on = any_bool("order_hints");
    let m = (1u64 << bits) - 1;
    let (a, b, cur) = (any_in("hint0", 0, 256) & m, any_in("hint1", 0, 256) & m, any_in("current", 0, 256) & m);
    let dist = |x: u64| -> u64 { let d = x.wrapping_sub(cur) & m; if d > m / 2 { m + 1 - d } else { d } };
    let mut f = frame(None, None, Some(mi0())); let f = &mut f;
    let c = split(if !on || dist(a) == dist(b) { 3 } else { 0 }) as usize;
    let mut hints = [0usize; 8]; hints[1] = a as usize; hints[7] = b as usize;
    elem!("compound_idx", 1, |e, o, t| e.encode_compound_idx(o, t, 1, &hints, cur as usize, &[LAST_FRAME, ALTREF_FRAME], f, 1, 1, on, bits), compound_idx[c])
}
const SQ: [usize; 5] = [3, 6, 9, 12, 15];
fn part_cdf(t: &mut CDF, k: usize, c: usize) -> &mut [i32] { match k { 0 => &mut t.partition_w8[c], 1 => &mut t.partition_w16[c], 2 => &mut t.partition_w32[c], 3 => &mut t.partition_w64[c], _ => &mut t.partition_w128[c] } }
fn part(i: usize) -> Partition { unsafe { ::std::mem::transmute(i as u8) } }
#[no_mangle] pub extern "C" fn vh_partition() {
    let k = pickn("size", 5); let (a, l) = (any_bool("above"), any_bool("left"));
    let s = pickn("symbol", [4, 10, 10, 10, 8][k]); let c = split(l as u64 * 2 + a as u64) as usize;
    same("partition", &mut |e, o, t| e.encode_partition(o, t, bs(SQ[k]), a, l, part(s)), &mut |e, o, t| e.encode_symbol(s as i32, o, part_cdf(t, k, c)));
}
/// at the frame edge one bit decides between splitting and the only other choice: its probability is the sum over all
/// partition types that would also split that way
#[no_mangle] pub extern "C" fn vh_split_or() {
    let k = 1 + pickn("size", 4); let (a, l) = (any_bool("above"), any_bool("left")); let horz = pickn("horz", 2) == 1;
    let s = pickn("symbol", 2); let c = split(l as u64 * 2 + a as u64) as usize;
    let mut types: Vec<usize> = if horz { vec![2, 3, 4, 6, 7] } else { vec![1, 3, 4, 5, 6] };
    if k < 4 { types.push(if horz { 9 } else { 8 }); }
    same("split_or", &mut |e, o, t| if horz { e.encode_split_or_horz(o, t, bs(SQ[k]), a, l, s as i32) } else { e.encode_split_or_vert(o, t, bs(SQ[k]), a, l, s as i32) },
        &mut |e, o, t| {
            let mut p = 0; { let d = part_cdf(t, k, c); for &x in &types { p += d[x] - d[x - 1]; } }
            e.encode_symbol(s as i32, o, &mut [32768 - p, 32768, 0]);
        });
}
fn geom(n: &str, av: bool, m: &mut ModeInfo) -> (usize, usize, bool, bool) {
    if !av { return (0, 0, false, false); }
    let (b, x) = (any_in(n, 0, 22) as usize, any_in(n, 0, 19) as usize);
    m.mi_size = bs(b); m.tx_size = ts(x);
    let (inter, skip) = (any_bool(n), any_bool(n)); m.skip = skip;
    put(m, N { av: true, r0: inter as i8, r1: -1 });
    (b, x, inter, skip)
}
#[no_mangle] pub extern "C" fn vh_tx_depth() {
    let (au, al) = avail(); let mx = pickn("max_tx", 19); let depth = 1 + pickn("max_depth", 4); let s = pickn("symbol", if depth == 1 { 2 } else { 3 });
    let (mut mu, mut ml) = (mi0(), mi0());
    let (gu, gl) = (geom("above", au, &mut mu), geom("left", al, &mut ml));
    let w = if !au { 0 } else if gu.2 { BW[gu.0] } else { TW[gu.1] };
    let h = if !al { 0 } else if gl.2 { BH[gl.0] } else { TH[gl.1] };
    let c = split((w >= TW[mx]) as u64 + (h >= TH[mx]) as u64) as usize;
    let mut f = frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mi0())); let f = &mut f;
    same("tx_depth", &mut |e, o, t| e.encode_tx_depth(o, t, 1, 1, ts(mx), depth, f, s), &mut |e, o, t| {
        let d: &mut [i32] = match depth { 4 => &mut t.tx_64x64[c], 3 => &mut t.tx_32x32[c], 2 => &mut t.tx_16x16[c], _ => &mut t.tx_8x8[c] };
        e.encode_symbol(s as i32, o, d) });
}
/// row/col of the transform block: at the block's own edge the neighbouring block decides, inside it the transform already coded
#[no_mangle] pub extern "C" fn vh_txfm_split() {
    let (au, al) = avail(); let s = pickn("symbol", 2); let pos = pickn("inside", 4);
    let (in_r, in_c) = (pos & 1 == 1, pos & 2 == 2);
    assume((!in_r || au) && (!in_c || al));
    let b = 3 + pickn("block", 19); let tx = pickn("tx", 19); let (mw, mh) = (BW[b], BH[b]);
    assume(TW[tx] <= mw && TH[tx] <= mh && TW[tx] * TH[tx] > 16 && mw >= 8 && mh >= 8);
    let (mut mu, mut ml) = (mi0(), mi0());
    let (gu, gl) = (geom("above", au, &mut mu), geom("left", al, &mut ml));
    let w = if !in_r && !au { 64 } else if !in_r && gu.2 && gu.3 { BW[gu.0] } else { TW[gu.1] };
    let h = if !in_c && !al { 64 } else if !in_c && gl.2 && gl.3 { BH[gl.0] } else { TH[gl.1] };
    let big = if mw > mh { mw } else { mh }; let lg = match big { 8 => 1usize, 16 => 2, 32 => 3, _ => 4 };
    let up = match if TW[tx] > TH[tx] { TW[tx] } else { TH[tx] } { 4 => 0, 8 => 1usize, 16 => 2, 32 => 3, _ => 4 };
    let c = split((up != lg && lg > 1) as u64 * 3 + (4 - lg) as u64 * 6 + (w < TW[tx]) as u64 + (h < TH[tx]) as u64) as usize;
    let mut f = frame(if au { Some(mu) } else { None }, if al { Some(ml) } else { None }, Some(mi0())); let f = &mut f;
    let (mr, mc) = (if in_r { 0 } else { 1 }, if in_c { 0 } else { 1 });
    elem!("txfm_split", s, |e, o, t| e.encode_txfm_split(o, t, 1, 1, mr, mc, f, ts(tx), bs(b), s), txfm_split[c])
}
const GROUP: [usize; 22] = [0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 0, 0, 1, 1, 2, 2];
#[no_mangle] pub extern "C" fn vh_intra() {
    const MC: [usize; 13] = [0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0];
    match pickn("which", 5) {
        0 => { let (a, l) = (any_in("above", 0, 13) as usize, any_in("left", 0, 13) as usize); let s = pickn("symbol", 13);
               let (ca, cl) = (split(MC[a] as u64) as usize, split(MC[l] as u64) as usize);
               elem!("intra_frame_y_mode", s, |e, o, t| e.encode_intra_frame_y_mode(o, t, ym(s), ym(a), ym(l)), intra_frame_y_mode[ca][cl]) }
        1 => { let b = any_in("size", 0, 22) as usize; let s = pickn("symbol", 13); let c = split(GROUP[b] as u64) as usize;
               elem!("y_mode", s, |e, o, t| e.encode_y_mode(o, t, ym(s), bs(b)), y_mode[c]) }
        2 => { let m = pickn("mode", 8); let s = pickn("symbol", 7); elem!("angle_delta_y", s, |e, o, t| e.encode_angle_delta_y(o, t, ym(m + 1), s), angle_delta[m]) }
        3 => { let m = pickn("mode", 8); let s = pickn("symbol", 7); elem!("angle_delta_uv", s, |e, o, t| e.encode_angle_delta_uv(o, t, ym(m + 1), s), angle_delta[m]) }
        _ => { let s = pickn("symbol", 5); elem!("filter_intra_mode", s, |e, o, t| e.encode_filter_intra_mode(o, t, s), filter_intra_mode) }
    }
}
#[no_mangle] pub extern "C" fn vh_uv() {
    let b = pickn("size", 22); let lossless = any_bool("lossless"); let ss = pickn("subsampling", 3); let (sx, sy) = (ss > 0, ss > 1);
    let y = pickn("y_mode", 13);
    assume(!(sx && !sy && BH[b] > BW[b]));   // 4:2:2 halves only blocks that stay representable
    let (cw, ch) = ((BW[b] >> sx as usize), (BH[b] >> sy as usize));
    let c44 = cw <= 4 && ch <= 4;
    let cfl = split((if lossless { c44 } else { BW[b] <= 32 && BH[b] <= 32 }) as u64) == 1;
    let s = pickn("symbol", if cfl { 14 } else { 13 });
    if cfl { elem!("uv_mode", s, |e, o, t| e.encode_uv_mode(o, t, ym(s), ym(y), bs(b), lossless, sx, sy), uv_mode_cfl_allowed[y]) }
    else { elem!("uv_mode", s, |e, o, t| e.encode_uv_mode(o, t, ym(s), ym(y), bs(b), lossless, sx, sy), uv_mode_cfl_not_allowed[y]) }
}
/// joint sign s: (s+1)/3 and (s+1)%3 are the signs of the two planes (0 zero, 1 negative, 2 positive)
#[no_mangle] pub extern "C" fn vh_cfl() {
    let j = pickn("signs", 8); let (su, sv) = ((j + 1) / 3, (j + 1) % 3);
    match pickn("which", 3) {
        0 => elem!("cfl_alpha_signs", j, |e, o, t| e.encode_cfl_alpha_signs(o, t, j), cfl_sign),
        1 => { assume(su > 0); let s = pickn("symbol", 16); let c = (su.wrapping_sub(1)) * 3 + sv; elem!("cfl_alpha_u", s, |e, o, t| e.encode_cfl_alpha_u(o, t, s, j), cfl_alpha[c]) }
        _ => { assume(sv > 0); let s = pickn("symbol", 16); let c = (sv.wrapping_sub(1)) * 3 + su; elem!("cfl_alpha_v", s, |e, o, t| e.encode_cfl_alpha_v(o, t, s, j), cfl_alpha[c]) }
    }
}
#[no_mangle] pub extern "C" fn vh_segment() {
    let s = pickn("symbol", 8); let (u, l, ul) = (any::<i8>("up"), any::<i8>("left"), any::<i8>("upleft"));
    assume(u >= -1 && u < 8 && l >= -1 && l < 8 && ul >= -1 && ul < 8 && (ul < 0 || (u >= 0 && l >= 0)));
    let c = split(if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 }) as usize;
    elem!("segment_id", s, |e, o, t| e.encode_segment_id(o, t, s, u as isize, l as isize, ul as isize), segment_id[c])
}
/// elements selected by the block size alone
#[no_mangle] pub extern "C" fn vh_block_tables() {
    let b = pickn("size", 22); let z = bs(b);
    match pickn("which", 8) {
        0 => { let s = pickn("symbol", 2); elem!("use_filter_intra", s, |e, o, t| e.encode_use_filter_intra(o, t, s, b), filter_intra[b]) }
        1 => { let s = pickn("symbol", 3); elem!("motion_mode", s, |e, o, t| e.encode_motion_mode(o, t, s, z), motion_mode[b]) }
        2 => { let s = pickn("symbol", 2); elem!("compound_type", s, |e, o, t| e.encode_compound_type(o, t, s, z), compound_type[b]) }
        3 => { let s = pickn("symbol", 2); let g = GROUP[b]; elem!("interintra", s, |e, o, t| e.encode_interintra(o, t, s, z), inter_intra[g]) }
        4 => { let s = pickn("symbol", 4); let g = GROUP[b]; elem!("interintra_mode", s, |e, o, t| e.encode_interintra_mode(o, t, s, z), inter_intra_mode[g]) }
        5 => { let s = pickn("symbol", 16); elem!("wedge_index", s, |e, o, t| e.encode_wedge_index(o, t, s, z), wedge_index[b]) }
        6 => { let s = pickn("symbol", 2); elem!("wedge_interintra", s, |e, o, t| e.encode_wedge_interintra(o, t, s, z), wedge_inter_intra[b]) }
        _ => { let s = pickn("symbol", 2); elem!("use_obmc", s, |e, o, t| e.encode_use_obmc(o, t, s, z), use_obmc[b]) }
    }
}
/// motion vector components and prediction-list elements, whose contexts are given by the caller
#[no_mangle] pub extern "C" fn vh_vectors() {
    let (x, k) = (pickn("mv_ctx", 2), pickn("comp", 2));
    let mj = |i: usize| -> MvJoint { unsafe { ::std::mem::transmute(i as u8) } };
    match pickn("which", 14) {
        0 => { let s = pickn("symbol", 4); elem!("mv_joint", s, |e, o, t| e.encode_mv_joint(o, t, mj(s), x), mv_joint[x]) }
        1 => { let s = pickn("symbol", 2); elem!("mv_sign", s, |e, o, t| e.encode_mv_sign(o, t, s, x, k), mv_sign[x][k]) }
        2 => { let s = pickn("symbol", 11); elem!("mv_class", s, |e, o, t| e.encode_mv_class(o, t, s, x, k), mv_class[x][k]) }
        3 => { let s = pickn("symbol", 2); elem!("mv_class0_bit", s, |e, o, t| e.encode_mv_class0_bit(o, t, s, x, k), mv_class0_bit[x][k]) }
        4 => { let s = pickn("symbol", 4); let b = pickn("bit", 2); elem!("mv_class0_fr", s, |e, o, t| e.encode_mv_class0_fr(o, t, s, b, x, k), mv_class0_fr[x][k][b]) }
        5 => { let s = pickn("symbol", 2); elem!("mv_class0_hp", s, |e, o, t| e.encode_mv_class0_hp(o, t, s, x, k), mv_class0_hp[x][k]) }
        6 => { let s = pickn("symbol", 4); elem!("mv_fr", s, |e, o, t| e.encode_mv_fr(o, t, s, x, k), mv_fr[x][k]) }
        7 => { let s = pickn("symbol", 2); elem!("mv_hp", s, |e, o, t| e.encode_mv_hp(o, t, s, x, k), mv_hp[x][k]) }
        8 => { let s = pickn("symbol", 2); let i = pickn("i", 10); elem!("mv_bit", s, |e, o, t| e.encode_mv_bit(o, t, s, i, x, k), mv_bit[x][k][i]) }
        9 => { let s = pickn("symbol", 2); let c = pickn("ctx", 6); elem!("new_mv", s, |e, o, t| e.encode_new_mv(o, t, s, c), new_mv[c]) }
        10 => { let s = pickn("symbol", 2); let c = pickn("ctx", 2); elem!("zero_mv", s, |e, o, t| e.encode_zero_mv(o, t, s, c), zero_mv[c]) }
        11 => { let s = pickn("symbol", 2); let c = pickn("ctx", 6); elem!("ref_mv", s, |e, o, t| e.encode_ref_mv(o, t, s, c), ref_mv[c]) }
        12 => { let s = pickn("symbol", 2); let st = [any_in("drl", 0, 3) as usize, any_in("drl", 0, 3) as usize, any_in("drl", 0, 3) as usize]; let i = pickn("idx", 3); let c = split(st[i] as u64) as usize;
                elem!("drl_mode", s, |e, o, t| e.encode_drl_mode(o, t, s, i, &st), drl_mode[c]) }
        _ => { let s = pickn("symbol", 8); let (r, n) = (pickn("ref_mv_ctx", 6), pickn("new_mv_ctx", 6));
               const MAP: [[usize; 5]; 3] = [[0, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]];
               let c = MAP[r >> 1][if n < 4 { n } else { 4 }];
               elem!("compound_mode", s, |e, o, t| e.encode_compound_mode(o, t, s, r, n), compound_mode[c]) }
    }
}
#[no_mangle] pub extern "C" fn vh_palette() {
    match pickn("which", 4) {
        0 => { let s = pickn("symbol", 2); let n = any_in("size", 0, 9) as usize; assume(n != 1); let c = split((n > 0) as u64) as usize; elem!("has_palette_uv", s, |e, o, t| e.encode_has_palette_uv(o, t, s, n), palette_uv_mode[c]) }
        1 => { let s = pickn("symbol", 7); let b = pickn("ctx", 7); elem!("palette_size_y", s, |e, o, t| e.encode_palette_size_y_minus_2(o, t, s, b), palette_y_size[b]) }
        2 => { let s = pickn("symbol", 7); let b = pickn("ctx", 7); elem!("palette_size_uv", s, |e, o, t| e.encode_palette_size_uv_minus_2(o, t, s, b), palette_uv_size[b]) }
        _ => {
            let n = 2 + pickn("size", 7); let s = pickn("symbol", n as u64); let uv = pickn("uv", 2) == 1;
            let (h, c) = [(2usize, 0usize), (5, 4), (6, 3), (7, 2), (8, 1)][pickn("hash", 5)];
            same("palette_color_idx", &mut |e, o, t| if uv { e.encode_palette_color_idx_uv(o, t, s, h, n) } else { e.encode_palette_color_idx_y(o, t, s, h, n) },
                &mut |e, o, t| {
                    let d: &mut [i32] = match (uv, n) {
                        (false, 2) => &mut t.palette_size_2_y_color[c], (false, 3) => &mut t.palette_size_3_y_color[c], (false, 4) => &mut t.palette_size_4_y_color[c], (false, 5) => &mut t.palette_size_5_y_color[c],
                        (false, 6) => &mut t.palette_size_6_y_color[c], (false, 7) => &mut t.palette_size_7_y_color[c], (false, _) => &mut t.palette_size_8_y_color[c],
                        (true, 2) => &mut t.palette_size_2_uv_color[c], (true, 3) => &mut t.palette_size_3_uv_color[c], (true, 4) => &mut t.palette_size_4_uv_color[c], (true, 5) => &mut t.palette_size_5_uv_color[c],
                        (true, 6) => &mut t.palette_size_6_uv_color[c], (true, 7) => &mut t.palette_size_7_uv_color[c], (true, _) => &mut t.palette_size_8_uv_color[c] };
                    e.encode_symbol(s as i32, o, d) });
        }
    }
}
#[no_mangle] pub extern "C" fn vh_misc() {
    match pickn("which", 5) {
        0 => { let s = pickn("symbol", 4); elem!("delta_q_abs", s, |e, o, t| e.encode_delta_q_abs(o, t, s), delta_q) }
        1 => { let s = pickn("symbol", 4); let multi = pickn("multi", 2); let i = pickn("i", 4);
               if multi == 0 { elem!("delta_lf_abs", s, |e, o, t| e.encode_delta_lf_abs(o, t, s, 0, i), delta_lf) }
               else { elem!("delta_lf_abs", s, |e, o, t| e.encode_delta_lf_abs(o, t, s, 1, i), delta_lf_multi[i]) } }
        2 => { let s = pickn("symbol", 2); elem!("use_wiener", s, |e, o, t| e.encode_use_wiener(o, t, s), use_wiener) }
        3 => { let s = pickn("symbol", 2); elem!("use_sgrproj", s, |e, o, t| e.encode_use_sgrproj(o, t, s), use_sgrproj) }
        _ => { let s = pickn("symbol", 3); elem!("restoration_type", s, |e, o, t| e.encode_restoration_type(o, t, s), restoration_type) }
    }
}
/// transform types are coded as their position in the set the block may use
const SETS: [&'static [TxType]; 5] = [
    &[IDTX, DCT_DCT, V_DCT, H_DCT, ADST_ADST, ADST_DCT, DCT_ADST], &[IDTX, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST],
    &[IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST],
    &[IDTX, V_DCT, H_DCT, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST], &[IDTX, DCT_DCT]];
#[no_mangle] pub extern "C" fn vh_tx_type() {
    let tx = pickn("tx", 19); let (w, h) = (TW[tx], TH[tx]); let (mn, mx) = if w < h { (w, h) } else { (h, w) };
    let red = any_bool("reduced"); let inter = pickn("inter", 2) == 1;
    let set = split(if mx > 32 || (!inter && mx > 16) { 9 } else if inter { if red || mx == 32 { 4 } else if mn == 16 { 3 } else { 2 } } else if red || mn == 16 { 1 } else { 0 }) as usize;
    assume(set < 5);
    let q = match mn { 4 => 0usize, 8 => 1, 16 => 2, _ => 3 };
    let ty = SETS[set]; let s = pickn("symbol", ty.len() as u64); let v = ty[s];
    let real_set = get_tx_set(ts(tx), inter, red);
    if inter {
        match set { 2 => elem!("inter_tx_type", s, |e, o, t| e.encode_inter_tx_type(o, t, v, ts(tx), real_set), inter_tx_type_set1[q]),
                    3 => elem!("inter_tx_type", s, |e, o, t| e.encode_inter_tx_type(o, t, v, ts(tx), real_set), inter_tx_type_set2[q]),
                    _ => elem!("inter_tx_type", s, |e, o, t| e.encode_inter_tx_type(o, t, v, ts(tx), real_set), inter_tx_type_set3[q]) }
    } else {
        let fi = any_bool("filter_intra"); let fm = any_in("filter_mode", 0, 5) as usize; let y = any_in("y_mode", 0, 13) as usize;
        let d = split(if fi { [0u64, 1, 2, 6, 0][fm] } else { y as u64 }) as usize;
        match set { 0 => elem!("intra_tx_type", s, |e, o, t| e.encode_intra_tx_type(o, t, v, real_set, ts(tx), fi, fm, ym(y)), intra_tx_type_set1[q][d]),
                    _ => elem!("intra_tx_type", s, |e, o, t| e.encode_intra_tx_type(o, t, v, real_set, ts(tx), fi, fm, ym(y)), intra_tx_type_set2[q][d]) }
    }
}
/// the neighbours are the blocks directly above and to the left, wherever the block lies; none outside the frame
#[no_mangle] pub extern "C" fn vh_edges() {
    let (r, c) = (pickn("row", 3), pickn("col", 3)); let s = pickn("symbol", 2); let there = pickn("there", 4);
    let mut f = Frame::new(FrameType::INTER_FRAME, 8, 8); let mut rows = vec![];
    let mut set = [[false; 3]; 3];
    for i in 0..3 { let mut v = vec![]; for j in 0..3 { let b = any_bool("skip"); set[i][j] = b; let mut m = mi0(); m.skip = b; m.skip_mode = b as usize;
        let gone = (there & 1 == 1 && i + 1 == r && j == c) || (there & 2 == 2 && i == r && j + 1 == c); v.push(if gone { None } else { Some(m) }); } rows.push(v); }
    f.mis = rows;
    let up = r > 0 && there & 1 == 0 && set[if r > 0 { r - 1 } else { 0 }][c]; let le = c > 0 && there & 2 == 0 && set[r][if c > 0 { c - 1 } else { 0 }];
    let k = split(up as u64 + le as u64) as usize; let f = &mut f;
    if pickn("which", 2) == 0 { elem!("skip", s, |e, o, t| e.encode_skip(o, t, s, f, r, c), skip[k]) } else { elem!("skip_mode", s, |e, o, t| e.encode_skip_mode(o, t, s, f, r, c), skip_mode[k]) }
}
harnesses![vh_counts, vh_neighbours, vh_edges, vh_comp_mode, vh_comp_ref_type, vh_interp, vh_compound, vh_order_dist, vh_partition, vh_split_or, vh_tx_depth, vh_txfm_split, vh_intra, vh_uv, vh_cfl, vh_segment, vh_block_tables, vh_vectors, vh_palette, vh_misc, vh_tx_type];
