// P27: the candidate list of a block is what its neighbours and the motion field offer.
//@ run vh_global workers=2
//@ run vh_vector workers=2
//@ run vh_mode workers=1
//@ run vh_match workers=2
//@ run vh_scan workers=3
//@ run vh_field workers=3
//@ run vh_first workers=1
//@ bounds global vectors: every model type with each parameter over its coded range (the others fixed), at 6 places, each precision, one and two references; a neighbour: each component of its vectors over 16 bits, every mode with each model type, every match of its references in 7 sizes and 3 places; scans: every block size at 6 positions (one and four tiles), neighbours of 5 sizes, vectors distinct, repeated and of other references, the block at the top right there, intra or not coded; motion field: every block size at 4 positions, missing, repeated and distinct vectors, each component of the first sample over 16 bits
//@ outside what the code does not do yet: the scans of farther rows and columns, the extension samples of the motion field, the extra search, sorting, context derivation and clamping of the list
include!("common.rs");
include!("blk.rs");
include!("tile.rs");

const INVALID: isize = -1 << 15;
fn mv(x: isize, y: isize) -> MotionVector { MotionVector::new(x, y) }
fn val(n: &str, r: u64) -> isize { any_in(n, 0, 2 * r + 1) as isize - r as isize }
fn precision(f: &mut Frame) -> usize { let p = pickn("precision", 3); f.force_integer_mv = (p == 0) as u8 as _; f.allow_high_precision_mv = p == 2; p }
fn lower(v: isize, p: usize) -> isize {
    if p == 2 { v } else if p == 0 { let a = if v < 0 { -v } else { v }; let k = (a + 3) / 8 * 8; if v < 0 { -k } else { k } } else if v & 1 == 0 { v } else if v > 0 { v - 1 } else { v + 1 }
}
fn lower2(v: MotionVector, p: usize) -> MotionVector { mv(lower(v.x, p), lower(v.y, p)) }
struct List { n: usize, mv: [[MotionVector; 2]; 8], w: [usize; 8], fresh: usize, found: bool, close: usize, zero: usize }
impl List {
    fn new() -> List { List { n: 0, mv: [[mv(0, 0); 2]; 8], w: [0; 8], fresh: 0, found: false, close: 0, zero: 0 } }
    fn put(&mut self, v: [MotionVector; 2], two: bool, w: usize) {
        for k in 0..self.n { if self.mv[k][0] == v[0] && (!two || self.mv[k][1] == v[1]) { self.w[k] += w; return; } }
        if self.n < 8 { self.mv[self.n] = v; self.w[self.n] = w; self.n += 1; }
    }
    fn neighbour(&mut self, mi: &ModeInfo, w: usize, s: &Set) {
        if !mi.is_inter { return; }
        let fresh = match mi.y_mode { NEWMV | NEW_NEWMV | NEAR_NEWMV | NEW_NEARMV | NEAREST_NEWMV | NEW_NEARESTMV => 1, _ => 0 };
        if s.two {
            if mi.ref_frame != s.refs { return; }
            let mut v = mi.mvs; for k in 0..2 { if mi.y_mode == GLOBAL_GLOBALMV && s.typ[k] > 1 { v[k] = s.global[k]; } v[k] = lower2(v[k], s.p); }
            self.put(v, true, w); self.fresh += fresh; self.found = true;
        } else {
            for k in 0..2 { if mi.ref_frame[k] == s.refs[0] {
                let big = BW[mi.mi_size as usize] >= 8 && BH[mi.mi_size as usize] >= 8;
                let v = if (mi.y_mode == GLOBALMV || mi.y_mode == GLOBAL_GLOBALMV) && s.typ[0] > 1 && big { s.global[0] } else { mi.mvs[k] };
                self.put([lower2(v, s.p), mv(0, 0)], false, w); self.fresh += fresh; self.found = true;
            } }
        }
    }
}
struct Set { two: bool, refs: [RefFrame; 2], typ: [usize; 2], global: [MotionVector; 2], p: usize }
/// the list expected for a block of size `b` at `row`, `col` of the tile [r0, r1) x [c0, c1)
fn expect(f: &mut Frame, e: &Rc<RefCell<EncoderContext>>, s: &Set, b: usize, row: usize, col: usize, t: [usize; 4]) -> List {
    let mut l = List::new(); let (w4, h4) = (BW[b] / 4, BH[b] / 4); let (mut above, mut left) = (false, false);
    if row > t[0] {
        let end = [w4, f.mi_cols() - col, 16].iter().cloned().min().unwrap(); let mut i = 0;
        while i < end && col + i < t[3] { let mi = f.get_mi(row - 1, col + i).unwrap(); let mut n = w4.min(BW[mi.mi_size as usize] / 4); if w4 >= 16 && n < 4 { n = 4; } l.neighbour(&mi, 2 * n, s); i += n; }
        above = l.found;
    }
    l.found = false;
    if col > t[2] {
        let end = [h4, f.mi_rows() - row, 16].iter().cloned().min().unwrap(); let mut i = 0;
        while i < end && row + i < t[1] { let mi = f.get_mi(row + i, col - 1).unwrap(); let mut n = h4.min(BH[mi.mi_size as usize] / 4); if h4 >= 16 && n < 4 { n = 4; } l.neighbour(&mi, 2 * n, s); i += n; }
        left = l.found;
    }
    l.found = false;
    if w4 <= 16 && h4 <= 16 && row > t[0] && col + w4 < t[3] { if let Some(mi) = f.get_mi(row - 1, col + w4) { if mi.ref_frame[0] != NONE { l.neighbour(&mi, 4, s); } } }
    l.close = (above || l.found) as usize + left as usize;
    for k in 0..l.n { l.w[k] += 640; }
    if f.use_ref_frame_mvs {
        let x = e.borrow(); let (dy, dx) = (if h4 >= 16 { 4 } else { 2 }, if w4 >= 16 { 4 } else { 2 }); let (mut i, first) = (0, 0);
        while i < h4.min(16) {
            let mut j = 0;
            while j < w4.min(16) {
                let (y, h) = ((row + i) | 1, (col + j) | 1);
                if y < t[1] && h < t[3] {
                    if i + j == first { l.zero = 1; }
                    let mut v = [mv(0, 0); 2]; let mut ok = true;
                    for k in 0..1 + s.two as usize { v[k] = x.motion_field_mvs[s.refs[k] as usize][y / 2][h / 2]; if v[k].x == INVALID { ok = false; } }
                    if ok {
                        let mut far = false;
                        for k in 0..1 + s.two as usize { v[k] = lower2(v[k], s.p); if i + j == first { let (a, b) = (v[k].x - s.global[k].x, v[k].y - s.global[k].y); if a >= 16 || a <= -16 || b >= 16 || b <= -16 { far = true; } } }
                        if i + j == first { l.zero = far as usize; }
                        l.put(v, s.two, 2);
                    }
                }
                j += dx;
            }
            i += dy;
        }
    }
    l
}
fn agree(f: &mut Frame, e: &Rc<RefCell<EncoderContext>>, s: &Set, b: usize, row: usize, col: usize, t: [usize; 4]) {
    let want = expect(f, e, s, b, row, col, t); let mut tree = PartitionTree::new(bs(b)); tree.is_inter = true; tree.ref_frame = s.refs; let mut c = BoolCoder::new();
    let mut te = TileEncoder::new(e, &mut c); te.mi_row_start = t[0]; te.mi_row_end = t[1]; te.mi_col_start = t[2]; te.mi_col_end = t[3]; te.mi_row = row; te.mi_col = col;
    // what an earlier block left behind has no influence
    te.num_mv_found = 5; te.new_mv_count = 3; te.found_match = true; te.zero_mv_context = 1; te.close_matches = 2; te.weight_stack = [9; 8];
    te.find_mv_stack(s.two, f, &mut tree);
    for k in 0..1 + s.two as usize { check(te.global_mvs[k] == s.global[k], "global-vector"); }
    check(te.num_mv_found == want.n, "number-of-candidates");
    for k in 0..want.n { check(te.ref_stack_mv[k][0] == want.mv[k][0] && (!s.two || te.ref_stack_mv[k][1] == want.mv[k][1]), "candidates-in-order"); check(te.weight_stack[k] == want.w[k], "candidate-weights"); }
    check(te.new_mv_count == want.fresh, "neighbours-with-new-vectors"); check(te.close_matches == want.close, "sides-that-match"); check(te.zero_mv_context == want.zero, "zero-vector-context");
}
/// a frame of `n` 8x8 blocks each way, every block before `row` or `col` coded as intra, an empty motion field
fn scene(n: usize) -> (Frame, Rc<RefCell<EncoderContext>>) {
    let f = blank(8 * n, 8 * n); let e = context(&f); e.borrow_mut().motion_field_mvs = vec![vec![vec![mv(INVALID, INVALID); n]; n]; 8]; (f, e)
}
fn intra() -> ModeInfo { let mut m = mi0(); m.is_inter = false; m.intra = true; m.ref_frame = [INTRA_FRAME, NONE]; m }

fn sround(v: isize, n: usize) -> isize { let h = 1isize << (n - 1); if v < 0 { -((-v + h) >> n) } else { (v + h) >> n } }
#[no_mangle] pub extern "C" fn vh_global() {
    let (mut f, e) = scene(16); f.use_ref_frame_mvs = false; let p = precision(&mut f);
    let (b, row, col, r0) = [(0, 0, 0, 0), (6, 0, 8, 1), (9, 8, 0, 4), (15, 0, 0, 7), (6, 24, 16, 2), (3, 30, 30, 5)][pickn("place", 6)]; let two = r0 > 0 && pickn("compound", 2) == 1;   // reference 0: intra block copy
    let refs = [rf(r0 as i8), if two { rf(7 - (r0 == 7) as i8) } else { NONE }]; let mut typ = [0; 2]; let mut global = [mv(0, 0); 2];
    for y in 0..f.mi_rows() { f.mis[y][col - (col > 0) as usize] = Some(intra()); } for x in 0..f.mi_cols() { f.mis[row - (row > 0) as usize][x] = Some(intra()); }
    for k in 0..1 + two as usize {
        let t = if two && k == 0 { 3 } else { pickn("type", 4) }; typ[k] = t; let r = refs[k] as usize; let mut g = [[-40000, 123456, 65536 + 77, -1001, 2003, 65536 - 555], [99999, -8191, 65536 - 2222, 31, -4097, 65536 + 1234]][k];
        if !two && t > 0 { let i = pickn("which", if t == 1 { 2 } else { 6 }); g[i] = val("parameter", if i < 2 { 1 << 22 } else { 1 << 13 }) + if i == 2 || i == 5 { 1 << 16 } else { 0 }; }
        { let mut x = e.borrow_mut(); x.gm_type[r] = t; x.gm_params[r] = g; }
        let (x, y) = ((col * 4 + BW[b] / 2) as isize - 1, (row * 4 + BH[b] / 2) as isize - 1);
        let v = if r == 0 || t == 0 { mv(0, 0) } else if t == 1 { mv(g[0] >> 13, g[1] >> 13) } else {
            let (h, v) = ((g[2] - 65536) * x + g[3] * y + g[0], g[4] * x + (g[5] - 65536) * y + g[1]);
            if p == 2 { mv(sround(h, 13), sround(v, 13)) } else { mv(sround(h, 14) * 2, sround(v, 14) * 2) } };
        global[k] = lower2(v, p);
    }
    let t = [0, f.mi_rows(), 0, f.mi_cols()]; let s = Set { two: two, refs: refs, typ: typ, global: global, p: p }; agree(&mut f, &e, &s, b, row, col, t);
}
/// neighbour `m` above, to the left or at the top right of an 8x8 block
fn beside(m: ModeInfo, two: bool, p: usize, typ: [usize; 2], at: usize) {
    let (mut f, e) = scene(4); f.use_ref_frame_mvs = false; f.force_integer_mv = (p == 0) as u8 as _; f.allow_high_precision_mv = p == 2;
    let refs = [rf(3), if two { rf(6) } else { NONE }]; let t = [0, 8, 0, 8]; let mut global = [lower2(mv(24, -80), p), lower2(mv(-16, 8), p)];
    { let mut x = e.borrow_mut(); for i in 0..1 + two as usize { let r = refs[i] as usize; x.gm_type[r] = typ[i]; x.gm_params[r] = [[24 << 13, -80 << 13, 65536, 0, 0, 65536], [-16 << 13, 8 << 13, 65536, 0, 0, 65536]][i]; if typ[i] == 0 { global[i] = mv(0, 0); } } }
    for i in 0..8 { f.mis[3][i] = Some(intra()); f.mis[i][3] = Some(intra()); } for i in 0..2 { if at == 0 { f.mis[3][4 + i] = Some(m); } else if at == 1 { f.mis[4 + i][3] = Some(m); } } if at == 2 { f.mis[3][6] = Some(m); }
    let s = Set { two: two, refs: refs, typ: typ, global: global, p: p }; agree(&mut f, &e, &s, 3, 4, 4, t);
}
fn shared(k: usize) -> [RefFrame; 2] { [[rf(3), NONE], [rf(3), rf(6)], [rf(6), rf(3)], [rf(1), rf(6)], [rf(3), rf(5)], [rf(2), rf(7)], [rf(3), rf(3)]][k] }
const SZ: [BlockSize; 7] = [BLOCK_4X4, BLOCK_8X4, BLOCK_4X8, BLOCK_8X8, BLOCK_16X8, BLOCK_64X64, BLOCK_4X16];
/// every vector of a neighbour, at each precision
#[no_mangle] pub extern "C" fn vh_vector() {
    let two = pickn("compound", 2) == 1; let p = pickn("precision", 3); let mut m = mi0(); m.ref_frame = shared(pickn("references", 7)); m.y_mode = if two { NEAR_NEARMV } else { NEARMV };
    let mut v = [7, -29, 0, 12]; v[pickn("which", 4)] = val("component", 32767); m.mvs = [mv(v[0], v[1]), mv(v[2], v[3])]; beside(m, two, p, [0; 2], 0);
}
/// every mode of a neighbour, with each kind of global motion
#[no_mangle] pub extern "C" fn vh_mode() {
    let two = pickn("compound", 2) == 1; let mut m = mi0(); m.ref_frame = shared(1); m.y_mode = ym(pickn("mode", 25)); m.mi_size = SZ[pickn("size", 4)]; m.mvs = [mv(8, 16), mv(-40, 2)];
    let t = pickn("type0", 4); let u = if two { pickn("type1", 4) } else { 0 }; beside(m, two, 1, [t, u], 1);
}
/// every match of references at each place
#[no_mangle] pub extern "C" fn vh_match() {
    let two = pickn("compound", 2) == 1; let mut m = mi0(); m.is_inter = pickn("inter", 2) == 1; m.ref_frame = shared(pickn("references", 7)); m.mi_size = SZ[pickn("size", 7)]; m.mvs = [mv(8, 16), if pickn("equal", 2) == 1 { mv(8, 16) } else { mv(-40, 2) }];
    m.y_mode = if pickn("fresh", 2) == 1 { if two { NEAREST_NEWMV } else { NEWMV } } else { if two { NEAREST_NEARESTMV } else { NEARESTMV } }; beside(m, two, 1, [0; 2], pickn("where", 3));
}
/// which neighbours are visited and how they weigh: sizes, positions, tile and frame edges, repeated and too many vectors
#[no_mangle] pub extern "C" fn vh_scan() {
    let (mut f, e) = scene(24); f.use_ref_frame_mvs = false; f.allow_high_precision_mv = true; let b = pickn("size", 22);
    let (row, col, tiles) = [(0, 0, 0), (16, 0, 0), (0, 16, 0), (16, 32, 0), (16, 32, 1), (32, 16, 1)][pickn("position", 6)]; let nb = [0, 3, 6, 9, 15][pickn("neighbours", 5)]; let (two, pat, corner) = [(false, 0, 2), (true, 1, 0), (false, 2, 1), (true, 0, 2)][pickn("pattern", 4)];
    let t = if tiles == 0 { [0, 48, 0, 48] } else { [row / 32 * 32, if row < 32 { 32 } else { 48 }, col / 32 * 32, if col < 32 { 32 } else { 48 }] };
    let mk = |y: usize, x: usize| { let mut m = mi0(); m.mi_size = bs(nb); let q = y + x; let r = (q / (BW[nb] / 4)) % 3; m.ref_frame = if pat == 2 && r == 2 { [rf(2), NONE] } else if two { [rf(1), rf(7)] } else { [rf(1), NONE] };
        let u = (if pat == 1 { q / 4 % 3 } else { q }) as isize; m.mvs = [mv(8 * u - 64, 3 * u + y as isize), mv(-u, 16 * u)]; m.y_mode = if r == 1 { if two { NEW_NEARMV } else { NEWMV } } else if two { NEAR_NEARMV } else { NEARMV }; m };
    let (w4, h4) = (BW[b] / 4, BH[b] / 4);
    if row > 0 { for x in col..48.min(col + w4 + 1) { f.mis[row - 1][x] = Some(mk(row - 1, x)); } } if col > 0 { for y in row..48.min(row + h4) { f.mis[y][col - 1] = Some(mk(y, col - 1)); } }
    if row > 0 && col + w4 < 48 { let x = col + w4; f.mis[row - 1][x] = if corner == 0 { None } else if corner == 1 { Some(intra()) } else { let mut m = mk(7, 41); m.ref_frame[0] = rf(1); Some(m) }; }
    let s = Set { two: two, refs: [rf(1), if two { rf(7) } else { NONE }], typ: [0; 2], global: [mv(0, 0); 2], p: 2 }; agree(&mut f, &e, &s, b, row, col, t);
}
fn field(b: usize, two: bool, p: usize, row: usize, col: usize, on: bool, g: [MotionVector; 2], at: &dyn Fn(usize, usize, usize) -> MotionVector) {
    let (mut f, e) = scene(24); f.use_ref_frame_mvs = on; f.force_integer_mv = (p == 0) as u8 as _; f.allow_high_precision_mv = p == 2; let t = [0, 48, 0, 48]; let refs = [rf(4), if two { rf(5) } else { NONE }];
    if col > 0 { for y in row..48.min(row + BH[b] / 4) { let mut m = mi0(); m.ref_frame = refs; m.mvs = [mv(40, -8), mv(24, 64)]; f.mis[y][col - 1] = Some(m); } }
    if row > 0 { for x in col..48.min(col + BW[b] / 4) { f.mis[row - 1][x] = Some(intra()); } }
    { let mut x = e.borrow_mut(); for k in 0..1 + two as usize { let r = refs[k] as usize; x.gm_type[r] = 1; x.gm_params[r][0] = g[k].x << 13; x.gm_params[r][1] = g[k].y << 13;
        for i in row / 2..24.min(row / 2 + 17) { for j in col / 2..24.min(col / 2 + 17) { x.motion_field_mvs[r][i][j] = at(k, i, j); } } } }
    let s = Set { two: two, refs: refs, typ: [1; 2], global: g, p: p }; agree(&mut f, &e, &s, b, row, col, t);
}
/// the samples of the motion field a block takes, after what a neighbour offers
#[no_mangle] pub extern "C" fn vh_field() {
    let b = pickn("size", 22); let (two, pat) = [(false, 0), (true, 1), (false, 1), (true, 2), (false, 2), (false, 3), (true, 3)][pickn("pattern", 7)]; let (row, col) = [(0, 0), (0, 16), (0, 42), (42, 0)][pickn("position", 4)];
    field(b, two, 1, row, col, pickn("used", 2) == 1, [mv(8, 0), mv(0, 64)], &|k, i, j| { let u = (i * 7 + j) as isize; match pat { 0 => mv(INVALID, INVALID), 1 => mv(40 - 16 * k as isize, -8 + 72 * k as isize), 2 => if (i + j + k) & 1 == 0 { mv(INVALID, INVALID) } else { mv(16 * u, 8) }, _ => mv(8 * u, -32 * u) } });
}
/// every vector of the first sample, next to the global vector or far from it
#[no_mangle] pub extern "C" fn vh_first() {
    let two = pickn("compound", 2) == 1; let p = pickn("precision", 3); let w = pickn("which", if two { 4 } else { 2 }); let c = val("component", 32767); let g = [mv(80, -24), mv(-640, 8)];
    field(3, two, p, 0, 16, true, g, &|k, _, _| { let mut v = [g[k].x, g[k].y]; if w / 2 == k { v[w % 2] = c; } mv(v[0], v[1]) });
}
harnesses!(vh_global, vh_vector, vh_mode, vh_match, vh_scan, vh_field, vh_first);
