// Decoder side of loop restoration units (P25, P26).
const LOW: [isize; 3] = [-5, -23, -17]; const HIGH: [isize; 3] = [10, 8, 46]; const K: [usize; 3] = [1, 2, 3];
const XLOW: [isize; 2] = [-96, -32]; const XHIGH: [isize; 2] = [31, 95];
fn centred(r: usize, v: usize) -> usize { if v > 2 * r { v } else if v & 1 == 1 { r - (v + 1) / 2 } else { r + v / 2 } }
fn read_subexp(d: &mut Dec, n: usize, k: usize) -> usize {
    let (mut i, mut mk) = (0, 0);
    loop {
        let b = if i > 0 { k + i - 1 } else { k }; let a = 1 << b;
        if n <= mk + 3 * a {
            let n = n - mk; let mut w = 0; while n >> w > 0 { w += 1; } let m = (1 << w) - n; let v = d.l(w - 1) as usize;
            return mk + if v < m { v } else { (v << 1) - m + d.l(1) as usize };
        }
        if d.l(1) == 0 { return mk + d.l(b as u8) as usize; }
        i += 1; mk += a;
    }
}
fn read_value(d: &mut Dec, low: isize, high: isize, k: usize, r: isize) -> isize {
    let (mx, r) = ((high + 1 - low) as usize, (r - low) as usize); let v = read_subexp(d, mx, k); check(v < mx, "coded-value-in-range"); if v >= mx { return low; }
    low + if 2 * r <= mx { centred(r, v) } else { mx - 1 - centred(mx - 1 - r, v) } as isize
}
/// radii of the two passes of a self-guided set
fn radii(s: usize) -> [usize; 2] { if s < 10 { [2, 1] } else if s < 14 { [0, 1] } else { [2, 0] } }
#[derive(Clone, Copy)] struct Unit { t: usize, w: [[isize; 3]; 2], s: usize, x: [isize; 2] }
#[derive(Clone, Copy)] struct Refs { w: [[isize; 3]; 2], x: [isize; 2] }
/// decoder side of one unit: its type follows from what the frame allows
fn read_unit(d: &mut Dec, allowed: usize, plane: usize, r: &mut Refs) -> Unit {
    let t = match allowed { 1 => sym!(d, use_wiener), 2 => 2 * sym!(d, use_sgrproj), _ => sym!(d, restoration_type) };
    let mut u = Unit { t: t, w: [[0; 3]; 2], s: 0, x: [0; 2] };
    if t == 1 { for p in 0..2 { for j in (plane > 0) as usize..3 { let v = read_value(d, LOW[j], HIGH[j], K[j], r.w[p][j]); u.w[p][j] = v; r.w[p][j] = v; } } }
    if t == 2 {
        u.s = d.l(4) as usize; let rad = radii(u.s);
        for i in 0..2 { let v = if rad[i] > 0 { read_value(d, XLOW[i], XHIGH[i], 4, r.x[i]) } else if i == 1 { let v = 128 - r.x[0]; if v < -32 { -32 } else if v > 95 { 95 } else { v } } else { 0 }; u.x[i] = v; r.x[i] = v; }
    }
    u
}
fn lrt(i: usize) -> FrameRestorationType { [RESTORE_NONE, RESTORE_WIENER, RESTORE_SGRPROJ, RESTORE_SWITCHABLE][i] }
fn lr_unit(u: &Unit) -> LRUnit { LRUnit { use_wiener: u.t == 1, use_sgrproj: u.t == 2, restoration_type: lrt(u.t), lr_sgr_set: u.s, lr_wiener: u.w, lr_sgr_xqd: u.x } }
/// room for the filters of `rows` by `cols` units in each plane, none of them set
fn room(f: &mut Frame, rows: usize, cols: usize) {
    f.lr_type = vec![vec![vec![RESTORE_SWITCHABLE; cols]; rows]; 3]; f.lr_wiener = vec![vec![vec![vec![vec![99; 3]; 2]; cols]; rows]; 3];
    f.lr_sgr_set = vec![vec![vec![99; cols]; rows]; 3]; f.lr_sgr_xqd = vec![vec![vec![vec![999; 2]; cols]; rows]; 3];
}
const MID: Refs = Refs { w: [[3, -7, 15]; 2], x: [-32, 31] };
fn plain() -> Unit { Unit { t: 0, w: [[3, -7, 15]; 2], s: 0, x: [-32, 31] } }
fn same_unit(a: &Unit, b: &Unit, plane: usize) {
    check(a.t == b.t, "type-recovered");
    if b.t == 1 { for p in 0..2 { for j in (plane > 0) as usize..3 { check(a.w[p][j] == b.w[p][j], "filter-recovered"); } } }
    if b.t == 2 { check(a.s == b.s, "set-recovered"); for i in 0..2 { if radii(b.s)[i] > 0 { check(a.x[i] == b.x[i], "weights-recovered"); } } }
}
