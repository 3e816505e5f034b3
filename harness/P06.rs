// P06: the integer helpers every other part computes with are exact over their whole domain.
include!("common.rs");
use util::*;
fn is_log2(n: u64, k: u64) -> bool { k < 64 && (n >> k) == 1 }
#[no_mangle] pub extern "C" fn vh_msb16() { let a: u16 = any("a"); let x = msb16(a); out(x as u64); check(if a == 0 { x == 0 } else { is_log2(a as u64, x as u64) }, "msb16"); }
#[no_mangle] pub extern "C" fn vh_msb32() { let b: u32 = any("b"); let y = msb32(b); out(y as u64); check(if b == 0 { y == 0 } else { is_log2(b as u64, y as u64) }, "msb32"); }
#[no_mangle] pub extern "C" fn vh_msb64() { let c: u64 = any("c"); let z = msb64(c); out(z as u64); check(if c == 0 { z == 0 } else { is_log2(c, z as u64) }, "msb64"); }
#[no_mangle] pub extern "C" fn vh_floorlog2() { let a: u64 = any("a"); assume(a > 0); let s: i32 = FloorLog2!(a); out(s as u64); check(is_log2(a, s as u64), "floor-log2"); let b: usize = any("b"); assume(b > 0 && b < 1 << 32); let s: usize = FloorLog2!(b); check(is_log2(b as u64, s as u64), "floor-log2"); }
#[no_mangle] pub extern "C" fn vh_round2() {
    let n = split(any_in("n", 0, 33)) as usize; let x: u64 = any("x"); assume(x < 1 << 62); let x = x as usize; let r: usize = Round2!(x, n); out(r as u64); // nearest multiple, halves up
    check(if n == 0 { r == x } else { let d = 1u64 << n; let rem = x as u64 % d; let q = x as u64 / d; r as u64 == if rem >= d / 2 { q + 1 } else { q } }, "round2-nearest");
    let y: i64 = any("y"); assume(y > -(1 << 61) && y < 1 << 61); let y = y as isize; let s: isize = Round2Signed!(y, n); out(s as u64); let (p, neg): (u64, bool) = if y < 0 { ((-y) as u64, true) } else { (y as u64, false) };
    let want = if n == 0 { p as i64 } else { let d = 1u64 << n; let rem = p % d; let q = p / d; (if rem >= d / 2 { q + 1 } else { q }) as i64 }; check(s as i64 == if neg { -want } else { want }, "round2signed-symmetric");
}
#[no_mangle] pub extern "C" fn vh_clip() {
    let (lo, hi, x): (i64, i64, i64) = (any("lo"), any("hi"), any("x")); assume(lo <= hi); let r = Clip3!(lo, hi, x); check(r >= lo && r <= hi, "clip-in-range"); check(if x >= lo && x <= hi { r == x } else if x < lo { r == lo } else { r == hi }, "clip-nearest");
    let c = Clip1!(x); check(c == if x < 0 { 0 } else if x > 255 { 255 } else { x }, "clip-to-pixel");
    let y: i64 = any("y"); let (a, b) = (Min!(x, y), Max!(x, y)); check(a <= x && a <= y && (a == x || a == y), "min"); check(b >= x && b >= y && (b == x || b == y), "max"); assume(x != i64::min_value()); let m = Abs!(x); check(m >= 0 && (m == x || m == -x), "abs");
}
harnesses![vh_msb16, vh_msb32, vh_msb64, vh_floorlog2, vh_round2, vh_clip];
//@ run vh_msb16
//@ run vh_msb32
//@ run vh_msb64
//@ run vh_floorlog2
//@ run vh_round2 workers=4
//@ run vh_clip
//@ bounds all 16/32/64-bit operands of the bit-position helpers; all 64-bit operands of clamp/min/max; rounding shifts of 0..32 on operands below 2^61 in magnitude
//@ outside operands so large that rounding would overflow; |i64::MIN|
