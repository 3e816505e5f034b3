// P05: the bits written for each descriptor are exactly the AV1 bitstream representation, independent of the decoder here.
include!("common.rs");
use bool_coder::*;
fn same(o: &[u8], want: &[u8], l: &str) { check(o.len() == want.len(), l); for i in 0..want.len() { check(o[i] == want[i], l); } out_bits(o); }
fn f(w: &mut Vec<u8>, v: u64, n: u32) { for i in 0..n { w.push((v >> (n - 1 - i)) as u8 & 1); } }
fn prefix() -> Vec<u8> { vec![1, 0, 1] } // already-present bits must stay
#[no_mangle] pub extern "C" fn vh_uvlc() {
    let v: u32 = any("v"); let mut o = prefix(); let mut w = prefix(); BoolCoder::new().encode_uvlc(&mut o, v);
    if v == u32::max_value() { for _ in 0..32 { w.push(0); } w.push(1); } else {
        let x = v as u64 + 1; let mut k = 0; while k < 32 && (x >> (k + 1)) != 0 { k += 1; }
        for _ in 0..k { w.push(0); } w.push(1); f(&mut w, x - (1u64 << k), k); }
    same(&o, &w, "uvlc-bits");
}
#[no_mangle] pub extern "C" fn vh_leb128() {
    let v: u64 = any("v"); assume(v < 1 << 56); let mut o = prefix(); let mut w = prefix(); BoolCoder::new().encode_leb128(&mut o, v);
    let mut x = v; loop { let low = x & 0x7f; x /= 128; f(&mut w, low | if x != 0 { 0x80 } else { 0 }, 8); if x == 0 { break; } }
    same(&o, &w, "leb128-bits");
}
#[no_mangle] pub extern "C" fn vh_le() {
    let n = split(any_in("n", 1, 9)) as u8; let v: u64 = any("v"); assume(n == 8 || v < 1u64 << (8 * n)); let mut o = prefix(); let mut w = prefix(); BoolCoder::new().encode_le(&mut o, v, n);
    let mut x = v; for _ in 0..n { f(&mut w, x & 255, 8); x >>= 8; } same(&o, &w, "le-bits");
}
#[no_mangle] pub extern "C" fn vh_su() {
    let n = split(any_in("n", 1, 33)) as u8; let v: i64 = any("v"); assume(v >= -(1i64 << (n - 1)) && v < 1i64 << (n - 1)); let mut o = prefix(); let mut w = prefix(); BoolCoder::new().encode_su(&mut o, v, n);
    f(&mut w, v as u64, n as u32); same(&o, &w, "su-bits");
}
#[no_mangle] pub extern "C" fn vh_ns() {
    let n = any_in("n", 1, 1 << 16); let v = any_in("v", 0, 1 << 16); assume(v < n); let mut o = prefix(); let mut w = prefix(); BoolCoder::new().encode_ns(&mut o, v, n);
    let mut k = 0; while k < 17 && (n >> k) != 0 { k += 1; } let m = (1u64 << k) - n;
    if v < m { f(&mut w, v, k - 1); } else { f(&mut w, v + m, k); } same(&o, &w, "ns-bits");
}
#[no_mangle] pub extern "C" fn vh_fixed() {
    let c = BoolCoder::new(); let n = split(any_in("n", 0, 33)) as u8; let v: u32 = any("v"); let mut o = prefix(); let mut w = prefix(); c.push_bits_with_size(&mut o, v, n);
    f(&mut w, v as u64, n as u32); same(&o, &w, "fixed-bits");
    let b = any_in("b", 0, 2) as u8; c.push_bit(&mut o, b); w.push(b); let more = vec![b ^ 1, b, 1]; c.push_bits(&mut o, &more); w.extend_from_slice(&more); same(&o, &w, "append");
}
#[no_mangle] pub extern "C" fn vh_align() {
    let c = BoolCoder::new(); let n = split(any_in("n", 0, 40)) as usize; let mut o = vec![]; for _ in 0..n { o.push(any_in("b", 0, 2) as u8); } let mut w = o.clone(); c.push_bits_align(&mut o);
    while w.len() % 8 != 0 { w.push(0); } same(&o, &w, "align");
}
harnesses![vh_uvlc, vh_leb128, vh_le, vh_su, vh_ns, vh_fixed, vh_align];
//@ run vh_uvlc
//@ run vh_leb128
//@ run vh_le
//@ run vh_su
//@ run vh_ns workers=2
//@ run vh_fixed
//@ run vh_align
//@ bounds all values and widths of each descriptor; non-symmetric ranges up to 65535; alignment of up to 39 bits
//@ outside non-symmetric ranges of 2^16 and above (their round trip is in P01)
