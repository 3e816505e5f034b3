// P01: every bit-level syntax descriptor decodes back to the value written, consuming exactly the bits written.
include!("common.rs");
use bool_coder::*;

const TAIL: [u8; 3] = [1, 0, 1]; // bits following in the stream: must be left untouched
fn finish(mut out: Vec<u8>) -> VecDeque<u8> { for &b in TAIL.iter() { out.push(b); } VecDeque::from(out) }
fn untouched(q: &VecDeque<u8>) { check(q.len() == 3 && q[0] == 1 && q[1] == 0 && q[2] == 1, "exact-consumption"); }
fn bits_ok(out: &[u8]) { for &b in out { check(b <= 1, "output-is-bits"); } out_bits(out) }

#[no_mangle] pub extern "C" fn vh_uvlc() {
    let v: u32 = any("v");
    let mut o = vec![]; BoolCoder::new().encode_uvlc(&mut o, v); bits_ok(&o);
    let mut q = finish(o); let r = BoolCoder::new().decode_uvlc(&mut q);
    check(r == v, "uvlc-roundtrip"); untouched(&q);
}
#[no_mangle] pub extern "C" fn vh_le() {
    let n = split(any_in("n", 1, 9)) as u8; let v: u64 = any("v"); assume(n == 8 || v < 1u64 << (8 * n));
    let mut o = vec![]; BoolCoder::new().encode_le(&mut o, v, n); bits_ok(&o);
    check(o.len() == 8 * n as usize, "le-length");
    let mut q = finish(o); let r = BoolCoder::new().decode_le(&mut q, n);
    check(r == v, "le-roundtrip"); untouched(&q);
}
#[no_mangle] pub extern "C" fn vh_leb128() {
    let v: u64 = any("v"); assume(v < 1 << 56);
    let mut o = vec![]; BoolCoder::new().encode_leb128(&mut o, v); bits_ok(&o);
    let mut q = finish(o); let r = BoolCoder::new().decode_leb128(&mut q);
    check(r == v, "leb128-roundtrip"); untouched(&q);
}
#[no_mangle] pub extern "C" fn vh_su() {
    let n = split(any_in("n", 1, 33)) as u8; let v: i64 = any("v"); assume(v >= -(1i64 << (n - 1)) && v < 1i64 << (n - 1));
    let mut o = vec![]; BoolCoder::new().encode_su(&mut o, v, n); bits_ok(&o);
    check(o.len() == n as usize, "su-length");
    let mut q = finish(o); let r = BoolCoder::new().decode_su(&mut q, n);
    check(r == v, "su-roundtrip"); untouched(&q);
}
#[no_mangle] pub extern "C" fn vh_ns() {
    let n: u64 = any("n"); let v: u64 = any("v"); assume(n > 0 && n < 1 << 32); assume(v < n);
    let mut o = vec![]; BoolCoder::new().encode_ns(&mut o, v, n); bits_ok(&o);
    let mut q = finish(o); let r = BoolCoder::new().decode_ns(&mut q, n);
    check(r == v, "ns-roundtrip"); untouched(&q);
}
// a stream that ends in the middle of a value is reported, never waited on forever and never turned into a value
#[no_mangle] pub extern "C" fn vh_truncated() {
    let which = split(any_in("which", 0, 5)); let n = split(any_in("len", 0, 10)) as usize; let mut q: VecDeque<u8> = VecDeque::new(); for _ in 0..n { q.push_back(any_in("b", 0, 2) as u8); }
    let mut all: Vec<u8> = q.iter().cloned().collect(); expect_panic(true); let mut d = BoolCoder::new();
    let (name, need) = match which {
        0 => { d.decode_leb128(&mut q); let mut k = 0; while 8 * k < n && all[8 * k] == 1 { k += 1; } ("leb128", 8 * k + 8) },
        1 => { d.decode_le(&mut q, 2); ("le", 16) }
        2 => { d.decode_su(&mut q, 11); ("su", 11) }
        3 => { d.decode_ns(&mut q, 1500); ("ns", 10) }
        _ => { d.decode_uvlc(&mut q); let mut k = 0; while k < n && all[k] == 0 { k += 1; } ("uvlc", 2 * k + 1) }
    };
    expect_panic(false); all.clear(); let _ = name; check(need <= n, "value-from-truncated-input");
}
harnesses![vh_truncated, vh_uvlc, vh_le, vh_leb128, vh_su, vh_ns];
//@ run vh_uvlc
//@ run vh_le
//@ run vh_leb128
//@ run vh_su
//@ run vh_ns workers=4
//@ run vh_truncated workers=2 steps=200000
//@ bounds all u32 values (variable length); 1..8 byte little-endian values; LEB128 values below 2^56; signed codes of 1..32 bits; non-symmetric ranges below 2^32; truncated inputs of up to 9 bits
//@ outside longer truncated inputs; LEB128 values of 2^56 and above (rejected by the encoder)
