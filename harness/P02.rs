// P02: entropy coder round trip: whatever symbols are coded, the matching decoder recovers them.
include!("common.rs");
include!("ec.rs");

fn pick(n: u64) -> usize { split(any_in("s", 0, n)) as usize }
// one symbol, arbitrary two-symbol distribution, arbitrary adaptation counter
#[no_mangle] pub extern "C" fn vh_one2() { let k = any_in("cnt", 0, 33) as i32; let c = any_cdf(2, k); let s = any_in("s", 0, 2) as usize; roundtrip(vec![c], &[s], &[0]) }
// any three symbols over fixed distributions, then a symbol of an arbitrary two-symbol distribution, then (vh_ctx2s) one more symbol
#[no_mangle] pub extern "C" fn vh_ctx2() {
    let c = vec![vec![32700, 32768, 0], vec![9000, 20000, 32768, 5], any_cdf(2, 0), vec![60, 32768, 31]];
    let s = [pick(3), pick(2), pick(2), pick(2)];
    roundtrip(c, &s, &[1, 0, 3, 2])
}
#[no_mangle] pub extern "C" fn vh_ctx2s() {
    let c = vec![vec![16000, 32768, 0], vec![9000, 20000, 32768, 5], any_cdf(2, 0)];
    let s = [pick(3), pick(2), pick(2)];
    roundtrip(c, &s, &[1, 2, 0])
}
// three-symbol arbitrary distribution; the coded middle symbol has probability >= 1/16
#[no_mangle] pub extern "C" fn vh_mid3() {
    let c = any_cdf(3, 0); assume(c[1] - c[0] >= 2048);
    roundtrip(vec![c, vec![1000, 32768, 0]], &[pick(2), 1, pick(2)], &[1, 0, 1])
}
// every sequence of ten symbols over three skewed, adapting distributions
#[no_mangle] pub extern "C" fn vh_seq() {
    let c = vec![vec![32767 - 4, 32768, 0], vec![4, 32768, 0], vec![100, 16384, 32000, 32768, 0]];
    let mut ss = vec![]; let mut w = vec![]; for i in 0..10 { let k = i % 3; w.push(k); ss.push(pick(c[k].len() as u64 - 1)); }
    roundtrip(c, &ss, &w)
}
// every sequence of twelve symbols over one two-symbol distribution
#[no_mangle] pub extern "C" fn vh_bin() { let mut ss = vec![]; for _ in 0..12 { ss.push(pick(2)); } roundtrip(vec![vec![21000, 32768, 0]], &ss, &[0; 12]) }
#[no_mangle] pub extern "C" fn vh_bin2() { let mut ss = vec![]; for _ in 0..12 { ss.push(pick(2)); } roundtrip(vec![vec![32767, 32768, 0], vec![1, 32768, 0]], &ss, &[0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1]) }
// runs: a^i b^j a^k with every i, j, k: long carries, saturated counters
#[no_mangle] pub extern "C" fn vh_runs() {
    let a = pick(3); let b = pick(3); let i = split(any_in("i", 0, 41)); let j = split(any_in("j", 0, 6)); let k = split(any_in("k", 0, 4));
    let mut ss = vec![]; for _ in 0..i { ss.push(a) } for _ in 0..j { ss.push(b) } for _ in 0..k { ss.push(a) } ss.push(1);
    let w = vec![0; ss.len()]; roundtrip(vec![vec![11000, 11700, 32768, 0]], &ss, &w)
}
// literals and equiprobable bits, mixed with symbols
#[no_mangle] pub extern "C" fn vh_literal() {
    let n = split(any_in("n", 0, 9)) as u8; let v = any_in("v", 0, 256); assume(v < 1u64 << n); let s = pick(3); let t = pick(3);
    let mut c = vec![700, 30000, 32768, 0]; let mut c2 = c.clone();
    let mut e = BoolCoder::new(); let mut o = vec![]; e.init_encoder();
    e.encode_symbol(s as i32, &mut o, &mut c); e.encode_literal(&mut o, v, n); e.encode_symbol(t as i32, &mut o, &mut c); e.exit_encoder(&mut o); out_bits(&o);
    let z = o.len() / 8; check(o.len() % 8 == 0, "whole-bytes"); let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32);
    check(d.decode_symbol(&mut q, &mut c2) == s as u64, "symbol-recovered"); check(d.decode_literal(&mut q, n) == v, "literal-recovered"); check(d.decode_symbol(&mut q, &mut c2) == t as u64, "symbol-recovered");
}
// fixed-probability bits: single and vector forms, any probability
#[no_mangle] pub extern "C" fn vh_prob() {
    let p = any_in("p", 1, 256) as i32; let b = [pick(2) as u8, pick(2) as u8];
    let mut e = BoolCoder::new(); let mut o = vec![]; e.init_encoder();
    e.encode_symbolp(b[0], &mut o, p); e.encode_symbolp(b[1], &mut o, 77); e.exit_encoder(&mut o); out_bits(&o);
    let z = o.len() / 8; let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32);
    check(d.decode_symbolp(&mut q, p) == b[0] as u64, "bit-recovered"); check(d.decode_symbolp(&mut q, 77) == b[1] as u64, "bit-recovered");
}
#[no_mangle] pub extern "C" fn vh_probs() {
    let p = split(any_in("p", 1, 256)) as i32; let mut b = vec![]; for _ in 0..5 { b.push(pick(2) as u8); }
    let mut e = BoolCoder::new(); let mut o = vec![]; e.init_encoder(); e.encode_symbols(&b, &mut o, p); e.exit_encoder(&mut o); out_bits(&o);
    let z = o.len() / 8; let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32);
    let mut r = vec![]; d.decode_symbols(&mut q, &mut r, 5, p); check(r == b, "bits-recovered");
}
harnesses![vh_one2, vh_ctx2, vh_ctx2s, vh_mid3, vh_seq, vh_bin, vh_bin2, vh_runs, vh_literal, vh_prob, vh_probs, vh_one3];
#[no_mangle] pub extern "C" fn vh_one3() { let c = any_cdf(3, 0); let s = any_in("s", 0, 3) as usize; roundtrip(vec![c], &[s], &[0]) }
//@ run vh_one2
//@ run vh_ctx2 workers=8
//@ run vh_ctx2s workers=8
//@ run vh_mid3 workers=8 tier=thorough
//@ run vh_seq workers=8
//@ run vh_bin workers=2
//@ run vh_bin2 workers=2
//@ run vh_runs workers=8
//@ run vh_literal workers=4
//@ run vh_prob workers=4
//@ run vh_probs workers=4
//@ run vh_one3 workers=8 tier=thorough
//@ bounds see the comment above each harness; every listed distribution value and symbol choice is symbolic or case-split
//@ outside sequences longer than 12 arbitrary symbols (runs: 49); arbitrary distributions of four or more symbols
