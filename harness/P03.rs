// P03: an entropy-coded chunk is a whole number of bytes and its decoder consumes exactly that chunk, whatever follows
// it in the stream; a coder object can be reused for chunk after chunk.
include!("common.rs");
include!("ec.rs");
fn pick(n: u64) -> usize { split(any_in("s", 0, n)) as usize }
fn enc(e: &mut BoolCoder, ss: &[usize], cdf0: &[i32]) -> Vec<u8> {
    let mut c = cdf0.to_vec(); let mut o = vec![]; e.init_encoder();
    for &s in ss { e.encode_symbol(s as i32, &mut o, &mut c); }
    e.exit_encoder(&mut o); check(o.len() % 8 == 0, "whole-bytes"); for &b in &o { check(b <= 1, "bits"); } o
}
fn dec(d: &mut BoolCoder, q: &mut VecDeque<u8>, bytes: usize, ss: &[usize], cdf0: &[i32]) {
    let mut c = cdf0.to_vec(); let before = q.len(); d.init_decoder(q, bytes as u32);
    for &s in ss { check(d.decode_symbol(q, &mut c) == s as u64, "symbol-recovered"); }
    d.exit_decoder(q);
    check(before - q.len() == 8 * bytes, "consumes-exactly-the-chunk");
}
// two chunks of any symbols back to back plus trailing data, same coder objects for both
#[no_mangle] pub extern "C" fn vh_two_chunks() {
    let cdf = [3000, 9000, 32768, 0];
    let n1 = split(any_in("n1", 0, 5)) as usize; let n2 = split(any_in("n2", 0, 4)) as usize;
    let s1: Vec<usize> = (0..n1).map(|_| pick(3)).collect(); let s2: Vec<usize> = (0..n2).map(|_| pick(3)).collect();
    let mut e = BoolCoder::new(); let a = enc(&mut e, &s1, &cdf); let b = enc(&mut e, &s2, &cdf);
    let fresh = enc(&mut BoolCoder::new(), &s2, &cdf); check(b == fresh, "reused-coder-same-bytes");
    let (la, lb) = (a.len() / 8, b.len() / 8); out_bits(&a); out_bits(&b);
    let mut all = a; all.extend_from_slice(&b); let t: [u8; 4] = [1, 1, 0, 1]; all.extend_from_slice(&t);
    let mut q = VecDeque::from(all); let mut d = BoolCoder::new();
    dec(&mut d, &mut q, la, &s1, &cdf); dec(&mut d, &mut q, lb, &s2, &cdf);
    check(q.iter().cloned().collect::<Vec<u8>>() == t, "rest-untouched");
}
// one chunk, arbitrary two-symbol distribution
#[no_mangle] pub extern "C" fn vh_any2() {
    let cdf = any_cdf(2, 0); let ss = [any_in("s", 0, 2) as usize];
    let a = enc(&mut BoolCoder::new(), &ss, &cdf); let la = a.len() / 8; out_bits(&a); let mut all = a; all.push(1); all.push(0);
    let mut q = VecDeque::from(all); dec(&mut BoolCoder::new(), &mut q, la, &ss, &cdf);
    check(q.len() == 2 && q[0] == 1 && q[1] == 0, "rest-untouched");
}
// a chunk may be longer than what was read from it (padding bytes belong to it)
#[no_mangle] pub extern "C" fn vh_padded() {
    let cdf = [20000, 32768, 0]; let n = split(any_in("n", 0, 7)) as usize; let pad = split(any_in("pad", 0, 4)) as usize; let ss: Vec<usize> = (0..n).map(|_| pick(2)).collect();
    let mut a = enc(&mut BoolCoder::new(), &ss, &cdf); for _ in 0..8 * pad { a.push(0); } let la = a.len() / 8; a.push(1);
    let mut q = VecDeque::from(a); dec(&mut BoolCoder::new(), &mut q, la, &ss, &cdf); check(q.len() == 1 && q[0] == 1, "rest-untouched");
}
// literals in a chunk
#[no_mangle] pub extern "C" fn vh_literal_chunk() {
    let n = split(any_in("n", 0, 17)) as u8; let v = (any_in("v", 0, 65536) & 0x8421) & ((1u64 << n) - 1); let mut e = BoolCoder::new(); let mut o = vec![];
    e.init_encoder(); e.encode_literal(&mut o, v, n); e.exit_encoder(&mut o); check(o.len() % 8 == 0, "whole-bytes"); out_bits(&o);
    let z = o.len() / 8; o.push(1); o.push(0); let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32); check(d.decode_literal(&mut q, n) == v, "literal-recovered"); d.exit_decoder(&mut q);
    check(q.len() == 2 && q[0] == 1 && q[1] == 0, "rest-untouched");
}
harnesses![vh_two_chunks, vh_any2, vh_padded, vh_literal_chunk];
//@ run vh_two_chunks workers=8
//@ run vh_any2 workers=1
//@ run vh_padded workers=2
//@ run vh_literal_chunk workers=2
//@ bounds two chunks of up to 4 and 3 symbols; one symbol under every two-symbol distribution; up to 6 symbols with up to 3 padding bytes; literals of up to 16 bits
//@ outside longer chunks
