// helpers shared by the entropy-coder harnesses
use bool_coder::*;
/// symbolic N-ary distribution: strictly increasing 15-bit values ending in 32768, then the adaptation counter
#[allow(dead_code)] fn any_cdf(n: usize, cnt: i32) -> Vec<i32> {
    let mut c = vec![]; let mut prev = 0i32;
    for _ in 0..n - 1 { let p = any::<u16>("p") as i32; assume(p > prev && p < 32768); prev = p; c.push(p); }
    c.push(32768); c.push(cnt); c
}
/// encode symbols ss[i] with cdfs[which[i]], finish the chunk, decode it again
#[allow(dead_code)] fn roundtrip(mut cdfs: Vec<Vec<i32>>, ss: &[usize], which: &[usize]) {
    let mut c2 = cdfs.clone();
    let mut e = BoolCoder::new(); let mut o = Vec::with_capacity(256);
    e.init_encoder();
    for i in 0..ss.len() { e.encode_symbol(ss[i] as i32, &mut o, &mut cdfs[which[i]]); }
    e.exit_encoder(&mut o);
    check(o.len() % 8 == 0, "whole-bytes"); out_bits(&o);
    let n = o.len() / 8; let mut q = VecDeque::from(o);
    let mut d = BoolCoder::new(); d.init_decoder(&mut q, n as u32);
    for i in 0..ss.len() { let r = d.decode_symbol(&mut q, &mut c2[which[i]]); check(r == ss[i] as u64, "symbol-recovered"); }
    for i in 0..cdfs.len() { check(cdfs[i] == c2[i], "adapted-in-lockstep"); }
}
