// P04: probability adaptation: encoder and decoder update a distribution identically, by the format's rule, and keep it valid.
include!("common.rs");
include!("ec.rs");
/// reference rule, written from the format's description: every entry moves 1/2^rate of the way towards a target
/// distribution that gives the coded symbol all the mass except 32 units per symbol
fn reference(cdf: &[i32], symbol: usize) -> Vec<i32> {
    let n = cdf.len() - 1; let cnt = cdf[n];
    let lg = if n >= 16 { 4 } else if n >= 8 { 3 } else if n >= 4 { 2 } else { 1 };
    let rate = 4 + lg + if cnt > 31 { 1 } else { 0 };
    let diff = ((32768 - 32 * n as i64) >> rate) << rate;
    let mut r: Vec<i32> = cdf.to_vec();
    for i in 0..n - 1 { let target = 32 * (i as i64 + 1) + if i >= symbol { diff } else { 0 }; r[i] = (cdf[i] as i64 - ((cdf[i] as i64 - target) >> rate)) as i32; }
    r[n] = if cnt < 32 { cnt + 1 } else { 32 }; r
}
fn valid(c: &[i32]) -> bool { let n = c.len() - 1; let mut ok = c[0] > 0 && c[n - 1] == 32768 && c[n] >= 0 && c[n] <= 32; for i in 1..n { ok = ok & (c[i] > c[i - 1]); } ok }
/// many-symbol distribution with every second entry arbitrary between its fixed neighbours
fn sparse_cdf(n: usize, cnt: i32) -> Vec<i32> {
    let mut c = vec![]; for i in 0..n - 1 { let m = 32768 * (i as i32 + 1) / n as i32; if i % 2 == 0 { c.push(m); } else { let lo = 32768 * i as i32 / n as i32; let hi = 32768 * (i as i32 + 2) / n as i32; let p = any::<u16>("p") as i32; assume(p > lo && p < hi); c.push(p); } }
    c.push(32768); c.push(cnt); c
}
fn one(n: usize, minp: i32) { let k = any_in("cnt", 0, 33) as i32; let c = any_cdf(n, k); update(c, n, minp) }
fn sparse(n: usize, minp: i32) { let k = split(any_in("cnt", 31, 33)) as i32; let c = sparse_cdf(n, k); update(c, n, minp) }
fn update(mut c: Vec<i32>, n: usize, minp: i32) {
    let s = split(any_in("s", 0, n as u64)) as usize;
    assume(c[s] - (if s > 0 { c[s - 1] } else { 0 }) >= minp);
    let want = reference(&c, s); let mut c2 = c.clone();
    let mut e = BoolCoder::new(); let mut o = vec![]; e.init_encoder(); e.encode_symbol(s as i32, &mut o, &mut c); e.exit_encoder(&mut o);
    check(c == want, "encoder-follows-rule"); for i in 0..n { check(if i == 0 { c[0] > 0 } else { c[i] > c[i - 1] }, "stays-increasing"); } check(c[n - 1] == 32768 && c[n] >= 0 && c[n] <= 32, "stays-valid");
    let z = o.len() / 8; let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32); check(d.decode_symbol(&mut q, &mut c2) == s as u64, "symbol");
    check(c2 == want, "decoder-follows-rule");
}
#[no_mangle] pub extern "C" fn vh_n2() { one(2, 1) }
#[no_mangle] pub extern "C" fn vh_n3() { one(3, 10000) }
#[no_mangle] pub extern "C" fn vh_n4() { one(4, 16384) }
#[no_mangle] pub extern "C" fn vh_n5() { one(5, 16384) }
#[no_mangle] pub extern "C" fn vh_n8() { one(8, 16384) }
#[no_mangle] pub extern "C" fn vh_n13() { one(13, 16384) }
#[no_mangle] pub extern "C" fn vh_s13() { sparse(13, 1600) }
#[no_mangle] pub extern "C" fn vh_s16() { sparse(16, 1600) }
#[no_mangle] pub extern "C" fn vh_n16() { one(16, 16384) }
// a long history keeps the distribution valid and both sides equal
#[no_mangle] pub extern "C" fn vh_history() {
    let n = split(any_in("n", 2, 5)) as usize; let a = split(any_in("a", 0, n as u64)) as usize; let b = split(any_in("b", 0, n as u64)) as usize; let i = split(any_in("i", 30, 70)); let j = split(any_in("j", 0, 4));
    let mut c: Vec<i32> = (0..n).map(|x| 32768 * (x as i32 + 1) / n as i32).collect(); c.push(0); let mut c2 = c.clone(); let mut w = c.clone(); let mut ss = vec![]; for _ in 0..i { ss.push(a) } for _ in 0..j { ss.push(b) }
    let mut e = BoolCoder::new(); let mut o = vec![]; e.init_encoder(); for &s in &ss { e.encode_symbol(s as i32, &mut o, &mut c); w = reference(&w, s); check(c == w, "encoder-follows-rule"); check(valid(&c), "stays-valid"); } e.exit_encoder(&mut o);
    let z = o.len() / 8; let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32); for &s in &ss { check(d.decode_symbol(&mut q, &mut c2) == s as u64, "symbol"); } check(c2 == w, "decoder-follows-rule");
}
harnesses![vh_n2, vh_n3, vh_n4, vh_n5, vh_n8, vh_n13, vh_n16, vh_s13, vh_s16, vh_history];
//@ run vh_n2
//@ run vh_n3 workers=2
//@ run vh_n4 workers=2
//@ run vh_n5 workers=2
//@ run vh_n8 workers=4
//@ run vh_n13 workers=4 tier=thorough
//@ run vh_n16 workers=4 tier=thorough
//@ run vh_s13 workers=4
//@ run vh_s16 workers=4
//@ run vh_history workers=4
//@ bounds every distribution of 2 symbols; of 3,4,5,8 symbols (13,16 thorough) with a lower bound on the probability of the coded symbol; sparse families of 13 and 16 symbols; every counter 0..32; histories of up to 73 symbols
//@ outside distributions of more than 16 symbols (the format has none)
