// P22: the default distributions are well formed and those of the format.
//@ run vh_form workers=2
//@ run vh_codable workers=1
//@ run vh_values workers=2
//@ bounds every entry of every default distribution
//@ outside that the pinned values are those of the AV1 specification was judged by reading, there is no copy of the specification here; the quantizer tables, which nothing can reach yet
include!("common.rs");
include!("blk.rs");

fn words(c: &CDF) -> &[i32] { unsafe { ::std::slice::from_raw_parts(c as *const CDF as *const i32, ::std::mem::size_of::<CDF>() / 4) } }
/// every distribution rises strictly from above 0 to 32768 and is followed by a use count of 0, so every symbol of every alphabet can be coded
#[no_mangle] pub extern "C" fn vh_form() {
    let c = Box::new(default_cdf); let w = words(&c); let n = w.len(); let k = (n + 63) / 64; let i = pickn("part", k as u64) * 64;
    check(w[n - 1] == 0 && w[n - 2] == 32768, "last-distribution");
    let mut j = i; while j < i + 64 && j < n {
        if w[j] == 0 { check(j > 0 && w[j - 1] == 32768, "count-after-total"); }
        else if w[j] == 32768 { check(j > 0 && w[j - 1] != 0 && w[j - 1] != 32768, "at-least-two-symbols"); check(w[j + 1] == 0, "fresh-count"); }
        else { check(w[j] > 0 && w[j] < 32768 && w[j + 1] > w[j], "rising"); }
        j += 1; }
    out(w[i] as u64);
}
trait Table { fn at(&mut self) -> &mut [i32]; fn flat(&self, v: &mut Vec<i64>); }
impl<const N: usize> Table for [i32; N] { fn at(&mut self) -> &mut [i32] { self } fn flat(&self, v: &mut Vec<i64>) { v.push(-(N as i64)); for x in self.iter() { v.push(*x as i64); } } }
impl<T: Table, const N: usize> Table for [T; N] { fn at(&mut self) -> &mut [i32] { let i = if N > 1 { pickn("index", N as u64) } else { 0 }; self[i].at() } fn flat(&self, v: &mut Vec<i64>) { v.push(-1000 - N as i64); for x in self.iter() { x.flat(v); } } }
fn digest<T: Table>(t: &T) -> u64 { let mut v = vec![]; t.flat(&mut v); let mut h = 0xcbf29ce484222325u64; for x in v.iter() { h = (h ^ (*x as u64 & 0xffffff)).wrapping_mul(0x100000001b3); h ^= h >> 29; } h }
macro_rules! tables { ($($f:ident $d:expr),* $(,)*) => {
    const NAMES: &'static [&'static str] = &[$(stringify!($f)),*];
    fn value(c: &CDF, i: usize) -> (u64, u64) { let mut n = 0; $( if i == n { return (digest(&c.$f), $d); } n += 1; )* let _ = n; (0, 1) }
    fn pick_table(c: &mut CDF, i: usize) -> &mut [i32] { let mut n = 0; $( if i == n { return c.$f.at(); } n += 1; )* let _ = n; panic!() }
} }
tables! {
    intra_frame_y_mode 0x1a0bbc881a51a0c,
    y_mode 0x5452e8bd2f3a5c4e,
    uv_mode_cfl_not_allowed 0xed9e18c26cfcec7b,
    uv_mode_cfl_allowed 0x706178f0e34c1e6c,
    angle_delta 0x907082faf4f3c5f5,
    intrabc 0x95f08c5b567d67a7,
    partition_w8 0xbaa470000256f341,
    partition_w16 0x9144d0351444d8ea,
    partition_w32 0x7df230e518688959,
    partition_w64 0xeff728e71f45f76c,
    partition_w128 0x63ea875e3e6555ca,
    tx_8x8 0xca088ed5c6711826,
    tx_16x16 0xced06bedc3e3b22d,
    tx_32x32 0xff454004e02095,
    tx_64x64 0x984a31b9b83bdfac,
    txfm_split 0xafa0ac9ff80a9b0e,
    filter_intra_mode 0xb4054a371f1c82cb,
    filter_intra 0xf172bd637dab4787,
    segment_id 0x1a6e3c36771474e5,
    segment_id_predicted 0xbc2c87891d69b8ca,
    mv_class0_hp 0x427ef6b4259d2ee7,
    mv_hp 0x133def7ff5560e66,
    mv_sign 0x133def7ff5560e66,
    mv_bit 0x76cb02b59936b5,
    mv_class0_bit 0x5d39e9f9b7bbeb9a,
    new_mv 0x198f41e7da6b3fb7,
    zero_mv 0xd90b9ef4edfc428a,
    ref_mv 0xf8965e3ab84f77e7,
    drl_mode 0xfebffdc49e3521e5,
    is_inter 0xcefbb2940440d85d,
    comp_mode 0x63972a04f033b036,
    skip_mode 0x70e9b46848e021b9,
    skip 0x5a36ed9c62f8ca4a,
    comp_ref 0x76644b04db582701,
    comp_bwd_ref 0x8af78974f8d1332a,
    single_ref 0x324b6fa579d4e018,
    compound_mode 0xb690424e1b03fc6c,
    interp_filter 0x14e1a707fbfa356a,
    motion_mode 0xfc97af3caa536a47,
    mv_joint 0x860496e54d2fb0d4,
    mv_class 0x2b6cf31ee75a0a15,
    mv_class0_fr 0x846dc88600e80c1e,
    mv_fr 0x75fcdfddd2b2e032,
    palette_y_size 0x76da363398f27c90,
    palette_uv_size 0x7712e0f9c4c9ce2f,
    palette_size_2_y_color 0xd7ab7c8dbd03aed6,
    palette_size_3_y_color 0xf67c3d51774feca8,
    palette_size_4_y_color 0x5e7798432bf5a64,
    palette_size_5_y_color 0xc6d404fa668b2a78,
    palette_size_6_y_color 0xe35519e455d93a34,
    palette_size_7_y_color 0x4b8b285e407286f1,
    palette_size_8_y_color 0x4ea43503ad872843,
    palette_size_2_uv_color 0x29689545ca8d03ba,
    palette_size_3_uv_color 0x799cb1eed46a0a93,
    palette_size_4_uv_color 0x6121edf3bbf8b990,
    palette_size_5_uv_color 0x520d2ac784ffca2a,
    palette_size_6_uv_color 0xbc070e4d760e852c,
    palette_size_7_uv_color 0x516b4a7f5722b8ac,
    palette_size_8_uv_color 0x3294926f691a0fda,
    palette_y_mode 0x9d7db6d367bc9548,
    palette_uv_mode 0xe3fa151430cde169,
    delta_q 0x3bdab6a0dd094b9a,
    delta_lf 0x3bdab6a0dd094b9a,
    delta_lf_multi 0x82628f886834808e,
    intra_tx_type_set1 0x7070955857d131b0,
    intra_tx_type_set2 0xf55e495f34cf3dc1,
    inter_tx_type_set1 0x337a5cfc67b3b1f7,
    inter_tx_type_set2 0x34bacdaccea310bd,
    inter_tx_type_set3 0x73f5ce5b423fcd4c,
    compound_idx 0xdacf04d759a221cb,
    comp_group_idx 0x58b29e6744ed0c64,
    compound_type 0xe09975ede4b425d3,
    inter_intra 0x78f2aff19bee5f48,
    inter_intra_mode 0x7b2818f2a98ae16c,
    wedge_index 0x3f861b0084673d99,
    wedge_inter_intra 0x7735656018bacd4d,
    use_obmc 0xdf1c8891dc3dc906,
    comp_ref_type 0xef8ccbbcb4cca7ff,
    uni_comp_ref 0xa84057ce7c23d525,
    cfl_sign 0x4e4f3666fa41cd3f,
    cfl_alpha 0x891e73319a6d5f23,
    use_wiener 0xe46acd85e7477826,
    use_sgrproj 0xbcc5092b8abb7674,
    restoration_type 0xdc6fe46e8019fdc1,
    txb_skip 0x5c32f9c42f0edbaf,
    eob_pt_16 0x88a0b83d6c245da6,
    eob_pt_32 0xa7821b0d1fed51ae,
    eob_pt_64 0x5186c9ff1f883eb6,
    eob_pt_128 0xcc288bc04201b237,
    eob_pt_256 0xf286008db7ca9420,
    eob_pt_512 0x34456c707ad962,
    eob_pt_1024 0xb225b6a8f95c5fb,
    eob_extra 0x77720ff34eefe303,
    dc_sign 0xee858ab1520c1018,
    coeff_base_eob 0xd8189414629b8d95,
    coeff_base 0x94438c88720d9031,
    coeff_br 0x587c0b057a717916,
}
#[no_mangle] pub extern "C" fn vh_values() {
    let c = Box::new(default_cdf); let i = pickn("table", NAMES.len() as u64); let (d, want) = value(&c, i); out(d); check(d == want, NAMES[i]);
}
/// coding a symbol under a default distribution of any table and reading it back gives the symbol, and both sides adapt alike
#[no_mangle] pub extern "C" fn vh_codable() {
    let i = pickn("table", NAMES.len() as u64); let mut a = Box::new(default_cdf); let mut t = [0i32; 20]; let mut u = [0i32; 20]; let n;
    { let p = pick_table(&mut a, i); n = p.len(); for k in 0..n { t[k] = p[k]; u[k] = p[k]; } }
    let s = any_in("symbol", 0, 20) as i32; assume(s < n as i32 - 1); let s = split(s as u64) as i32;
    let mut o = vec![]; let mut e = BoolCoder::new(); e.init_encoder(); e.encode_symbol(s, &mut o, &mut t[..n]); e.encode_literal(&mut o, 0x2d, 8); e.exit_encoder(&mut o);
    check(o.len() % 8 == 0, "whole-bytes"); let z = o.len() / 8; out_bits(&o); let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, z as u32);
    check(d.decode_symbol(&mut q, &mut u[..n]) == s as u64, "symbol-recovered"); check(d.decode_literal(&mut q, 8) == 0x2d, "next-recovered"); check(t == u, "equal-adaptation");
}
harnesses![vh_form, vh_codable, vh_values];
