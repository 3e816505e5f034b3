// reference bit reader used by the parse-back harnesses
#[allow(dead_code)] struct Rd<'a> { b: &'a [u8], p: usize }
#[allow(dead_code)] impl<'a> Rd<'a> {
    fn new(b: &'a [u8]) -> Rd<'a> { Rd { b: b, p: 0 } }
    fn left(&self) -> usize { self.b.len() - self.p }
    fn f(&mut self, n: usize) -> u64 { if self.left() < n { check(false, "payload-too-short"); } let mut v = 0u64; for _ in 0..n { let x = self.b[self.p]; v = (v << 1) | x as u64; self.p += 1; } v }
    /// the next n bits are exactly v
    fn is(&mut self, n: usize, v: u64, l: &str) { let x = self.f(n); check(x == v, l); }
    fn flag(&mut self, v: bool, l: &str) { self.is(1, v as u64, l) }
    fn uvlc(&mut self) -> u64 { let mut z = 0; while self.f(1) == 0 { z += 1; if z == 32 { break; } } if z >= 32 { self.f(1); return 0xffffffff; } let v = self.f(z); v + (1u64 << z) - 1 }
    fn leb128(&mut self) -> u64 { let mut v = 0; for i in 0..8 { let m = self.f(1); v |= self.f(7) << (7 * i); if m == 0 { return v; } } check(false, "leb128-too-long"); 0 }
    fn su(&mut self, n: usize) -> i64 { let v = self.f(n) as i64; if (v >> (n - 1)) & 1 == 1 { v - (1i64 << n) } else { v } }
    fn end(&mut self, l: &str) { check(self.left() == 0, l); }
}
#[allow(dead_code)] fn bits_of(bytes: &[u8]) -> Vec<u8> { let mut r = vec![]; for &b in bytes { for i in 0..8 { r.push((b >> (7 - i)) & 1); } } r }
/// a symbolic value of a fieldless one-byte enum whose discriminants are `vals`
#[allow(dead_code)] fn any_enum<T: Copy>(n: &str, vals: &[u8]) -> T { assert!(::std::mem::size_of::<T>() == 1); let v: u8 = any(n); let mut ok = false; for &x in vals { ok = ok | (v == x); } assume(ok); unsafe { *(&v as *const u8 as *const T) } }
