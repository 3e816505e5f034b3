// Harness runtime. Included (with one property file) into the crate root as `mod verif` under cfg(av1enc_verif).
// Symbolic run: the engine interprets the `vh_*` functions and handles the verif_* externs.
// Native run (cfg verif_replay): the same functions compiled for the machine, inputs read from a file.
#[allow(unused_imports)] use std::collections::VecDeque;
#[allow(unused_imports)] use std::rc::Rc;
#[allow(unused_imports)] use std::cell::RefCell;

#[cfg(not(verif_replay))]
extern "C" {
    fn verif_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn verif_assert(c: bool, p: *const u8, n: usize);
    fn verif_assume(c: bool);
    fn verif_reach(p: *const u8, n: usize);
    fn verif_concretize(x: u64) -> u64;
    fn verif_expect_panic(b: bool);
    fn verif_out(x: u64);
}
#[cfg(verif_replay)]
mod native {
    extern "C" { fn _exit(c: i32) -> !; fn syscall(n: i64, a: usize, b: usize, c: usize) -> isize; }
    /// to descriptor 1 itself, past any redirection of standard output by a harness
    pub fn say(l: &str) { let l = format!("{}\n", l); unsafe { syscall(1, 1, l.as_ptr() as usize, l.len()); } }
    pub fn die(c: i32) -> ! { unsafe { _exit(c) } }
    use std::io::Read;
    pub static mut INPUT: Option<Vec<(String, Vec<u8>)>> = None;
    pub static mut POS: usize = 0;
    pub static mut EXPECT: bool = false;
    pub fn load() {
        let mut s = String::new();
        ::std::fs::File::open(::std::env::var("AV1ENC_VERIF_INPUT").unwrap()).unwrap().read_to_string(&mut s).unwrap();
        let mut v = vec![];
        for l in s.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() < 3 { continue; }
            let h = f[2].as_bytes();
            v.push((f[0].to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&f[2][2 * i..2 * i + 2], 16).unwrap()).collect()));
        }
        unsafe { INPUT = Some(v); }
        ::std::panic::set_hook(Box::new(|i| {
            if unsafe { EXPECT } { say(&format!("NATIVE expected-panic")); die(0); }
            say(&format!("NATIVE panic {}", i)); die(101);
        }));
    }
}
#[cfg(verif_replay)] use self::native::{die, say};
#[cfg(not(verif_replay))] #[allow(dead_code)] fn die(_c: i32) -> ! { ::std::process::abort() }
#[cfg(not(verif_replay))] #[allow(dead_code)] fn say(_l: &str) {}
#[cfg(verif_replay)] unsafe fn verif_sym(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let nm = ::std::str::from_utf8(::std::slice::from_raw_parts(name, nl)).unwrap();
    #[allow(static_mut_refs)]
    let v = native::INPUT.as_ref().unwrap();
    if native::POS >= v.len() { say(&format!("NATIVE input-exhausted {}", nm)); die(44); }
    let r = &v[native::POS]; native::POS += 1;
    if r.0 != nm { say(&format!("NATIVE input-mismatch {} {}", nm, r.0)); die(44); }
    for i in 0..n { *p.offset(i as isize) = if i < r.1.len() { r.1[i] } else { 0 }; }
}
#[cfg(verif_replay)] unsafe fn verif_assert(c: bool, p: *const u8, n: usize) {
    if !c { say(&format!("NATIVE assert {}", ::std::str::from_utf8(::std::slice::from_raw_parts(p, n)).unwrap())); die(42); }
}
#[cfg(verif_replay)] unsafe fn verif_assume(c: bool) { if !c { say(&format!("NATIVE assume-failed")); die(43); } }
#[cfg(verif_replay)] unsafe fn verif_reach(_p: *const u8, _n: usize) {}
#[cfg(verif_replay)] unsafe fn verif_concretize(x: u64) -> u64 { x }
#[cfg(verif_replay)] unsafe fn verif_expect_panic(b: bool) { native::EXPECT = b; }
#[cfg(verif_replay)] unsafe fn verif_out(x: u64) { say(&format!("NATIVE out {}", x)); }

/// A fully symbolic value of a plain-data type (integers, arrays of integers).
#[allow(dead_code)] fn any<T: Copy>(n: &str) -> T {
    unsafe { let mut v: T = ::std::mem::zeroed(); verif_sym(&mut v as *mut T as *mut u8, ::std::mem::size_of::<T>(), n.as_ptr(), n.len()); v }
}
#[allow(dead_code)] fn any_bool(n: &str) -> bool { let b: u8 = any(n); assume(b < 2); b == 1 }
/// lo <= x < hi
#[allow(dead_code)] fn any_in(n: &str, lo: u64, hi: u64) -> u64 {
    let x: u64 = if hi <= 256 { any::<u8>(n) as u64 } else if hi <= 65536 { any::<u16>(n) as u64 } else if hi <= 1 << 32 { any::<u32>(n) as u64 } else { any::<u64>(n) };
    assume(x >= lo && x < hi); x
}
#[allow(dead_code)] fn check(c: bool, l: &str) { unsafe { verif_assert(c, l.as_ptr(), l.len()) } }
#[allow(dead_code)] fn assume(c: bool) { unsafe { verif_assume(c) } }
#[allow(dead_code)] fn reach(l: &str) { unsafe { verif_reach(l.as_ptr(), l.len()) } }
/// Case split: the engine explores every feasible value, one path each.
#[allow(dead_code)] fn split(x: u64) -> u64 { unsafe { verif_concretize(x) } }
/// From here on a panic of the code under test is an allowed end of the path.
#[allow(dead_code)] fn expect_panic(b: bool) { unsafe { verif_expect_panic(b) } }
/// Observable compared between the engine and the native build on sampled paths.
#[allow(dead_code)] fn out(x: u64) { unsafe { verif_out(x) } }
#[allow(dead_code)] fn out_bits(b: &[u8]) { out(b.len() as u64); let mut i = 0; while i < b.len() { let mut w = 0u64; let mut j = 0; while j < 8 && i < b.len() { w = (w << 8) | b[i] as u64; i += 1; j += 1; } out(w); } }

/// the program's command line, when a harness runs the whole program
#[allow(dead_code)] static mut ARGS: Option<Vec<String>> = None;
#[allow(static_mut_refs)] #[allow(dead_code)] pub fn args(a: Vec<String>) -> Vec<String> { unsafe { ARGS.take().unwrap_or(a) } }

static mut IN_HARNESS: bool = false;
macro_rules! harnesses { ($($f:ident),* $(,)*) => {
    static TABLE: &'static [(&'static str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
    /// true: this call was the native harness entry and is done; false: run the program's own main.
    pub fn main() -> bool {
        if unsafe { IN_HARNESS } { return false; }
        unsafe { IN_HARNESS = true; }
        #[cfg(verif_replay)] native::load();
        let name = ::std::env::var("AV1ENC_VERIF_FN").unwrap_or(String::new());
        for &(n, f) in TABLE { if n == name { f(); say(&format!("NATIVE end")); return true; } }
        say(&format!("NATIVE no-such-harness")); die(45);
    }
} }
