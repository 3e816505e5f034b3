// P12: command-line parsing and validation, against an independent reference parser.
include!("common.rs");
extern crate num;
use self::num::rational::Ratio;
use option::*;

#[derive(PartialEq, Clone)] struct Ref { input: Option<Vec<u8>>, output: Option<Vec<u8>>, w: Option<u64>, h: Option<u64>, rate: Option<(u64, u64)>, frames: Option<u64> }
fn defaults() -> Ref { Ref { input: None, output: None, w: None, h: None, rate: Some((30, 1)), frames: Some(4294967295) } }
fn num(s: &[u8]) -> Option<u64> { let s = if s.len() > 1 && s[0] == b'+' { &s[1..] } else { s }; if s.len() == 0 { return None; } let mut v: u64 = 0; for &c in s { if c < b'0' || c > b'9' { return None; } v = match v.checked_mul(10) { Some(x) => x, None => return None }; v = match v.checked_add((c - b'0') as u64) { Some(x) => x, None => return None }; } Some(v) }
fn two(s: &[u8], sep: u8) -> Option<(u64, u64)> { let mut k = usize::max_value(); let mut n = 0; for i in 0..s.len() { if s[i] == sep { k = i; n += 1; } } if n != 1 { return None; } match (num(&s[..k]), num(&s[k + 1..])) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
const NAMES: [(&'static str, &'static str); 5] = [("input", "i"), ("output", "o"), ("frames", "fr"), ("size", "s"), ("framerate", "r")];
/// false: rejected
fn reference(args: &[Vec<u8>], c: &mut Ref) -> bool {
    let mut i = 0;
    while i < args.len() {
        let a = &args[i]; let mut opt = 99;
        for k in 0..5 { let (l, s) = NAMES[k]; if a.len() == l.len() + 2 && a[0] == b'-' && a[1] == b'-' && &a[2..] == l.as_bytes() { opt = k; } if a.len() == s.len() + 1 && a[0] == b'-' && &a[1..] == s.as_bytes() { opt = k; } }
        if opt == 99 { return false; } if i + 1 >= args.len() { return false; } let v = &args[i + 1]; i += 2;
        match opt { 0 => c.input = Some(v.clone()), 1 => c.output = Some(v.clone()), 2 => match num(v) { Some(n) => c.frames = Some(n), None => return false },
            3 => match two(v, b'x') { Some((w, h)) => { c.w = Some(w); c.h = Some(h); }, None => return false },
            _ => match num(v) { Some(n) => c.rate = Some((n, 1)), None => match two(v, b'/') { Some((n, d)) if d > 0 => c.rate = Some((n, d)), _ => return false } } }
    }
    true
}
fn cfg(c: &Config) -> Ref { Ref { input: c.input.clone().map(|s| s.into_bytes()), output: c.output.clone().map(|s| s.into_bytes()), w: c.frame_width.map(|x| x as u64), h: c.frame_height.map(|x| x as u64), rate: c.framerate.map(|r| (*r.numer() as u64, *r.denom() as u64)), frames: c.frames.map(|x| x as u64) } }
fn same_rate(a: Option<(u64, u64)>, b: Option<(u64, u64)>) -> bool { match (a, b) { (None, None) => true, (Some((n, d)), Some((m, e))) => n * e == m * d, _ => false } }
fn fresh() -> Config { let mut c = Config::default(); CommandOption::init_config(&mut c); c }
fn st(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }
fn compare(args: &[Vec<u8>]) {
    let mut c = fresh(); let got = CommandOption::parse(args.iter().map(|a| st(a)).collect(), &mut c); let mut want = defaults(); let ok = reference(args, &mut want); out(ok as u64);
    check(got.is_ok() == ok, "accepts-exactly-well-formed-arguments");
    if ok { let g = cfg(&c); check(g.input == want.input, "input-path"); check(g.output == want.output, "output-path"); check(g.w == want.w && g.h == want.h, "frame-size"); check(g.frames == want.frames, "frame-count"); check(same_rate(g.rate, want.rate), "frame-rate");
        if let Ok(r) = got { check(r.is_empty(), "no-argument-left"); } }
}
fn sym_ascii(n: &str, len: u64) -> Vec<u8> { let mut v = vec![]; for _ in 0..len { let c: u8 = any(n); assume(c > 0 && c < 128); v.push(c); } v }
/// digits are case-split (the frame-rate reduction runs Euclid on them), everything else stays symbolic
fn pin(v: Vec<u8>) -> Vec<u8> { v.into_iter().map(|c| if c >= b'0' && c <= b'9' { split(c as u64) as u8 } else { c }).collect() }
fn not_help(a: &[u8]) { let h1 = a.len() == 2 && a[0] == b'-' && a[1] == b'h'; let h2 = a.len() == 6 && &a[..] == b"--help"; assume(!h1 && !h2); }
// arbitrary short arguments: anything malformed is rejected, nothing panics
#[no_mangle] pub extern "C" fn vh_arbitrary() { let n = split(any_in("n", 0, 3)); let mut args = vec![]; for i in 0..n { let l = split(any_in("len", 0, 4 - i)); let a = sym_ascii("c", l); args.push(if i > 0 { pin(a) } else { a }); } if args.len() > 0 { not_help(&args[0]); } compare(&args); }
#[no_mangle] pub extern "C" fn vh_name() { let l = split(any_in("len", 3, 12)); let mut a = vec![b'-', b'-']; a.extend(sym_ascii("c", l - 2)); not_help(&a); compare(&[a, b"7".to_vec()]); }
#[no_mangle] pub extern "C" fn vh_nonascii() { let c: u8 = any("b0"); let d: u8 = any("b1"); assume(c >= 0xc2 && c <= 0xdf && d >= 0x80 && d <= 0xbf); let a = match split(any_in("shape", 0, 4)) { 0 => vec![c, d], 1 => vec![b'-', c, d], 2 => vec![b'-', b'-', c, d], _ => vec![b'-', b'i', c, d] }; compare(&[a, b"x".to_vec()]); }
// values of each option
#[no_mangle] pub extern "C" fn vh_frames() { let l = split(any_in("len", 0, 5)); let v = sym_ascii("c", l); compare(&[if any_bool("long") { b"--frames".to_vec() } else { b"-fr".to_vec() }, v]); }
#[no_mangle] pub extern "C" fn vh_size() { let l = split(any_in("len", 0, 6)); let v = sym_ascii("c", l); compare(&[if any_bool("long") { b"--size".to_vec() } else { b"-s".to_vec() }, v]); }
fn digits(n: u64) -> Vec<u8> { let mut v = vec![]; for _ in 0..n { let c: u8 = any("d"); assume(c >= b'0' && c <= b'9'); v.push(c); } v }
#[no_mangle] pub extern "C" fn vh_size_digits() { let mut v = digits(split(any_in("a", 1, 5))); v.push(b'x'); v.extend(digits(split(any_in("b", 1, 5)))); compare(&[b"--size".to_vec(), v]); }
#[no_mangle] pub extern "C" fn vh_big() { let mut v = b"184467440737095516".to_vec(); v.extend(digits(2)); if any_bool("more") { v.extend(digits(1)); } compare(&[b"--frames".to_vec(), v]); }
#[no_mangle] pub extern "C" fn vh_rate() { let l = split(any_in("len", 0, 4)); let v = pin(sym_ascii("c", l)); let mut slash = 0; for &c in &v { slash += (c == b'/') as u32; } assume(slash == 0 || slash > 1); compare(&[b"--framerate".to_vec(), v]); }
#[no_mangle] pub extern "C" fn vh_rate_nd() { let mut v = pin(sym_ascii("c", split(any_in("a", 0, 2)))); v.push(b'/'); v.extend(pin(sym_ascii("c", split(any_in("b", 0, 3))))); compare(&[b"-r".to_vec(), v]); }
#[no_mangle] pub extern "C" fn vh_rate_2() { let mut v = pin(digits(2)); v.push(b'/'); v.extend(pin(digits(1))); compare(&[b"-r".to_vec(), v]); }
// sequences of options: order does not matter except that the last value of an option wins; rejected as a whole when any is malformed
fn item(args: &mut Vec<Vec<u8>>) { let k = split(any_in("opt", 0, 5)) as usize; let (l, s) = NAMES[k]; let mut n = vec![]; if any_bool("long") { n.extend_from_slice(b"--"); n.extend_from_slice(l.as_bytes()); } else { n.push(b'-'); n.extend_from_slice(s.as_bytes()); } args.push(n);
    let c = sym_ascii("v", 1); args.push(match k { 0 | 1 => { let mut v = b"-".to_vec(); v.extend(c); v }, 2 => c, 3 => { let mut v = b"16x".to_vec(); v.extend(c); v }, _ => { let mut v = c; v.extend_from_slice(b"/7"); v } }); }
#[no_mangle] pub extern "C" fn vh_two_options() { let mut a = vec![]; item(&mut a); item(&mut a); if any_bool("dangling") { a.pop(); } compare(&a); }
#[no_mangle] pub extern "C" fn vh_three_options() { let mut a = vec![]; item(&mut a); item(&mut a); item(&mut a); compare(&a); }
// validation
#[no_mangle] pub extern "C" fn vh_validate() {
    let mut c = Config::default(); if any_bool("i") { c.input = Some("a".to_string()); } if any_bool("o") { c.output = Some("b".to_string()); } if any_bool("w") { c.frame_width = Some(any("wv")); } if any_bool("h") { c.frame_height = Some(any("hv")); } if any_bool("f") { c.frames = Some(any("fv")); }
    if any_bool("r") { let d: usize = any("rd"); assume(d > 0); c.framerate = Some(Ratio::new_raw(any("rn"), d)); } let g = cfg(&c);
    let dim = |x: Option<u64>| match x { Some(v) => v > 0 && v < 8192, None => false }; let want = g.input.is_some() && g.output.is_some() && dim(g.w) && dim(g.h) && g.frames.is_some() && match g.rate { Some((n, _)) => n > 0, None => false };
    out(want as u64); check(CommandOption::validate_config(&c).is_ok() == want, "valid-exactly-when-complete-and-in-range"); check(CommandOption::validate_config(&fresh()).is_err(), "defaults-alone-are-incomplete");
}
harnesses![vh_arbitrary, vh_name, vh_nonascii, vh_frames, vh_size, vh_size_digits, vh_big, vh_rate, vh_rate_nd, vh_rate_2, vh_two_options, vh_three_options, vh_validate];
//@ run vh_arbitrary workers=4
//@ run vh_name workers=2
//@ run vh_nonascii
//@ run vh_frames
//@ run vh_size workers=2
//@ run vh_size_digits workers=2
//@ run vh_big
//@ run vh_rate workers=2
//@ run vh_rate_nd workers=2
//@ run vh_rate_2 workers=2
//@ run vh_two_options workers=2
//@ run vh_three_options workers=4 tier=thorough
//@ run vh_validate workers=2
//@ bounds argument lists of up to 2 arbitrary ASCII arguments of up to 3 and 2 characters, option names of up to 11 characters, option values of up to 5 arbitrary characters (frame sizes of up to 4+4 digits, 20-21 digit counts around the 64-bit limit, frame rates of up to 2/1 digits), sequences of 2 (quick) or 3 (thorough) options; every configuration value for validation
//@ outside longer arguments; 3- and 4-byte UTF-8 characters; the help option's output
