// P11: reading a plane fills it with the next bytes of the input, in order, however the input is delivered.
include!("common.rs");
include!("vfs.rs");
use binary_reader::*;
fn content(n: usize) -> Vec<u8> { (0..n).map(|_| any::<u8>("d")).collect() }
fn planes(r: &mut BinaryReader, d: &[u8], sizes: &[usize]) {
    let mut pos = 0;
    for &n in sizes { let mut v: Vec<u8> = vec![7; n]; let got = r.read_to_vec(&mut v);
        let avail = if d.len() - pos < n { d.len() - pos } else { n };
        match got { Ok(k) => { check(k == avail, "count-reported"); check(v.len() == n, "plane-size-kept"); for i in 0..avail { check(v[i] == d[pos + i], "bytes-in-order"); out(v[i] as u64); } } Err(_) => check(false, "no-error") }
        pos += avail; }
}
#[no_mangle] pub extern "C" fn vh_file_short() { unsafe { vfs::SHORT = true; } let n = split(any_in("n", 0, 8)) as usize; let d = content(n); vfs::add(b"vfs:in", d.clone()); let mut r = BinaryReader::file("vfs:in").unwrap(); planes(&mut r, &d, &[3, 2, 1]) }
#[no_mangle] pub extern "C" fn vh_stdin_short() { unsafe { vfs::SHORT = true; vfs::INTR_AT = split(any_in("intr", 0, 4)) as i64 - 1; } let n = split(any_in("n", 0, 7)) as usize; let d = content(n); let f = vfs::add(b"-", d.clone()); unsafe { vfs::STDIN = f as i32; } let si = ::std::io::stdin(); let mut r = BinaryReader::standard(&si); planes(&mut r, &d, &[4, 1, 1]) }
// planes larger than any internal buffer, delivered in pieces of an arbitrary size
#[no_mangle] pub extern "C" fn vh_large() {
    let n = 9000usize; let x: u8 = any("x"); let d: Vec<u8> = (0..2 * n).map(|i| (i as u8).wrapping_mul(3) ^ (if i % 7 == 0 { x } else { 0 })).collect(); vfs::add(b"vfs:in", d.clone());
    let mut r = BinaryReader::file("vfs:in").unwrap(); let mut v: Vec<u8> = vec![0; n]; 
    for p in 0..2 { check(r.read_to_vec(&mut v).unwrap() == n, "count-reported"); for i in 0..n { check(v[i] == d[p * n + i], "bytes-in-order"); } }
}
#[no_mangle] pub extern "C" fn vh_large_short() {
    let n = 9000usize; let d: Vec<u8> = (0..n + 10).map(|i| (i as u8).wrapping_mul(5)).collect(); vfs::add(b"vfs:in", d.clone()); let cut = split(any_in("cut", 1, 4)) as i64;
    let mut r = BinaryReader::file("vfs:in").unwrap(); unsafe { vfs::CAP = [0, 4000, 8192, 1][cut as usize % 4]; } let mut v: Vec<u8> = vec![0; n]; 
    check(r.read_to_vec(&mut v).unwrap() == n, "count-reported"); for i in 0..n { check(v[i] == d[i], "bytes-in-order"); }
    let mut w: Vec<u8> = vec![0; 5]; check(r.read_to_vec(&mut w).unwrap() == 5, "count-reported"); for i in 0..5 { check(w[i] == d[n + i], "bytes-in-order"); }
}
// inputs far longer than one plane or buffer
#[no_mangle] pub extern "C" fn vh_long() { let n = 30000usize; let d: Vec<u8> = (0..7 * n).map(|i| (i >> 3) as u8 ^ (i as u8)).collect(); vfs::add(b"vfs:in", d.clone()); let mut r = BinaryReader::file("vfs:in").unwrap(); let mut v: Vec<u8> = vec![0; n];
    for p in 0..7 { check(r.read_to_vec(&mut v).unwrap() == n, "count-reported"); let mut ok = true; for i in 0..n { ok = ok & (v[i] == d[p * n + i]); } check(ok, "bytes-in-order"); } check(r.read_to_vec(&mut v).unwrap() == 0, "count-reported"); }
// a failing device is reported, a missing file is an error and not a panic
#[no_mangle] pub extern "C" fn vh_errors() {
    check(BinaryReader::file("vfs:absent").is_err(), "missing-file");
    let d = content(5); vfs::add(b"vfs:in", d.clone()); unsafe { vfs::SHORT = true; vfs::FAIL_AT = split(any_in("fail", 0, 3)) as i64; }
    let mut r = BinaryReader::file("vfs:in").unwrap(); let mut v: Vec<u8> = vec![0; 5]; match r.read_to_vec(&mut v) { Ok(k) => { check(k == 5, "count-reported"); for i in 0..5 { check(v[i] == d[i], "bytes-in-order"); } } Err(_) => reach("error-reported") }
}
// wider sample types receive the byte values
#[no_mangle] pub extern "C" fn vh_wide() { let d = content(4); vfs::add(b"vfs:in", d.clone()); let mut r = BinaryReader::file("vfs:in").unwrap(); let mut v: Vec<u16> = vec![999; 4]; check(r.read_to_vec(&mut v).unwrap() == 4, "count-reported"); for i in 0..4 { check(v[i] == d[i] as u16, "bytes-in-order"); } }
harnesses![vh_file_short, vh_stdin_short, vh_large, vh_large_short, vh_errors, vh_wide, vh_long];
//@ run vh_file_short workers=2
//@ run vh_stdin_short workers=2
//@ run vh_large
//@ run vh_large_short
//@ run vh_errors reach=error-reported
//@ run vh_wide
//@ run vh_long
//@ bounds contents of up to 7 bytes under every split and one interruption, files and standard input; planes of 9000 bytes in pieces of 4000, 8192 and unlimited; 210000 bytes in 7 planes; every failure point of a 5-byte read
//@ outside longer inputs under arbitrary splits
//@ assume open/read/write/close behave like the in-memory model in harness/vfs.rs
