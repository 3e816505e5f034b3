// P10: the bit writer delivers exactly the bits written, packed most significant bit first, whatever the call pattern and
// however the operating system splits the transfers.
include!("common.rs");
include!("vfs.rs");
use binary_writer::*;
fn expect(bits: &[u8]) -> Vec<u8> { let mut r = vec![]; let mut i = 0; while i < bits.len() { let mut b = 0u8; for j in 0..8 { b = (b << 1) | bits[i + j]; } r.push(b); i += 8; } r }
fn verify(f: i32, bits: &[u8]) { check(f >= 0, "file-created"); let got = vfs::content(f as usize); let want = expect(bits); check(got.len() == want.len(), "byte-count"); for i in 0..want.len() { check(got[i] == want[i], "byte-value"); out(got[i] as u64); } }
fn bits(n: usize) -> Vec<u8> { (0..n).map(|_| any_in("b", 0, 2) as u8).collect() }
// up to four calls, each a run of 0..=11 arbitrary bits, a single bit or an alignment
#[no_mangle] pub extern "C" fn vh_calls() {
    let mut all: Vec<u8> = vec![];
    { let mut w = BinaryWriter::file("vfs:out").unwrap();
      for _ in 0..3 { match split(any_in("op", 0, 3)) {
        0 => { let n = split(any_in("n", 0, 12)) as usize; let b = bits(n); w.write_bits(&b); all.extend_from_slice(&b); }
        1 => { let b = bits(1); w.write_bit(b[0]); all.push(b[0]); }
        _ => { w.byte_align(); while all.len() % 8 != 0 { all.push(0); } } } }
      w.byte_align(); while all.len() % 8 != 0 { all.push(0); } }
    verify(vfs::find(b"vfs:out"), &all);
}
// bytes reach the file also when every transfer may be short or interrupted
#[no_mangle] pub extern "C" fn vh_short() {
    unsafe { vfs::SHORT = true; vfs::INTR_AT = split(any_in("intr", 0, 4)) as i64 - 1; }
    let n = split(any_in("n", 30, 50)) as usize; let mut all = bits(n);
    { let mut w = BinaryWriter::file("vfs:out").unwrap(); w.write_bits(&all); w.byte_align(); } while all.len() % 8 != 0 { all.push(0); }
    verify(vfs::find(b"vfs:out"), &all);
}
// an existing file is replaced, not appended to
#[no_mangle] pub extern "C" fn vh_replace() {
    let f = vfs::add(b"vfs:out", vec![9; 5]); let n = split(any_in("n", 0, 20)) as usize; let mut all = bits(n);
    { let mut w = BinaryWriter::file("vfs:out").unwrap(); w.write_bits(&all); w.byte_align(); } while all.len() % 8 != 0 { all.push(0); }
    verify(f as i32, &all);
}
// a large output (beyond any internal buffer) keeps every byte in order
#[no_mangle] pub extern "C" fn vh_large() {
    let b = bits(8); let k = split(any_in("k", 8190, 8196)) as usize; let mut one = b.clone(); one[3] ^= 1;
    { let mut w = BinaryWriter::file("vfs:out").unwrap(); for i in 0..k { w.write_bits(if i % 3 == 0 { &one } else { &b }); } }
    let got = vfs::content(vfs::find(b"vfs:out") as usize); check(got.len() == k, "byte-count"); let (x, y) = (expect(&one)[0], expect(&b)[0]);
    for i in 0..k { check(got[i] == if i % 3 == 0 { x } else { y }, "byte-value"); }
}
// standard output
#[no_mangle] pub extern "C" fn vh_stdout() {
    let f = vfs::add(b"-", vec![]); unsafe { vfs::STDOUT = f as i32; vfs::SHORT = true; }
    let mut all = bits(19); { let so = ::std::io::stdout(); { let mut w = BinaryWriter::standard(&so); w.write_bits(&all); w.byte_align(); use std::io::Write; w.flush().unwrap(); } }
    while all.len() % 8 != 0 { all.push(0); } unsafe { vfs::STDOUT = -1; } verify(f as i32, &all);
}
harnesses![vh_calls, vh_short, vh_replace, vh_large, vh_stdout];
//@ run vh_calls workers=4
//@ run vh_short workers=4
//@ run vh_replace
//@ run vh_large
//@ run vh_stdout workers=2
//@ bounds three calls of 0..11 bits each or alignments, every bit value; outputs of 30..49 bits under every split into short writes and one interruption; outputs of 8190..8195 bytes; standard output of 19 bits
//@ outside write errors other than interruption (the writer panics on them)
//@ assume open/read/write/close behave like the in-memory model in harness/vfs.rs
