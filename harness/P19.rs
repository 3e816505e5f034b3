// P19: the program itself, from its arguments to its output and exit status.
//@ run vh_files workers=4
//@ run vh_streams workers=2
//@ run vh_sizes workers=2
//@ run vh_faults workers=4
//@ run vh_refused workers=2 reach=refused
//@ bounds frames of 1..3 by 1..3 pixels (and selected larger and odd sizes), frame limits 0..3 or none, inputs of 0 to 3 frames and one byte more or less, files and standard streams, every failing or interrupted transfer of small runs, every kind of refused command line
//@ outside other sizes and longer inputs; the text of messages; what is written for the frames themselves (the program does not encode frames yet)
//@ assume open/read/write/close behave like the in-memory model in harness/vfs.rs
include!("common.rs");
include!("vfs.rs");
include!("rd.rs");
use binary_writer::*; use bool_coder::*; use obu::OBU::*; use obu_encoder::*; use encoder::*; use sequence_header::*;

static mut AFTER: Option<fn(i32)> = None;
extern "C" { fn _exit(c: i32) -> !; }
/// the C library's exit, as called by std::process::exit: the run is over and its outcome is judged
#[no_mangle] pub unsafe extern "C" fn exit(code: i32) -> ! { if AFTER.is_some() { judge(code); } _exit(if code == 0 { 46 } else { code }) }
fn judge(code: i32) -> ! { unsafe {
    let f = AFTER.take().unwrap(); vfs::STDOUT = -1; f(code); out((code != 0) as u64); say("NATIVE end"); _exit(0)
} }
fn program(args: &[String]) -> ! {
    unsafe { ARGS = Some(args.to_vec()); IN_HARNESS = true; }
    super::main();
    { use std::io::Write; let _ = ::std::io::stdout().flush(); }   // as the runtime does when main returns
    judge(0)
}
/// what the run should leave behind
static mut HEAD: Option<Vec<u8>> = None;    // the sequence header temporal unit for the size given
static mut WANT_HEAD: bool = false; static mut OUT: i32 = -1; static mut W: usize = 0; static mut H: usize = 0;
/// the temporal unit that announces w x h: read back field by field up to the size, then the writer's own bytes
fn header(w: usize, h: usize) -> Vec<u8> {
    { let x = Rc::new(RefCell::new(EncoderContext::new())); let mut wr = BinaryWriter::file("vfs:ref").unwrap(); let mut c = BoolCoder::new(); OBUEncoder::new(&x, &mut wr, &mut c).encode_temporal_unit(&mut OBU_SEQUENCE_HEADER(SequenceHeader::new(w, h))); }
    let b = vfs::content(vfs::find(b"vfs:ref") as usize);
    let bits = bits_of(&b); let mut r = Rd::new(&bits);
    check(r.leb128() as usize == b.len() - 1, "temporal-unit-size"); check(r.leb128() as usize == b.len() - 2, "frame-unit-size"); check(r.leb128() as usize == b.len() - 3, "obu-size");
    r.f(1); r.is(4, 1, "sequence-header-obu"); let (ext, sized) = (r.f(1), r.f(1)); r.f(1); if ext == 1 { r.f(8); } if sized == 1 { r.leb128(); }
    r.f(3); r.f(1); if r.f(1) == 1 { r.f(5); } else { for _ in 0..r.f(5) + 1 { r.f(12); if r.f(5) > 7 { r.f(1); } } }
    let (nw, nh) = (r.f(4) as usize + 1, r.f(4) as usize + 1); r.is(nw, w as u64 - 1, "announced-width"); r.is(nh, h as u64 - 1, "announced-height");
    b
}
fn settle(w: usize, h: usize, want: bool, o: i32) { let b = header(w, h); unsafe { HEAD = Some(b); WANT_HEAD = want; OUT = o; W = w; H = h; vfs::COUNT = 0; } }
#[allow(static_mut_refs)] fn output_is(whole: bool) { unsafe {
    let i = if OUT >= 0 { OUT } else { vfs::find(b"vfs:out") };
    check(i >= 0, "output-created"); let d = vfs::content(i as usize); out(d.len() as u64);
    if whole { check(&d[..] == &HEAD.as_ref().unwrap()[..], "output-is-the-sequence-header"); } else { check(d.len() == 0, "output-empty"); }
} }
fn ok(code: i32) { check(code == 0, "success-reported"); output_is(unsafe { WANT_HEAD }) }
fn plane(w: usize, h: usize) -> usize { w * h + 2 * (((w + 1) / 2) * ((h + 1) / 2)) }
fn s(x: &str) -> String { x.to_string() }
/// lengths around 0..3 whole frames
fn length(f: usize) -> usize { let k = split(any_in("length", 0, 9)) as usize; match k { 0 => 0, 1 => 1, 2 => f - 1, 3 => f, 4 => f + 1, 5 => 2 * f - 1, 6 => 2 * f, 7 => 2 * f + 1, _ => 3 * f } }
fn input(n: usize) -> Vec<u8> { (0..n).map(|i| if i < 2 { any::<u8>("d") } else { i as u8 }).collect() }
fn limit(a: &mut Vec<String>) -> usize { let k = split(any_in("frames", 0, 5)) as usize; if k < 4 { a.push(s("--frames")); a.push(k.to_string()); k } else { 4294967295 } }

#[no_mangle] pub extern "C" fn vh_files() {
    let (w, h) = (split(any_in("w", 1, 4)) as usize, split(any_in("h", 1, 4)) as usize); let f = plane(w, h);
    let mut a = vec![s("--input"), s("vfs:in"), s("-o"), s("vfs:out"), s("--size"), format!("{}x{}", w, h)];
    let n = limit(&mut a); let len = length(f); vfs::add(b"vfs:in", input(len));
    if any_bool("exists") { vfs::add(b"vfs:out", vec![1; 100]); }
    settle(w, h, n > 0 && len >= f, -1); unsafe { AFTER = Some(ok); }
    program(&a)
}
/// standard input and output: nothing but the stream goes to standard output
#[no_mangle] pub extern "C" fn vh_streams() {
    let (w, h) = (2usize, 3usize); let f = plane(w, h);
    let mut a = vec![s("-i"), s("stdin"), s("--output"), s("stdout"), s("-s"), s("2x3")];
    let n = limit(&mut a); let len = length(f); let i = vfs::add(b"-", input(len)); let o = vfs::add(b"+", vec![]); unsafe { vfs::STDIN = i as i32; }
    settle(w, h, n > 0 && len >= f, o as i32); unsafe { vfs::STDOUT = o as i32; vfs::INTR_AT = split(any_in("intr", 0, 3)) as i64 - 1; AFTER = Some(ok); }
    program(&a)
}
/// sizes beyond the reader's buffer and odd ones
#[no_mangle] pub extern "C" fn vh_sizes() {
    const S: [(usize, usize); 6] = [(176, 144), (175, 143), (1, 200), (33, 1), (64, 65), (97, 100)];
    let k = split(any_in("size", 0, 6)) as usize; let (w, h) = S[k]; let f = plane(w, h); let less = any_bool("less");
    let a = vec![s("--input"), s("vfs:in"), s("--output"), s("vfs:out"), s("--size"), format!("{}x{}", w, h)];
    vfs::add(b"vfs:in", vec![9; if less { f - 1 } else { f }]); settle(w, h, !less, -1); unsafe { AFTER = Some(ok); }
    program(&a)
}
/// a transfer fails: reported, and what was already decided is not lost
fn failed(code: i32) { unsafe {
    if vfs::FAIL_AT >= 0 && vfs::COUNT > vfs::FAIL_AT { check(code != 0, "failure-reported");
        // the input failed: the output holds the header exactly when a whole frame had arrived
        if vfs::READ_FAILED { output_is(vfs::DELIVERED >= plane(W, H)) } }
    else { ok(code) }
} }
#[no_mangle] pub extern "C" fn vh_faults() {
    let (w, h) = (2usize, 1usize); let f = plane(w, h); let len = split(any_in("frames", 0, 3)) as usize * f;
    vfs::add(b"vfs:in", input(len)); settle(w, h, len > 0, -1);
    unsafe { vfs::CAP = split(any_in("cap", 1, 6)) as usize; vfs::FAIL_AT = split(any_in("fail", 0, 14)) as i64; AFTER = Some(failed); }
    program(&[s("-i"), s("vfs:in"), s("-o"), s("vfs:out"), s("-s"), s("2x1")])
}
/// refused: nothing is written anywhere and the caller is told
fn refused(code: i32) { reach("refused"); check(code != 0, "refusal-reported"); check(vfs::find(b"vfs:out") < 0, "nothing-written"); unsafe { check(vfs::content(OUT as usize).len() == 0, "nothing-on-stdout"); } }
#[no_mangle] pub extern "C" fn vh_refused() {
    let k = split(any_in("kind", 0, 10)) as usize; vfs::add(b"vfs:in", vec![0; 10]); let o = vfs::add(b"+", vec![]);
    let (mut i, mut p, mut z) = (s("vfs:in"), s("vfs:out"), s("2x2")); let mut more = vec![];
    match k { 0 => i = s("vfs:absent"), 1 => p = s("vfs:deny"), 2 => z = s("0x2"), 3 => z = s("2x8192"), 4 => z = s("2"), 5 => more = vec![s("--frames"), s("x")], 6 => more = vec![s("--nothing")], 7 => more = vec![s("stray")], 8 => more = vec![s("-r"), s("0/1")], _ => { i = s("vfs:absent"); p = s("stdout"); } }
    let mut a = vec![s("-i"), i, s("-o"), p, s("-s"), z]; a.extend(more);
    settle(2, 2, false, o as i32); unsafe { vfs::STDOUT = o as i32; AFTER = Some(refused); }
    program(&a)
}
harnesses![vh_files, vh_streams, vh_sizes, vh_faults, vh_refused];
