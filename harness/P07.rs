// P07: OBU headers name the OBU kind, and every temporal unit reaches the output as consistent length-delimited units.
include!("common.rs");
include!("vfs.rs");
include!("rd.rs");
use binary_writer::*; use bool_coder::*; use obu::*; use obu::OBU::*; use obu::MetaData::*; use obu_encoder::*; use encoder::*; use sequence_header::*; use frame::*; use constants::*;

fn with<F: FnOnce(&mut OBUEncoder, &Rc<RefCell<EncoderContext>>)>(f: F) -> Vec<u8> {
    { let ectx = Rc::new(RefCell::new(EncoderContext::new())); let mut w = BinaryWriter::file("vfs:out").unwrap(); let mut c = BoolCoder::new();
      { let mut e = OBUEncoder::new(&ectx, &mut w, &mut c); f(&mut e, &ectx); } }
    vfs::content(vfs::find(b"vfs:out") as usize)
}
const KINDS: u64 = 8;
fn make(k: u64, n: u32, w: usize, h: usize) -> (OBU, u64) { match k {
    0 => (OBU_SEQUENCE_HEADER(SequenceHeader::new(w, h)), 1), 1 => (OBU_TEMPORAL_DELIMITER, 2), 2 => (OBU_FRAME_HEADER(Frame::new(FrameType::KEY_FRAME, 8, 8)), 3),
    3 => (OBU_TILE_GROUP(Frame::new(FrameType::KEY_FRAME, 8, 8)), 4), 4 => (OBU_METADATA(METADATA_TYPE_HDR_CLL { max_cll: n as u16, max_fall: !(n as u16) }), 5),
    5 => (OBU_FRAME { frame: Frame::new(FrameType::KEY_FRAME, 8, 8) }, 6), 6 => (OBU_REDUNDANT_FRAME_HEADER, 7), _ => (OBU_PADDING(n), 15) } }
fn header(r: &mut Rd, ty: u64) { r.is(1, 0, "forbidden-bit"); r.is(4, ty, "obu-type"); let ext = r.f(1); r.is(1, 0, "has-size-field"); r.is(1, 0, "reserved-bit"); if ext == 1 { r.is(3, 0, "temporal-id"); r.is(2, 0, "spatial-id"); r.is(3, 0, "reserved-3-bits"); } }
#[no_mangle] pub extern "C" fn vh_header() {
    let (mut o, ty) = make(split(any_in("kind", 0, KINDS)), 3, 16, 16); let mut b = vec![1u8, 0, 1];
    let file = with(|e, _| e.encode_obu_header(&mut o, &mut b)); check(file.is_empty(), "nothing-written-yet");
    out_bits(&b); check(b[0] == 1 && b[1] == 0 && b[2] == 1, "prefix-kept"); let mut r = Rd::new(&b[3..]); header(&mut r, ty); r.end("header-length");
}
fn sym_obu(k: u64) -> (OBU, OBU, u64) { // two identical OBUs
    let n = match k { 7 => split(any_in("n", 0, 3)) as u32 + if any_bool("long") { 126 } else { 0 }, _ => any::<u16>("v") as u32 };
    let (w, h) = if k == 0 { (split(any_in("w", 1, 9)) as usize * 171, 33) } else { (16, 16) };
    let a = make(k, n, w, h); let b = make(k, n, w, h); (a.0, b.0, a.1)
}
fn small_kind(n: &str) -> u64 { [0, 1, 4, 7][split(any_in(n, 0, 4)) as usize] }
// one OBU: header, payload, zero padding to a byte; nothing bypasses the returned bits
#[no_mangle] pub extern "C" fn vh_obu() {
    let k = small_kind("kind"); let (mut a, mut b, ty) = sym_obu(k); let (mut x, mut y) = (vec![], vec![]);
    let f1 = with(|e, _| e.encode_obu(&mut a, &mut x)); check(f1.is_empty(), "nothing-written-yet"); with(|e, _| e.encode_obu_payload(&mut b, &mut y));
    out_bits(&x); check(x.len() % 8 == 0, "whole-bytes"); let mut r = Rd::new(&x); header(&mut r, ty); for i in 0..y.len() { r.is(1, y[i] as u64, "payload-bits"); } check(r.left() < 8, "no-extra-bytes"); while r.left() > 0 { r.is(1, 0, "zero-padding"); }
}
fn unit(r: &mut Rd, ty: u64, payload: &[u8]) {
    let ts = r.leb128(); let after_ts = r.left() as u64; let fs = r.leb128(); let used = after_ts - r.left() as u64; check(ts * 8 == used + fs * 8, "temporal-unit-size");
    let before = r.left() as u64; let ol = r.leb128(); let used = before - r.left() as u64; check(fs * 8 == used + ol * 8, "frame-unit-size");
    let before = r.left() as u64; check(ol * 8 <= before, "obu-length-fits"); header(r, ty); for i in 0..payload.len() { r.is(1, payload[i] as u64, "payload-bits"); }
    let used = before - r.left() as u64; check(ol * 8 >= used && ol * 8 - used < 8, "obu-length"); for _ in 0..ol * 8 - used { r.is(1, 0, "zero-padding"); }
}
#[no_mangle] pub extern "C" fn vh_unit() {
    let k = small_kind("kind"); let (mut a, mut b, ty) = sym_obu(k); let mut y = vec![]; let f = with(|e, _| e.encode_temporal_unit(&mut a)); with(|e, _| e.encode_obu_payload(&mut b, &mut y));
    for &x in &f { out(x as u64); } let bits = bits_of(&f); let mut r = Rd::new(&bits); unit(&mut r, ty, &y); r.end("nothing-after-the-unit");
}
#[no_mangle] pub extern "C" fn vh_two_units() {
    let (k1, k2) = (small_kind("kind"), small_kind("kind")); let (mut a, mut b, t1) = sym_obu(k1); let (mut c, mut d, t2) = sym_obu(k2); let (mut y, mut z) = (vec![], vec![]);
    let f = with(|e, _| { e.encode_temporal_unit(&mut a); e.encode_temporal_unit(&mut c); }); with(|e, _| { e.encode_obu_payload(&mut b, &mut y); e.encode_obu_payload(&mut d, &mut z); });
    let bits = bits_of(&f); let mut r = Rd::new(&bits); unit(&mut r, t1, &y); unit(&mut r, t2, &z); r.end("nothing-after-the-unit");
}
#[no_mangle] pub extern "C" fn vh_padding() {
    let n = split(any_in("n", 0, 40)) as u32; let mut y = vec![]; with(|e, _| e.encode_obu_payload(&mut OBU_PADDING(n), &mut y)); check(y.len() == 8 * n as usize, "padding-length"); for &b in &y { check(b == 0, "padding-zero"); }
    let mut z = vec![]; with(|e, x| { x.borrow_mut().seen_frame_header = any_bool("seen"); e.encode_obu_payload(&mut OBU_TEMPORAL_DELIMITER, &mut z); check(!x.borrow().seen_frame_header, "delimiter-starts-a-new-frame"); }); check(z.is_empty(), "delimiter-is-empty");
}
harnesses![vh_header, vh_obu, vh_unit, vh_two_units, vh_padding];
//@ run vh_header
//@ run vh_obu
//@ run vh_unit workers=2
//@ run vh_two_units workers=4
//@ run vh_padding
//@ bounds all eight unit kinds (header); sequence headers of 8 widths, delimiters, content-light metadata of every value, padding of 0..2 and 126..128 bytes, alone and in every pair; padding of up to 39 bytes
//@ outside frame headers and tile groups as payload; longer sequences of units
