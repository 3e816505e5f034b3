// Shared by the block syntax harnesses (P18, P20): running one element against a reference choice of distribution.
use constants::*;
use constants::BlockSize::*;
use constants::RefFrame::*;
use constants::InterpFilter::*;
use constants::YMode::*;
use constants::TxType::*;
use constants::TxSize::*;
use constants::Partition::*;
use bool_coder::*;
use cdf::*;
use common::*;
use frame::*;

type R<'a> = &'a mut dyn FnMut(&mut BoolCoder, &mut Vec<u8>, &mut CDF);
/// run the element's encoder and the reference choice (symbol `s` under `pick`ed distribution) on equal coders and compare
/// everything a decoder can see: the bits, also of what is coded after it, and every distribution afterwards
fn same(l: &str, real: R, refr: R) {
    let (mut a, mut b) = (Box::new(default_cdf), Box::new(default_cdf));
    let (mut oa, mut ob) = (Vec::with_capacity(128), Vec::with_capacity(128));
    let mut c = BoolCoder::new(); c.init_encoder(); real(&mut c, &mut oa, &mut a);
    c.encode_literal(&mut oa, 0x2d3a59, 24); c.exit_encoder(&mut oa);
    let mut d = BoolCoder::new(); d.init_encoder(); refr(&mut d, &mut ob, &mut b);
    d.encode_literal(&mut ob, 0x2d3a59, 24); d.exit_encoder(&mut ob);
    let n = ::std::mem::size_of::<CDF>();
    let (ra, rb) = unsafe { (::std::slice::from_raw_parts(&*a as *const CDF as *const u8, n), ::std::slice::from_raw_parts(&*b as *const CDF as *const u8, n)) };
    check(ra == rb, l); check(oa == ob, l);
    out_bits(&oa);
}
/// the common case: one symbol under one distribution of the set
macro_rules! elem { ($l:expr, $s:expr, |$c:ident, $o:ident, $t:ident| $call:expr, $($cdf:tt)*) => {
    { let s_ = $s as i32; same($l, &mut |$c, $o, $t| { $call }, &mut |c2, o2, t2| { c2.encode_symbol(s_, o2, &mut t2.$($cdf)*) }) }
} }
fn pickn(n: &str, hi: u64) -> usize { split(any_in(n, 0, hi)) as usize }
fn bs(i: usize) -> BlockSize { unsafe { ::std::mem::transmute(i as u8) } }
fn rf(i: i8) -> RefFrame { unsafe { ::std::mem::transmute(i) } }
fn ym(i: usize) -> YMode { unsafe { ::std::mem::transmute(i as u8) } }
fn fl(i: u8) -> InterpFilter { unsafe { ::std::mem::transmute(i) } }
fn ts(i: usize) -> TxSize { unsafe { ::std::mem::transmute(i as u8) } }
const BW: [usize; 22] = [4, 4, 8, 8, 8, 16, 16, 16, 32, 32, 32, 64, 64, 64, 128, 128, 4, 16, 8, 32, 16, 64];
const BH: [usize; 22] = [4, 8, 4, 8, 16, 8, 16, 32, 16, 32, 64, 32, 64, 128, 64, 128, 16, 4, 32, 8, 64, 16];
const TW: [usize; 19] = [4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64];
const TH: [usize; 19] = [4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16];
fn mi0() -> ModeInfo { ModeInfo { mi_size: BLOCK_8X8, tx_size: TX_8X8, tx_type: DCT_DCT, is_inter: true, skip: false, intra: false, single: true,
    seg_id_predicted: 0, skip_mode: 0, ref_frame: [LAST_FRAME, NONE], interp_filter: [EIGHTTAP; 2], level_context: [0; 3], dc_context: [0; 3],
    palette_size: [0; 3], comp_group_idx: 0, compound_idx: 0, segment_id: 0, y_mode: DC_PRED, mvs: [MotionVector::new(0, 0); 2] } }
