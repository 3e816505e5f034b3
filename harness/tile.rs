// Shared by the tile encoder harnesses (P23..P25): running the tile encoder on prepared state and decoding what it coded.
use tile_encoder::*;
use encoder::*;
use block::*;
use constants::FrameRestorationType::*;

/// a frame of `w` by `h` samples with no block coded yet
fn blank(w: usize, h: usize) -> Frame { Frame::new(FrameType::INTER_FRAME, w, h) }
/// a context in which no optional block element is present
fn context(f: &Frame) -> Rc<RefCell<EncoderContext>> {
    let mut e = EncoderContext::new();
    e.frame_is_intra = true; e.num_planes = 3; e.enable_cdef = false; e.read_deltas = false; e.coded_lossless = false; e.seg_id_pre_skip = false;
    e.lossless_array = [false; 8]; e.use_128x128_superblock = true; e.mi_row_starts = vec![0, f.mi_rows()]; e.mi_col_starts = vec![0, f.mi_cols()];
    Rc::new(RefCell::new(e))
}
struct Dec { d: BoolCoder, q: VecDeque<u8>, t: Box<CDF> }
impl Dec {
    fn new(o: Vec<u8>) -> Dec { let n = o.len() / 8; let mut q = VecDeque::from(o); let mut d = BoolCoder::new(); d.init_decoder(&mut q, n as u32); Dec { d: d, q: q, t: Box::new(default_cdf) } }
    fn l(&mut self, n: u8) -> u64 { self.d.decode_literal(&mut self.q, n) }
    /// what is coded next is the end marker written by `coded`
    fn at_end(&mut self, l: &str) { check(self.l(16) == 0x6c35, l); }
}
macro_rules! sym { ($d:ident, $($t:tt)*) => { { let d = &mut *$d; d.d.decode_symbol(&mut d.q, &mut d.t.$($t)*) as usize } } }
/// what `f` codes with a tile encoder covering the whole frame, followed by an end marker
fn coded(e: &Rc<RefCell<EncoderContext>>, f: &mut dyn FnMut(&mut TileEncoder, &mut Vec<u8>)) -> Vec<u8> {
    let mut o = Vec::with_capacity(512); let mut c = BoolCoder::new(); c.init_encoder();
    { let mut t = TileEncoder::new(e, &mut c); { let x = e.borrow(); t.mi_row_end = x.mi_row_starts[1]; t.mi_col_end = x.mi_col_starts[1]; } f(&mut t, &mut o); }
    c.encode_literal(&mut o, 0x6c35, 16); c.exit_encoder(&mut o); out_bits(&o); o
}
