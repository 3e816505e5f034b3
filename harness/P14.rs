// P14: frame size, render size, super-resolution and uniform tile layout in the frame header.
include!("common.rs"); include!("vfs.rs"); include!("rd.rs"); include!("hdr.rs");
fn lg(b: usize, t: usize) -> usize { let mut k = 0; while (b << k) < t { k += 1; } k }
/// least and greatest tile-count logarithms for a frame of sc x sr superblocks
fn tile_range(h: &H) -> (usize, usize, usize, usize) { let (_, fw) = upw(h); let (sc, sr) = (sbs(h, fw), sbs(h, h.h)); let sh = if h.sb128 { 7 } else { 6 }; let minc = lg(4096 >> sh, sc); let k = lg((4096 * 2304) >> (2 * sh), sc * sr); (minc, lg(1, if sc < 64 { sc } else { 64 }), if k > minc { k } else { minc }, lg(1, if sr < 64 { sr } else { 64 })) }
fn kind(h: &mut H) { h.ft = split(any_in("ft", 0, 4)) as u8; if h.ft == KEY { h.show = any_bool("show"); } h.er = any_bool("er"); }
fn one_tile(h: &mut H) { let (a, _, t, _) = tile_range(h); assume(a == 0 && t == 0); }
/// overridden sizes of any value, render size equal or different
#[no_mangle] pub extern "C" fn vh_size() { let mut h = h0(); kind(&mut h); h.mw = 4096; h.mh = 2304; h.ovr = true; h.w = any_in("w", 1, 4097) as usize; h.h = any_in("h", 1, 2305) as usize; one_tile(&mut h); h.rw = any_in("rw", 1, 65537) as usize; h.rh = any_in("rh", 1, 65537) as usize; header(&h); }
/// sizes left at the sequence maximum
#[no_mangle] pub extern "C" fn vh_size_max() { let mut h = h0(); kind(&mut h); h.ovr = any_bool("ovr"); h.mw = any_in("mw", 1, 4097) as usize; h.mh = any_in("mh", 1, 2305) as usize; h.w = h.mw; h.h = h.mh; one_tile(&mut h); h.rw = any_in("rw", 1, 65537) as usize; h.rh = any_in("rh", 1, 65537) as usize; header(&h); }
/// the widths of the size fields follow the sequence maximum
#[no_mangle] pub extern "C" fn vh_size_bits() { let mut h = h0(); h.ft = INTER; h.show = false; h.ovr = true; let (a, b) = (split(any_in("a", 1, 17)), split(any_in("b", 1, 17))); assume(a == b || a == 7 || b == 6); h.mw = any_in("mw", 1, 65537) as usize; h.mh = any_in("mh", 1, 65537) as usize; assume(bits_for(h.mw) == a as usize && bits_for(h.mh) == b as usize); h.w = any_in("w", 1, 65) as usize; h.h = any_in("h", 1, 65) as usize; assume(h.w <= h.mw && h.h <= h.mh); h.rw = h.w; h.rh = h.h; header(&h); }
/// super-resolution: the coded width shrinks, the render size is compared with the upscaled one
#[no_mangle] pub extern "C" fn vh_superres() { let mut h = h0(); kind(&mut h); h.mw = 2048; h.mh = 1024; h.superres = any_bool("enabled"); h.use_sr = h.superres && any_bool("use"); h.denom = any_in("denom", 9, 17) as usize; let d = split(h.denom as u64) as usize; h.denom = d; h.ovr = any_bool("ovr"); if h.ovr || h.ft == SWITCH { h.w = any_in("w", 16, 2049) as usize; h.h = any_in("h", 16, 65) as usize; } else { h.w = 2048; h.h = 1024; } one_tile(&mut h); h.rw = any_in("rw", 1, 65537) as usize; h.rh = any_in("rh", 1, 65537) as usize; if h.ft == INTRA_ONLY { h.fsct = 1; h.ibc = any_bool("ibc"); } header(&h); }
/// lossless through every segment is full lossless only without super-resolution
#[no_mangle] pub extern "C" fn vh_superres_lossless() { let mut h = h0(); h.superres = true; h.use_sr = any_bool("use"); h.denom = 12; h.lr = true; h.bq = any_in("q", 0, 2) as u8; h.lrt = any_in("lrt", 0, 4) as u8; header(&h); }
/// uniform tile layouts
fn tiles(hi_c: u64, hi_r: u64) { let mut h = h0(); h.ft = split(any_in("ft", 0, 2)) as u8; h.ovr = true; h.mw = 65536; h.mh = 65536; h.sb128 = any_bool("sb128"); let u = if h.sb128 { 128 } else { 64 };
    let (c, r) = (split(any_in("sb-cols", 1, hi_c)) as usize, split(any_in("sb-rows", 1, hi_r)) as usize); h.w = any_in("w", 1, 65537) as usize; h.h = any_in("h", 1, 65537) as usize; assume(h.w > (c - 1) * u && h.w <= c * u && h.h > (r - 1) * u && h.h <= r * u); h.rw = h.w; h.rh = h.h;
    let k = H { w: c * u, h: r * u, ..h.clone() }; let (minc, maxc, mint, maxr) = tile_range(&k); h.tcl = split(any_in("cols-log2", 0, 8)) as usize; h.trl = split(any_in("rows-log2", 0, 8)) as usize; assume(h.tcl >= minc && h.tcl <= maxc && h.trl <= maxr && h.trl + h.tcl >= mint); h.ctxid = any_in("ctx", 0, 4096) as usize; assume(h.ctxid < 1 << (h.tcl + h.trl)); h.tsb = any_in("tsb", 1, 5) as usize; header(&h); }
#[no_mangle] pub extern "C" fn vh_tiles() { tiles(9, 9); }
#[no_mangle] pub extern "C" fn vh_tiles_wide() { tiles(81, 2); }
#[no_mangle] pub extern "C" fn vh_tiles_tall() { tiles(2, 81); }
#[no_mangle] pub extern "C" fn vh_tiles_large() { let mut h = h0(); h.ovr = true; h.mw = 65536; h.mh = 65536; h.sb128 = any_bool("sb128"); h.w = [4096, 4160, 8192, 8256, 16384, 65536][split(any_in("k", 0, 6)) as usize]; h.h = [2304, 2368, 4096, 8704, 16384, 65536][split(any_in("l", 0, 6)) as usize]; h.rw = h.w; h.rh = h.h; let (minc, maxc, mint, maxr) = tile_range(&h); h.tcl = split(any_in("cols-log2", 0, 8)) as usize; assume(h.tcl >= minc && h.tcl <= maxc); let lo = if mint > h.tcl { mint - h.tcl } else { 0 }; assume(lo <= maxr); h.trl = split(any_in("rows-log2", 0, 8)) as usize; assume(h.trl >= lo && h.trl <= maxr); h.ctxid = any_in("ctx", 0, 4096) as usize; assume(h.ctxid < 1 << (h.tcl + h.trl)); h.tsb = any_in("tsb", 1, 5) as usize; header(&h); }
harnesses![vh_size, vh_size_max, vh_size_bits, vh_superres, vh_superres_lossless, vh_tiles, vh_tiles_wide, vh_tiles_tall, vh_tiles_large];
//@ run vh_size workers=2
//@ run vh_size_max workers=2
//@ run vh_size_bits
//@ run vh_superres workers=2
//@ run vh_superres_lossless
//@ run vh_tiles workers=2
//@ run vh_tiles_wide
//@ run vh_tiles_tall
//@ run vh_tiles_large
//@ bounds frame sizes up to 4096x2304 and render sizes up to 65536x65536; sequence maximum of any bit length; all superres denominators with widths up to 2048; all uniform tile counts for grids up to 8x8, 80x1 and 1x80 superblocks with any frame size in them, and 36 large sizes
//@ outside non-uniform tile spacing and size-from-reference (not implemented); key frames with both super-resolution and intra block copy; superres with more than one tile
