// Reference reader of the frame header syntax (AV1 draft field order of the code under test) and the state a decoder derives.
// `H` holds every setting; `apply` hands them to the encoder, `read` walks the written bits and checks each against H.
use binary_writer::*; use bool_coder::*; use obu::OBU::*; use obu_encoder::*; use encoder::*; use sequence_header::*; use frame::*; use constants::*;

const KEY: u8 = 0; #[allow(dead_code)] const INTER: u8 = 1; const INTRA_ONLY: u8 = 2; const SWITCH: u8 = 3;
#[derive(Clone)] struct Grain { apply: bool, seed: u16, update: bool, refi: usize, ny: usize, yv: Vec<u8>, ys: Vec<u8>, cfl: bool, ncb: usize, ncr: usize, cbv: Vec<u8>, cbs: Vec<u8>, crv: Vec<u8>, crs: Vec<u8>, scal: usize, lag: usize, cy: Vec<i16>, cb: Vec<i16>, cr: Vec<i16>, shift: usize, gss: usize, m: [usize; 6], ov: bool, clip: bool }
#[derive(Clone)] struct H {
    // sequence
    reduced: bool, fid: Option<(u8, u8)>, oh: bool, ohb: u8, sb128: bool, superres: bool, cdef: bool, lr: bool, warped: bool, refmvs: bool, fsct: usize, fim: usize, profile: u8, mono: bool, sep: bool, eq: Option<bool>, dm: Option<(u8, u8)>, mw: usize, mh: usize, fg: Option<Grain>,
    // frame
    existing: bool, map: u8, disp: u32, tpd: u32, ft: u8, show: bool, showable: bool, er: bool, dis_cdf: bool, sct: usize, fimv: usize, id: usize, ovr: bool, w: usize, h: usize, order: u8, prim: u8, brp: bool, brd: usize, tid: usize, sid: usize, opidc: Vec<u16>, refresh: u8,
    roh: [usize; 8], xroh: [usize; 8], rft: [u8; 8], rid: [usize; 8], rvalid: [bool; 8], use_sr: bool, denom: usize, rw: usize, rh: usize, ibc: bool, short: bool, last: u8, gold: u8, idx: [u8; 7], did: [usize; 7], hp: bool, fsw: bool, filt: u8, mms: bool, rfmv: bool, dis_fe: bool,
    tcl: usize, trl: usize, ctxid: usize, tsb: usize, bq: u8, dq: [isize; 5], diff: bool, qm: Option<[u8; 3]>, seg: bool, um: bool, tu: bool, ud: bool, fv: [[Option<isize>; 8]; 8], dqp: bool, dqr: u8, dlp: bool, dlr: u8, dlm: bool,
    lvl: [u8; 4], sharp: u8, den: bool, dupd: bool, ur: [bool; 8], rd: [isize; 8], um2: [bool; 2], md: [u8; 2], damp: u8, cbits: u8, cy: Vec<(u8, u8)>, cu: Vec<(u8, u8)>, lrt: u8, lrs: usize, lruv: usize, txs: bool, rsel: bool, skm: bool, aw: bool, redtx: bool, isg: [bool; 8], rz: [bool; 8], tr: [bool; 8], gm: [[isize; 6]; 8], pgm: [[isize; 6]; 8],
}
fn h0() -> H { let mut ident = [[0isize; 6]; 8]; for r in 0..8 { ident[r][2] = 1 << 16; ident[r][5] = 1 << 16; } H {
    reduced: false, fid: None, oh: false, ohb: 3, sb128: false, superres: false, cdef: false, lr: false, warped: false, refmvs: false, fsct: 0, fim: 0, profile: 0, mono: false, sep: false, eq: None, dm: None, mw: 64, mh: 48, fg: None,
    existing: false, map: 0, disp: 0, tpd: 0, ft: KEY, show: true, showable: false, er: false, dis_cdf: false, sct: 0, fimv: 0, id: 0, ovr: false, w: 64, h: 48, order: 0, prim: 0, brp: false, brd: 0, tid: 0, sid: 0, opidc: vec![], refresh: 0,
    roh: [0; 8], xroh: [0; 8], rft: [0; 8], rid: [0; 8], rvalid: [true; 8], use_sr: false, denom: 9, rw: 64, rh: 48, ibc: false, short: false, last: 0, gold: 0, idx: [0; 7], did: [1; 7], hp: false, fsw: true, filt: 0, mms: false, rfmv: false, dis_fe: false,
    tcl: 0, trl: 0, ctxid: 0, tsb: 1, bq: 0, dq: [0; 5], diff: false, qm: None, seg: false, um: false, tu: false, ud: false, fv: [[None; 8]; 8], dqp: false, dqr: 0, dlp: false, dlr: 0, dlm: false,
    lvl: [0; 4], sharp: 0, den: false, dupd: false, ur: [false; 8], rd: [0; 8], um2: [false; 2], md: [0; 2], damp: 3, cbits: 0, cy: vec![(0, 0); 8], cu: vec![(0, 0); 8], lrt: 0, lrs: 1, lruv: 0, txs: true, rsel: false, skm: true, aw: false, redtx: false, isg: [false; 8], rz: [false; 8], tr: [false; 8], gm: ident, pgm: ident } }
#[derive(Clone, Default)] struct D { existing: bool, intra: bool, er: bool, sct: usize, fimv: usize, prim: u8, refresh: u8, up: usize, fw: usize, ibc: bool, hp: bool, rfmv: bool, filt: u64, cols: Vec<usize>, rows: Vec<usize>, vdq: [isize; 4], lossless: [bool; 8], coded: bool, all: bool, pre_skip: bool, last_seg: usize, skip: Option<(u64, u64)>, bias: [u64; 8], hints: [usize; 8], qmv: u8, gmt: [usize; 8], gm: [[isize; 6]; 8], lrsize: Option<[usize; 3]>, uses_lr: bool, txm: u8, dqp: bool, um: bool, tu: bool, ud: bool, rsel: bool, skm: bool, aw: bool, valid: [bool; 8] }
fn dist(h: &H, a: usize, b: usize) -> i64 { if !h.oh { return 0; } let n = 1i64 << h.ohb; let d = (a as i64 - b as i64) & (n - 1); if d >= n / 2 { d - n } else { d } }
fn grain(g: &Grain) -> FilmGrainParams { FilmGrainParams { apply_grain: g.apply, grain_seed: g.seed, update_grain: g.update, film_grain_params_ref_idx: g.refi, num_y_points: g.ny, point_y_value: g.yv.clone(), point_y_scaling: g.ys.clone(), chroma_scaling_from_luma: g.cfl, num_cb_points: g.ncb, num_cr_points: g.ncr, point_cb_value: g.cbv.clone(), point_cb_scaling: g.cbs.clone(), point_cr_value: g.crv.clone(), point_cr_scaling: g.crs.clone(), grain_scaling: g.scal, ar_coeff_lag: g.lag, ar_coeffs_y: g.cy.clone(), ar_coeffs_cb: g.cb.clone(), ar_coeffs_cr: g.cr.clone(), ar_coeff_shift: g.shift, grain_scale_shift: g.gss, cb_mult: g.m[0], cb_luma_mult: g.m[1], cb_offset: g.m[2], cr_mult: g.m[3], cr_luma_mult: g.m[4], cr_offset: g.m[5], overlap_flag: g.ov, clip_to_restricted_range: g.clip } }
fn as_ft(x: u8) -> FrameType { match x { 0 => FrameType::KEY_FRAME, 1 => FrameType::INTER_FRAME, 2 => FrameType::INTRA_ONLY_FRAME, _ => FrameType::SWITCH_FRAME } }
fn as_filt(x: u8) -> InterpFilter { match x { 0 => InterpFilter::EIGHTTAP, 1 => InterpFilter::EIGHTTAP_SMOOTH, 2 => InterpFilter::EIGHTTAP_SHARP, _ => InterpFilter::BILINEAR } }
fn dmi(h: &H) -> Option<DecoderModelInfo> { h.dm.map(|(p, b)| DecoderModelInfo { bitrate_scale: 0, buffer_size_scale: 0, encoder_decoder_buffer_delay_length: 8, num_units_in_decoding_tick: 1, buffer_removal_delay: h.brd, buffer_removal_delay_length: b, buffer_removal_delay_present: h.brp, frame_presentation_delay_length: p }) }
fn sb_layout(sb: usize, log2: usize) -> Vec<usize> { let step = (sb + (1 << log2) - 1) >> log2; let mut v = vec![]; let mut s = 0; while s < sb { v.push(s); s += step; } v }
fn sbs(h: &H, n: usize) -> usize { let mi = 2 * ((n + 7) >> 3); if h.sb128 { (mi + 31) >> 5 } else { (mi + 15) >> 4 } }
fn upw(h: &H) -> (usize, usize) { let sr = h.superres && h.use_sr; let d = if sr { h.denom } else { 8 }; (h.w, (h.w * 8 + d / 2) / d) }
fn seq(h: &H, x: &Rc<RefCell<EncoderContext>>) -> SequenceHeader {
    let mut c = x.borrow_mut(); let mut s = SequenceHeader::new(h.mw, h.mh); s.profile = h.profile; c.reduced_still_picture_header = h.reduced; s.still_picture = h.reduced;
    s.frame_id = h.fid.map(|(d, a)| FrameID { delta_frame_id_length: d, additional_frame_id_length: a }); c.enable_order_hint = h.oh; c.order_hint_bits = h.ohb; c.use_128x128_superblock = h.sb128; c.enable_superres = h.superres; c.enable_cdef = h.cdef; c.enable_restoration = h.lr; c.enable_warped_motion = h.warped; c.enable_ref_frame_mvs = h.refmvs;
    s.seq_choose_screen_content_tools = h.fsct == 2; c.seq_force_screen_content_tools = h.fsct; s.seq_choose_integer_mv = h.fim == 2; c.seq_force_integer_mv = h.fim; c.color_config.mono_chrome = h.mono; c.color_config.separate_uv_delta_q = h.sep;
    c.timing_info = h.eq.map(|e| TimingInfo { num_units_in_display_tick: 1, time_scale: 25, equal_picture_interval: e, num_ticks_per_picture: 1 }); s.decoder_model_info = dmi(h);
    c.operating_points_decoder_model = h.opidc.iter().map(|&i| OperatingPointsDecoderModel { idc: i, initial_display_delay: None, operating_parameters_info: None }).collect(); c.film_grain_params = h.fg.as_ref().map(grain); s
}
fn ctxset(h: &H, x: &Rc<RefCell<EncoderContext>>) { let mut c = x.borrow_mut();
    c.show_existing_frame = h.existing; c.frame_to_show_map_idx = h.map; c.show_frame = h.show; c.showable_frame = h.showable; c.disable_cdf_update = h.dis_cdf; c.current_frame_id = h.id; c.frame_size_override_flag = h.ovr; c.temporal_id = h.tid; c.spatial_id = h.sid; c.refresh_frame_flags = h.refresh;
    for i in 0..8 { c.ref_order_hint[i] = h.xroh[i]; c.ref_frame_type[i] = as_ft(h.rft[i]); c.ref_frame_id[i] = h.rid[i]; c.ref_valid[i] = h.rvalid[i]; c.gm_params[i] = h.gm[i]; c.prev_gm_params[i] = h.pgm[i]; }
    if h.use_sr { c.superres_denom = h.denom; } c.disable_frame_end_update_cdf = h.dis_fe; c.context_update_tile_id = h.ctxid; c.tile_size_bytes = h.tsb; c.delta_q_y_dc = h.dq[0]; c.delta_q_u_dc = h.dq[1]; c.delta_q_u_ac = h.dq[2]; c.delta_q_v_dc = h.dq[3]; c.delta_q_v_ac = h.dq[4]; c.seen_frame_header = false; c.film_grain_params = h.fg.as_ref().map(grain);
}
fn frame(h: &H) -> Frame { let mut f = Frame::new(as_ft(h.ft), 8, 8); f.frame_width = h.w; f.frame_height = h.h; f.render_width = h.rw; f.render_height = h.rh; f.decoder_model_info = dmi(h); f.temporal_point_info = h.dm.map(|_| TemporalPointInfo { tu_presentation_delay: h.tpd }); f.display_frame_id = Some(h.disp);
    f.error_resilient_mode = h.er; f.allow_screen_content_tools = h.sct; f.force_integer_mv = h.fimv; f.allow_high_precision_mv = h.hp; f.use_ref_frame_mvs = h.rfmv; f.order_hint = h.order; f.primary_ref_frame = h.prim; f.allow_intrabc = h.ibc; f.ref_order_hint = h.roh; f.use_superres = h.use_sr; f.frame_refs_short_signaling = h.short; f.last_frame_idx = h.last; f.gold_frame_idx = h.gold; f.ref_frame_idx = h.idx; f.delta_frame_id = h.did;
    f.is_filter_switchable = h.fsw; f.interp_filter = as_filt(h.filt); f.is_motion_mode_switchable = h.mms; f.tile_info.uniform_tile_spacing_flag = true; let (_, fw) = upw(h); f.tile_col_starts = sb_layout(sbs(h, fw), h.tcl); f.tile_row_starts = sb_layout(sbs(h, h.h), h.trl);
    f.quantization_params.base_q_idx = h.bq; f.quantization_params.diff_uv_delta = h.diff; if let Some(q) = h.qm { f.quantization_params.using_qmatrix = true; f.quantization_params.qm_y = q[0]; f.quantization_params.qm_u = q[1]; f.quantization_params.qm_v = q[2]; }
    f.segmentation_params.segmentation_enabled = h.seg; f.segmentation_params.segmentation_update_map = h.um; f.segmentation_params.segmentation_temporal_update = h.tu; f.segmentation_params.segmentation_update_data = h.ud; f.segmentation_params.feature_value = h.fv; f.delta_q_params.delta_q_present = h.dqp; f.delta_q_params.delta_q_res = h.dqr; f.delta_lf_params.delta_lf_present = h.dlp; f.delta_lf_params.delta_lf_res = h.dlr; f.delta_lf_params.delta_lf_multi = h.dlm;
    f.loop_filter_params.loop_filter_level = h.lvl; f.loop_filter_params.loop_filter_sharpness = h.sharp; f.loop_filter_params.loop_filter_delta_enabled = h.den; f.loop_filter_params.loop_filter_delta_update = h.dupd; f.loop_filter_params.update_ref_delta = h.ur; f.loop_filter_params.loop_filter_ref_deltas = h.rd; f.loop_filter_params.update_mode_delta = h.um2; f.loop_filter_params.loop_filter_mode_deltas = h.md;
    f.cdef_params.cdef_damping = h.damp; f.cdef_params.cdef_bits = h.cbits; f.cdef_params.cdef_y_pri_strength = h.cy.iter().map(|x| x.0).collect(); f.cdef_params.cdef_y_sec_strength = h.cy.iter().map(|x| x.1).collect(); f.cdef_params.cdef_uv_pri_strength = h.cu.iter().map(|x| x.0).collect(); f.cdef_params.cdef_uv_sec_strength = h.cu.iter().map(|x| x.1).collect();
    f.lr_params.lr_type = h.lrt; f.lr_params.lr_unit_shift = h.lrs; f.lr_params.lr_uv_shift = h.lruv; f.tx_mode_select = h.txs; f.reference_select = h.rsel; f.skip_mode_present = h.skm; f.allow_warped_motion = h.aw; f.reduced_tx_set = h.redtx; f.global_motion_params.is_global = h.isg; f.global_motion_params.is_rot_zoom = h.rz; f.global_motion_params.is_translation = h.tr; f }
fn size(r: &mut Rd, h: &H, ovr: bool, wb: usize, hb: usize, d: &mut D) {
    if ovr { r.is(wb, h.w as u64 - 1, "frame-width"); r.is(hb, h.h as u64 - 1, "frame-height"); } else { check(h.w == h.mw && h.h == h.mh, "size-not-signalled"); }
    if h.superres { r.flag(h.use_sr, "use-superres"); if h.use_sr { r.is(3, h.denom as u64 - 9, "superres-denominator"); } } let (u, f) = upw(h); d.up = u; d.fw = f;
    let diff = r.f(1); if diff == 1 { r.is(16, h.rw as u64 - 1, "render-width"); r.is(16, h.rh as u64 - 1, "render-height"); } else { check(h.rw == u && h.rh == h.h, "render-size-not-signalled"); }
}
fn dq(r: &mut Rd, v: isize, l: &str) { let c = r.f(1); if c == 1 { let x = r.su(7); check(x == v as i64, l); } else { check(v == 0, l); } }
fn subexp(r: &mut Rd, n: u64) -> u64 { let mut i = 0; let mut mk = 0; loop { let b2 = if i > 0 { 3 + i - 1 } else { 3 }; let a = 1u64 << b2; if n <= mk + 3 * a { return ns(r, n - mk) + mk; } if r.f(1) == 1 { i += 1; mk += a; } else { return r.f(b2) + mk; } } }
fn ns(r: &mut Rd, n: u64) -> u64 { let mut w = 0; let mut x = n; while x != 0 { x >>= 1; w += 1; } let m = (1u64 << w) - n; let v = r.f(w - 1); if v < m { return v; } let e = r.f(1); (v << 1) - m + e }
fn unrec(rf: u64, v: u64) -> u64 { if v > 2 * rf { v } else if v & 1 == 1 { rf - ((v + 1) >> 1) } else { rf + (v >> 1) } }
fn usubexp(r: &mut Rd, mx: u64, rf: u64) -> u64 { let v = subexp(r, mx); if (rf << 1) <= mx { unrec(rf, v) } else { mx - 1 - unrec(mx - 1 - rf, v) } }
fn gparam(r: &mut Rd, h: &H, d: &mut D, prev: &[[isize; 6]; 8], t: usize, rf: usize, i: usize) {
    let (mut ab, mut pb) = (12, 15); if i < 2 { if t == 1 { ab = 9 - !d.hp as usize; pb = 3 - !d.hp as usize; } else { ab = 12; pb = 6; } }
    let pd = 16 - pb; let round = if i % 3 == 2 { 1isize << 16 } else { 0 }; let sub = if i % 3 == 2 { 1isize << pb } else { 0 }; let mx = 1isize << ab; let p = (prev[rf][i] >> pd) - sub;
    let v = usubexp(r, (2 * mx + 1) as u64, (p + mx) as u64) as isize - mx; d.gm[rf][i] = (v << pd) + round; check(d.gm[rf][i] == h.gm[rf][i], "global-motion-parameter");
}
/// every field of the header, in order; returns what a decoder derives from it
fn read(r: &mut Rd, h: &H, wb: usize, hb: usize) -> D {
    let mut d = D::default(); let idlen = h.fid.map_or(0, |(a, b)| a as usize + b as usize); let ohb = if h.oh { h.ohb as usize } else { 0 }; let (mut ft, mut show, mut showable) = (h.ft, h.show, h.showable); let eq = h.eq == Some(true); d.valid = h.rvalid;
    if h.reduced { ft = KEY; show = true; showable = false; d.er = true; } else {
        r.flag(h.existing, "show-existing-frame");
        if h.existing { d.existing = true; r.is(3, h.map as u64, "frame-to-show"); if let Some((p, _)) = h.dm { if !eq { r.is(p as usize, h.tpd as u64, "presentation-delay"); } } if h.fid.is_some() { r.is(idlen, h.disp as u64, "display-frame-id"); } d.refresh = if h.rft[h.map as usize] == KEY { 255 } else { 0 }; return d; }
        r.is(2, ft as u64, "frame-type"); r.flag(show, "show-frame"); if show { showable = false; if let Some((p, _)) = h.dm { if !eq { r.is(p as usize, h.tpd as u64, "presentation-delay"); } } } else { r.flag(showable, "showable-frame"); }
        d.er = if ft == SWITCH || (ft == KEY && show) { true } else { r.flag(h.er, "error-resilient"); h.er };
    }
    let intra = ft == KEY || ft == INTRA_ONLY; d.intra = intra; let mut xroh = h.xroh; if ft == KEY && show { xroh = [0; 8]; d.valid = [false; 8]; }
    r.flag(h.dis_cdf, "disable-cdf-update"); let (fsct, fim) = if h.reduced { (2, 2) } else { (h.fsct, if h.fsct > 0 { h.fim } else { 2 }) };
    d.sct = if fsct == 2 { r.is(1, h.sct as u64, "screen-content-tools"); h.sct } else { fsct };
    d.fimv = if d.sct > 0 { if fim == 2 { r.is(1, h.fimv as u64, "force-integer-mv"); h.fimv } else { fim } } else { 0 }; if intra { d.fimv = 1; }
    if let Some((dl, _)) = h.fid { r.is(idlen, h.id as u64, "frame-id"); for i in 0..8 { let m = 1usize << dl; if h.id > m { if h.rid[i] > h.id || h.rid[i] < h.id - m { d.valid[i] = false; } } else if h.rid[i] > h.id && h.rid[i] < (1 << idlen) + h.id - m { d.valid[i] = false; } } }
    let ovr = if ft == SWITCH { true } else if h.reduced { false } else { r.flag(h.ovr, "size-override"); h.ovr };
    r.is(ohb, h.order as u64, "order-hint"); d.prim = if intra || d.er { 7 } else { r.is(3, h.prim as u64, "primary-reference"); h.prim };
    if let Some((_, b)) = h.dm { r.flag(h.brp, "buffer-removal-present"); if h.brp { for &o in &h.opidc { if o == 0 || ((o >> h.tid) & 1 == 1 && (o >> (h.sid + 8)) & 1 == 1) { r.is(b as usize, h.brd as u64, "buffer-removal-delay"); } } } }
    d.refresh = if ft == SWITCH || (ft == KEY && show) { 255 } else { r.is(8, h.refresh as u64, "refresh-flags"); h.refresh };
    if (!intra || d.refresh != 255) && d.er && h.oh { for i in 0..8 { r.is(ohb, h.roh[i] as u64, "reference-order-hint"); if h.roh[i] != xroh[i] { d.valid[i] = false; } } }
    if intra { size(r, h, ovr, wb, hb, &mut d); if d.sct > 0 && (ft == KEY || d.up == d.fw) { r.flag(h.ibc, "allow-intrabc"); d.ibc = h.ibc; } } else {
        let short = h.oh && h.short; if h.oh { r.flag(short, "short-signaling"); if short { r.is(3, h.last as u64, "last-frame-index"); r.is(3, h.gold as u64, "golden-frame-index"); } }
        for i in 0..7 { if !short { r.is(3, h.idx[i] as u64, "reference-index"); } if let Some((dl, _)) = h.fid { r.is(dl as usize, h.did[i] as u64 - 1, "delta-frame-id"); } }
        if ovr && !d.er { for _ in 0..7 { r.is(1, 0, "size-from-reference"); } } size(r, h, ovr, wb, hb, &mut d);
        if d.fimv == 0 { r.flag(h.hp, "high-precision-mv"); d.hp = h.hp; } r.flag(h.fsw, "filter-switchable"); d.filt = 4; if !h.fsw { r.is(2, h.filt as u64, "interpolation-filter"); d.filt = h.filt as u64; } r.flag(h.mms, "motion-mode-switchable");
        if !d.er && h.refmvs && h.oh { r.flag(h.rfmv, "use-reference-mvs"); d.rfmv = h.rfmv; }
        for i in 0..7 { let x = xroh[h.idx[i] as usize]; d.hints[i + 1] = x; d.bias[i + 1] = (dist(h, x, h.order as usize) > 0) as u64; }
    }
    if !(h.reduced || h.dis_cdf) { r.flag(h.dis_fe, "disable-frame-end-cdf-update"); }
    // tiles
    let (sc, sr) = (sbs(h, d.fw), sbs(h, h.h)); let sh = if h.sb128 { 5 } else { 4 }; let lg = |b: usize, t: usize| { let mut k = 0; while (b << k) < t { k += 1; } k }; let mw = 4096usize >> (sh + 2); let ma = (4096usize * 2304) >> (2 * (sh + 2));
    let (minc, maxc, maxr) = (lg(mw, sc), lg(1, if sc < 64 { sc } else { 64 }), lg(1, if sr < 64 { sr } else { 64 })); let mint = { let k = lg(ma, sr * sc); if k > minc { k } else { minc } };
    r.is(1, 1, "uniform-tiles"); let mut cl = minc; while cl < maxc && r.f(1) == 1 { cl += 1; } let minr = if mint > cl { mint - cl } else { 0 }; let mut rl = minr; while rl < maxr && r.f(1) == 1 { rl += 1; }
    check(cl == h.tcl && rl == h.trl, "tile-counts"); for s in sb_layout(sc, cl) { d.cols.push(s << sh); } d.cols.push(2 * ((d.fw + 7) >> 3)); for s in sb_layout(sr, rl) { d.rows.push(s << sh); } d.rows.push(2 * ((h.h + 7) >> 3));
    if cl > 0 || rl > 0 { r.is(cl + rl, h.ctxid as u64, "context-update-tile"); r.is(2, h.tsb as u64 - 1, "tile-size-bytes"); }
    // quantizer
    r.is(8, h.bq as u64, "base-q-index"); dq(r, h.dq[0], "delta-q-y-dc"); let sep = h.sep && !h.mono; if !h.mono { let diff = if sep { r.flag(h.diff, "diff-uv-delta"); h.diff } else { false }; dq(r, h.dq[1], "delta-q-u-dc"); dq(r, h.dq[2], "delta-q-u-ac"); d.vdq = [h.dq[1], h.dq[2], h.dq[1], h.dq[2]]; if diff { dq(r, h.dq[3], "delta-q-v-dc"); dq(r, h.dq[4], "delta-q-v-ac"); d.vdq[2] = h.dq[3]; d.vdq[3] = h.dq[4]; } }
    r.flag(h.qm.is_some(), "using-qmatrix"); if let Some(q) = h.qm { r.is(4, q[0] as u64, "qm-y"); r.is(4, q[1] as u64, "qm-u"); d.qmv = q[1]; if sep { r.is(4, q[2] as u64, "qm-v"); d.qmv = q[2]; } }
    // segmentation
    r.flag(h.seg, "segmentation-enabled"); if h.seg { let ud; if d.prim == 7 { d.um = true; d.tu = false; ud = true; } else { r.flag(h.um, "segmentation-update-map"); d.um = h.um; d.tu = h.tu; if h.um { r.flag(h.tu, "segmentation-temporal-update"); } r.flag(h.ud, "segmentation-update-data"); ud = h.ud; } d.ud = ud;
        if ud { for i in 0..8 { for j in 0..8 { let bits = [8, 6, 6, 6, 6, 3, 0, 0][j]; r.flag(h.fv[i][j].is_some(), "segment-feature-enabled"); if let Some(v) = h.fv[i][j] { if j < 5 { let x = r.su(1 + bits); check(x == v as i64, "segment-feature-value"); } else { r.is(bits, v as u64, "segment-feature-value"); } } } } }
        for i in 0..8 { for j in 0..8 { if h.fv[i][j].is_some() { d.last_seg = i; if j >= 5 { d.pre_skip = true; } } } } }
    // delta q, delta lf
    if h.bq > 0 { r.flag(h.dqp, "delta-q-present"); d.dqp = h.dqp; } if d.dqp { r.is(2, h.dqr as u64, "delta-q-resolution"); if !d.ibc { r.flag(h.dlp, "delta-lf-present"); if h.dlp { r.is(2, h.dlr as u64, "delta-lf-resolution"); r.flag(h.dlm, "delta-lf-multi"); } } }
    d.coded = true; for i in 0..8 { let mut q = h.bq as isize; if h.seg { if let Some(v) = h.fv[i][0] { let v = if v < -255 { -255 } else { v }; q += v; if q < 0 { q = 0; } if q > 255 { q = 255; } } } d.lossless[i] = q == 0 && h.dq[0] == 0 && d.vdq == [0; 4]; if !d.lossless[i] { d.coded = false; } } d.all = d.coded && d.up == d.fw;
    // loop filter
    if !(d.coded || d.ibc) { r.is(6, h.lvl[0] as u64, "loop-filter-level-0"); r.is(6, h.lvl[1] as u64, "loop-filter-level-1"); if !h.mono && (h.lvl[0] > 0 || h.lvl[1] > 0) { r.is(6, h.lvl[2] as u64, "loop-filter-level-2"); r.is(6, h.lvl[3] as u64, "loop-filter-level-3"); } r.is(3, h.sharp as u64, "sharpness"); r.flag(h.den, "delta-enabled");
        if h.den { r.flag(h.dupd, "delta-update"); if h.dupd { for i in 0..8 { r.flag(h.ur[i], "update-ref-delta"); if h.ur[i] { let x = r.su(7); check(x == h.rd[i] as i64, "ref-delta"); } } for i in 0..2 { r.flag(h.um2[i], "update-mode-delta"); if h.um2[i] { let x = r.su(7); check(x == h.md[i] as i64, "mode-delta"); } } } } }
    if !(d.coded || d.ibc || !h.cdef) { r.is(2, h.damp as u64 - 3, "cdef-damping"); r.is(2, h.cbits as u64, "cdef-bits"); for i in 0..1usize << h.cbits { r.is(4, h.cy[i].0 as u64, "cdef-y-primary"); r.is(2, if h.cy[i].1 == 4 { 3 } else { h.cy[i].1 as u64 }, "cdef-y-secondary"); if !h.mono { r.is(4, h.cu[i].0 as u64, "cdef-uv-primary"); r.is(2, if h.cu[i].1 == 4 { 3 } else { h.cu[i].1 as u64 }, "cdef-uv-secondary"); } } }
    if !(d.all || d.ibc || !h.lr) { for _ in 0..if h.mono { 1 } else { 3 } { r.is(2, h.lrt as u64, "restoration-type"); } if h.lrt > 0 { d.uses_lr = true; if h.sb128 { r.is(1, h.lrs as u64 - 1, "restoration-unit-shift"); } else { r.is(1, (h.lrs > 0) as u64, "restoration-unit-shift"); if h.lrs > 0 { r.is(1, h.lrs as u64 - 1, "restoration-unit-extra-shift"); } }
        let uv = if h.profile == 0 && !h.mono { r.is(1, h.lruv as u64, "restoration-uv-shift"); h.lruv } else { 0 }; let s = 256usize >> (2 - h.lrs); d.lrsize = Some([s, s >> uv, s >> uv]); } }
    d.txm = 0; if !d.coded { r.flag(h.txs, "tx-mode-select"); d.txm = if h.txs { 2 } else { 1 }; }
    if !intra { r.flag(h.rsel, "reference-select"); d.rsel = h.rsel; }
    // skip mode: the nearest past and the nearest future (or the two nearest past) references
    if !intra && h.rsel && h.oh { let o = h.order as usize; let (mut f, mut b): (Option<usize>, Option<usize>) = (None, None); let hint = |i: usize| xroh[h.idx[i] as usize];
        for i in 0..7 { let x = dist(h, hint(i), o); if x < 0 { if f.map_or(true, |j| dist(h, hint(i), hint(j)) > 0) { f = Some(i); } } else if x > 0 { if b.map_or(true, |j| dist(h, hint(i), hint(j)) < 0) { b = Some(i); } } }
        if let Some(f) = f { let second = if b.is_some() { b } else { let mut s: Option<usize> = None; for i in 0..7 { if dist(h, hint(i), hint(f)) < 0 { if s.map_or(true, |j| dist(h, hint(i), hint(j)) > 0) { s = Some(i); } } } s };
            if let Some(s) = second { let (lo, hi) = if f < s { (f, s) } else { (s, f) }; d.skip = Some((lo as u64 + 1, hi as u64 + 1)); r.flag(h.skm, "skip-mode-present"); d.skm = h.skm; } } }
    if !(intra || d.er || !h.warped) { r.flag(h.aw, "allow-warped-motion"); d.aw = h.aw; } r.flag(h.redtx, "reduced-tx-set");
    // global motion
    let mut ident = [[0isize; 6]; 8]; for k in 0..8 { ident[k][2] = 1 << 16; ident[k][5] = 1 << 16; } d.gm = ident; let prev = if d.prim == 7 { ident } else { h.pgm };
    if !intra { for rf in 1..8 { r.flag(h.isg[rf], "is-global"); let t = if h.isg[rf] { r.flag(h.rz[rf], "is-rot-zoom"); if h.rz[rf] { 2 } else { r.flag(h.tr[rf], "is-translation"); if h.tr[rf] { 1 } else { 3 } } } else { 0 }; d.gmt[rf] = t;
        if t >= 2 { gparam(r, h, &mut d, &prev, t, rf, 2); gparam(r, h, &mut d, &prev, t, rf, 3); if t == 3 { gparam(r, h, &mut d, &prev, t, rf, 4); gparam(r, h, &mut d, &prev, t, rf, 5); } else { d.gm[rf][4] = -d.gm[rf][3]; d.gm[rf][5] = d.gm[rf][2]; } } if t >= 1 { gparam(r, h, &mut d, &prev, t, rf, 0); gparam(r, h, &mut d, &prev, t, rf, 1); } } }
    // film grain
    if let Some(ref g) = h.fg { if show || showable { r.flag(g.apply, "apply-grain"); if g.apply { r.is(16, g.seed as u64, "grain-seed"); let up = if ft == INTER { r.flag(g.update, "update-grain"); g.update } else { true }; if !up { r.is(3, g.refi as u64, "grain-reference"); } else {
        r.is(4, g.ny as u64, "luma-points"); for i in 0..g.ny { r.is(8, g.yv[i] as u64, "luma-point"); r.is(8, g.ys[i] as u64, "luma-scaling"); } let cfl = if h.mono { false } else { r.flag(g.cfl, "chroma-from-luma"); g.cfl }; let (mut ncb, mut ncr) = (0, 0);
        if !(h.mono || cfl || (h.profile == 0 && g.ny == 0)) { ncb = g.ncb; ncr = g.ncr; r.is(4, ncb as u64, "cb-points"); for i in 0..ncb { r.is(8, g.cbv[i] as u64, "cb-point"); r.is(8, g.cbs[i] as u64, "cb-scaling"); } r.is(4, ncr as u64, "cr-points"); for i in 0..ncr { r.is(8, g.crv[i] as u64, "cr-point"); r.is(8, g.crs[i] as u64, "cr-scaling"); } }
        r.is(2, g.scal as u64 - 8, "grain-scaling"); r.is(2, g.lag as u64, "ar-lag"); let nl = 2 * g.lag * (g.lag + 1); let nc = if g.ny > 0 { for i in 0..nl { r.is(8, (g.cy[i] + 128) as u64, "ar-luma"); } nl + 1 } else { nl }; if cfl || ncb > 0 { for i in 0..nc { r.is(8, (g.cb[i] + 128) as u64, "ar-cb"); } } if cfl || ncr > 0 { for i in 0..nc { r.is(8, (g.cr[i] + 128) as u64, "ar-cr"); } }
        r.is(2, g.shift as u64 - 6, "ar-shift"); r.is(2, g.gss as u64, "grain-scale-shift"); if ncb > 0 { r.is(8, g.m[0] as u64, "cb-mult"); r.is(8, g.m[1] as u64, "cb-luma-mult"); r.is(9, g.m[2] as u64, "cb-offset"); } if ncr > 0 { r.is(8, g.m[3] as u64, "cr-mult"); r.is(8, g.m[4] as u64, "cr-luma-mult"); r.is(9, g.m[5] as u64, "cr-offset"); } r.flag(g.ov, "overlap"); r.flag(g.clip, "clip"); } } } }
    d
}
fn state(d: &D, h: &H, f: &Frame, c: &EncoderContext) {
    check(c.refresh_frame_flags == d.refresh, "state-refresh"); if d.existing { check(!c.seen_frame_header, "state-header-done"); return; }
    check(c.seen_frame_header, "state-header-seen"); check(c.frame_is_intra == d.intra, "state-intra"); check(f.force_integer_mv == d.fimv && f.allow_screen_content_tools == d.sct, "state-screen-content"); check(f.primary_ref_frame == d.prim, "state-primary-reference"); check(c.upscaled_width == d.up && f.frame_width == d.fw, "state-frame-width"); check(f.render_width == h.rw && f.render_height == h.rh, "state-render-size");
    check(f.allow_intrabc == d.ibc, "state-intrabc"); check(f.allow_high_precision_mv == d.hp && f.use_ref_frame_mvs == d.rfmv, "state-motion-flags"); if !d.intra { check(f.interp_filter as u64 == d.filt, "state-filter"); check(f.error_resilient_mode == d.er, "state-error-resilient"); for i in 1..8 { check(c.order_hints[i] == d.hints[i], "state-order-hints"); check(c.ref_frame_sign_bias[i] as u64 == d.bias[i], "state-sign-bias"); } }
    check(c.ref_valid == d.valid, "state-reference-validity"); check(c.mi_col_starts == d.cols && c.mi_row_starts == d.rows, "state-tile-starts"); check(c.delta_q_u_dc == d.vdq[0] && c.delta_q_u_ac == d.vdq[1] && c.delta_q_v_dc == d.vdq[2] && c.delta_q_v_ac == d.vdq[3], "state-chroma-deltas");
    check(c.lossless_array == d.lossless && c.coded_lossless == d.coded && c.all_lossless == d.all, "state-lossless"); check(c.seg_id_pre_skip == d.pre_skip && c.last_active_seg_id == d.last_seg, "state-segmentation"); if h.seg { check(f.segmentation_params.segmentation_update_map == d.um && f.segmentation_params.segmentation_temporal_update == d.tu && f.segmentation_params.segmentation_update_data == d.ud, "state-segmentation-updates"); }
    if h.qm.is_some() { for i in 0..8 { let w = |q: u8| if d.lossless[i] { 15 } else { q as usize }; let q = h.qm.unwrap(); check(c.seg_q_m_level[0][i] == w(q[0]) && c.seg_q_m_level[1][i] == w(q[1]) && c.seg_q_m_level[2][i] == w(d.qmv), "state-qmatrix-levels"); } }
    check(f.delta_q_params.delta_q_present == d.dqp, "state-delta-q"); check(c.tx_mode as u8 == d.txm, "state-tx-mode"); check(f.reference_select == d.rsel, "state-reference-select"); check(c.skip_mode_allowed == d.skip.is_some() && f.skip_mode_present == d.skm, "state-skip-mode"); if let Some((a, b)) = d.skip { check(c.skip_mode_frame[0] as u64 == a && c.skip_mode_frame[1] as u64 == b, "state-skip-mode-frames"); } check(f.allow_warped_motion == d.aw, "state-warped");
    check(c.uses_lr == d.uses_lr, "state-uses-restoration"); if let Some(s) = d.lrsize { check(c.loop_restoration_size == s, "state-restoration-size"); } for rf in 1..8 { check(c.gm_type[rf] == d.gmt[rf], "state-global-motion-type"); check(c.gm_params[rf] == d.gm[rf], "state-global-motion-params"); } check(c.film_grain_params.is_some() == h.fg.is_some(), "state-film-grain-presence");
    let nolf = d.coded || d.ibc; if nolf { let p = &f.loop_filter_params; check(p.loop_filter_level[0] == 0 && p.loop_filter_level[1] == 0 && p.loop_filter_ref_deltas == [1, 0, 0, 0, -1, 0, -1, -1] && p.loop_filter_mode_deltas == [0, 0], "state-loop-filter-off"); }
    let q = &f.cdef_params; if nolf || !h.cdef { check(q.cdef_bits == 0 && q.cdef_damping == 3 && q.cdef_y_pri_strength[0] == 0 && q.cdef_y_sec_strength[0] == 0 && q.cdef_uv_pri_strength[0] == 0 && q.cdef_uv_sec_strength[0] == 0, "state-cdef-off"); }
    else { let up = |x: u8| if x == 3 { 4 } else { x }; for i in 0..1usize << h.cbits { check(q.cdef_y_sec_strength[i] == up(h.cy[i].1) && (h.mono || q.cdef_uv_sec_strength[i] == up(h.cu[i].1)), "state-cdef-secondary"); } }
    let rt = [0u8, 3, 1, 2][if d.uses_lr { h.lrt as usize } else { 0 }]; for i in 0..if h.mono { 1 } else { 3 } { check(c.frame_restoration_type[i] as u8 == rt, "state-restoration-type"); }
}
fn bits_for(max: usize) -> usize { let mut n = 1; while n < 16 && ((max - 1) >> n) != 0 { n += 1; } n }
/// sequence header, then the frame header, then a second header of the same frame period (which must be empty)
fn header(h: &H) {
    let x = Rc::new(RefCell::new(EncoderContext::new())); let mut w = BinaryWriter::file("vfs:out").unwrap(); let mut co = BoolCoder::new(); let mut e = OBUEncoder::new(&x, &mut w, &mut co);
    let mut o = OBU_SEQUENCE_HEADER(seq(h, &x)); let mut b = vec![]; e.encode_obu_payload(&mut o, &mut b); ctxset(h, &x);
    let mut o = OBU_FRAME_HEADER(frame(h)); let mut b = vec![]; e.encode_obu_payload(&mut o, &mut b); out_bits(&b); for &v in &b { check(v <= 1, "bits-are-bits"); }
    let mut r = Rd::new(&b); let d = read(&mut r, h, bits_for(h.mw), bits_for(h.mh)); r.end("nothing-after-the-last-field"); if let OBU_FRAME_HEADER(ref f) = o { state(&d, h, f, &x.borrow()); }
}
