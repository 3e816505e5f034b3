// P13: opening part of the frame header (show-existing, type, resilience, screen content, ids, order hint, primary ref, buffer removal, refresh, reference order hints).
include!("common.rs"); include!("vfs.rs"); include!("rd.rs"); include!("hdr.rs");
fn ids(h: &mut H, d: u64, a: u64) { h.fid = Some((d as u8, a as u8)); }
/// showing an existing frame: nothing but the index, the presentation delay and the frame id follow
fn exist(h: &mut H) { h.existing = true; h.show = false; h.refresh = any("refresh"); header(h); }
#[no_mangle] pub extern "C" fn vh_existing() { let mut h = h0(); h.map = split(any_in("map", 0, 8)) as u8; let k = h.map as usize; h.rft = [1, 2, 3, 1, 2, 3, 1, 2]; h.rft[k] = split(any_in("rft", 0, 4)) as u8; h.ft = split(any_in("ft", 0, 2)) as u8; if any_bool("ids") { h.fid = Some((6, 3)); h.disp = any_in("disp", 0, 1 << 9) as u32; } if any_bool("decoder-model") { h.dm = Some((11, 7)); h.tpd = any_in("tpd", 0, 1 << 11) as u32; } if any_bool("timing") { h.eq = Some(any_bool("equal-interval")); } exist(&mut h); }
#[no_mangle] pub extern "C" fn vh_existing_widths() { let mut h = h0(); h.map = any_in("map", 0, 8) as u8; if any_bool("ids") { let (d, a) = (split(any_in("dlen", 2, 16)), split(any_in("alen", 1, 9))); assume(d + a <= 16); ids(&mut h, d, a); h.disp = any_in("disp", 0, 1 << (d + a)) as u32; } else { let p = split(any_in("pdl", 1, 33)); h.dm = Some((p as u8, 7)); h.tpd = any("tpd"); assume(p >= 32 || h.tpd < 1 << p); } exist(&mut h); }
fn kind(h: &mut H) { h.ft = split(any_in("ft", 0, 4)) as u8; h.show = any_bool("show"); h.showable = any_bool("showable"); h.er = any_bool("er"); }
/// type, visibility, resilience, CDF update, screen content and integer motion decisions
#[no_mangle] pub extern "C" fn vh_type() { let mut h = h0(); kind(&mut h); h.dis_cdf = any_bool("dis-cdf"); h.dis_fe = any_bool("dis-fe"); h.fsct = split(any_in("force-sct", 0, 3)) as usize; h.fim = if h.fsct > 0 { split(any_in("force-imv", 0, 3)) as usize } else { 2 }; h.sct = any_in("sct", 0, 2) as usize; h.fimv = any_in("imv", 0, 2) as usize; header(&h); }
#[no_mangle] pub extern "C" fn vh_delay() { let mut h = h0(); kind(&mut h); h.dm = Some((split(any_in("pdl", 1, 33)) as u8, 7)); h.tpd = any("tpd"); let p = h.dm.unwrap().0; assume(p >= 32 || h.tpd < 1 << p); if any_bool("timing") { h.eq = Some(any_bool("equal-interval")); } header(&h); }
/// frame ids and which references they invalidate: any one reference with any id, the others at the frame's own id
fn idcase(dl: u64, al: u64, ft: u8, show: bool, k: usize, all: bool) { let mut h = h0(); ids(&mut h, dl, al); h.ft = ft; h.show = show; h.id = any_in("id", 0, 1 << (dl + al)) as usize; let r: u16 = any("rid"); assume((r as u64) < 1 << (dl + al)); let v: u8 = any("rvalid"); for i in 0..8 { h.rid[i] = if all || i == k { r as usize } else { h.id }; h.rvalid[i] = (v >> i) & 1 == 1; } header(&h); }
#[no_mangle] pub extern "C" fn vh_ids() { let dl = split(any_in("dlen", 2, 16)); let al = split(any_in("alen", 1, 9)); assume(dl + al <= 16); idcase(dl, al, INTER, false, 0, true); }
#[no_mangle] pub extern "C" fn vh_ids_refs() { let k = split(any_in("k", 0, 8)) as usize; let ft = split(any_in("ft", 0, 4)) as u8; let s = any_bool("show"); idcase(5, 3, ft, s, k, false); }
/// buffer removal delays for the operating points the frame belongs to
#[no_mangle] pub extern "C" fn vh_buffer() { let mut h = h0(); h.ft = split(any_in("ft", 0, 2)) as u8; h.brp = any_bool("brp"); h.dm = Some((9, split(any_in("brl", 1, 33)) as u8)); h.brd = any::<u32>("brd") as usize; let p = h.dm.unwrap().1; assume(p >= 32 || h.brd < 1 << p); h.tid = any_in("tid", 0, 8) as usize; h.sid = any_in("sid", 0, 4) as usize; h.opidc.push(any_in("idc", 0, 4096) as u16); header(&h); }
#[no_mangle] pub extern "C" fn vh_buffer_many() { let mut h = h0(); h.brp = true; h.dm = Some((9, 10)); h.brd = any_in("brd", 0, 1024) as usize; h.tid = any_in("tid", 0, 8) as usize; h.sid = any_in("sid", 0, 4) as usize; for _ in 0..3 { h.opidc.push(any_in("idc", 0, 4096) as u16); } header(&h); }
/// order hint, primary reference, refresh flags, reference order hints
fn refresh(h: &mut H) { kind(h); h.oh = any_bool("oh"); h.refresh = any("refresh"); h.prim = any_in("prim", 0, 8) as u8; let n = 1u64 << h.ohb; h.order = any_in("order", 0, n) as u8; let a: [u8; 8] = any("roh"); let b: [u8; 8] = any("xroh"); let v: u8 = any("rvalid"); for i in 0..8 { assume((a[i] as u64) < n && (b[i] as u64) < n); h.roh[i] = a[i] as usize; h.xroh[i] = b[i] as usize; h.rvalid[i] = (v >> i) & 1 == 1; } if !h.oh { h.order = 0; } }
#[no_mangle] pub extern "C" fn vh_refresh() { let mut h = h0(); h.ohb = 5; refresh(&mut h); header(&h); }
#[no_mangle] pub extern "C" fn vh_order_bits() { let mut h = h0(); h.oh = true; h.ohb = split(any_in("ohb", 1, 9)) as u8; h.ft = SWITCH; let n = 1u64 << h.ohb; h.order = any_in("order", 0, n) as u8; let a: [u8; 8] = any("roh"); for i in 0..8 { assume((a[i] as u64) < n); h.roh[i] = a[i] as usize; h.xroh[i] = a[i] as usize; } header(&h); }
/// a still picture with the reduced header
#[no_mangle] pub extern "C" fn vh_reduced() { let mut h = h0(); h.reduced = true; h.ft = split(any_in("ft", 0, 2)) as u8; h.existing = any_bool("existing"); h.show = any_bool("show"); h.showable = any_bool("showable"); h.er = any_bool("er"); h.dis_cdf = any_bool("dis-cdf"); h.dis_fe = any_bool("dis-fe"); h.sct = any_in("sct", 0, 2) as usize; h.fimv = any_in("imv", 0, 2) as usize; h.ibc = any_bool("ibc"); h.ovr = any_bool("ovr"); h.refresh = any("refresh"); header(&h); }
harnesses![vh_existing, vh_existing_widths, vh_type, vh_delay, vh_ids, vh_ids_refs, vh_buffer, vh_buffer_many, vh_refresh, vh_order_bits, vh_reduced];
//@ run vh_existing
//@ run vh_existing_widths
//@ run vh_type workers=2
//@ run vh_delay
//@ run vh_ids workers=2
//@ run vh_ids_refs
//@ run vh_buffer
//@ run vh_buffer_many
//@ run vh_refresh workers=2
//@ run vh_order_bits
//@ run vh_reduced
//@ bounds show-existing with every slot, reference type, id length (3..16 bits) and delay length (1..32); every combination of type, visibility, resilience and screen-content choice; any frame id against any one reference id in every slot (all id lengths with all references equal); 1 to 3 operating points with any mask; any refresh flags and reference order hints (5 bits; 1..8 bits for switch frames)
//@ outside several references with different invalid ids at once; loading film grain of a shown existing frame and frame header copies (not implemented)
