From a16eeec7b2c3ba9fb779e989bd8f4d88a6cbde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:41 +0000
Subject: [PATCH 001/102] verif hook: include an external harness under
 cfg(av1enc_verif)

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..e67c055 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,6 +41,7 @@ use encoder::*;
 
 
 fn main() {
+    #[cfg(av1enc_verif)] { if verif::main() { return; } }
 
     println!(
         "{} version {} Copyright (c) 2018-2018 {}",
@@ -117,3 +118,6 @@ fn main() {
         }
     }
 }
+
+#[cfg(av1enc_verif)]
+mod verif { include!(env!("AV1ENC_VERIF_HARNESS")); }
-- 
2.43.0


From 9246434b9be26806c07a5cb6c0bf75675239bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:46 +0000
Subject: [PATCH 002/102] fix: encode_uvlc overflowed on the largest value

---
 src/bool_coder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..785b24a 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -230,10 +230,11 @@ impl BoolCoder {
     }
 
     pub fn encode_uvlc(&mut self, out_bits: &mut Vec<u8>, val: u32) {
-        let v: u64 = (val + 1) as u64;
+        let v: u64 = val as u64 + 1;
         let n = msb64(v);
         for _ in 0..n { out_bits.push(0) }
         out_bits.push(1);
+        if n>=32 { return; } // 32 or more leading zeros stand for the largest value, no suffix follows
         for i in (0..n).rev() { out_bits.push(((v>>i)&1) as u8); }
     }
 
-- 
2.43.0


From 9080b268c446723d621721513ded0f9297ab95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:54 +0000
Subject: [PATCH 003/102] fix: decode_symbol counted every consumed bit twice,
 so exit_decoder left part of the chunk unread

---
 src/bool_coder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 785b24a..d3a3989 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -93,7 +93,6 @@ impl BoolCoder {
         for _ in 0..(bits as i32) {
             if let Some(bit) = in_bits.pop_front() {
                 new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
             }
             else { assert!(false); }
         }
-- 
2.43.0


From 2f0de4cfbc6a94f53fc404a779bece0999df35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:54 +0000
Subject: [PATCH 004/102] fix: init_encoder kept the bit count of the previous
 chunk, misaligning the next one

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index d3a3989..01bc2e3 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -136,6 +136,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 5e9a969b99b24876a27b00aeba89156bbf9d7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:05 +0000
Subject: [PATCH 005/102] fix: decode_uvlc looped forever on exhausted input

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 01bc2e3..8541bf9 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -246,6 +246,7 @@ impl BoolCoder {
                 if done { break; }
                 else { lz += 1; }
             }
+            else { assert!(false); }
         }
         if lz>=32 { return ((1u64<<32) - 1) as u32; }
         let mut v: u64 = 0;
-- 
2.43.0


From b3c366ea9a06e816d868d61f7c416f03a779f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:26 +0000
Subject: [PATCH 006/102] fix: read_to_vec dropped the rest of a plane on a
 short or interrupted read

---
 src/binary_reader.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..9a82641 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,15 +27,20 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
-                for i in 0..len {
-                    v[i] = T::from(tmp[i]);
-                }
-                Ok(s)
-            },
-            Err(e) => Err(e)
+        // a single read may return less than requested even before the end of the input
+        let mut filled = 0;
+        while filled < len {
+            match self.input.read(&mut tmp[filled..]) {
+                Ok(0) => break,
+                Ok(s) => filled += s,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e)
+            }
         }
+        for i in 0..len {
+            v[i] = T::from(tmp[i]);
+        }
+        Ok(filled)
     }
 }
 
-- 
2.43.0


From 874dfa4b1c5c6556474587f7c2b7a9b76814a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:50 +0000
Subject: [PATCH 007/102] fix: OBU payloads bypassed their temporal unit and
 unit sizes were counted in bits

---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..0128d60 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1580,22 +1580,22 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        self.coder.push_bits(out_bits, &obu_payload_bits);
+        self.coder.push_bits_align(out_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8;
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8;
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8;
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From 73082603d6e66849e012ea039f8f06bb954da706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 008/102] fix: sequence header signalled too few bits for the
 maximum frame size

---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0128d60..a55e434 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -112,12 +112,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                let frame_width_bits_minus_1 = msb16((sequence_header.max_frame_width-1) as u16);
+                let frame_height_bits_minus_1 = msb16((sequence_header.max_frame_height-1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From 86c0b39cac543d1e0740f626366a2d725f683940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 009/102] fix: sequence header operating point count was off by
 one and missing from the reduced header

---
 src/obu_encoder.rs     | 5 ++---
 src/sequence_header.rs | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a55e434..f6c463f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -98,10 +98,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bit(out_bits, sequence_header.still_picture as u8);
                 self.coder.push_bit(out_bits, ecx.reduced_still_picture_header as u8);
                 if ecx.reduced_still_picture_header {
-                    // TODO
+                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points[0].seq_level_idx as u32, 5);
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5); // operating_points_cnt_minus_1
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..d81ac3b 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![OperatingPoint { idc: 0, seq_level_idx: 0, seq_tier: None }],
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From 069af2849a9397ad744432987c75d0fecfcda372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 010/102] fix: enabling order hints underflowed because the
 configured bit count was never used

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f6c463f..dd2b32f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -174,6 +174,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.seq_force_integer_mv = SELECT_INTEGER_MV;
                     }
                     if ecx.enable_order_hint {
+                        self.order_hint_bits = ecx.order_hint_bits as usize;
                         self.coder.push_bits_with_size(out_bits, (self.order_hint_bits-1) as u32, 3);
                     } else {
                         self.order_hint_bits = 0;
-- 
2.43.0


From 04177246a7e98ecd2df1c38f4096a58687301b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 011/102] fix: writing a sequence header changed the colour
 description of the next one

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index dd2b32f..8dffa28 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -203,20 +203,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bits_with_size(out_bits, cd.transfer_characteristics as u32, 8);
                     self.coder.push_bits_with_size(out_bits, cd.matrix_coefficients as u32, 8);
                 }
-                if ecx.color_config.color_description.is_none() {
-                    ecx.color_config.color_description = Some( ColorDescription {
-                        color_primaries: CP_UNSPECIFIED,
-                        transfer_characteristics: TC_UNSPECIFIED,
-                        matrix_coefficients: MC_UNSPECIFIED
-                    });
-                }
+                let color_description = ecx.color_config.color_description.unwrap_or(ColorDescription {
+                    color_primaries: CP_UNSPECIFIED,
+                    transfer_characteristics: TC_UNSPECIFIED,
+                    matrix_coefficients: MC_UNSPECIFIED
+                });
                 if ecx.color_config.mono_chrome {
                     self.coder.push_bit(out_bits, ecx.color_config.color_range as u8);
                     ecx.color_config.subsampling_x = true;
                     ecx.color_config.subsampling_y = true;
                     ecx.color_config.chroma_sample_position = CSP_UNKNOWN;
                     ecx.color_config.separate_uv_delta_q = false;
-                } else if ecx.color_config.color_description.unwrap() == (ColorDescription {
+                } else if color_description == (ColorDescription {
                     color_primaries: CP_BT_709,
                     transfer_characteristics: TC_SRGB,
                     matrix_coefficients: MC_IDENTITY
-- 
2.43.0


From d0d05c1d3607c26fb0f867bbced3e536a6259ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 012/102] fix: monochrome sequence headers carried a stray
 separate_uv_delta_q bit

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8dffa28..5fccd99 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -251,7 +251,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From b38b033ee79a9520007706a076581749f2d74bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:38 +0000
Subject: [PATCH 013/102] fix: timecode metadata carried the scalability
 metadata type

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5fccd99..4c4c4f1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1525,7 +1525,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
                             self.coder.push_bit(out_bits, 1);
-- 
2.43.0


From 1690ce1d509bed5f4089ef9d2793632b4a874c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:30 +0000
Subject: [PATCH 014/102] fix: every argument after a N/D frame rate was
 ignored

---
 src/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..6a78e73 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -153,7 +153,7 @@ lazy_static! {
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
-- 
2.43.0


From 6414b9e34eb6cedfcbfda3d21dd562c2863ef036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:30 +0000
Subject: [PATCH 015/102] fix: a frame rate with a zero denominator panicked

---
 src/option.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/option.rs b/src/option.rs
index 6a78e73..a661075 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -151,6 +151,7 @@ lazy_static! {
                 else {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
+                    else if denom == Some(0) { Err("wrong format".to_string()) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
                         Ok(args[1..].to_vec())
-- 
2.43.0


From 2c1b10ca4446f92f404757c3f623d344e2d8b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:30 +0000
Subject: [PATCH 016/102] fix: empty, lone '-' and non-ASCII arguments panicked
 instead of being rejected

---
 src/option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index a661075..b5b9a9d 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -227,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From 9e356d7baa751a5c3692db04d24658a304468c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:30 +0000
Subject: [PATCH 017/102] fix: Round2Signed lost the sign of negative values

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 3d7a41b..ed88dc8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,7 +27,7 @@ macro_rules! Round2 {
 }
 
 macro_rules! Round2Signed {
-    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { Round2!(-$x, $n) } );
+    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { -Round2!(-$x, $n) } );
 }
 
 #[macro_export]
-- 
2.43.0


From 81ff7089be539e772799729aa9ae6a97d77b8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 018/102] fix: frame headers indexed past the order hints of
 the last reference

---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..10675e9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; TOTAL_REFS_PER_FRAME],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; TOTAL_REFS_PER_FRAME],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -114,9 +114,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; TOTAL_REFS_PER_FRAME],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; TOTAL_REFS_PER_FRAME],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 775bb9d08a88caf32a49228a4e3bebaf8ac858ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:20 +0000
Subject: [PATCH 019/102] fix: the reference sign bias underflowed and held a
 distance instead of a sign

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4c4c4f1..a16a0f1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -718,10 +718,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     if !ecx.enable_order_hint {
                                         0
                                     } else {
-                                        let mut diff = hint - frame.order_hint as usize;
+                                        let mut diff = hint as isize - frame.order_hint as isize;
                                         let m = 1 << (ecx.order_hint_bits-1);
                                         diff = (diff&(m-1)) - (diff&m);
-                                        diff
+                                        (diff>0) as usize
                                     }
                                 };
                             }
-- 
2.43.0


From a09402819bac0c046ac1e5fa669fef065644e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:21 +0000
Subject: [PATCH 020/102] fix: switch frames and shown key frames are always
 error resilient

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a16a0f1..95fb74a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -382,7 +382,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From eccf47ce9e7e07de1d0debd86106970b86183dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:22 +0000
Subject: [PATCH 021/102] fix: error resilient frames left out the reference
 order hints

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 95fb74a..6833131 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -472,6 +472,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From 6a53d2e2ef6c15af512604ffbdab45d509390fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 022/102] fix: high precision vectors, reference vectors and
 intra block copy could never be signalled

---
 src/obu_encoder.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6833131..ea55bb9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -461,9 +461,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                         }
                     }
-                    frame.allow_high_precision_mv = false;
-                    frame.use_ref_frame_mvs = false;
-                    frame.allow_intrabc = false;
+                    if ecx.frame_is_intra {
+                        frame.allow_high_precision_mv = false;
+                        frame.use_ref_frame_mvs = false;
+                    }
+                    if !ecx.frame_is_intra || frame.allow_screen_content_tools==0 {
+                        frame.allow_intrabc = false;
+                    }
                     if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
                         ecx.refresh_frame_flags = self.all_frames as u8;
                     } else {
@@ -561,6 +565,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                             if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                                 self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                            } else {
+                                frame.allow_intrabc = false;
                             }
                         } else {
                             if !ecx.enable_order_hint {
-- 
2.43.0


From f92a041da417c9e8eb2687632abffaa05e427ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:24 +0000
Subject: [PATCH 023/102] fix: overridden frame sizes were not written in the
 bit widths of the sequence header

---
 src/obu_encoder.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index ea55bb9..bacbf90 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -36,6 +36,8 @@ pub struct OBUEncoder<'a, 'b> where 'a: 'b {
     num_planes: usize,
     tile_num: usize,
     id_len: usize,
+    frame_width_bits: u8,
+    frame_height_bits: u8,
     all_frames: usize,
     ectx: Rc<RefCell<EncoderContext>>,
 }
@@ -51,6 +53,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
             num_planes: 3,
             tile_num: 1,
             id_len: 0,
+            frame_width_bits: 16,
+            frame_height_bits: 16,
             all_frames: 0,
             ectx: Rc::clone(ectx),
         }
@@ -117,6 +121,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
+                self.frame_width_bits = nw;
+                self.frame_height_bits = nh;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
@@ -486,8 +492,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = self.frame_width_bits;
+                            let nh = self.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -528,8 +534,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = self.frame_width_bits;
+                                let nh = self.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -602,8 +608,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = self.frame_width_bits;
+                                        let nh = self.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -655,8 +661,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = self.frame_width_bits;
+                                    let nh = self.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From cab679c84b982ac716bac0b169aee0596f731236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:25 +0000
Subject: [PATCH 024/102] fix: a render size equal to the downscaled frame size
 was lost

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index bacbf90..764067f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -517,7 +517,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -559,7 +559,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -633,7 +633,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -686,7 +686,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 42097ed42a51dc5f342fce46f89e24c82e97bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:26 +0000
Subject: [PATCH 025/102] fix: inter frames claimed the size of their first
 reference whatever their own size

---
 src/obu_encoder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 764067f..2d9aac9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -600,10 +600,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // frame size with refs
                                 let mut found_ref = false;
                                 for i in 0..REFS_PER_FRAME {
-                                    // FIXME
-                                    found_ref = true;
+                                    // FIXME reference frame sizes are not tracked, so the size is always written
                                     self.coder.push_bit(out_bits, found_ref as u8);
-                                    break;
                                 }
                                 if !found_ref {
                                     // frame size
-- 
2.43.0


From 970a77a9cb0ec8f43aa20aaca8d6c7728f064852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:02 +0000
Subject: [PATCH 026/102] fix: frames of a monochrome sequence were written
 with chroma parameters

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2d9aac9..b844955 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -203,6 +203,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From f0d965321eed1bc225c264f924a8aac33cf17469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:03 +0000
Subject: [PATCH 027/102] fix: frame headers ignored the frame id setting of
 the sequence header

---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b844955..5e5f2d8 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -132,7 +132,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 } else {
                     self.coder.push_bit(out_bits, if let Some(_) = sequence_header.frame_id { 1 } else { 0 } as u8);
                 }
+                ecx.frame_id_numbers_present_flag = sequence_header.frame_id.is_some();
                 if let Some(ref fid) = sequence_header.frame_id {
+                    ecx.delta_frame_id_length = fid.delta_frame_id_length as usize;
+                    ecx.additional_frame_id_length = fid.additional_frame_id_length as usize;
                     self.coder.push_bits_with_size(out_bits, (fid.delta_frame_id_length-2) as u32, 4);
                     self.coder.push_bits_with_size(out_bits, (fid.additional_frame_id_length-1) as u32, 3);
                 }
-- 
2.43.0


From 3ed836e4bf1861a3caaf4b40f53a39cd36e92a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:04 +0000
Subject: [PATCH 028/102] fix: the frame header after a shown existing frame
 was dropped

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5e5f2d8..39808b2 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -368,6 +368,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // load grain params
                                 // TODO
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From d847a8959dcc4ae3e8ca1ce61b7d9513301e1ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:05 +0000
Subject: [PATCH 029/102] fix: tile counts that are no power of two were given
 one bit too few

---
 src/frame.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..947928c 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -237,6 +237,14 @@ pub struct Frame {
     pub cdef_idx: Vec<Vec<isize>>,
 }
 
+fn tile_log2(tiles: usize) -> usize {
+    let mut k = 0;
+    while (1<<k) < tiles {
+        k += 1;
+    }
+    k
+}
+
 impl Frame {
     pub fn new(frame_type: FrameType, width: usize, height: usize) -> Frame {
         Frame {
@@ -383,10 +391,10 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        tile_log2(self.tile_col_starts.len())
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        tile_log2(self.tile_row_starts.len())
     }
 }
\ No newline at end of file
-- 
2.43.0


From bf70dc7ec0d0393998cad483b09a82e3eba88cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:06 +0000
Subject: [PATCH 030/102] fix: tile columns and rows wrote an increment bit
 past the maximum and underflowed the row minimum

---
 src/obu_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 39808b2..27b4917 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -790,7 +790,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2() < max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut i = 0;
                         let mut start_sb = 0;
@@ -802,12 +804,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_col_starts[i] = mi_cols;
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2() < max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         let mut i = 0;
                         start_sb = 0;
-- 
2.43.0


From b32359266f665742ad719c150925a36f6934a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:06 +0000
Subject: [PATCH 031/102] fix: uniform tile spacing indexed empty tile start
 lists

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 27b4917..87051f3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -794,14 +794,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
                         let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
@@ -813,14 +812,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From 7a96b379b99ad80f8c7fc5211618d9141ef05baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:07 +0000
Subject: [PATCH 032/102] fix: unsigned segmentation features were written with
 a signed descriptor

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 87051f3..7054c1a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -899,7 +899,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
                                     }
-- 
2.43.0


From 59a712e79c7a68958a358c144d257400f378e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:08 +0000
Subject: [PATCH 033/102] fix: writing segmentation data enabled every feature
 of every segment

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7054c1a..5d759fc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -891,10 +891,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
+                                        let clipped_value;
                                         if segmentation_feature_signed[j] {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
@@ -902,8 +902,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
+                                        frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                 }
                             }
                         }
-- 
2.43.0


From 7f892f2220eae0f6e5393ac4f3040ec527242595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:54 +0000
Subject: [PATCH 034/102] fix: the global motion segment feature had no storage
 and was never written

---
 src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 8377541..d1db7cc 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
-- 
2.43.0


From 6ab28502376b310eea270320e019ad10e3389021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:55 +0000
Subject: [PATCH 035/102] fix: losslessness was decided from the running
 quantizer index instead of the frame base index

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5d759fc..c2d89b0 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -972,7 +972,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From 11289da841bf07638e52ba97c297aa4c4a9bd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 036/102] fix: loop filter mode deltas were written according
 to the reference delta flags

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c2d89b0..291e388 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1037,7 +1037,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From 822007ccc4b2f41d6d1793c505817c850a0eaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 037/102] fix: lossless frames indexed empty cdef strength
 lists

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 291e388..19c2b95 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1048,10 +1048,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // cdef params
                     if ecx.coded_lossless || frame.allow_intrabc {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From b4ced24706ba7c5056f7b9ace9ba5a670b56e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:57 +0000
Subject: [PATCH 038/102] fix: cdef parameters were written for sequences
 without cdef

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 19c2b95..5701a07 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1046,7 +1046,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
                         frame.cdef_params.cdef_y_pri_strength = vec![0];
                         frame.cdef_params.cdef_y_sec_strength = vec![0];
-- 
2.43.0


From cf65d20d0a62e37ca822fbf0c0102d93707efb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:58 +0000
Subject: [PATCH 039/102] fix: the strongest cdef secondary strength was
 written as zero the second time

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5701a07..d75b9da 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1058,13 +1058,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, frame.cdef_params.cdef_bits as u32, 2);
                         for i in 0..(1<<frame.cdef_params.cdef_bits) {
                             self.coder.push_bits_with_size(out_bits, frame.cdef_params.cdef_y_pri_strength[i] as u32, 4);
-                            self.coder.push_bits_with_size(out_bits, frame.cdef_params.cdef_y_sec_strength[i] as u32, 2);
+                            self.coder.push_bits_with_size(out_bits, Min!(frame.cdef_params.cdef_y_sec_strength[i], 3) as u32, 2);
                             if frame.cdef_params.cdef_y_sec_strength[i]==3 {
                                 frame.cdef_params.cdef_y_sec_strength[i] += 1;
                             }
                             if ecx.num_planes>1 {
                                 self.coder.push_bits_with_size(out_bits, frame.cdef_params.cdef_uv_pri_strength[i] as u32, 4);
-                                self.coder.push_bits_with_size(out_bits, frame.cdef_params.cdef_uv_sec_strength[i] as u32, 2);
+                                self.coder.push_bits_with_size(out_bits, Min!(frame.cdef_params.cdef_uv_sec_strength[i], 3) as u32, 2);
                                 if frame.cdef_params.cdef_uv_sec_strength[i]==3 {
                                     frame.cdef_params.cdef_uv_sec_strength[i] += 1;
                                 }
-- 
2.43.0


From b0c3f7808b2a5d3466c9b279997c4679f4f2bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 040/102] fix: loop restoration parameters were written exactly
 when restoration is disabled

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index d75b9da..cfc9187 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1073,7 +1073,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
-- 
2.43.0


From 5b8c0de9d980d6af59357c5a69d1ea454aaaefe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:00 +0000
Subject: [PATCH 041/102] fix: the largest restoration unit with 64x64
 superblocks was written as an invalid bit

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cfc9187..12403cd 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1095,7 +1095,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>=1) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From c94e94381f03c6f0608239bbf5cc477814e8d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:00 +0000
Subject: [PATCH 042/102] fix: chroma restoration unit sizes were never derived
 from the luma size

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 12403cd..5b8e3ab 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1107,8 +1107,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From feb08bf306c3bc2a2ddc5fc813c1612918672d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:01 +0000
Subject: [PATCH 043/102] fix: global motion of the last reference was never
 written

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5b8e3ab..2bf371d 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1204,14 +1204,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
                     if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
-- 
2.43.0


From 5a63b422228655c532e7a9170e889c5e366ad135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:02 +0000
Subject: [PATCH 044/102] fix: global motion parameters were reset before being
 written

---
 src/obu_encoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2bf371d..2a960f1 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1206,8 +1206,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // global motion params
                     for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
+                        let gmp = &frame.global_motion_params;
+                        let is_global = !ecx.frame_is_intra && gmp.is_global[rf];
+                        let is_translation = !gmp.is_rot_zoom[rf] && gmp.is_translation[rf];
                         for i in 0..6 {
-                            ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                            if !is_global || (is_translation && i>=2) {
+                                ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                            }
                         }
                     }
                     if !ecx.frame_is_intra {
-- 
2.43.0


From ab8c94a235a81ae9b9eca4b99727c27737d59f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 045/102] fix: rotation-zoom models derived the wrong vertical
 scale

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2a960f1..5eb2ae3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1310,7 +1310,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From 9e9c9b53aa13b7385db1cd5d06c2a50fcf453d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 046/102] fix: global motion parameters were written with the
 decoder side of the recentering

---
 src/obu_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5eb2ae3..117e980 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1250,13 +1250,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v < r {
+                                        ((r-v)<<1) - 1
                                     } else {
-                                        r + (v>>1)
+                                        (v-r) << 1
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1287,12 +1287,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From e1095e8493ae936b6aff03d0b97dcd65ac4487ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 047/102] fix: frames without a primary reference predicted
 global motion from stale parameters

---
 src/obu_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 117e980..cac8f5b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -752,6 +752,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         // TODO
                         // init non coeff cdfs
                         // setup past independence
+                        for rf in 0..NUM_REF_FRAMES {
+                            for i in 0..6 {
+                                ecx.prev_gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                            }
+                        }
                     } else {
                         // TODO
                         // load cdfs( ref_frame_idx[ primary_ref_frame ] )
-- 
2.43.0


From fce83fb6d468bb6da9a3f9416b5c22a30a6116e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:05 +0000
Subject: [PATCH 048/102] fix: film grain was written, and later announced, for
 sequences without it

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cac8f5b..61212b4 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1327,9 +1327,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_some() && !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else if ecx.film_grain_params.is_some() {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 6945205548b9f185ebbd3bf934a352a76642c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:07 +0000
Subject: [PATCH 049/102] fix: the quantizer delta resolution was written as a
 single, possibly invalid, bit

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 61212b4..6f3f0dd 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -939,7 +939,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From b1f6f3bb091591f2085ea66e2a9e62c44639192f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 050/102] fix: partition contexts were looked up with pixel
 instead of 4x4 unit block sizes

---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index d1db7cc..ad33fe9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From bd5ddfd238cd331fc46ba819e4333f0211ec76e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 051/102] fix: blocks of 16 pixels counted as three 4x4 units
 wide

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index ad33fe9..eee35f9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1161,7 +1161,7 @@ pub const mi_height_log2: [usize; BLOCK_SIZES] = [
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-    1, 1, 2, 2, 2, 3, 3, 3, 8, 8, 8,
+    1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8,
     16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16
 ];
 
-- 
2.43.0


From 646760b40b93a6642a15f2e451f77032dfb6790c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 052/102] fix: partition choices at a frame edge summed the
 wrong partition probabilities

---
 src/bool_coder.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 8541bf9..cf64149 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -455,14 +455,14 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
+                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -480,15 +480,15 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
                    partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
                    partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+                   partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
         if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 17dde67a85efdec15f2d3f80738ab9a4b715d450 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 053/102] fix: the transform depth context took the width of
 the left block

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index cf64149..1b0ffad 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -505,7 +505,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From aaa06825c75894a68b9bf4d40613c1847ee87a81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 054/102] fix: the transform split context added neighbouring
 sizes instead of comparing them

---
 src/bool_coder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 1b0ffad..6594fa0 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -536,11 +536,13 @@ impl BoolCoder {
         let left = if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] };
+        let above = (above < tx_width[tx_size as usize]) as usize;
+        let left = (left < tx_height[tx_size as usize]) as usize;
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-- 
2.43.0


From 0fe50814dee6e1a14c70a590ddbf3ccf7e4593c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 055/102] fix: the interpolation filter context compared second
 references with each other

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 6594fa0..12242ab 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -765,12 +765,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From e58a5d7c525460f0ba848f87d0ace580de44f31f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 056/102] fix: the compound reference type context ignored a
 bidirectional left block

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 12242ab..0aa25fa 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1182,7 +1182,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From d832b9ff8d2de5aa7525820cd89c34025bdeb738 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 057/102] fix: chroma-from-luma alphas used the context of
 another sign pair

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 0aa25fa..74498ae 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1304,13 +1304,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 569be628b4cd3ddca1ce96f4b71b77181d578daa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 058/102] fix: the chroma mode was coded in the context of
 itself instead of the luma mode

---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 74498ae..a322d41 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -402,13 +402,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From 6408718a8bd6dd3e7ae47a71b607853656504b2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 059/102] fix: inter transform sets were numbered one below
 their table rows

---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index eee35f9..9ae9c73 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From 5439babb16f2b687ba7a62fb8636f36b415dfa6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:25:46 +0000
Subject: [PATCH 060/102] fix: transform types were coded as their number
 instead of their position in the set

---
 src/bool_coder.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index a322d41..fa7109f 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1141,23 +1141,25 @@ impl BoolCoder {
         let intra_dir = if use_filter_intra { filter_intra_mode_to_intra_dir[filter_intra_mode] as usize } else {
             y_mode as usize
         };
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTRA_1 {
-            &mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTRA_1 {
+            (&mut tile_cdf.intra_tx_type_set1[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set1)
         } else {
-            &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
+            (&mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir], &tx_type_intra_inv_set2)
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|t| *t==intra_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
-        let mut cdf: &mut [i32] = if tx_set==TX_SET_INTER_1 {
-            &mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize]
+        let (mut cdf, inv_set): (&mut [i32], &[TxType]) = if tx_set==TX_SET_INTER_1 {
+            (&mut tile_cdf.inter_tx_type_set1[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set1)
         } else if tx_set==TX_SET_INTER_2 {
-            &mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set2[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set12)
         } else {
-            &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
+            (&mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize], &tx_type_inter_inv_set3)
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        let symbol = inv_set.iter().position(|t| *t==inter_tx_type).unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
-- 
2.43.0


From bfaca52533ab8cb6bf0c3d20b69c4cba37ab52b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 061/102] verif hook: the harness may supply the command-line
 arguments

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index e67c055..5c2b0ae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,6 +53,7 @@ fn main() {
     let mut config: Config = Config::default();
 
     let args = std::env::args().skip(1).collect::<Vec<String>>();
+    #[cfg(av1enc_verif)] let args = verif::args(args);
     if args.len() == 0 { return; }
 
     CommandOption::init_config(&mut config);
-- 
2.43.0


From a9f3abf888f475addacfe86d37a7bb5462064f16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 062/102] fix: messages were mixed into a stream written to
 standard output

---
 src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5c2b0ae..7ab72f1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,7 +43,7 @@ use encoder::*;
 fn main() {
     #[cfg(av1enc_verif)] { if verif::main() { return; } }
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
@@ -58,11 +58,11 @@ fn main() {
 
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
-        println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
+        eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
         process::exit(0);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
-        println!("{}: invalid configuration: {}", "error".red(), e);
+        eprintln!("{}: invalid configuration: {}", "error".red(), e);
         process::exit(0);
     }
 
@@ -75,7 +75,7 @@ fn main() {
         match BinaryReader::file(&config.input.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open input file: {}", "error".red(), e);
+                eprintln!("{}: failed to open input file: {}", "error".red(), e);
                 process::exit(0);
             }
         }
@@ -90,7 +90,7 @@ fn main() {
         match BinaryWriter::file(&config.output.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open output file: {}", "error".red(), e);
+                eprintln!("{}: failed to open output file: {}", "error".red(), e);
                 process::exit(0);
             }
         }
-- 
2.43.0


From dd8f21605fe597f547d9be34b51864c2fdab9b0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 063/102] fix: failures were reported as success to the caller

---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7ab72f1..ed34265 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -59,11 +59,11 @@ fn main() {
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
         eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
         eprintln!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -76,7 +76,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 eprintln!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -91,7 +91,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 eprintln!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -104,9 +104,9 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(1); }
+        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(1); }
+        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(1); }
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From 4fd7a8be03f80e92f059450afb28f661e5ee6427 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 064/102] fix: frames were read in a fixed size instead of the
 configured one

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ed34265..1b3e466 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -103,7 +103,7 @@ fn main() {
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(1); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(1); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(1); }
-- 
2.43.0


From fdbe448b29dc3e0ae50c85034536c016ea2a006a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 065/102] fix: chroma planes of odd-sized frames were too small

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 947928c..07b7f09 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -260,8 +260,8 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
+            original_v: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
 
             mis: vec![vec![None; width as usize / 4]; height as usize / 4],
             decoder_model_info: None,
-- 
2.43.0


From e9fd7095523f700271eeca02535d064f7b32237d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 066/102] fix: frames had no mode info for blocks cut by the
 right or bottom edge

---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 07b7f09..d97d33f 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -263,7 +263,7 @@ impl Frame {
             original_u: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
             original_v: vec![0; ((width as usize + 1) / 2) * ((height as usize + 1) / 2)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2 * ((width as usize + 7) >> 3)]; 2 * ((height as usize + 7) >> 3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From 4f76185d6bc12c8d74a8c2130a5d7f92263cadce Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 067/102] fix: encoding went on past the end of the input

---
 src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1b3e466..dcf5ab9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,9 +104,14 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(1); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(1); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(1); }
+        let mut complete = true;
+        for plane in vec![&mut frame.original_y, &mut frame.original_u, &mut frame.original_v] {
+            match reader.read_to_vec(plane) {
+                Ok(n) => complete = complete && n==plane.len(),
+                Err(_) => { process::exit(1); }
+            }
+        }
+        if !complete { break; }
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From 72d5633905e378d87b247268ac539898d642f390 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 068/102] fix: output still buffered when reading or writing
 failed was lost unnoticed

---
 src/main.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index dcf5ab9..e08345f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,13 +102,18 @@ fn main() {
 
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
-    for fr in 0..config.frames.unwrap() {
+    let mut failed = false;
+    'frames: for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         let mut complete = true;
         for plane in vec![&mut frame.original_y, &mut frame.original_u, &mut frame.original_v] {
             match reader.read_to_vec(plane) {
                 Ok(n) => complete = complete && n==plane.len(),
-                Err(_) => { process::exit(1); }
+                Err(e) => {
+                    eprintln!("{}: failed to read input: {}", "error".red(), e);
+                    failed = true;
+                    break 'frames;
+                }
             }
         }
         if !complete { break; }
@@ -123,6 +128,12 @@ fn main() {
             
         }
     }
+
+    if let Err(e) = writer.flush() {
+        eprintln!("{}: failed to write output: {}", "error".red(), e);
+        failed = true;
+    }
+    if failed { process::exit(1); }
 }
 
 #[cfg(av1enc_verif)]
-- 
2.43.0


From f82af4f08fbfa0423c6152f064df85a2b350da30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 069/102] fix: coding the last coefficient's base level
 underflowed its context

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index fa7109f..e0b37b4 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -975,7 +975,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 65572ba781ffc7b90199b2d20bc15e1306d9adcd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 070/102] fix: the DC sign symbol was the sum of the
 neighbouring signs

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index e0b37b4..1dcd866 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -980,14 +980,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -995,9 +995,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
@@ -1008,13 +1008,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sign_sum<0 { 1 } else if sign_sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From c1cf779ca277586d955f27562d4df5eb6904361c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 071/102] fix: the context of large coefficients took negative
 neighbours for the largest

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 1dcd866..06ae00b 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1035,7 +1035,7 @@ impl BoolCoder {
             let ref_row = row + mag_ref_offset_with_tx_class[tx_class][idx][0];
             let ref_col = col + mag_ref_offset_with_tx_class[tx_class][idx][1];
             if /*ref_row>=0 && ref_col>=0 && FIXME*/ref_row<txh && ref_col<(1<<bwl) {
-                mag += Min!(quant[ref_row*txw + ref_col] as usize, COEFF_BASE_RANGE + NUM_BASE_LEVELS + 1);
+                mag += Min!(Abs!(quant[ref_row*txw + ref_col]) as usize, COEFF_BASE_RANGE + NUM_BASE_LEVELS + 1);
             }
         }
         mag = Min!((mag+1) >> 1, 6);
-- 
2.43.0


From d9670ef0699382063e2a9845039ea44c98758e49 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 072/102] fix: luma transform types were taken from the corner
 of the prediction block

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4c109a2..31c822c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -109,7 +109,7 @@ pub fn compute_tx_type(plane: usize, tx_size: TxSize, block_x: usize, block_y: u
     }
     let tx_set = get_tx_set(tx_size, is_inter, reduced_tx_set);
     if plane==0 {
-        let tx_type = frame.get_mi(mi_row, mi_col).unwrap().tx_type;
+        let tx_type = frame.get_mi(block_y, block_x).unwrap().tx_type;
         if !is_tx_type_in_set(tx_set, tx_type, is_inter) {
             return DCT_DCT;
         } else {
-- 
2.43.0


From 46b67c988d3e24ec13096386b38341adf4ff2f14 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 073/102] fix: coefficient contexts of all columns and rows
 came from the block's corner neighbours

---
 src/bool_coder.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 06ae00b..2a009e0 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -838,10 +838,10 @@ impl BoolCoder {
     pub fn encode_all_zero(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, all_zero: usize, plane: usize, tx_size: TxSize, tx_size_ctx: usize, frame: &mut Frame, mi_size: BlockSize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
-        if plane>0 {
-            max_x4 >>= frame.subsampling_x as usize;
-            max_y4 >>= frame.subsampling_y as usize;
-        }
+        let subx = (plane>0 && frame.subsampling_x) as usize;
+        let suby = (plane>0 && frame.subsampling_y) as usize;
+        max_x4 >>= subx;
+        max_y4 >>= suby;
         let w = tx_width[tx_size as usize];
         let h = tx_height[tx_size as usize];
         let bsize = get_plane_residual_size(mi_size, plane, frame.subsampling_x, frame.subsampling_y);
@@ -853,7 +853,7 @@ impl BoolCoder {
             let mut left = 0;
             for k in 0..w4 {
                 if x4+k < max_x4 {
-                    top = Max!(top, match frame.get_above_mi(mi_row, mi_col) {
+                    top = Max!(top, match frame.get_above_mi(y4<<suby, (x4+k)<<subx) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
                     });
@@ -861,7 +861,7 @@ impl BoolCoder {
             }
             for k in 0..h4 {
                 if y4+k < max_y4 {
-                    left = Max!(left, match frame.get_left_mi(mi_row, mi_col) {
+                    left = Max!(left, match frame.get_left_mi((y4+k)<<suby, x4<<subx) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
                     });
@@ -886,10 +886,10 @@ impl BoolCoder {
             let mut left = 0;
             for i in 0..w4 {
                 if x4+i < max_x4 {
-                    above |= match frame.get_above_mi(mi_row, mi_col) {
+                    above |= match frame.get_above_mi(y4<<suby, (x4+i)<<subx) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
-                    } | match frame.get_above_mi(mi_row, mi_col) {
+                    } | match frame.get_above_mi(y4<<suby, (x4+i)<<subx) {
                         Some(mi) => mi.dc_context[plane],
                         None => 0,
                     };
@@ -897,10 +897,10 @@ impl BoolCoder {
             }
             for i in 0..h4 {
                 if y4+i < max_y4 {
-                    left |= match frame.get_left_mi(mi_row, mi_col) {
+                    left |= match frame.get_left_mi((y4+i)<<suby, x4<<subx) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
-                    } | match frame.get_left_mi(mi_row, mi_col) {
+                    } | match frame.get_left_mi((y4+i)<<suby, x4<<subx) {
                         Some(mi) => mi.dc_context[plane],
                         None => 0,
                     };
@@ -983,14 +983,14 @@ impl BoolCoder {
     pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
-        if plane>0 {
-            max_x4 >>= frame.subsampling_x as usize;
-            max_y4 >>= frame.subsampling_y as usize;
-        }
+        let subx = (plane>0 && frame.subsampling_x) as usize;
+        let suby = (plane>0 && frame.subsampling_y) as usize;
+        max_x4 >>= subx;
+        max_y4 >>= suby;
         let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
-                let sign = match frame.get_above_mi(mi_row, mi_col) {
+                let sign = match frame.get_above_mi(y4<<suby, (x4+k)<<subx) {
                     Some(mi) => mi.dc_context[plane],
                     None => 0,
                 };
@@ -1003,7 +1003,7 @@ impl BoolCoder {
         }
         for k in 0..h4 {
             if y4+k < max_y4 {
-                let sign = match frame.get_left_mi(mi_row, mi_col) {
+                let sign = match frame.get_left_mi((y4+k)<<suby, x4<<subx) {
                     Some(mi) => mi.dc_context[plane],
                     None => 0,
                 };
-- 
2.43.0


From c49f293961d41fe5ce443c5dd7eb8101e08dabec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 074/102] fix: segment ids below their prediction underflowed,
 and large ones wrapped wrongly

---
 src/tile_encoder.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a16adde..f5b6d52 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -560,34 +560,20 @@ impl<'b> TileEncoder<'b> {
         if self.skip {
             part_tree.segment_id = pred as usize;
         } else {
-            let neg_interleave = |v: usize, rf: usize, max: usize| -> usize {
+            let neg_interleave = |v: isize, rf: isize, max: isize| -> isize {
                 if rf==0{
                     v
                 } else if rf>=(max-1) {
                     max - 1 - v
                 } else if 2*rf < max {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*rf {
-                        d1
-                    } else if d2 <= 2*rf {
-                        d2
-                    } else {
-                        v
-                    }
+                    let d = if v>rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
+                    if d <= 2*rf { d } else { v }
                 } else {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*(max-rf-1) {
-                        d1
-                    } else if d2 <= 2*(max-rf-1) {
-                        d2
-                    } else {
-                        rf-v-1
-                    }
+                    let d = if v>rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
+                    if d <= 2*(max-rf-1) { d } else { max-1-v }
                 }
             };
-            let v = neg_interleave(part_tree.segment_id, pred as usize, self.last_active_seg_id+1);
+            let v = neg_interleave(part_tree.segment_id as isize, pred, self.last_active_seg_id as isize + 1) as usize;
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
     }
-- 
2.43.0


From 7cb762206e84a036770b61cbbcd3279bde2e0e39 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 075/102] fix: segment ids were coded as if only segment 0 was
 ever active

---
 src/tile_encoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f5b6d52..49f060f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -43,7 +43,6 @@ pub struct TileEncoder<'b> {
     pub avail_l_chroma: bool,
     pub y_mode: usize,
     pub lossless: bool,
-    pub last_active_seg_id: usize,
     pub skip: bool,
     pub palette_size_y: usize,
     pub palette_size_uv: usize,
@@ -85,7 +84,6 @@ impl<'b> TileEncoder<'b> {
         avail_l_chroma: false,
         y_mode: 0,
         lossless: false,
-        last_active_seg_id: 0,
         skip: false,
         palette_size_y: 0,
         palette_size_uv: 0,
@@ -573,7 +571,8 @@ impl<'b> TileEncoder<'b> {
                     if d <= 2*(max-rf-1) { d } else { max-1-v }
                 }
             };
-            let v = neg_interleave(part_tree.segment_id as isize, pred, self.last_active_seg_id as isize + 1) as usize;
+            let last_active_seg_id = self.ectx.borrow_mut().last_active_seg_id;
+            let v = neg_interleave(part_tree.segment_id as isize, pred, last_active_seg_id as isize + 1) as usize;
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
     }
-- 
2.43.0


From 2cf0d07f03bbdc2579a3f6d62696fb881fc8ba0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 076/102] fix: skipped blocks carried segment ids and cdef
 indices

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 49f060f..f15f1d7 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -603,6 +603,7 @@ impl<'b> TileEncoder<'b> {
             } else {
                 self.coder.encode_skip(out_bits, &mut self.cdf, part_tree.skip as usize, frame, self.mi_row, self.mi_col);
             }
+            self.skip = part_tree.skip;
 
             if !seg_id_pre_skip {
                 // intra segment id
-- 
2.43.0


From bd72709716b833f6f8b77ec398240115f9e17456 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 077/102] fix: a cdef index overwrote those of all superblocks
 above and to the left

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f15f1d7..c1388b2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -628,9 +628,9 @@ impl<'b> TileEncoder<'b> {
                     let w4 = num_4x4_blocks_wide[part_tree.bsize as usize];
                     let h4 = num_4x4_blocks_high[part_tree.bsize as usize];
                     {
-                        let mut i = 0;
+                        let mut i = r;
                         while i < r+h4 {
-                            let mut j = 0;
+                            let mut j = c;
                             while j < c+w4 {
                                 frame.cdef_idx[i][j] = part_tree.cdef_idx;
                                 j += cdef_size4;
-- 
2.43.0


From ffb8b0099873cc3742eb82cc791b61c3ec5a8f60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:14 +0000
Subject: [PATCH 078/102] fix: large quantizer deltas lost or repeated their
 highest bit

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index c1388b2..4e4f8b4 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -657,7 +657,7 @@ impl<'b> TileEncoder<'b> {
                         self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, DELTA_Q_SMALL);
                         let delta_q_rem_bits = msb16((delta_q_abs-1) as u16);
                         self.coder.encode_literal(out_bits, (delta_q_rem_bits-1) as u64, 3);
-                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<(delta_q_rem_bits-1));
+                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<delta_q_rem_bits);
                         self.coder.encode_literal(out_bits, delta_q_abs_bits as u64, delta_q_rem_bits);
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
-- 
2.43.0


From 1d5ac8f4a117231a7f709a6f5daa5834a1ddb0f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:14 +0000
Subject: [PATCH 079/102] fix: large loop filter deltas lost or repeated their
 highest bit

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4e4f8b4..57d6c47 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -686,8 +686,8 @@ impl<'b> TileEncoder<'b> {
                             self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, DELTA_LF_SMALL, frame.delta_lf_params.delta_lf_multi as usize, i);
                             let delta_lf_rem_bits = msb16((delta_lf_abs-1) as u16);
                             self.coder.encode_literal(out_bits, (delta_lf_rem_bits-1) as u64, 3);
-                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<(delta_lf_rem_bits-1));
-                            self.coder.encode_literal(out_bits, (delta_lf_abs_bits-1) as u64, delta_lf_rem_bits);
+                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<delta_lf_rem_bits);
+                            self.coder.encode_literal(out_bits, delta_lf_abs_bits as u64, delta_lf_rem_bits);
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
-- 
2.43.0


From d2ee9059011a522e6be9d4e12895124f123c93b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:15 +0000
Subject: [PATCH 080/102] fix: the second backward reference choice was coded
 as a forward one

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 57d6c47..6d86dd8 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -767,9 +767,9 @@ impl<'b> TileEncoder<'b> {
 
                                 let comp_bwdref = part_tree.ref_frame[1]==ALTREF_FRAME;
                                 self.coder.encode_comp_bwdref(out_bits, &mut self.cdf, comp_bwdref as usize, frame, self.mi_row, self.mi_col);
-                                if !comp_ref {
+                                if !comp_bwdref {
                                     let comp_bwdref_p1 = part_tree.ref_frame[1]==ALTREF2_FRAME;
-                                    self.coder.encode_comp_ref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    self.coder.encode_comp_bwdref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
                                 }
                             }
                         } else {
-- 
2.43.0


From b44f37fb644bbd46c8bfd8ed0e263954bb787475 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:16 +0000
Subject: [PATCH 081/102] fix: unidirectional compound references did not tell
 LAST3 from GOLDEN

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6d86dd8..370ebba 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -753,6 +753,10 @@ impl<'b> TileEncoder<'b> {
                                 if !uni_comp_ref {
                                     let uni_comp_ref_p1 = part_tree.ref_frame[0]==LAST_FRAME && [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[1]);
                                     self.coder.encode_uni_comp_ref_p1(out_bits, &mut self.cdf, uni_comp_ref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    if uni_comp_ref_p1 {
+                                        let uni_comp_ref_p2 = part_tree.ref_frame[1]==GOLDEN_FRAME;
+                                        self.coder.encode_uni_comp_ref_p2(out_bits, &mut self.cdf, uni_comp_ref_p2 as usize, frame, self.mi_row, self.mi_col);
+                                    }
                                 }
                             } else {
                                 let comp_ref = [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[0]);
-- 
2.43.0


From 4787d3586cddd9822ab3854102a5327f4ffc1fb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:43 +0000
Subject: [PATCH 082/102] fix: motion vector differences were announced but
 never coded

---
 src/bool_coder.rs   |  2 +-
 src/tile_encoder.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 2a009e0..263af8b 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -795,7 +795,7 @@ impl BoolCoder {
         self.encode_symbol(mv_joint as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: MvJoint, mv_ctx: usize, comp: usize) {
+    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: usize, mv_ctx: usize, comp: usize) {
         let mut cdf: &mut [i32] = &mut tile_cdf.mv_sign[mv_ctx as usize][comp];
         self.encode_symbol(mv_sign as i32, out_bits, &mut cdf);
     }
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 370ebba..0459ad6 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1391,10 +1391,11 @@ impl<'b> TileEncoder<'b> {
                     _ => MV_JOINT_HNZVNZ,
                 };
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
-                let encode_mv_component = |v: isize, comp: usize| -> () {
+                let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
-                    let mv_abs = Abs!(v) as usize;
-                    let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
+                    let mv_abs = Abs!(v) as usize - 1;
+                    let mv_class = if mv_abs < CLASS0_SIZE<<3 { MV_CLASS_0 } else { MVClass::from_u8(msb16((mv_abs>>3) as u16)).unwrap() };
+                    self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
                     if mv_class==MV_CLASS_0 {
                         let mv_class0_bit = (mv_abs >> 3) & 1;
@@ -1423,6 +1424,12 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                 };
+                if diff_mv.y != 0 {
+                    encode_mv_component(diff_mv.y, 0);
+                }
+                if diff_mv.x != 0 {
+                    encode_mv_component(diff_mv.x, 1);
+                }
             } else {
                 part_tree.mvs[i] = self.pred_mv[i];
             }
-- 
2.43.0


From d3ab8f81897e47eb6e66c96fe596785af48e938b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:44 +0000
Subject: [PATCH 083/102] fix: compound blocks coded the vector of their first
 reference for both

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0459ad6..037a40c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1378,7 +1378,7 @@ impl<'b> TileEncoder<'b> {
             }
             if part_tree.compound_mode==NEWMV {
                 // encode mv
-                let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
+                let diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
                     self.mv_ctx = MV_INTRABC_CONTEXT;
                 } else {
-- 
2.43.0


From 663863e3d56d4fc0803e520117e54b85332bc669 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:44 +0000
Subject: [PATCH 084/102] fix: coding the vectors of a block replaced its
 compound mode

---
 src/tile_encoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 037a40c..0c40a5e 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1319,8 +1319,8 @@ impl<'b> TileEncoder<'b> {
 
     pub fn assign_mv(&mut self, is_compound: bool, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) {
         for i in 0..(1+is_compound as usize) {
-            if part_tree.use_intrabc {
-                part_tree.compound_mode = NEWMV;
+            let comp_mode = if part_tree.use_intrabc {
+                NEWMV
             } else {
                 let get_mode = |ref_list: usize| -> YMode {
                     let y_mode = self.y_mode;
@@ -1344,8 +1344,8 @@ impl<'b> TileEncoder<'b> {
                         } else { GLOBALMV }
                     };
                 };
-                part_tree.compound_mode = get_mode(i);
-            }
+                get_mode(i)
+            };
             if part_tree.use_intrabc {
                 self.pred_mv[0] = self.ref_stack_mv[0][0];
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
@@ -1366,17 +1366,17 @@ impl<'b> TileEncoder<'b> {
                         );
                     }
                 }
-            } else if part_tree.compound_mode==GLOBALMV {
+            } else if comp_mode==GLOBALMV {
                 self.pred_mv[i] = self.global_mvs[i];
             } else {
-                let pos = if part_tree.compound_mode==NEWMV && self.num_mv_found<=1 {
+                let pos = if comp_mode==NEWMV && self.num_mv_found<=1 {
                     0
-                } else if part_tree.compound_mode==NEARESTMV {
+                } else if comp_mode==NEARESTMV {
                     0
                 } else { self.ref_mv_idx };
                 self.pred_mv[i] = self.ref_stack_mv[pos][i];
             }
-            if part_tree.compound_mode==NEWMV {
+            if comp_mode==NEWMV {
                 // encode mv
                 let diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
-- 
2.43.0


From 0351095bce357c76e2caa92615541069f2c4f96a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 085/102] fix: vectors of compound blocks were predicted for
 the mode of the block before

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0c40a5e..543b0bd 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -818,6 +818,7 @@ impl<'b> TileEncoder<'b> {
                     } else if is_compound {
                         let compound_mode = part_tree.compound_mode as usize - NEAREST_NEARESTMV as usize;
                         self.coder.encode_compound_mode(out_bits, &mut self.cdf, compound_mode, self.ref_mv_context, self.new_mv_context);
+                        self.y_mode = part_tree.compound_mode as usize;
                     } else {
                         self.coder.encode_new_mv(out_bits, &mut self.cdf, part_tree.new_mv as usize, self.new_mv_context);
                         if !part_tree.new_mv {
-- 
2.43.0


From b37535a1090c7493ad3d7ae41ab9039256ca9350 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:45 +0000
Subject: [PATCH 086/102] fix: intra block copy in the first superblock row
 underflowed

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 543b0bd..fd6b849 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1355,7 +1355,7 @@ impl<'b> TileEncoder<'b> {
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
                     let sb_size = if self.ectx.borrow_mut().use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
-                    if self.mi_row-sb_size4 < self.mi_row_start {
+                    if self.mi_row < self.mi_row_start + sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
                             0,
                             -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
-- 
2.43.0


From cddd9ee3c59d8326d79e59a59d46d1c749624761 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:42:46 +0000
Subject: [PATCH 087/102] fix: default intra block copy vectors had rows and
 columns exchanged

---
 src/tile_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index fd6b849..9ead6d7 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1357,13 +1357,13 @@ impl<'b> TileEncoder<'b> {
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
                     if self.mi_row < self.mi_row_start + sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
-                            0,
-                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
+                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
+                            0
                         );
                     } else {
                         self.pred_mv[0] = MotionVector::new(
-                            -((sb_size4 * MI_SIZE * 8) as isize),
-                            0
+                            0,
+                            -((sb_size4 * MI_SIZE * 8) as isize)
                         );
                     }
                 }
-- 
2.43.0


From 4d3f075202def01b73db7be454888c5ca984ba4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 088/102] fix: coding a wiener filter borrowed the encoder
 context twice

---
 src/tile_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 9ead6d7..8766b1e 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -287,7 +287,6 @@ impl<'b> TileEncoder<'b> {
                                     let v = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].lr_wiener[pass][j];
                                     encode_signed_subexp_with_ref_bool(v, min, max+1, k as usize, ecx.ref_lr_wiener[plane][pass][j], self.coder, out_bits);
                                     frame.lr_wiener[plane][unit_row][unit_col][pass][j] = v;
-                                    let mut ecx = self.ectx.borrow_mut();
                                     ecx.ref_lr_wiener[plane][pass][j] = v;
                                 }
                             }
-- 
2.43.0


From 200d7f6fe432fcf82417dd596cf7b4eab2fde4d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 089/102] fix: restoration unit types were written as plain
 bits or not at all

---
 src/tile_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 8766b1e..19b808b 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -212,15 +212,19 @@ impl<'b> TileEncoder<'b> {
                             RESTORE_NONE => RESTORE_NONE,
                             RESTORE_WIENER => {
                                 let use_wiener = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_wiener;
-                                self.coder.push_bit(out_bits, use_wiener as u8);
+                                self.coder.encode_use_wiener(out_bits, &mut self.cdf, use_wiener as usize);
                                 if use_wiener { RESTORE_WIENER }  else { RESTORE_NONE }
                             },
                             RESTORE_SGRPROJ => {
                                 let use_sgrproj = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_sgrproj;
-                                self.coder.push_bit(out_bits, use_sgrproj as u8);
+                                self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
-                            _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
+                            _ => {
+                                let restoration_type = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type;
+                                self.coder.encode_restoration_type(out_bits, &mut self.cdf, restoration_type as usize);
+                                restoration_type
+                            },
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-- 
2.43.0


From 5f20b312f7d2f32ea355cce449933243fa8aa328 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:47 +0000
Subject: [PATCH 090/102] fix: restoration coefficients were coded with the
 decoder side of the recentering

---
 src/tile_encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 19b808b..2bf8aa5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -228,13 +228,13 @@ impl<'b> TileEncoder<'b> {
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-                        let inverse_recenter = |r: usize, v: usize| -> usize {
+                        let recenter = |r: usize, v: usize| -> usize {
                             if v > 2*r {
                                 v
-                            } else if v&1 > 0 {
-                                r - ((v+1)>>1)
+                            } else if v >= r {
+                                (v-r) << 1
                             } else {
-                                r + (v>>1)
+                                ((r-v)<<1) - 1
                             }
                         };
                         let mut encode_subexp_bool = |v: usize, num_syms: usize, k: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
@@ -263,11 +263,11 @@ impl<'b> TileEncoder<'b> {
                         };
                         let mut encode_unsigned_subexp_with_ref_bool = |v: usize, mx: usize, k: usize, r: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
                             if (r<<1) <= mx {
-                                let tv = inverse_recenter(r, v);
+                                let tv = recenter(r, v);
                                 encode_subexp_bool(tv, mx, k, coder, out_bits);
                             } else {
                                 let mut tv = mx - 1 - v;
-                                tv = inverse_recenter(mx-1-r, tv);
+                                tv = recenter(mx-1-r, tv);
                                 encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
                             }
                         };
-- 
2.43.0


From 55b6fe4cf4abdd6e6e36df38c6f0a5e540657f37 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 091/102] fix: restoration coefficients near the upper end were
 coded in too small a range

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2bf8aa5..a7528a4 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -268,7 +268,7 @@ impl<'b> TileEncoder<'b> {
                             } else {
                                 let mut tv = mx - 1 - v;
                                 tv = recenter(mx-1-r, tv);
-                                encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
+                                encode_subexp_bool(tv, mx, k, coder, out_bits);
                             }
                         };
                         let mut encode_signed_subexp_with_ref_bool = |v: isize, low: isize, high: isize, k: usize, r: isize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
-- 
2.43.0


From 2c928bbb04092afbb052f644eb04224e285de3d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 092/102] fix: the last bits of restoration coefficients were
 not entropy coded

---
 src/tile_encoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a7528a4..4543495 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -245,7 +245,15 @@ impl<'b> TileEncoder<'b> {
                                 let a = 1 << b2;
                                 if num_syms <= mk+3*a {
                                     let tv = v - mk;
-                                    coder.encode_ns(out_bits, tv as u64, (num_syms-mk) as u64);
+                                    let n = num_syms - mk;
+                                    let w = msb16(n as u16) + 1;
+                                    let m = (1<<w) - n;
+                                    if tv < m {
+                                        coder.encode_literal(out_bits, tv as u64, w-1);
+                                    } else {
+                                        coder.encode_literal(out_bits, ((tv+m)>>1) as u64, w-1);
+                                        coder.encode_literal(out_bits, ((tv+m)&1) as u64, 1);
+                                    }
                                     break;
                                 } else {
                                     let tv = v - mk;
-- 
2.43.0


From c94efbacf24b55146f6b4166992c16a833d27382 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 093/102] fix: the implied self-guided weight was derived with
 the wrong precision

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4543495..0a59bfc 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -317,7 +317,7 @@ impl<'b> TileEncoder<'b> {
                                 } else {
                                     v = 0;
                                     if i==1 {
-                                        v = Clip3!(min, max, (1<<SGRPROJ_PARAMS_BITS) - ecx.ref_sgr_xqd[plane][0]);
+                                        v = Clip3!(min, max, (1<<SGRPROJ_PRJ_BITS) - ecx.ref_sgr_xqd[plane][0]);
                                     }
                                 }
                                 frame.lr_sgr_xqd[plane][unit_row][unit_col][i] = v;
-- 
2.43.0


From 768df7fda5b0c6afe8844e9adb4e36ef8fdc9ec0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 094/102] fix: tiles took the bounds of other tiles

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0a59bfc..d19b94c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -111,8 +111,8 @@ impl<'b> TileEncoder<'b> {
         let mut sb_size;
         {
             let mut ecx = self.ectx.borrow_mut();
-            let tile_col = ecx.tile_num / frame.tile_cols();
-            let tile_row = ecx.tile_num / frame.tile_rows();
+            let tile_col = ecx.tile_num % frame.tile_cols();
+            let tile_row = ecx.tile_num / frame.tile_cols();
             self.mi_row_start = ecx.mi_row_starts[tile_row];
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
-- 
2.43.0


From 34d64a9b821e4a6782bca8550a53a24cad08716e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:05:56 +0000
Subject: [PATCH 095/102] fix: partitioning a block tried partitions its size
 does not have

---
 src/tile_encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d19b94c..8e67305 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -363,6 +363,12 @@ impl<'b> TileEncoder<'b> {
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
         ].iter() {
             let mut  part_bits: Vec<u8> = vec![];
+            if partition_subsize[*partition as usize][part_tree.bsize as usize] == BLOCK_INVALID {
+                continue;
+            }
+            if part_tree.bsize == BLOCK_8X8 && *partition as usize > PARTITION_SPLIT as usize {
+                continue;
+            }
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
-- 
2.43.0


From 3ba59e120bd3724614aab23d4d2b75a7a6b32520 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:07:43 +0000
Subject: [PATCH 096/102] fix: coding a tile group borrowed the encoder context
 twice

---
 src/obu_encoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6f3f0dd..7b1b39b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1432,7 +1432,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
             },
             &mut OBU_TILE_GROUP(ref mut frame) => {
-                let mut ecx = self.ectx.borrow_mut();
+                let ectx = Rc::clone(&self.ectx);
+                let mut ecx = ectx.borrow_mut();
                 let num_tiles = frame.tile_col_starts.len() * frame.tile_row_starts.len();
                 if num_tiles>1 {
                     if frame.tile_groups.len()>0 {
@@ -1455,11 +1456,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     ecx.tile_num = n;
                     let last_tile = ecx.tile_num == ecx.tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
+                    drop(ecx);
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
-                        tile_encoder.encode_tile(frame, ecx.tile_num, &mut tile_bits);
+                        tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
+                    ecx = ectx.borrow_mut();
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
-- 
2.43.0


From 2d403adca0f0166fd9f92c7bae3dc891ff029af9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:07:44 +0000
Subject: [PATCH 097/102] fix: tiles were coded without starting and ending the
 arithmetic coder

---
 src/obu_encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7b1b39b..a19a531 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1457,11 +1457,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     let last_tile = ecx.tile_num == ecx.tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
                     drop(ecx);
+                    self.coder.init_encoder();
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
                         tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
+                    self.coder.exit_encoder(&mut tile_bits);
                     ecx = ectx.borrow_mut();
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
-- 
2.43.0


From 31f7e2088855733b4578d84e05b1d2e0b3b7b833 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:07:44 +0000
Subject: [PATCH 098/102] fix: the data of tiles was never put into their tile
 group

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index a19a531..59dfdc3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1469,6 +1469,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
                     }
+                    self.coder.push_bits(out_bits, &tile_bits);
                 }
 
                 if ecx.tg_end == frame.num_tiles()-1 {
-- 
2.43.0


From fea1b88c789d4b705f7bf32f569d8d2a0ac9123b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:11:08 +0000
Subject: [PATCH 099/102] fix: three kinds of partition coded their last block
 at another position

---
 src/tile_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 8e67305..d9ed3df 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -454,7 +454,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_VERT_A => {
                     part_tree.partitions = vec![
@@ -474,7 +474,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_HORZ_4 => {
                     part_tree.partitions = vec![
@@ -501,7 +501,7 @@ impl<'b> TileEncoder<'b> {
                     self.encode_block(sb, r, c+quarter_block4x4*2, frame, &mut part_bits, &mut part_tree.partitions[2]);
                     if c+quarter_block4x4*3 < mi_cols {
                         part_tree.partitions.push(PartitionTree::new(sub_size));
-                        self.encode_block(sb, r+quarter_block4x4*3, c, frame, &mut part_bits, &mut part_tree.partitions[3]);
+                        self.encode_block(sb, r, c+quarter_block4x4*3, frame, &mut part_bits, &mut part_tree.partitions[3]);
                     }
                 },
             }
-- 
2.43.0


From 99a40422436f1f34a1148370551fa77e7ce4f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:27 +0000
Subject: [PATCH 100/102] fix: look at the top right block only where it is
 inside the tile and coded

---
 src/tile_encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d9ed3df..7f3d556 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1047,9 +1047,12 @@ impl<'b> TileEncoder<'b> {
             let mv_row = self.mi_row as isize + delta_row;
             let mv_col = self.mi_col as isize + delta_col;
             let weight = 4;
-            let mi = frame.get_mi(mv_row as usize, mv_col as usize).unwrap();
-            if self.is_inside(mv_row, mv_col) && mi.ref_frame[0]!=NONE { // FIXME
-                self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+            if self.is_inside(mv_row, mv_col) {
+                if let Some(mi) = frame.get_mi(mv_row as usize, mv_col as usize) {
+                    if mi.ref_frame[0]!=NONE { // FIXME
+                        self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+                    }
+                }
             }
         }
         if self.found_match {
-- 
2.43.0


From 20f34c7d802501fd804573e1e18513ea2d46e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:27 +0000
Subject: [PATCH 101/102] fix: take motion field candidates only if the frame
 uses reference frame vectors

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 7f3d556..47891e6 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1067,7 +1067,7 @@ impl<'b> TileEncoder<'b> {
             }
         }
         self.zero_mv_context = 0;
-        {
+        if frame.use_ref_frame_mvs {
             // temporal scan
             let bw4 = num_4x4_blocks_wide[part_tree.bsize as usize];
             let bh4 = num_4x4_blocks_high[part_tree.bsize as usize];
-- 
2.43.0


From e558df1b2721cad6525963f23e3880d71608dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:27 +0000
Subject: [PATCH 102/102] fix: keep candidate vectors at full precision in
 frames with high precision vectors

---
 src/tile_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 47891e6..8565275 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -935,7 +935,7 @@ impl<'b> TileEncoder<'b> {
                     }
                 };
                 let lower_mv_precision = |v: isize| -> isize {
-                    let mut r = v;
+                    if frame.allow_high_precision_mv { return v; }
                     if frame.force_integer_mv>0 {
                         let a = Abs!(v);
                         let a_int = (a+3) >> 3;
@@ -1087,7 +1087,7 @@ impl<'b> TileEncoder<'b> {
                             self.zero_mv_context = 1;
                         }
                         let lower_mv_precision = |v: isize| -> isize {
-                            let mut r = v;
+                            if frame.allow_high_precision_mv { return v; }
                             if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
@@ -1217,7 +1217,7 @@ impl<'b> TileEncoder<'b> {
                             mi.mvs[cand_list]
                         };
                         let lower_mv_precision = |v: isize| -> isize {
-                            let mut r = v;
+                            if frame.allow_high_precision_mv { return v; }
                             if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
@@ -1281,7 +1281,7 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                     let lower_mv_precision = |v: isize| -> isize {
-                        let mut r = v;
+                        if frame.allow_high_precision_mv { return v; }
                         if frame.force_integer_mv>0 {
                             let a = Abs!(v);
                             let a_int = (a+3) >> 3;
-- 
2.43.0

