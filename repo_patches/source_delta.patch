From 3d782546c905a2e6b24deb7bd78cc823b4b660d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 001/101] verif: hooks behind --cfg av1enc_verif (public
 modules, fault-injectable I/O, table access)

---
 src/binary_reader.rs | 10 +++++++++-
 src/binary_writer.rs | 10 +++++++++-
 src/constants.rs     | 40 +++++++++++++++++++++++++++++++++++++++-
 src/lib.rs           | 33 +++++++++++++++++++++++++++------
 src/quantizer.rs     | 13 ++++++++++++-
 src/util.rs          | 15 ++++++++++++++-
 6 files changed, 110 insertions(+), 11 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..623cf0e 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -53,4 +53,12 @@ impl<'a> BufRead for BinaryReader<'a> {
     fn consume(&mut self, amt: usize) {
         self.input.consume(amt);
     }
-}
\ No newline at end of file
+}
+
+// Verification hook: a reader over any source, so that short reads and faults can be injected.
+#[cfg(av1enc_verif)]
+impl<'a> BinaryReader<'a> {
+    pub fn verif_from(input: Box<BufRead + 'a>) -> BinaryReader<'a> {
+        BinaryReader { input: input, buffer: 0 }
+    }
+}
diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index bfd727b..b0a6d76 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -62,4 +62,12 @@ impl<'a> Write for BinaryWriter<'a> {
     fn flush(&mut self) -> io::Result<()> {
         self.output.flush()
     }
-}
\ No newline at end of file
+}
+
+// Verification hook: a writer into any sink, so that short writes and faults can be injected.
+#[cfg(av1enc_verif)]
+impl<'a> BinaryWriter<'a> {
+    pub fn verif_from(output: Box<Write + 'a>) -> BinaryWriter<'a> {
+        BinaryWriter { output: output, buf: 0, index: 0 }
+    }
+}
diff --git a/src/constants.rs b/src/constants.rs
index 8377541..d740180 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1445,4 +1445,42 @@ pub const partition_subsize: [[BlockSize; BLOCK_SIZES]; 10] = [
         BLOCK_INVALID, BLOCK_INVALID, BLOCK_INVALID,
         BLOCK_INVALID, BLOCK_INVALID, BLOCK_INVALID
     ]
-];
\ No newline at end of file
+];
+
+// Verification hook: read access to the private tables, flattened.
+#[cfg(av1enc_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn private_tables() -> Vec<(&'static str, Vec<i64>)> {
+        let u = |v: &[usize]| -> Vec<i64> { v.iter().map(|x| *x as i64).collect() };
+        let u2 = |v: &[[usize; 2]]| -> Vec<i64> { v.iter().flat_map(|r| r.iter()).map(|x| *x as i64).collect() };
+        let i8taps = |v: &[[isize; 8]]| -> Vec<i64> { v.iter().flat_map(|r| r.iter()).map(|x| *x as i64).collect() };
+        vec![
+            ("subpel_filters", subpel_filters.iter().flat_map(|f| i8taps(f)).collect()),
+            ("warped_filters", i8taps(&warped_filters)),
+            ("upscale_filter", i8taps(&upscale_filter)),
+            ("div_lut", u(&div_lut)),
+            ("obmc_mask_1", u(&obmc_mask_1)),
+            ("obmc_mask_2", u(&obmc_mask_2)),
+            ("obmc_mask_4", u(&obmc_mask_4)),
+            ("obmc_mask_8", u(&obmc_mask_8)),
+            ("obmc_mask_16", u(&obmc_mask_16)),
+            ("obmc_mask_32", u(&obmc_mask_32)),
+            ("wedge_master_oblique_odd", u(&wedge_master_oblique_odd)),
+            ("wedge_master_oblique_even", u(&wedge_master_oblique_even)),
+            ("wedge_master_vertical", u(&wedge_master_vertical)),
+            ("ii_weights_1d", u(&ii_weights_1d)),
+            ("quant_dist_weight", u2(&quant_dist_weight)),
+            ("quant_dist_lookup", u2(&quant_dist_lookup)),
+            ("cos128_lookup", u(&cos128_lookup)),
+            ("transform_row_shift", u(&transform_row_shift)),
+            ("cdef_uv_dir", cdef_uv_dir.iter().flat_map(|a| a.iter()).flat_map(|b| b.iter()).map(|x| *x as i64).collect()),
+            ("cdef_pri_taps", u2(&cdef_pri_taps)),
+            ("cdef_sec_taps", u2(&cdef_sec_taps)),
+            ("cdef_direction", cdef_direction.iter().flat_map(|a| a.iter()).flat_map(|b| b.iter()).map(|x| *x as i64).collect()),
+            ("max_tx_depth", u(&max_tx_depth)),
+            ("tx_mode_to_biggest_tx_size", tx_mode_to_biggest_tx_size.iter().map(|t| *t as i64).collect()),
+        ]
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 0966ba7..901ef79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,8 +1,29 @@
+#![allow(unexpected_cfgs)]
+
+// Verification builds (`--cfg av1enc_verif`) see every module, public, so that the
+// monitors outside this repository can drive and observe the real code.
+#[cfg(av1enc_verif)] #[macro_use] extern crate enum_primitive;
+#[cfg(av1enc_verif)] #[macro_use] extern crate lazy_static;
+
 pub mod util;
 pub mod bool_coder;
-mod constants;
-mod cdf;
-mod common;
-mod block;
-mod frame;
-mod sequence_header;
\ No newline at end of file
+#[cfg(not(av1enc_verif))] mod constants;
+#[cfg(not(av1enc_verif))] mod cdf;
+#[cfg(not(av1enc_verif))] mod common;
+#[cfg(not(av1enc_verif))] mod block;
+#[cfg(not(av1enc_verif))] mod frame;
+#[cfg(not(av1enc_verif))] mod sequence_header;
+#[cfg(av1enc_verif)] pub mod constants;
+#[cfg(av1enc_verif)] pub mod cdf;
+#[cfg(av1enc_verif)] pub mod common;
+#[cfg(av1enc_verif)] pub mod block;
+#[cfg(av1enc_verif)] pub mod frame;
+#[cfg(av1enc_verif)] pub mod sequence_header;
+#[cfg(av1enc_verif)] pub mod option;
+#[cfg(av1enc_verif)] pub mod binary_reader;
+#[cfg(av1enc_verif)] pub mod binary_writer;
+#[cfg(av1enc_verif)] pub mod quantizer;
+#[cfg(av1enc_verif)] pub mod obu;
+#[cfg(av1enc_verif)] pub mod obu_encoder;
+#[cfg(av1enc_verif)] pub mod tile_encoder;
+#[cfg(av1enc_verif)] pub mod encoder;
diff --git a/src/quantizer.rs b/src/quantizer.rs
index 2f75631..7e40c70 100644
--- a/src/quantizer.rs
+++ b/src/quantizer.rs
@@ -6944,4 +6944,15 @@ const ac_q_lookup: [[usize; 256]; 3] = [
         21902, 22334, 22766, 23214, 23662, 24126, 24590, 25070,
         25551, 26047, 26559, 27071, 27599, 28143, 28687, 29247
     ]
-];
\ No newline at end of file
+];
+
+// Verification hook: read access to the quantizer tables.
+#[cfg(av1enc_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn qm_offsets() -> Vec<usize> { qm_offset.to_vec() }
+    pub fn qm(level: usize, chroma: usize) -> Vec<usize> { static T: [[[usize; QM_TOTAL_SIZE]; 2]; 16] = qunatizer_matrix; T[level][chroma].to_vec() }
+    pub fn dc_q(depth_idx: usize) -> Vec<usize> { dc_q_lookup[depth_idx].to_vec() }
+    pub fn ac_q(depth_idx: usize) -> Vec<usize> { ac_q_lookup[depth_idx].to_vec() }
+}
diff --git a/src/util.rs b/src/util.rs
index 3d7a41b..303aca7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -111,4 +111,17 @@ pub fn msb64(n: u64) -> u8{
     if m3>0 { bit += 4; }
     else { m3 = m2; }
     bit + LUT[m3 as usize]
-}
\ No newline at end of file
+}
+
+// Verification hook: the arithmetic macros as functions.
+#[cfg(av1enc_verif)]
+pub mod verif {
+    pub fn abs(x: i64) -> i64 { Abs!(x) }
+    pub fn clip3(x: i64, y: i64, z: i64) -> i64 { Clip3!(x, y, z) }
+    pub fn clip1(x: i64) -> i64 { Clip1!(x) }
+    pub fn min(x: i64, y: i64) -> i64 { Min!(x, y) }
+    pub fn max(x: i64, y: i64) -> i64 { Max!(x, y) }
+    pub fn round2(x: i64, n: usize) -> i64 { Round2!(x, n) }
+    pub fn round2_signed(x: i64, n: usize) -> i64 { Round2Signed!(x, n) }
+    pub fn floor_log2(x: u64) -> u64 { FloorLog2!(x) }
+}
-- 
2.43.0


From db8a87b04bbac7009365b7dcc9cfa4bc680c57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 002/101] fix: count each bit read by the symbol decoder once

decode_symbol subtracted the renormalisation bits from the remaining-bits
counter twice, so exit_decoder left the padding of the session in the input.
---
 src/bool_coder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..b02ad9f 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -93,7 +93,6 @@ impl BoolCoder {
         for _ in 0..(bits as i32) {
             if let Some(bit) = in_bits.pop_front() {
                 new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
             }
             else { assert!(false); }
         }
-- 
2.43.0


From 266d29e04f54158379b08a0d379ee05de08c4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 003/101] fix: start every encoder session with a zero bit
 count

The count of an earlier session leaked into the padding of the next one,
which then did not end on a byte boundary.
---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b02ad9f..f89eb52 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -136,6 +136,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 8fbf68b7950608c5ab440e8f6ed3985be36ea176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 004/101] fix: encode the largest uvlc value

val + 1 overflowed u32; the value is coded as 32 zeros and a one.
---
 src/bool_coder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index f89eb52..b6e6832 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -230,10 +230,11 @@ impl BoolCoder {
     }
 
     pub fn encode_uvlc(&mut self, out_bits: &mut Vec<u8>, val: u32) {
-        let v: u64 = (val + 1) as u64;
+        let v: u64 = val as u64 + 1;
         let n = msb64(v);
         for _ in 0..n { out_bits.push(0) }
         out_bits.push(1);
+        if n>=32 { return; }
         for i in (0..n).rev() { out_bits.push(((v>>i)&1) as u8); }
     }
 
-- 
2.43.0


From 6f3de3e580959d30c87e57172d1e68d2387fceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 005/101] fix: do not loop for ever when a uvlc code is cut
 short

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b6e6832..539721f 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -246,6 +246,7 @@ impl BoolCoder {
                 if done { break; }
                 else { lz += 1; }
             }
+            else { assert!(false); }
         }
         if lz>=32 { return ((1u64<<32) - 1) as u32; }
         let mut v: u64 = 0;
-- 
2.43.0


From 8a7c93a5ad615c7abfccb1be74b97c533e48918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 006/101] fix: 16-wide blocks are four 4x4 units wide

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index d740180..cb3aa82 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1161,7 +1161,7 @@ pub const mi_height_log2: [usize; BLOCK_SIZES] = [
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-    1, 1, 2, 2, 2, 3, 3, 3, 8, 8, 8,
+    1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8,
     16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16
 ];
 
-- 
2.43.0


From d34f444213a5a9b13af37508fa3abbe34239aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 007/101] fix: block size logarithms count 4x4 units

The tables held log2 of the size in samples, so the partition writers picked
the distribution of a block four times as wide (8x8 used the 32x32 one).
---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index cb3aa82..a3760b7 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From 34eceb7d39f62877fd8dbbcb040d870f8cce57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 008/101] fix: there are eight segment features

The global motion feature (index 7) could not be stored or written.
---
 src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index a3760b7..46d0440 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
-- 
2.43.0


From 517f687a7d36270ecfe9575ce8f22715e87ce934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 009/101] fix: number the inter transform sets 1 to 3

0 is the DCT-only set; the set membership table is indexed with these numbers.
---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 46d0440..92c3181 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From c60e35625214e9c3e7c9fd5888261962d0be9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 010/101] fix: code the index of a transform type within its
 set

The raw type number was coded, which is another type's index or lies outside
the distribution.
---
 src/bool_coder.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 539721f..d1654af 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1144,7 +1144,12 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        let symbol = if tx_set==TX_SET_INTRA_1 {
+            tx_type_intra_inv_set1.iter().position(|&t| t==intra_tx_type)
+        } else {
+            tx_type_intra_inv_set2.iter().position(|&t| t==intra_tx_type)
+        }.unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
@@ -1155,7 +1160,14 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        let symbol = if tx_set==TX_SET_INTER_1 {
+            tx_type_inter_inv_set1.iter().position(|&t| t==inter_tx_type)
+        } else if tx_set==TX_SET_INTER_2 {
+            tx_type_inter_inv_set12.iter().position(|&t| t==inter_tx_type)
+        } else {
+            tx_type_inter_inv_set3.iter().position(|&t| t==inter_tx_type)
+        }.unwrap();
+        self.encode_symbol(symbol as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
-- 
2.43.0


From 5bd10ed1387af4e0c03565b30f01304df87b8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 011/101] fix: derive split_or_horz and split_or_vert from the
 right partitions

The sums named the wrong partition types, read past the 8x8 and 128x128
distributions, and 1<<15 - psum shifted by a negative amount.
---
 src/bool_coder.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index d1654af..d493515 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -455,14 +455,16 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
-        if bsize != BLOCK_128X128 {
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1];
+        if bsize != BLOCK_8X8 {
+            psum += partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                    partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                    partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+        }
+        if bsize != BLOCK_8X8 && bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -480,15 +482,17 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
-                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
-        if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1];
+        if bsize != BLOCK_8X8 {
+            psum += partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                    partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                    partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
+        }
+        if bsize != BLOCK_8X8 && bsize != BLOCK_128X128 {
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 95131cfd8eb527334cce6466d88c907e9f1594b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 012/101] fix: choose the uv_mode distribution by the luma mode

It was chosen by the value being coded, which a decoder cannot know.
---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index d493515..2188c92 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -402,13 +402,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From 9698546604b0a130dccea9839b44ebf98c5dcba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 013/101] fix: use the height of the left inter block in the
 tx_depth context

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 2188c92..d223d67 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -509,7 +509,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From bc156a389a0291aa2d713013f01588a5651f5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 014/101] fix: txfm_split context compares neighbour sizes with
 the transform

The neighbour widths themselves were added to the context index, and the left
neighbour's width was used for its height.
---
 src/bool_coder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index d223d67..23e9c21 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -540,11 +540,13 @@ impl BoolCoder {
         let left = if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] };
+        let above = (above < tx_width[tx_size as usize]) as usize;
+        let left = (left < tx_height[tx_size as usize]) as usize;
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-- 
2.43.0


From 9c5b22a0ac5672e2d2c899eed13a81811d99ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 015/101] fix: comp_ref_type context when both neighbours are
 unidirectional

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 23e9c21..b15c8cd 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1198,7 +1198,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From 9b123bcc1d5c200f48081d135274e104d1945d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 016/101] fix: interp_filter context compares with the first
 reference frame

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b15c8cd..a13a0f1 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -769,12 +769,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From f0c0f89cb82252057bd0f711e82e3590aa109b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 017/101] fix: cfl_alpha contexts were off by one

The largest signs indexed past the table, the smallest underflowed.
---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index a13a0f1..af20925 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1320,13 +1320,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 00231f015df02026bd9082264469921bb14ba867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 018/101] fix: coeff_base_eob context underflowed

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index af20925..36232df 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -979,7 +979,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 1988c94812b2a8d5b44f6dd1fafaad7a23d3b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 019/101] fix: code the dc sign, not the sum of the neighbours'
 signs

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 36232df..f07c0e1 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -984,14 +984,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -999,9 +999,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
@@ -1012,13 +1012,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sign_sum<0 { 1 } else if sign_sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From 59d936ee19df4c00ed61644985320405f0690d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:10 +0000
Subject: [PATCH 020/101] fix: Round2Signed keeps the sign

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 303aca7..8303309 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,7 +27,7 @@ macro_rules! Round2 {
 }
 
 macro_rules! Round2Signed {
-    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { Round2!(-$x, $n) } );
+    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { -Round2!(-$x, $n) } );
 }
 
 #[macro_export]
-- 
2.43.0


From 42bfed59b39dc6ef4678794814bd0ff650535854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 021/101] fix: a frame rate given as N/D swallowed the
 remaining options

---
 src/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..6a78e73 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -153,7 +153,7 @@ lazy_static! {
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
-- 
2.43.0


From 7a58eeda88b86df71ba14d5e0c0103ef47d4f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 022/101] fix: a frame rate of N/0 is reported instead of
 panicking

---
 src/option.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/option.rs b/src/option.rs
index 6a78e73..6410acc 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -151,6 +151,7 @@ lazy_static! {
                 else {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
+                    else if denom==Some(0) { Err("zero denominator".to_string()) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
                         Ok(args[1..].to_vec())
-- 
2.43.0


From 1ed2cdaeb4d9e026a139e68ff9a6edb08b0e9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 023/101] fix: empty, one-character and non-ASCII arguments are
 reported instead of panicking

---
 src/option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index 6410acc..95e0e15 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -227,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From e37e229a058ad16531b46f063c9293b0804a9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 024/101] fix: read_to_vec fills the vector across short and
 interrupted reads

---
 src/binary_reader.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index 623cf0e..83743db 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,15 +27,20 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
-                for i in 0..len {
-                    v[i] = T::from(tmp[i]);
-                }
-                Ok(s)
-            },
-            Err(e) => Err(e)
+        // a single read may return less than asked for long before the end of the input
+        let mut s = 0;
+        while s < len {
+            match self.input.read(&mut tmp[s..]) {
+                Ok(0) => break,
+                Ok(n) => s += n,
+                Err(ref e) if e.kind()==io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e)
+            }
         }
+        for i in 0..len {
+            v[i] = T::from(tmp[i]);
+        }
+        Ok(s)
     }
 }
 
-- 
2.43.0


From f020bdcc32e6ce62309a9ebcec506301da975017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 025/101] fix: write_bit lost a byte when the sink was
 interrupted or took none

---
 src/binary_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index b0a6d76..9cb9f92 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -33,7 +33,7 @@ impl<'a> BinaryWriter<'a> {
         if self.index==8 {
             self.index = 0;
             let tmp = [self.buf];
-            if let Err(e) = self.write(&tmp) {
+            if let Err(e) = self.write_all(&tmp) {
                 assert!(false, e);
             }
             self.buf = 0;
-- 
2.43.0


From 558bc9ea2996bbf10e86aeecd2acb687474a9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 026/101] fix: chroma planes and mode information cover frames
 of any size

Odd dimensions lost the last chroma row or column, and mis was smaller than
mi_rows x mi_cols unless the dimensions were multiples of 8.
---
 src/frame.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..6da61e1 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -252,10 +252,10 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width+1)>>1) * ((height+1)>>1)],
+            original_v: vec![0; ((width+1)>>1) * ((height+1)>>1)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2 * ((width+7)>>3)]; 2 * ((height+7)>>3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From 0f9a7aa4784ab2b677098d3c835d9f6de4a8320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 027/101] fix: keep messages out of the output stream and
 report errors in the exit status

With -o stdout the banner was written in front of the bitstream.
---
 src/main.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..bb40406 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -42,7 +42,7 @@ use encoder::*;
 
 fn main() {
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
@@ -56,12 +56,12 @@ fn main() {
 
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
-        println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
-        println!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        eprintln!("{}: invalid configuration: {}", "error".red(), e);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -73,8 +73,8 @@ fn main() {
         match BinaryReader::file(&config.input.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                eprintln!("{}: failed to open input file: {}", "error".red(), e);
+                process::exit(1);
             }
         }
     };
@@ -88,8 +88,8 @@ fn main() {
         match BinaryWriter::file(&config.output.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                eprintln!("{}: failed to open output file: {}", "error".red(), e);
+                process::exit(1);
             }
         }
     };
-- 
2.43.0


From 1b1e9a2f95b80ce36c260fa5ace68d5c6c497c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 028/101] fix: read frames of the given size and stop at the
 end of the input

Frames were always 176x144, the end of the input was never noticed (the default
frame limit then loops for hours), and errors writing the output were lost.
---
 src/main.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bb40406..0d798fe 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -40,6 +40,13 @@ use obu::OBU::*;
 use encoder::*;
 
 
+// reads the next frame; false at the end of the input (a last partial frame is dropped)
+fn read_frame(reader: &mut BinaryReader, frame: &mut Frame) -> io::Result<bool> {
+    Ok(reader.read_to_vec(&mut frame.original_y)? == frame.original_y.len()
+        && reader.read_to_vec(&mut frame.original_u)? == frame.original_u.len()
+        && reader.read_to_vec(&mut frame.original_v)? == frame.original_v.len())
+}
+
 fn main() {
 
     eprintln!(
@@ -100,11 +107,14 @@ fn main() {
 
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
+    let mut read_error = None;
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
+        match read_frame(&mut reader, &mut frame) {
+            Ok(true) => {},
+            Ok(false) => break,
+            Err(e) => { read_error = Some(e); break; }
+        }
 
         if fr==0 {
             // encode sequence header
@@ -116,4 +126,13 @@ fn main() {
             
         }
     }
+
+    if let Err(e) = writer.flush() {
+        eprintln!("{}: failed to write output: {}", "error".red(), e);
+        process::exit(1);
+    }
+    if let Some(e) = read_error {
+        eprintln!("{}: failed to read input: {}", "error".red(), e);
+        process::exit(1);
+    }
 }
-- 
2.43.0


From fb597dab018a5ee7f3f18a61e986f2168851cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 029/101] fix: the sequence header codes the number of
 operating points minus one

There is always at least one, so the default header gets one.
---
 src/obu_encoder.rs     | 3 +--
 src/sequence_header.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..3a2a10a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -100,8 +100,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 if ecx.reduced_still_picture_header {
                     // TODO
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5); // operating_points_cnt_minus_1
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..a4efd2e 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![ OperatingPoint { idc: 0, seq_level_idx: 0, seq_tier: None } ],
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From 5c69e4bf8c7fb16e9ec1dabd7509044abc41c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 030/101] fix: a reduced still picture header carries
 seq_level_idx

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3a2a10a..4e7e3c9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -98,7 +98,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bit(out_bits, sequence_header.still_picture as u8);
                 self.coder.push_bit(out_bits, ecx.reduced_still_picture_header as u8);
                 if ecx.reduced_still_picture_header {
-                    // TODO
+                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points[0].seq_level_idx as u32, 5);
                 } else {
                     self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5); // operating_points_cnt_minus_1
                     for op in sequence_header.operating_points.iter() {
-- 
2.43.0


From b76d6be84b55985f097757472047a022fc4effbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 031/101] fix: the maximum frame size is coded with the number
 of bits the header announces

The announced width was taken from another value, one bit too small for powers
of two, and underflowed for dimensions below 3.
---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4e7e3c9..526b197 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -111,12 +111,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                let frame_width_bits_minus_1 = msb16((sequence_header.max_frame_width-1) as u16);
+                let frame_height_bits_minus_1 = msb16((sequence_header.max_frame_height-1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From 5ee82c57836ece2801215d7663613fd6c2221cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 032/101] fix: encoding a sequence header does not add a color
 description to the next one

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 526b197..cc4b6db 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -202,20 +202,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bits_with_size(out_bits, cd.transfer_characteristics as u32, 8);
                     self.coder.push_bits_with_size(out_bits, cd.matrix_coefficients as u32, 8);
                 }
-                if ecx.color_config.color_description.is_none() {
-                    ecx.color_config.color_description = Some( ColorDescription {
-                        color_primaries: CP_UNSPECIFIED,
-                        transfer_characteristics: TC_UNSPECIFIED,
-                        matrix_coefficients: MC_UNSPECIFIED
-                    });
-                }
+                let color_description = ecx.color_config.color_description.unwrap_or(ColorDescription {
+                    color_primaries: CP_UNSPECIFIED,
+                    transfer_characteristics: TC_UNSPECIFIED,
+                    matrix_coefficients: MC_UNSPECIFIED
+                });
                 if ecx.color_config.mono_chrome {
                     self.coder.push_bit(out_bits, ecx.color_config.color_range as u8);
                     ecx.color_config.subsampling_x = true;
                     ecx.color_config.subsampling_y = true;
                     ecx.color_config.chroma_sample_position = CSP_UNKNOWN;
                     ecx.color_config.separate_uv_delta_q = false;
-                } else if ecx.color_config.color_description.unwrap() == (ColorDescription {
+                } else if color_description == (ColorDescription {
                     color_primaries: CP_BT_709,
                     transfer_characteristics: TC_SRGB,
                     matrix_coefficients: MC_IDENTITY
-- 
2.43.0


From f69d76d82814daec2de4049a08d1cead7b294c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 033/101] fix: separate_uv_delta_q is not coded for monochrome
 video

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cc4b6db..360c200 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -250,7 +250,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From a1eda755be212679268c6c9620bf705b93059c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 034/101] fix: order_hint_bits comes from the encoder context

It was always 0, so enabling order hints underflowed.
---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 360c200..8e7cb3b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -174,6 +174,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.seq_force_integer_mv = SELECT_INTEGER_MV;
                     }
                     if ecx.enable_order_hint {
+                        self.order_hint_bits = ecx.order_hint_bits as usize;
                         self.coder.push_bits_with_size(out_bits, (self.order_hint_bits-1) as u32, 3);
                     } else {
                         self.order_hint_bits = 0;
-- 
2.43.0


From 3d71fbc9f20037a3680a62c2daa67877cf96d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 035/101] fix: an OBU is its header followed by its payload,
 and sizes count bytes

The payload was written to the output ahead of the sizes and the header, without
trailing bits, and the sizes counted bits.
---
 src/obu_encoder.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8e7cb3b..401d643 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1578,22 +1578,28 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        if obu_payload_bits.len()>0 {
+            match obu {
+                &mut OBU_TILE_GROUP(_) | &mut OBU_FRAME { frame: _ } => {},
+                _ => self.coder.push_bit(&mut obu_payload_bits, 1), // trailing_one_bit
+            }
+            self.coder.push_bits_align(&mut obu_payload_bits);
+        }
+        self.coder.push_bits(out_bits, &obu_payload_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8;
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8;
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8;
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From 72ae7e868dffd231e19631abb3b1c9d1b9ce2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 036/101] fix: timecode metadata has type 5, 3 is scalability

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 401d643..5bea3df 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1525,7 +1525,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
                             self.coder.push_bit(out_bits, 1);
-- 
2.43.0


From 72c0ac332c55ce8f1418757a5880d3bd2ddd91a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 037/101] fix: ITU-T T.35 metadata carries its payload bytes

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5bea3df..366176f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1456,7 +1456,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if cc==0xFF {
                             self.coder.push_bits_with_size(out_bits, 0 as u32, 8); // FIXME itu_t_t35_country_code_extension_byte
                         }
-                        // FIXME itu_t_t35_payload_bytes not in spec
+                        for b in pb.iter() {
+                            self.coder.push_bits_with_size(out_bits, *b as u32, 8);
+                        }
                     },
                     &METADATA_TYPE_HDR_CLL { max_cll: mc, max_fall: mf } => {
                         self.coder.encode_leb128(out_bits, 1);
-- 
2.43.0


From 1cca6fb69a8b36f60f9a2d2f09c07e0ba5570cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 038/101] fix: tile_cols_log2 and tile_rows_log2 round up

With 3 tiles a single bit was left to code tile numbers 0 to 2.
---
 src/frame.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 6da61e1..6afc4e8 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -237,6 +237,13 @@ pub struct Frame {
     pub cdef_idx: Vec<Vec<isize>>,
 }
 
+// smallest k with 2^k >= n
+fn tile_log2(n: usize) -> usize {
+    let mut k = 0;
+    while (1<<k) < n { k += 1; }
+    k
+}
+
 impl Frame {
     pub fn new(frame_type: FrameType, width: usize, height: usize) -> Frame {
         Frame {
@@ -383,10 +390,10 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        tile_log2(self.tile_col_starts.len())
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        tile_log2(self.tile_row_starts.len())
     }
 }
\ No newline at end of file
-- 
2.43.0


From 105da0f6f6cc6fc4f2da0b09b0d216902c49d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 039/101] fix: order_hints and sign biases have an entry for
 ALTREF_FRAME

They are indexed by reference frame (1 to 7); every shown key frame header panicked.
---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..10675e9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; TOTAL_REFS_PER_FRAME],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; TOTAL_REFS_PER_FRAME],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -114,9 +114,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; TOTAL_REFS_PER_FRAME],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; TOTAL_REFS_PER_FRAME],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 2919da49f2c6fca4cfdc9e7411527720b10caaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 040/101] fix: the sign bias of a reference is 1 when it lies
 in the future

The distance was computed on unsigned numbers and panicked for past references.
---
 src/obu_encoder.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 366176f..53cf7d7 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -710,21 +710,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             let ref_frame = LAST_FRAME as usize + i;
                             let hint = ecx.ref_order_hint[frame.ref_frame_idx[i] as usize];
                             ecx.order_hints[ref_frame] = hint;
-                            if !ecx.enable_order_hint {
-                                ecx.ref_frame_sign_bias[ref_frame] = 0;
-                            } else {
-                                ecx.ref_frame_sign_bias[ref_frame] = {
-                                    // get relative dist
-                                    if !ecx.enable_order_hint {
-                                        0
-                                    } else {
-                                        let mut diff = hint - frame.order_hint as usize;
-                                        let m = 1 << (ecx.order_hint_bits-1);
-                                        diff = (diff&(m-1)) - (diff&m);
-                                        diff
-                                    }
-                                };
-                            }
+                            let dist = ::common::get_relative_dist(hint, frame.order_hint as usize, ecx.enable_order_hint, ecx.order_hint_bits as usize);
+                            ecx.ref_frame_sign_bias[ref_frame] = (dist > 0) as usize;
                         }
                     }
                     if ecx.reduced_still_picture_header || ecx.disable_cdf_update {
-- 
2.43.0


From 8ec9a7ef3071ec4674df1d5b2c6ea48c67720ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 041/101] fix: switch frames and shown key frames are error
 resilient

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 53cf7d7..3f10f3c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -382,7 +382,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From 82a587a4f65c93986ce3da1f3451b1dc36c6b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 042/101] fix: error resilient frame headers carry
 ref_order_hint

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3f10f3c..86bb9dc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -472,6 +472,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From b09139264ee87d319d7557943347ebb6ed606549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 043/101] fix: frame sizes use the number of bits announced in
 the sequence header

---
 src/encoder.rs     |  4 ++++
 src/obu_encoder.rs | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 10675e9..81024b2 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -42,6 +42,8 @@ pub struct EncoderContext {
     pub temporal_id: usize,
     pub spatial_id: usize,
     pub enable_order_hint: bool,
+    pub frame_width_bits: u8,
+    pub frame_height_bits: u8,
     pub superres_denom: usize,
     pub upscaled_width: usize,
     pub enable_superres: bool,
@@ -125,6 +127,8 @@ impl EncoderContext {
         temporal_id: 0,
         spatial_id: 0,
         enable_order_hint: false,
+        frame_width_bits: 16,
+        frame_height_bits: 16,
         superres_denom: 1,
         upscaled_width: 0,
         enable_superres: false,
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 86bb9dc..3dd163c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -119,6 +119,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
+                ecx.frame_width_bits = nw;
+                ecx.frame_height_bits = nh;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
                 self.coder.push_bits_with_size(out_bits, max_frame_height_minus_1 as u32, nh);
                 if ecx.reduced_still_picture_header {
@@ -482,8 +484,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = ecx.frame_width_bits;
+                            let nh = ecx.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -524,8 +526,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = ecx.frame_width_bits;
+                                let nh = ecx.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -596,8 +598,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = ecx.frame_width_bits;
+                                        let nh = ecx.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -649,8 +651,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = ecx.frame_width_bits;
+                                    let nh = ecx.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From aeb29071f14aa2177ac325000b01bcf8d2daf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 044/101] fix: the render size is relative to the upscaled
 width

A render width equal to the downscaled width was dropped.
---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3dd163c..cccccea 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -509,7 +509,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -551,7 +551,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -623,7 +623,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -676,7 +676,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 999dde7302b998e14c85c79cca64fbb1442c181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 045/101] fix: allow_intrabc, allow_high_precision_mv and
 use_ref_frame_mvs are not cleared before they are coded

Also, key frames carry allow_intrabc only without superres.
---
 src/obu_encoder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cccccea..84f9b15 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -463,9 +463,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
                         }
                     }
-                    frame.allow_high_precision_mv = false;
-                    frame.use_ref_frame_mvs = false;
-                    frame.allow_intrabc = false;
+                    if ecx.frame_is_intra {
+                        frame.allow_high_precision_mv = false;
+                        frame.use_ref_frame_mvs = false;
+                    } else {
+                        frame.allow_intrabc = false;
+                    }
                     if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
                         ecx.refresh_frame_flags = self.all_frames as u8;
                     } else {
@@ -519,8 +522,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.render_height = frame.frame_height;
                         }
 
-                        if frame.allow_screen_content_tools>0 {
+                        if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                        } else {
+                            frame.allow_intrabc = false;
                         }
                     } else {
                         if frame.frame_type==INTRA_ONLY_FRAME {
@@ -563,6 +568,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                             if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                                 self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
+                            } else {
+                                frame.allow_intrabc = false;
                             }
                         } else {
                             if !ecx.enable_order_hint {
-- 
2.43.0


From 62625f46c8ff190cec27f6b4dba7193714e7645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 046/101] fix: the tile increments end without a zero bit at
 the maximum

---
 src/obu_encoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 84f9b15..4409ee5 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -771,7 +771,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2()<max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut i = 0;
                         let mut start_sb = 0;
@@ -788,7 +790,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2()<max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         let mut i = 0;
                         start_sb = 0;
-- 
2.43.0


From 5c4744f46ad5d24b2b18961d9a327f3e57161523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 047/101] fix: tile boundaries of uniformly spaced tiles

The vectors were written past their end, and the minimum number of rows underflowed.
---
 src/obu_encoder.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4409ee5..434fbbc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -775,17 +775,16 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
@@ -794,14 +793,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From 35ca57bdc67e65049c6ca9b16b21957b10da661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 048/101] fix: new frames use uniform tile spacing

The other form is not implemented, so a default frame header lacked its tile info.
---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 6afc4e8..87ece34 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -285,7 +285,7 @@ impl Frame {
             interp_filter: SWITCHABLE,
             is_motion_mode_switchable: true,
             tile_info: TileInfo {
-                uniform_tile_spacing_flag: false,
+                uniform_tile_spacing_flag: true,
             },
             quantization_params: QuantizationParams {
                 base_q_idx: 0,
-- 
2.43.0


From f13651828e5257d5ba1567e6db3fbaec50b3571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 049/101] fix: unsigned segmentation features are plain numbers

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 434fbbc..497941c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -880,7 +880,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
                                     }
-- 
2.43.0


From e750970a9323ac838d5af9b97384d849db93d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 050/101] fix: coding a frame header does not enable unused
 segmentation features

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 497941c..4dbf408 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -872,10 +872,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
+                                        let clipped_value;
                                         if segmentation_feature_signed[j] {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
@@ -883,8 +883,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
+                                        frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                 }
                             }
                         }
-- 
2.43.0


From 35f6c65f070fe4a53b4b60f8ee785406f4ff16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 051/101] fix: delta_q_res has two bits

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4dbf408..f680506 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -915,7 +915,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From c0397713106d0e8a97427af5a27df8c1fd1652f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 052/101] fix: no loop filter deltas without quantizer deltas

---
 src/obu_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index f680506..e49b529 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -934,6 +934,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.delta_lf_params.delta_lf_res = 0;
                             frame.delta_lf_params.delta_lf_multi = false;
                         }
+                    } else {
+                        frame.delta_lf_params.delta_lf_present = false;
+                        frame.delta_lf_params.delta_lf_res = 0;
+                        frame.delta_lf_params.delta_lf_multi = false;
                     }
 
                     if frame.primary_ref_frame==PRIMARY_REF_NONE as u8 {
-- 
2.43.0


From 85b18e23abef1a865c44bbd551d672b76f99aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 053/101] fix: the quantizer index of a segment without offset
 is the base index

The current index of a previous frame decided whether a frame was lossless.
---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e49b529..0c6aecf 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -957,7 +957,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From 22038f79da06a8abdf1b8bf2f83cbc1879e0cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 054/101] fix: loop filter mode deltas follow update_mode_delta

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 0c6aecf..3b955ae 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1022,7 +1022,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From 3268572fcff01675fdcd2a1db24321c6236eda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 055/101] fix: no cdef parameters when cdef is disabled, and no
 panic when they are empty

---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3b955ae..6f79fec 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1031,12 +1031,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From 528e28d9889a00ce1796ee45a71b15c656e5928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 056/101] fix: loop restoration parameters are present when
 restoration is enabled, not when it is disabled

---
 src/obu_encoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 6f79fec..ff2457a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1058,11 +1058,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
                         ecx.uses_lr = false;
+                        ecx.uses_chroma_lr = false;
                     } else {
                         ecx.uses_lr = false;
                         ecx.uses_chroma_lr = false;
-- 
2.43.0


From b8fb226be7aeded26c07a6b2a679218f1ddb0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 057/101] fix: lr_unit_shift of 2 is coded as two flags

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index ff2457a..d369919 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1081,7 +1081,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>0) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From 8d230b26e648305baf4ec26400b4e2ed5da7b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 058/101] fix: chroma restoration units derive from the luma
 unit

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index d369919..5a0bb33 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1093,8 +1093,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From 471bf98fffe29fc953ee7a5919dd3d195516dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 059/101] fix: global motion parameters cover ALTREF_FRAME

The loops stopped before the last reference frame, so a decoder read the
next syntax elements as its global motion type.
---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5a0bb33..300236a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1190,14 +1190,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
                     if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
-- 
2.43.0


From ed246364de9906b3839ab2671144c0e83c6ca6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 060/101] fix: global motion parameters are recentered the way
 a decoder undoes it

The encoder applied the decoder's inverse_recenter instead of its inverse,
and coded values above the middle of the range with the wrong alphabet size.
---
 src/obu_encoder.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 300236a..791a7cc 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1231,13 +1231,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                // inverse of the decoder's inverse_recenter
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v >= r {
+                                        (v-r) << 1
                                     } else {
-                                        r + (v>>1)
+                                        ((r-v)<<1) - 1
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1268,12 +1269,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From 5525b39a232478617770ff790cdf97ace8c13594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 061/101] fix: configured global motion parameters are coded

They were overwritten with the identity before being coded, the reference
parameters they are coded against started at zero instead of the identity,
and the fifth ROTZOOM parameter had the wrong sign.
---
 src/constants.rs   |  1 +
 src/encoder.rs     |  4 ++--
 src/obu_encoder.rs | 11 ++++++++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 92c3181..06f6611 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -387,6 +387,7 @@ pub const ANGLE_STEP: usize = 3; // Number of degrees of step per unit increase
 pub const TX_SET_TYPES_INTRA: usize = 3; // Number of intra transform set types
 pub const TX_SET_TYPES_INTER: usize = 4; // Number of inter transform set types
 pub const WARPEDMODEL_PREC_BITS: usize = 16; // Internal precision of warped motion models
+pub const DEFAULT_GM_PARAMS: [isize; 6] = [0, 0, 1<<WARPEDMODEL_PREC_BITS, 0, 0, 1<<WARPEDMODEL_PREC_BITS];
 pub const IDENTITY: usize = 0; // Warp model is just an identity transform
 pub const TRANSLATION: usize = 1; // Warp model is a pure translation
 pub const ROTZOOM: usize = 2; // Warp model is a rotation + symmetric zoom + translation
diff --git a/src/encoder.rs b/src/encoder.rs
index 81024b2..530f498 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -110,8 +110,8 @@ impl EncoderContext {
         ref_valid: [false; NUM_REF_FRAMES],
         ref_order_hint: [0; NUM_REF_FRAMES],
         gm_type: [0; NUM_REF_FRAMES],
-        gm_params: [[0; 6]; NUM_REF_FRAMES],
-        prev_gm_params: [[0; 6]; NUM_REF_FRAMES],
+        gm_params: [DEFAULT_GM_PARAMS; NUM_REF_FRAMES],
+        prev_gm_params: [DEFAULT_GM_PARAMS; NUM_REF_FRAMES],
         film_grain_params: None,
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 791a7cc..3c465a3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -733,6 +733,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         // TODO
                         // init non coeff cdfs
                         // setup past independence
+                        ecx.prev_gm_params = [DEFAULT_GM_PARAMS; NUM_REF_FRAMES];
                     } else {
                         // TODO
                         // load cdfs( ref_frame_idx[ primary_ref_frame ] )
@@ -1192,8 +1193,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     // global motion params
                     for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
-                        for i in 0..6 {
-                            ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
+                        // parameters which are not coded below are those of the identity
+                        let first_default = if ecx.frame_is_intra || !frame.global_motion_params.is_global[rf] { 0 }
+                            else if !frame.global_motion_params.is_rot_zoom[rf] && frame.global_motion_params.is_translation[rf] { 2 }
+                            else { 6 };
+                        for i in first_default..6 {
+                            ecx.gm_params[rf][i] = DEFAULT_GM_PARAMS[i];
                         }
                     }
                     if !ecx.frame_is_intra {
@@ -1292,7 +1297,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From 9b466c11bb072f2eb203308afb046de9df704bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 062/101] fix: film grain parameters are coded only when they
 are present

Frame headers carried apply_grain even when the sequence header said that
there are no film grain parameters, or when the frame is never shown, and
the next sequence header then announced them.
---
 src/obu_encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3c465a3..1f76874 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1309,9 +1309,11 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_none() {
+                        // film_grain_params_present is 0
+                    } else if !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 19f6ae551409f20f6e7ace968e9da095a9fcdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 063/101] fix: the frame header after a shown existing frame is
 coded

The early return skipped the reset of seen_frame_header.
---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 1f76874..ee4d4b9 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -360,6 +360,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // load grain params
                                 // TODO
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From d40f36e9b4cc72285b9c83b21c9d94279c88046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 064/101] fix: frame headers of monochrome sequences carry no
 chroma parameters

The number of planes did not reach the encoder context the frame header
is coded from.
---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index ee4d4b9..cbbcc17 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -199,6 +199,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From 3d945518c334a7c71ba31165d702a1344d0aa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 065/101] fix: frame headers carry frame ids when the sequence
 header announces them

The frame id lengths of the sequence header did not reach the encoder
context the frame header is coded from.
---
 src/obu_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index cbbcc17..c97206b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -128,7 +128,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 } else {
                     self.coder.push_bit(out_bits, if let Some(_) = sequence_header.frame_id { 1 } else { 0 } as u8);
                 }
+                ecx.frame_id_numbers_present_flag = sequence_header.frame_id.is_some();
                 if let Some(ref fid) = sequence_header.frame_id {
+                    ecx.delta_frame_id_length = fid.delta_frame_id_length as usize;
+                    ecx.additional_frame_id_length = fid.additional_frame_id_length as usize;
                     self.coder.push_bits_with_size(out_bits, (fid.delta_frame_id_length-2) as u32, 4);
                     self.coder.push_bits_with_size(out_bits, (fid.additional_frame_id_length-1) as u32, 3);
                 }
-- 
2.43.0


From 159d27b61cdb1f81782cc4bf76de7b8d26365dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:38 +0000
Subject: [PATCH 066/101] fix: all-zero and dc-sign contexts look at every unit
 along the transform block

The draft takes the level and dc contexts of all units above and left of the
transform block; the code read the same unit next to the block's origin for each.
---
 src/bool_coder.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index f07c0e1..623fd25 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -842,9 +842,13 @@ impl BoolCoder {
     pub fn encode_all_zero(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, all_zero: usize, plane: usize, tx_size: TxSize, tx_size_ctx: usize, frame: &mut Frame, mi_size: BlockSize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
+        let mut sub_x = 0;
+        let mut sub_y = 0;
         if plane>0 {
-            max_x4 >>= frame.subsampling_x as usize;
-            max_y4 >>= frame.subsampling_y as usize;
+            sub_x = frame.subsampling_x as usize;
+            sub_y = frame.subsampling_y as usize;
+            max_x4 >>= sub_x;
+            max_y4 >>= sub_y;
         }
         let w = tx_width[tx_size as usize];
         let h = tx_height[tx_size as usize];
@@ -857,7 +861,7 @@ impl BoolCoder {
             let mut left = 0;
             for k in 0..w4 {
                 if x4+k < max_x4 {
-                    top = Max!(top, match frame.get_above_mi(mi_row, mi_col) {
+                    top = Max!(top, match frame.get_above_mi(y4<<sub_y, ((x4+k)<<sub_x)|sub_x) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
                     });
@@ -865,7 +869,7 @@ impl BoolCoder {
             }
             for k in 0..h4 {
                 if y4+k < max_y4 {
-                    left = Max!(left, match frame.get_left_mi(mi_row, mi_col) {
+                    left = Max!(left, match frame.get_left_mi(((y4+k)<<sub_y)|sub_y, x4<<sub_x) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
                     });
@@ -890,10 +894,10 @@ impl BoolCoder {
             let mut left = 0;
             for i in 0..w4 {
                 if x4+i < max_x4 {
-                    above |= match frame.get_above_mi(mi_row, mi_col) {
+                    above |= match frame.get_above_mi(y4<<sub_y, ((x4+i)<<sub_x)|sub_x) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
-                    } | match frame.get_above_mi(mi_row, mi_col) {
+                    } | match frame.get_above_mi(y4<<sub_y, ((x4+i)<<sub_x)|sub_x) {
                         Some(mi) => mi.dc_context[plane],
                         None => 0,
                     };
@@ -901,10 +905,10 @@ impl BoolCoder {
             }
             for i in 0..h4 {
                 if y4+i < max_y4 {
-                    left |= match frame.get_left_mi(mi_row, mi_col) {
+                    left |= match frame.get_left_mi(((y4+i)<<sub_y)|sub_y, x4<<sub_x) {
                         Some(mi) => mi.level_context[plane],
                         None => 0,
-                    } | match frame.get_left_mi(mi_row, mi_col) {
+                    } | match frame.get_left_mi(((y4+i)<<sub_y)|sub_y, x4<<sub_x) {
                         Some(mi) => mi.dc_context[plane],
                         None => 0,
                     };
@@ -987,14 +991,18 @@ impl BoolCoder {
     pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
+        let mut sub_x = 0;
+        let mut sub_y = 0;
         if plane>0 {
-            max_x4 >>= frame.subsampling_x as usize;
-            max_y4 >>= frame.subsampling_y as usize;
+            sub_x = frame.subsampling_x as usize;
+            sub_y = frame.subsampling_y as usize;
+            max_x4 >>= sub_x;
+            max_y4 >>= sub_y;
         }
         let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
-                let sign = match frame.get_above_mi(mi_row, mi_col) {
+                let sign = match frame.get_above_mi(y4<<sub_y, ((x4+k)<<sub_x)|sub_x) {
                     Some(mi) => mi.dc_context[plane],
                     None => 0,
                 };
@@ -1007,7 +1015,7 @@ impl BoolCoder {
         }
         for k in 0..h4 {
             if y4+k < max_y4 {
-                let sign = match frame.get_left_mi(mi_row, mi_col) {
+                let sign = match frame.get_left_mi(((y4+k)<<sub_y)|sub_y, x4<<sub_x) {
                     Some(mi) => mi.dc_context[plane],
                     None => 0,
                 };
-- 
2.43.0


From 0eab6dd75d0b589d20d7ff9d09694534d1475b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 067/101] fix: the type of a restoration unit is entropy coded

use_wiener and use_sgrproj were pushed as raw bits into the middle of the
symbol coder's output, and restoration_type was not coded at all.
---
 src/tile_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a16adde..d063462 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -214,15 +214,19 @@ impl<'b> TileEncoder<'b> {
                             RESTORE_NONE => RESTORE_NONE,
                             RESTORE_WIENER => {
                                 let use_wiener = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_wiener;
-                                self.coder.push_bit(out_bits, use_wiener as u8);
+                                self.coder.encode_use_wiener(out_bits, &mut self.cdf, use_wiener as usize);
                                 if use_wiener { RESTORE_WIENER }  else { RESTORE_NONE }
                             },
                             RESTORE_SGRPROJ => {
                                 let use_sgrproj = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_sgrproj;
-                                self.coder.push_bit(out_bits, use_sgrproj as u8);
+                                self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
-                            _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
+                            _ => {
+                                let restoration_type = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type;
+                                self.coder.encode_restoration_type(out_bits, &mut self.cdf, restoration_type as usize);
+                                restoration_type
+                            },
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-- 
2.43.0


From 175f88baa1d2dcbb3b17533154f8a5db87893586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 068/101] fix: restoration coefficients are recentred around
 their reference

The decoder applies inverse_recenter to what it reads; the encoder applied the
same function instead of its inverse, and coded the mirrored case with the
wrong number of symbols.
---
 src/tile_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d063462..2105cc2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -230,13 +230,13 @@ impl<'b> TileEncoder<'b> {
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-                        let inverse_recenter = |r: usize, v: usize| -> usize {
+                        let recenter = |r: usize, v: usize| -> usize {
                             if v > 2*r {
                                 v
-                            } else if v&1 > 0 {
-                                r - ((v+1)>>1)
+                            } else if v >= r {
+                                (v-r) << 1
                             } else {
-                                r + (v>>1)
+                                ((r-v)<<1) - 1
                             }
                         };
                         let mut encode_subexp_bool = |v: usize, num_syms: usize, k: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
@@ -265,12 +265,12 @@ impl<'b> TileEncoder<'b> {
                         };
                         let mut encode_unsigned_subexp_with_ref_bool = |v: usize, mx: usize, k: usize, r: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
                             if (r<<1) <= mx {
-                                let tv = inverse_recenter(r, v);
+                                let tv = recenter(r, v);
                                 encode_subexp_bool(tv, mx, k, coder, out_bits);
                             } else {
                                 let mut tv = mx - 1 - v;
-                                tv = inverse_recenter(mx-1-r, tv);
-                                encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
+                                tv = recenter(mx-1-r, tv);
+                                encode_subexp_bool(tv, mx, k, coder, out_bits);
                             }
                         };
                         let mut encode_signed_subexp_with_ref_bool = |v: isize, low: isize, high: isize, k: usize, r: isize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
-- 
2.43.0


From 14c079b8ca02cc7b4615e7024312018fb4096aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 069/101] fix: the uniform part of restoration coefficients
 stays inside the symbol coder

encode_ns writes raw bits into the middle of the symbol coder's output.
---
 src/tile_encoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2105cc2..cab69fa 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -247,7 +247,15 @@ impl<'b> TileEncoder<'b> {
                                 let a = 1 << b2;
                                 if num_syms <= mk+3*a {
                                     let tv = v - mk;
-                                    coder.encode_ns(out_bits, tv as u64, (num_syms-mk) as u64);
+                                    // subexp_unif_bools
+                                    let n = num_syms - mk;
+                                    let w = FloorLog2!(n) + 1;
+                                    let m = (1<<w) - n;
+                                    if tv < m {
+                                        coder.encode_literal(out_bits, tv as u64, w-1);
+                                    } else {
+                                        coder.encode_literal(out_bits, (tv+m) as u64, w);
+                                    }
                                     break;
                                 } else {
                                     let tv = v - mk;
-- 
2.43.0


From 1a3ff78f54b5337eee54b08976ce05c574d52efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 070/101] fix: coding a Wiener restoration unit does not borrow
 the context twice

---
 src/tile_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index cab69fa..07ac918 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -301,7 +301,6 @@ impl<'b> TileEncoder<'b> {
                                     let v = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].lr_wiener[pass][j];
                                     encode_signed_subexp_with_ref_bool(v, min, max+1, k as usize, ecx.ref_lr_wiener[plane][pass][j], self.coder, out_bits);
                                     frame.lr_wiener[plane][unit_row][unit_col][pass][j] = v;
-                                    let mut ecx = self.ectx.borrow_mut();
                                     ecx.ref_lr_wiener[plane][pass][j] = v;
                                 }
                             }
-- 
2.43.0


From 6d3a736aac26d3f5a978a1243d2b85163440a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 071/101] fix: the implied second self-guided weight uses the
 projection precision

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 07ac918..46e5c44 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -319,7 +319,7 @@ impl<'b> TileEncoder<'b> {
                                 } else {
                                     v = 0;
                                     if i==1 {
-                                        v = Clip3!(min, max, (1<<SGRPROJ_PARAMS_BITS) - ecx.ref_sgr_xqd[plane][0]);
+                                        v = Clip3!(min, max, (1<<SGRPROJ_PRJ_BITS) - ecx.ref_sgr_xqd[plane][0]);
                                     }
                                 }
                                 frame.lr_sgr_xqd[plane][unit_row][unit_col][i] = v;
-- 
2.43.0


From d45561b525c9dd2a394c12308a5f1d804f3f550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:12 +0000
Subject: [PATCH 072/101] fix: tiles are numbered in raster order

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 46e5c44..810b9b2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -113,8 +113,8 @@ impl<'b> TileEncoder<'b> {
         let mut sb_size;
         {
             let mut ecx = self.ectx.borrow_mut();
-            let tile_col = ecx.tile_num / frame.tile_cols();
-            let tile_row = ecx.tile_num / frame.tile_rows();
+            let tile_col = ecx.tile_num % frame.tile_cols();
+            let tile_row = ecx.tile_num / frame.tile_cols();
             self.mi_row_start = ecx.mi_row_starts[tile_row];
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
-- 
2.43.0


From 4d8a0e6664d8647cd9202aeb80c6d701aaa979c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 073/101] fix: interleave segment ids without underflow

neg_interleave computed v-rf and rf-v unconditionally, so one of them
underflowed for every segment id that differs from its prediction, and the
ids below the interleaved range were written as rf-v-1 instead of max-v-1.
---
 src/tile_encoder.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 810b9b2..f78cd15 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -576,25 +576,12 @@ impl<'b> TileEncoder<'b> {
                     v
                 } else if rf>=(max-1) {
                     max - 1 - v
-                } else if 2*rf < max {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*rf {
-                        d1
-                    } else if d2 <= 2*rf {
-                        d2
-                    } else {
-                        v
-                    }
                 } else {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*(max-rf-1) {
-                        d1
-                    } else if d2 <= 2*(max-rf-1) {
-                        d2
+                    let d = if v>rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
+                    if 2*rf < max {
+                        if d <= 2*rf { d } else { v }
                     } else {
-                        rf-v-1
+                        if d <= 2*(max-rf-1) { d } else { max-v-1 }
                     }
                 }
             };
-- 
2.43.0


From d54bb4328c066136463fd176d77ff9713d71d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 074/101] fix: use the last active segment id of the frame
 header

The tile encoder's own last_active_seg_id was never set, so segment ids were
interleaved as if only segment 0 was active.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f78cd15..0e22b11 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -585,6 +585,7 @@ impl<'b> TileEncoder<'b> {
                     }
                 }
             };
+            self.last_active_seg_id = self.ectx.borrow_mut().last_active_seg_id;
             let v = neg_interleave(part_tree.segment_id, pred as usize, self.last_active_seg_id+1);
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
-- 
2.43.0


From d3383cd748561834f99d66b6b8030d843b9b9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 075/101] fix: remember that a block is skipped

self.skip stayed false after the skip flag was coded, so skipped blocks wrote
a segment id and a CDEF index that a decoder does not read.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0e22b11..afa2b15 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -617,6 +617,7 @@ impl<'b> TileEncoder<'b> {
             } else {
                 self.coder.encode_skip(out_bits, &mut self.cdf, part_tree.skip as usize, frame, self.mi_row, self.mi_col);
             }
+            self.skip = part_tree.skip;
 
             if !seg_id_pre_skip {
                 // intra segment id
-- 
2.43.0


From 5a4d6a9cc2d452750276cc387384719845e64726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 076/101] fix: record the CDEF index for the block's own 64x64
 units only

The loops started at the frame's origin and overwrote the index of every unit
above and to the left, including those not yet coded.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index afa2b15..04c9cd1 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -642,9 +642,9 @@ impl<'b> TileEncoder<'b> {
                     let w4 = num_4x4_blocks_wide[part_tree.bsize as usize];
                     let h4 = num_4x4_blocks_high[part_tree.bsize as usize];
                     {
-                        let mut i = 0;
+                        let mut i = r;
                         while i < r+h4 {
-                            let mut j = 0;
+                            let mut j = c;
                             while j < c+w4 {
                                 frame.cdef_idx[i][j] = part_tree.cdef_idx;
                                 j += cdef_size4;
-- 
2.43.0


From ca332a55f8d0d425ac1d532a2bb716285a9d32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 077/101] fix: code the low bits of delta_q_abs relative to
 their own leading bit

The decoder adds 1 << delta_q_rem_bits, the encoder subtracted half of it, and
the result did not fit in delta_q_rem_bits bits.
---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 04c9cd1..f347f59 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -671,7 +671,7 @@ impl<'b> TileEncoder<'b> {
                         self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, DELTA_Q_SMALL);
                         let delta_q_rem_bits = msb16((delta_q_abs-1) as u16);
                         self.coder.encode_literal(out_bits, (delta_q_rem_bits-1) as u64, 3);
-                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<(delta_q_rem_bits-1));
+                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<delta_q_rem_bits);
                         self.coder.encode_literal(out_bits, delta_q_abs_bits as u64, delta_q_rem_bits);
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
-- 
2.43.0


From 96bf5138e49a8fd69b27ab1e34816d05d762d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 078/101] fix: code the low bits of delta_lf_abs relative to
 their own leading bit

As for delta_q_abs; the value was also reduced by one once too often.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f347f59..21b2249 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -700,8 +700,8 @@ impl<'b> TileEncoder<'b> {
                             self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, DELTA_LF_SMALL, frame.delta_lf_params.delta_lf_multi as usize, i);
                             let delta_lf_rem_bits = msb16((delta_lf_abs-1) as u16);
                             self.coder.encode_literal(out_bits, (delta_lf_rem_bits-1) as u64, 3);
-                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<(delta_lf_rem_bits-1));
-                            self.coder.encode_literal(out_bits, (delta_lf_abs_bits-1) as u64, delta_lf_rem_bits);
+                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<delta_lf_rem_bits);
+                            self.coder.encode_literal(out_bits, delta_lf_abs_bits as u64, delta_lf_rem_bits);
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
-- 
2.43.0


From ae45910692227d3abd29d68424028d63a59d8729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 079/101] fix: code uni_comp_ref_p2

Without it LAST_FRAME/LAST3_FRAME and LAST_FRAME/GOLDEN_FRAME are written alike
and a decoder reads the next element in its place.
---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 21b2249..df56f6a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -767,6 +767,10 @@ impl<'b> TileEncoder<'b> {
                                 if !uni_comp_ref {
                                     let uni_comp_ref_p1 = part_tree.ref_frame[0]==LAST_FRAME && [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[1]);
                                     self.coder.encode_uni_comp_ref_p1(out_bits, &mut self.cdf, uni_comp_ref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    if uni_comp_ref_p1 {
+                                        let uni_comp_ref_p2 = part_tree.ref_frame[1]==GOLDEN_FRAME;
+                                        self.coder.encode_uni_comp_ref_p2(out_bits, &mut self.cdf, uni_comp_ref_p2 as usize, frame, self.mi_row, self.mi_col);
+                                    }
                                 }
                             } else {
                                 let comp_ref = [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[0]);
-- 
2.43.0


From 92f7360c7b6b7e0973f1e0de28a8ddd935b3d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 080/101] fix: code comp_bwdref_p1 when comp_bwdref is 0, with
 its own distribution

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index df56f6a..6dbda64 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -785,9 +785,9 @@ impl<'b> TileEncoder<'b> {
 
                                 let comp_bwdref = part_tree.ref_frame[1]==ALTREF_FRAME;
                                 self.coder.encode_comp_bwdref(out_bits, &mut self.cdf, comp_bwdref as usize, frame, self.mi_row, self.mi_col);
-                                if !comp_ref {
+                                if !comp_bwdref {
                                     let comp_bwdref_p1 = part_tree.ref_frame[1]==ALTREF2_FRAME;
-                                    self.coder.encode_comp_ref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    self.coder.encode_comp_bwdref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
                                 }
                             }
                         } else {
-- 
2.43.0


From 30119f6bcc7cfe0623021735be07a35206309905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:12 +0000
Subject: [PATCH 081/101] fix: look at the above-right neighbour only if it is
 there

The mode information was fetched before the position was known to be inside
the tile and coded, which panicked in the first row and at the right edge.
---
 src/tile_encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6dbda64..85e700b 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1043,9 +1043,12 @@ impl<'b> TileEncoder<'b> {
             let mv_row = self.mi_row as isize + delta_row;
             let mv_col = self.mi_col as isize + delta_col;
             let weight = 4;
-            let mi = frame.get_mi(mv_row as usize, mv_col as usize).unwrap();
-            if self.is_inside(mv_row, mv_col) && mi.ref_frame[0]!=NONE { // FIXME
-                self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+            if self.is_inside(mv_row, mv_col) {
+                if let Some(mi) = frame.get_mi(mv_row as usize, mv_col as usize) {
+                    if mi.ref_frame[0]!=NONE { // FIXME
+                        self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+                    }
+                }
             }
         }
         if self.found_match {
-- 
2.43.0


From 65ee89510441be9600f5cf104b917d6b1de7c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 082/101] fix: take the row of a translational global motion
 vector from gm_params[0]

The draft assigns gm_params[0] to the vector's row and gm_params[1] to its
column; x is the column here.
---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 85e700b..5418253 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -906,8 +906,8 @@ impl<'b> TileEncoder<'b> {
                     MotionVector::new(0, 0)
                 } else if typ==TRANSLATION {
                     MotionVector::new(
-                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3),
-                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3)
+                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3),
+                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3)
                     )
                 } else {
                     let x = (self.mi_col * MI_SIZE + bw/2 - 1) as isize;
-- 
2.43.0


From 20f04902383e0b22134ff85aacb270d38ba6e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 083/101] fix: keep the precision of motion vectors when high
 precision is allowed

lower_mv_precision made every candidate even, also when
allow_high_precision_mv is set and the process does nothing.
---
 src/tile_encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 5418253..cf76a4a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -932,7 +932,9 @@ impl<'b> TileEncoder<'b> {
                 };
                 let lower_mv_precision = |v: isize| -> isize {
                     let mut r = v;
-                    if frame.force_integer_mv>0 {
+                    if frame.allow_high_precision_mv {
+                        v
+                    } else if frame.force_integer_mv>0 {
                         let a = Abs!(v);
                         let a_int = (a+3) >> 3;
                         if v>0 {
@@ -1084,7 +1086,9 @@ impl<'b> TileEncoder<'b> {
                         }
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1214,7 +1218,9 @@ impl<'b> TileEncoder<'b> {
                         };
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1278,7 +1284,9 @@ impl<'b> TileEncoder<'b> {
                     }
                     let lower_mv_precision = |v: isize| -> isize {
                         let mut r = v;
-                        if frame.force_integer_mv>0 {
+                        if frame.allow_high_precision_mv {
+                            v
+                        } else if frame.force_integer_mv>0 {
                             let a = Abs!(v);
                             let a_int = (a+3) >> 3;
                             if v>0 {
-- 
2.43.0


From f5633120d0881f258ad744ac343790114f9b78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 084/101] fix: use the motion field only if use_ref_frame_mvs
 is set

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index cf76a4a..f9fb1aa 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1065,7 +1065,7 @@ impl<'b> TileEncoder<'b> {
             }
         }
         self.zero_mv_context = 0;
-        {
+        if frame.use_ref_frame_mvs {
             // temporal scan
             let bw4 = num_4x4_blocks_wide[part_tree.bsize as usize];
             let bh4 = num_4x4_blocks_high[part_tree.bsize as usize];
-- 
2.43.0


From 7b136e45ad4851e03eff48a14f8cf1bbbdb54183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 085/101] fix: set the mode of compound blocks

self.y_mode kept the previous block's mode after compound_mode was coded, so
the reference list index and the vectors of a compound block followed it.
---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f9fb1aa..3146b42 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -832,6 +832,7 @@ impl<'b> TileEncoder<'b> {
                     } else if is_compound {
                         let compound_mode = part_tree.compound_mode as usize - NEAREST_NEARESTMV as usize;
                         self.coder.encode_compound_mode(out_bits, &mut self.cdf, compound_mode, self.ref_mv_context, self.new_mv_context);
+                        self.y_mode = part_tree.compound_mode as usize;
                     } else {
                         self.coder.encode_new_mv(out_bits, &mut self.cdf, part_tree.new_mv as usize, self.new_mv_context);
                         if !part_tree.new_mv {
-- 
2.43.0


From 5b24081affd3bfe5ddc0a8279bef10106ee863fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 086/101] fix: predict the default intra block copy vector in
 the right direction

Row and column were exchanged: the first superblock row must predict from the
left, the others from above; mi_row-sb_size4 also underflowed in the first row.
---
 src/tile_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 3146b42..fe45e9a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1380,15 +1380,15 @@ impl<'b> TileEncoder<'b> {
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
                     let sb_size = if self.ectx.borrow_mut().use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
-                    if self.mi_row-sb_size4 < self.mi_row_start {
+                    if self.mi_row < self.mi_row_start + sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
-                            0,
-                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
+                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
+                            0
                         );
                     } else {
                         self.pred_mv[0] = MotionVector::new(
-                            -((sb_size4 * MI_SIZE * 8) as isize),
-                            0
+                            0,
+                            -((sb_size4 * MI_SIZE * 8) as isize)
                         );
                     }
                 }
-- 
2.43.0


From b1c589b74a4f2d7b59526f717e2e1c622daf1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 087/101] fix: code the second vector of a compound block
 against its own prediction

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index fe45e9a..a00583f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1404,7 +1404,7 @@ impl<'b> TileEncoder<'b> {
             }
             if part_tree.compound_mode==NEWMV {
                 // encode mv
-                let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
+                let mut diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
                     self.mv_ctx = MV_INTRABC_CONTEXT;
                 } else {
-- 
2.43.0


From b1037a08fd96ada913d05bcb699b8c9f7d1b7165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 088/101] fix: code the components of motion vector differences

Only mv_joint was written: encode_mv_component was never called. It also left
out mv_sign, coded the magnitude instead of the magnitude minus one, and
derived mv_class from the wrong bits.
---
 src/bool_coder.rs   |  2 +-
 src/tile_encoder.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 623fd25..f2c5118 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -799,7 +799,7 @@ impl BoolCoder {
         self.encode_symbol(mv_joint as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: MvJoint, mv_ctx: usize, comp: usize) {
+    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: usize, mv_ctx: usize, comp: usize) {
         let mut cdf: &mut [i32] = &mut tile_cdf.mv_sign[mv_ctx as usize][comp];
         self.encode_symbol(mv_sign as i32, out_bits, &mut cdf);
     }
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a00583f..a237790 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1417,10 +1417,11 @@ impl<'b> TileEncoder<'b> {
                     _ => MV_JOINT_HNZVNZ,
                 };
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
-                let encode_mv_component = |v: isize, comp: usize| -> () {
+                let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
-                    let mv_abs = Abs!(v) as usize;
-                    let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
+                    self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
+                    let mv_abs = Abs!(v) as usize - 1;
+                    let mv_class = MVClass::from_u8(msb16((mv_abs>>3) as u16)).unwrap();
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
                     if mv_class==MV_CLASS_0 {
                         let mv_class0_bit = (mv_abs >> 3) & 1;
@@ -1449,6 +1450,12 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                 };
+                if diff_mv.y != 0 {
+                    encode_mv_component(diff_mv.y, 0);
+                }
+                if diff_mv.x != 0 {
+                    encode_mv_component(diff_mv.x, 1);
+                }
             } else {
                 part_tree.mvs[i] = self.pred_mv[i];
             }
-- 
2.43.0


From 6c17185dc5942f68a0dd10809cec3f8422aa92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 089/101] verif: trace of partitions tried and blocks coded,
 behind --cfg av1enc_verif

---
 src/tile_encoder.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a237790..0426d7d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -396,6 +396,8 @@ impl<'b> TileEncoder<'b> {
                     continue;
                 }
             }
+            #[cfg(av1enc_verif)]
+            verif::record(Some(*partition), r, c, part_tree.bsize);
             part_tree.part_type = *partition;
             let sub_size = partition_subsize[*partition as usize][part_tree.bsize as usize];
             let split_size = partition_subsize[PARTITION_SPLIT as usize][part_tree.bsize as usize];
@@ -518,6 +520,8 @@ impl<'b> TileEncoder<'b> {
     }
 
     pub fn encode_block(&mut self, sb: &mut Superblock, r: usize, c: usize, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) -> () {
+        #[cfg(av1enc_verif)]
+        verif::record(None, r, c, part_tree.bsize);
         self.mi_row = r;
         self.mi_col = c;
         self.mi_size = part_tree.bsize;
@@ -1461,4 +1465,20 @@ impl<'b> TileEncoder<'b> {
             }
         }
     }
-}
\ No newline at end of file
+}
+
+// Verification hook: the partitions tried and the blocks coded by this thread, in order.
+#[cfg(av1enc_verif)]
+pub mod verif {
+    use std::cell::RefCell;
+    use constants::*;
+
+    pub type Event = (Option<Partition>, usize, usize, BlockSize);
+    thread_local!(static TRACE: RefCell<Option<Vec<Event>>> = RefCell::new(None));
+
+    pub fn start() { TRACE.with(|t| *t.borrow_mut() = Some(vec![])); }
+    pub fn take() -> Vec<Event> { TRACE.with(|t| t.borrow_mut().take().unwrap_or(vec![])) }
+    pub fn record(partition: Option<Partition>, r: usize, c: usize, bsize: BlockSize) {
+        TRACE.with(|t| if let Some(ref mut v) = *t.borrow_mut() { v.push((partition, r, c, bsize)); });
+    }
+}
-- 
2.43.0


From f1999d3c64c79b805a4e7c16f3db5898a577714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 090/101] fix: try only partitions that exist for the block
 size

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 0426d7d..6d462eb 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -365,6 +365,10 @@ impl<'b> TileEncoder<'b> {
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
         ].iter() {
             let mut  part_bits: Vec<u8> = vec![];
+            if partition_subsize[*partition as usize][part_tree.bsize as usize]==BLOCK_INVALID ||
+               (part_tree.bsize==BLOCK_8X8 && *partition as usize > PARTITION_SPLIT as usize) {
+                continue; // no such partition of this block size
+            }
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
-- 
2.43.0


From c5a26ce3fd24ca60cee864c8b9a0dc9be6a701a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 091/101] fix: place the third block of HORZ_B and VERT_B
 partitions

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6d462eb..2ce7e18 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -456,7 +456,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_VERT_A => {
                     part_tree.partitions = vec![
@@ -476,7 +476,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_HORZ_4 => {
                     part_tree.partitions = vec![
-- 
2.43.0


From 159c53f158b2f855220385add199567729167daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 092/101] fix: place the fourth block of VERT_4 partitions

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2ce7e18..4e01a3e 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -503,7 +503,7 @@ impl<'b> TileEncoder<'b> {
                     self.encode_block(sb, r, c+quarter_block4x4*2, frame, &mut part_bits, &mut part_tree.partitions[2]);
                     if c+quarter_block4x4*3 < mi_cols {
                         part_tree.partitions.push(PartitionTree::new(sub_size));
-                        self.encode_block(sb, r+quarter_block4x4*3, c, frame, &mut part_bits, &mut part_tree.partitions[3]);
+                        self.encode_block(sb, r, c+quarter_block4x4*3, frame, &mut part_bits, &mut part_tree.partitions[3]);
                     }
                 },
             }
-- 
2.43.0


From 4b82c91b7f6dae3d13852a666d6004ec851d7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 093/101] fix: choose the partition context by the sizes of the
 neighbours

---
 src/tile_encoder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4e01a3e..324db2d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -354,6 +354,9 @@ impl<'b> TileEncoder<'b> {
         let quarter_block4x4 = half_block4x4 >> 1;
         let has_rows = r+half_block4x4 < mi_rows;
         let has_cols = c+half_block4x4 < mi_cols;
+        let bsl = mi_width_log2[part_tree.bsize as usize];
+        let above = self.avail_u && frame.get_mi(r-1, c).map_or(false, |mi| mi_width_log2[mi.mi_size as usize] < bsl);
+        let left = self.avail_l && frame.get_mi(r, c-1).map_or(false, |mi| mi_height_log2[mi.mi_size as usize] < bsl);
 
         let mut best_part_bits: Vec<u8> = vec![];
         let mut best_part_tree = part_tree.clone();
@@ -374,24 +377,24 @@ impl<'b> TileEncoder<'b> {
                     continue;
                 }
             } else if has_rows && has_cols {
-                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, *partition);
+                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, *partition);
             } else if has_cols {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_HORZ => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
             } else if has_rows {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_VERT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
-- 
2.43.0


From f89a3324f3442f8ad583f0277299d8d2f35c036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 094/101] fix: coding a tile group does not borrow the context
 twice

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c97206b..b19953f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1444,11 +1444,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     ecx.tile_num = n;
                     let last_tile = ecx.tile_num == ecx.tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
+                    drop(ecx); // the tile encoder uses the context
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
-                        tile_encoder.encode_tile(frame, ecx.tile_num, &mut tile_bits);
+                        tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
+                    ecx = self.ectx.borrow_mut();
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
-- 
2.43.0


From 7e59fea5767ca44764395883b5b46f5550df6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 095/101] fix: a tile is a session of the symbol coder

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 324db2d..5e47fa1 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -121,7 +121,7 @@ impl<'b> TileEncoder<'b> {
             self.mi_col_end = ecx.mi_col_starts[tile_col+1];
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
-            // init symbol
+            self.coder.init_encoder();
 
             // clear above context
 
@@ -172,7 +172,7 @@ impl<'b> TileEncoder<'b> {
             r += sb_size4;
         }
 
-        // exit symbol
+        self.coder.exit_encoder(out_bits);
     }
 
     pub fn encode_lr(&mut self, out_bits: &mut Vec<u8>, frame: &mut Frame, r: usize, c: usize, bsize: BlockSize) -> () {
-- 
2.43.0


From bd0b536bc4352f47ee9fbc2e5587f24c8b36160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 096/101] fix: a tile group carries the data of its tiles

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b19953f..c4fe028 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1455,6 +1455,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
                     }
+                    self.coder.push_bits(out_bits, &tile_bits);
                 }
 
                 if ecx.tg_end == frame.num_tiles()-1 {
-- 
2.43.0


From c99b8b5a987d6a27cf9b698d426b9501add5db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 097/101] fix: new frames have room for their CDEF indices

---
 src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 87ece34..a420379 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -351,7 +351,8 @@ impl Frame {
             lr_wiener: vec![vec![vec![vec![vec![]]]]],
             lr_sgr_set: vec![vec![vec![]]],
             lr_sgr_xqd: vec![vec![vec![vec![]]]],
-            cdef_idx: vec![vec![]],
+            // whole superblocks, also at the right and bottom edges
+            cdef_idx: vec![vec![-1; 32 * ((width+127)>>7)]; 32 * ((height+127)>>7)],
         }
     }
 
-- 
2.43.0


From 8aa5d07900812f7a47e726c5faaf983faae34330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:27 +0000
Subject: [PATCH 098/101] fix: frames without restoration need no restoration
 units

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 5e47fa1..93c5bfd 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -184,9 +184,9 @@ impl<'b> TileEncoder<'b> {
         let mut ecx = self.ectx.borrow_mut();
         let sb_size = if ecx.use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
         let sb_size4 = num_4x4_blocks_wide[sb_size as usize];
-        let sb = &mut frame.superblocks[r/sb_size4][c/sb_size4];
         for plane in 0..ecx.num_planes {
             if ecx.frame_restoration_type[plane] != RESTORE_NONE {
+                let sb = &frame.superblocks[r/sb_size4][c/sb_size4];
                 let subx = if plane==0 { 0 } else { frame.subsampling_x as usize };
                 let suby = if plane==0 { 0 } else { frame.subsampling_y as usize };
                 let unit_size = ecx.loop_restoration_size[plane];
-- 
2.43.0


From 71e196a7f75e1755da2f18d2f0ea16fbd3953b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:28 +0000
Subject: [PATCH 099/101] fix: neighbours outside the tile are not available

---
 src/frame.rs        | 8 ++++++--
 src/tile_encoder.rs | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index a420379..3f0a355 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -197,6 +197,8 @@ pub struct Frame {
     pub original_v: Vec<i16>,
 
     pub mis: Vec<Vec<Option<ModeInfo>>>,
+    pub mi_row_start: usize, // of the tile being coded
+    pub mi_col_start: usize,
     pub decoder_model_info: Option<DecoderModelInfo>,
     pub temporal_point_info: Option<TemporalPointInfo>,
     pub display_frame_id: Option<u32>, // TODO
@@ -263,6 +265,8 @@ impl Frame {
             original_v: vec![0; ((width+1)>>1) * ((height+1)>>1)],
 
             mis: vec![vec![None; 2 * ((width+7)>>3)]; 2 * ((height+7)>>3)],
+            mi_row_start: 0,
+            mi_col_start: 0,
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
@@ -361,12 +365,12 @@ impl Frame {
     }
 
     pub fn get_above_mi(&mut self, mi_row: usize, mi_col: usize) -> Option<ModeInfo> {
-        if mi_row==0 { None }
+        if mi_row<=self.mi_row_start { None }
         else { self.mis[mi_row-1][mi_col] }
     }
 
     pub fn get_left_mi(&mut self, mi_row: usize, mi_col: usize) -> Option<ModeInfo> {
-        if mi_col==0 { None }
+        if mi_col<=self.mi_col_start { None }
         else { self.mis[mi_row][mi_col-1] }
     }
 
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 93c5bfd..5ef7db3 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -119,6 +119,8 @@ impl<'b> TileEncoder<'b> {
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
             self.mi_col_end = ecx.mi_col_starts[tile_col+1];
+            frame.mi_row_start = self.mi_row_start;
+            frame.mi_col_start = self.mi_col_start;
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
             self.coder.init_encoder();
-- 
2.43.0


From b764ac2bef7f852288e1fa7c980e76ecc5b5abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:48 +0000
Subject: [PATCH 100/101] fix: probabilities stay fixed when the frame disables
 their update

---
 src/bool_coder.rs   | 10 ++++++++++
 src/tile_encoder.rs |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index f2c5118..a11b1d0 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -25,6 +25,7 @@ pub struct BoolCoder{
     bool_first: bool,
     bit_count: u64,
     leb_128_bytes: u64,
+    pub disable_cdf_update: bool,
 //    CDF tile_cdf;
 //    std::array<CDF, 8> cdfs;
 }
@@ -41,6 +42,7 @@ impl BoolCoder {
             bool_first: true,
             bit_count: 0,
             leb_128_bytes: 0,
+            disable_cdf_update: false,
         }
     }
 
@@ -99,6 +101,10 @@ impl BoolCoder {
         self.bool_value = new_data ^ (((self.bool_value + 1) << bits) - 1);
         self.bool_max_bits -= bits as i32;
 
+        if self.disable_cdf_update {
+            return symbol as u64;
+        }
+
         // update cdf
         let rate: i32 = 4 + (cdf[N as usize] > 31) as i32 + msb16(N as u16) as i32;
         let rate2: i32 = 5;
@@ -192,6 +198,10 @@ impl BoolCoder {
             self.bool_range <<= 1;
         }
 
+        if self.disable_cdf_update {
+            return;
+        }
+
         // update cdf
         let rate: i32 = 4 + ((cdf[N as usize]>31) as i32) + msb16(N as u16) as i32;
         let rate2: i32 = 5;
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 5ef7db3..9011c7c 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -124,6 +124,7 @@ impl<'b> TileEncoder<'b> {
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
             self.coder.init_encoder();
+            self.coder.disable_cdf_update = ecx.disable_cdf_update;
 
             // clear above context
 
-- 
2.43.0


From f6a7a680488a90223b72985925a298cc029bede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 101/101] verif: reader and writer hooks name only the field
 they replace

---
 src/binary_reader.rs | 4 +++-
 src/binary_writer.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index 83743db..6f78cb1 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -64,6 +64,8 @@ impl<'a> BufRead for BinaryReader<'a> {
 #[cfg(av1enc_verif)]
 impl<'a> BinaryReader<'a> {
     pub fn verif_from(input: Box<BufRead + 'a>) -> BinaryReader<'a> {
-        BinaryReader { input: input, buffer: 0 }
+        let mut r = BinaryReader::file("/dev/null").unwrap();
+        r.input = input;
+        r
     }
 }
diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index 9cb9f92..66faf85 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -68,6 +68,8 @@ impl<'a> Write for BinaryWriter<'a> {
 #[cfg(av1enc_verif)]
 impl<'a> BinaryWriter<'a> {
     pub fn verif_from(output: Box<Write + 'a>) -> BinaryWriter<'a> {
-        BinaryWriter { output: output, buf: 0, index: 0 }
+        let mut w = BinaryWriter::file("/dev/null").unwrap();
+        w.output = output;
+        w
     }
 }
-- 
2.43.0

