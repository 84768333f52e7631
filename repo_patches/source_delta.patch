From 222deb9a76a4413abf2599cd9424e9308c43d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/14] fix: split AC coefficients into non-empty bands for
 more than 33 progressive scans

---
 src/encoder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..44edb60 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,16 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        // There are only 63 AC coefficients, so the band of the first scan starts at 1
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = scan * values_per_scan + 1;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                start + values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1090,15 +1091,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = scan * values_per_scan + 1;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                start + values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 0148e77229fd34c58b6a28cad18f79c80843f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 02/14] fix: accept ICC profiles that need exactly 255 chunks

---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 44edb60..c48862e 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From 7d1e82f8c5ab287c6e3502f63230ec7a77333d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 03/14] fix: limit custom quantization values to the 8 bits
 they are written with

---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From c7059d77dddd0274d7af09a812d1c42ad6bb5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 04/14] fix: respect restart intervals when collecting
 statistics for optimized huffman tables

---
 src/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index c48862e..7d5f826 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1056,6 +1056,7 @@ impl<W: JfifWrite> Encoder<W> {
         // TODO: Find out if it's possible to reuse some code from the writer
 
         let max_tables = self.components.len().min(2) as u8;
+        let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
             let mut dc_freq = [0u32; 257];
@@ -1074,7 +1075,12 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // Restart markers reset the DC prediction
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 4c7ee7b214b9937931f03c43a93dfe5628fcbf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 05/14] fix: support huffman codes of more than 32 bits before
 length limiting

---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..a0656bf 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // Without a limit a code can be as long as the number of symbols
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = 256;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From 71b37a05720e58d490344dfa367b967664904759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 06/14] fix: flush the writer after encoding so that write
 errors are not lost

---
 src/encoder.rs |  3 ++-
 src/writer.rs  | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 7d5f826..0accdf9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -529,7 +529,8 @@ impl<W: JfifWrite> Encoder<W> {
 
         self.writer.write_marker(Marker::EOI)?;
 
-        Ok(())
+        // Errors are lost if a buffered writer is only flushed when it is dropped
+        self.writer.flush()
     }
 
     fn init_components(&mut self, color: JpegColorType) {
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..1e8f71c 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,14 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Passes buffered data on to its destination. Called once after the whole image was written.
+    /// # Errors
+    ///
+    /// Return an error if the data can't be written
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +53,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        (**self).flush()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +74,11 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        std::io::Write::flush(self)?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -84,6 +101,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(buf)
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush()
+    }
+
     #[inline(always)]
     pub fn write_u8(&mut self, value: u8) -> Result<(), EncodingError> {
         self.w.write_all(&[value])
-- 
2.43.0


From 1a709aacf9c9412584d55d417ab899569e928f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 07/14] Add hooks for verification harnesses (cfg
 jpeg_encoder_verif)

---
 src/avx2/fdct.rs |   5 +++
 src/fdct.rs      |   5 +++
 src/lib.rs       |   4 ++
 src/verif.rs     | 103 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 117 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..e9b6f6a 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -58,6 +58,11 @@ const DESCALE_P2: i32 = CONST_BITS + PASS1_BITS;
 
 #[inline(always)]
 pub fn fdct_avx2(data: &mut [i16; 64]) {
+    #[cfg(jpeg_encoder_verif)]
+    if crate::verif::override_fdct(data) {
+        return;
+    }
+
     unsafe {
         fdct_avx2_internal(data);
     }
diff --git a/src/fdct.rs b/src/fdct.rs
index 7d0273e..b1209c2 100644
--- a/src/fdct.rs
+++ b/src/fdct.rs
@@ -103,6 +103,11 @@ fn into_el(v: i32) -> i16 {
 #[allow(clippy::erasing_op)]
 #[allow(clippy::identity_op)]
 pub fn fdct(data: &mut [i16; 64]) {
+    #[cfg(jpeg_encoder_verif)]
+    if crate::verif::override_fdct(data) {
+        return;
+    }
+
     /* Pass 1: process rows. */
     /* Note results are scaled up by sqrt(8) compared to a true DCT; */
     /* furthermore, we scale the results by 2**PASS1_BITS. */
diff --git a/src/lib.rs b/src/lib.rs
index 9fc0a0e..0747d3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,7 @@
 
 #![no_std]
 #![cfg_attr(not(feature = "simd"), forbid(unsafe_code))]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate std;
@@ -40,6 +41,9 @@ mod huffman;
 mod image_buffer;
 mod marker;
 mod quantization;
+#[cfg(jpeg_encoder_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod writer;
 
 pub use encoder::{ColorType, Encoder, JpegColorType, SamplingFactor};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..34a5651
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,103 @@
+//! Hooks for verification harnesses. Only compiled with `--cfg jpeg_encoder_verif`.
+
+use crate::huffman::HuffmanTable;
+use crate::quantization::{QuantizationTable, QuantizationTableType};
+use alloc::vec::Vec;
+use core::sync::atomic::{AtomicI16, AtomicU8, AtomicUsize, Ordering::Relaxed};
+
+/// Number of coefficients that can be injected
+pub const MAX_COEFFICIENTS: usize = 64 * 64;
+
+/// What the transform does: 0 is the real transform, 1 multiplies each sample by 8,
+/// 2 replaces each block by the next one given to [inject]
+static MODE: AtomicU8 = AtomicU8::new(0);
+
+#[allow(clippy::declare_interior_mutable_const)]
+const ZERO: AtomicI16 = AtomicI16::new(0);
+static COEFFICIENTS: [AtomicI16; MAX_COEFFICIENTS] = [ZERO; MAX_COEFFICIENTS];
+static LENGTH: AtomicUsize = AtomicUsize::new(0);
+static NEXT: AtomicUsize = AtomicUsize::new(0);
+
+/// Use the real transform
+pub fn real_fdct() {
+    MODE.store(0, Relaxed);
+}
+
+/// Let the transform multiply each sample by 8
+pub fn identity_fdct() {
+    MODE.store(1, Relaxed);
+}
+
+/// Let the transform return the given blocks in the order they are processed,
+/// followed by blocks of zeros
+pub fn inject(blocks: &[[i16; 64]]) {
+    for (to, from) in COEFFICIENTS.iter().zip(blocks.iter().flatten()) {
+        to.store(*from, Relaxed);
+    }
+    LENGTH.store(blocks.len() * 64, Relaxed);
+    NEXT.store(0, Relaxed);
+    MODE.store(2, Relaxed);
+}
+
+pub(crate) fn override_fdct(data: &mut [i16; 64]) -> bool {
+    match MODE.load(Relaxed) {
+        0 => false,
+        1 => {
+            for v in data.iter_mut() {
+                *v *= 8;
+            }
+            true
+        }
+        _ => {
+            let pos = NEXT.load(Relaxed);
+            let given = pos < LENGTH.load(Relaxed);
+            for (i, v) in data.iter_mut().enumerate() {
+                *v = match COEFFICIENTS.get(pos + i) {
+                    Some(c) if given => c.load(Relaxed),
+                    _ => 0,
+                };
+            }
+            NEXT.store(pos + 64, Relaxed);
+            true
+        }
+    }
+}
+
+/// Result of [HuffmanTable::new_optimized]
+pub struct OptimizedTable(HuffmanTable);
+
+impl OptimizedTable {
+    pub fn new(freq: [u32; 257]) -> Self {
+        OptimizedTable(HuffmanTable::new_optimized(freq))
+    }
+
+    pub fn length(&self) -> &[u8; 16] {
+        self.0.length()
+    }
+
+    pub fn values(&self) -> &[u8] {
+        self.0.values()
+    }
+
+    /// Length and code used for a symbol
+    pub fn code(&self, symbol: u8) -> (u8, u16) {
+        *self.0.get_for_value(symbol)
+    }
+}
+
+/// A quantization table as the encoder uses it
+pub struct Quantizer(QuantizationTable);
+
+impl Quantizer {
+    pub fn new(table: &QuantizationTableType, quality: u8, luma: bool) -> Self {
+        Quantizer(QuantizationTable::new_with_quality(table, quality, luma))
+    }
+
+    pub fn table(&self) -> Vec<u8> {
+        (0..64).map(|i| self.0.get(i)).collect()
+    }
+
+    pub fn quantize(&self, value: i16, index: usize) -> i16 {
+        self.0.quantize(value, index)
+    }
+}
-- 
2.43.0


From b383c0da82a7e5aa41469806f62941a301092b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 08/14] fix: document the real size limit of app segments

---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 0accdf9..268d56b 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -348,7 +348,7 @@ impl<W: JfifWrite> Encoder<W> {
     /// Appends a custom app segment to the JFIF file
     ///
     /// Segment numbers need to be in the range between 1 and 15<br>
-    /// The maximum allowed data length is 2^16 - 2 bytes.
+    /// The maximum allowed data length is 2^16 - 3 bytes (65533).
     ///
     /// # Errors
     ///
-- 
2.43.0


From 72bf7e2c4d77e9f2e33d899799e4936563643069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 09/14] Let verification harnesses choose injected blocks by
 sample value

---
 src/verif.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 34a5651..c6881f6 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -9,14 +9,13 @@ use core::sync::atomic::{AtomicI16, AtomicU8, AtomicUsize, Ordering::Relaxed};
 pub const MAX_COEFFICIENTS: usize = 64 * 64;
 
 /// What the transform does: 0 is the real transform, 1 multiplies each sample by 8,
-/// 2 replaces each block by the next one given to [inject]
+/// 2 replaces a block by one of those given to [inject]
 static MODE: AtomicU8 = AtomicU8::new(0);
 
 #[allow(clippy::declare_interior_mutable_const)]
 const ZERO: AtomicI16 = AtomicI16::new(0);
 static COEFFICIENTS: [AtomicI16; MAX_COEFFICIENTS] = [ZERO; MAX_COEFFICIENTS];
 static LENGTH: AtomicUsize = AtomicUsize::new(0);
-static NEXT: AtomicUsize = AtomicUsize::new(0);
 
 /// Use the real transform
 pub fn real_fdct() {
@@ -28,14 +27,13 @@ pub fn identity_fdct() {
     MODE.store(1, Relaxed);
 }
 
-/// Let the transform return the given blocks in the order they are processed,
-/// followed by blocks of zeros
+/// Let the transform return `blocks[n]` for a block whose first sample is n, and a block
+/// of zeros if there is none
 pub fn inject(blocks: &[[i16; 64]]) {
     for (to, from) in COEFFICIENTS.iter().zip(blocks.iter().flatten()) {
         to.store(*from, Relaxed);
     }
     LENGTH.store(blocks.len() * 64, Relaxed);
-    NEXT.store(0, Relaxed);
     MODE.store(2, Relaxed);
 }
 
@@ -49,7 +47,7 @@ pub(crate) fn override_fdct(data: &mut [i16; 64]) -> bool {
             true
         }
         _ => {
-            let pos = NEXT.load(Relaxed);
+            let pos = (i32::from(data[0]) + 128) as usize * 64;
             let given = pos < LENGTH.load(Relaxed);
             for (i, v) in data.iter_mut().enumerate() {
                 *v = match COEFFICIENTS.get(pos + i) {
@@ -57,7 +55,6 @@ pub(crate) fn override_fdct(data: &mut [i16; 64]) -> bool {
                     _ => 0,
                 };
             }
-            NEXT.store(pos + 64, Relaxed);
             true
         }
     }
-- 
2.43.0


From 32ffe6e748d6f4131b1d1372051b0a9d79a164d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 10/14] fix: collect huffman statistics with 64 bits, large
 images overflow 32 bits

---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 src/verif.rs   | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 268d56b..5e98d37 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1060,9 +1060,9 @@ impl<W: JfifWrite> Encoder<W> {
         let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index a0656bf..2975216 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
diff --git a/src/verif.rs b/src/verif.rs
index c6881f6..2e14ea3 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -65,7 +65,7 @@ pub struct OptimizedTable(HuffmanTable);
 
 impl OptimizedTable {
     pub fn new(freq: [u32; 257]) -> Self {
-        OptimizedTable(HuffmanTable::new_optimized(freq))
+        OptimizedTable(HuffmanTable::new_optimized(freq.map(u64::from)))
     }
 
     pub fn length(&self) -> &[u8; 16] {
-- 
2.43.0


From 78bc09f3f6b07edce42fd9f2e152525ead63b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 11/14] Let verification harnesses record the blocks that are
 transformed

---
 src/verif.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 2e14ea3..296e9d1 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -8,14 +8,19 @@ use core::sync::atomic::{AtomicI16, AtomicU8, AtomicUsize, Ordering::Relaxed};
 /// Number of coefficients that can be injected
 pub const MAX_COEFFICIENTS: usize = 64 * 64;
 
+/// Number of blocks that can be recorded
+pub const MAX_RECORDED: usize = 512;
+
 /// What the transform does: 0 is the real transform, 1 multiplies each sample by 8,
-/// 2 replaces a block by one of those given to [inject]
+/// 2 replaces a block by one of those given to [inject], 3 records the samples
 static MODE: AtomicU8 = AtomicU8::new(0);
 
 #[allow(clippy::declare_interior_mutable_const)]
 const ZERO: AtomicI16 = AtomicI16::new(0);
 static COEFFICIENTS: [AtomicI16; MAX_COEFFICIENTS] = [ZERO; MAX_COEFFICIENTS];
 static LENGTH: AtomicUsize = AtomicUsize::new(0);
+static SAMPLES: [AtomicI16; MAX_RECORDED * 64] = [ZERO; MAX_RECORDED * 64];
+static RECORDED: AtomicUsize = AtomicUsize::new(0);
 
 /// Use the real transform
 pub fn real_fdct() {
@@ -37,6 +42,27 @@ pub fn inject(blocks: &[[i16; 64]]) {
     MODE.store(2, Relaxed);
 }
 
+/// Let the transform record the samples it is given. The n-th block is coded with
+/// n - 1024 as its only coefficient.
+pub fn record() {
+    RECORDED.store(0, Relaxed);
+    MODE.store(3, Relaxed);
+}
+
+/// Number of recorded blocks
+pub fn recorded() -> usize {
+    RECORDED.load(Relaxed)
+}
+
+/// Samples of a recorded block
+pub fn samples(block: usize) -> [i16; 64] {
+    let mut s = [0; 64];
+    for (to, from) in s.iter_mut().zip(&SAMPLES[block * 64..]) {
+        *to = from.load(Relaxed);
+    }
+    s
+}
+
 pub(crate) fn override_fdct(data: &mut [i16; 64]) -> bool {
     match MODE.load(Relaxed) {
         0 => false,
@@ -46,6 +72,17 @@ pub(crate) fn override_fdct(data: &mut [i16; 64]) -> bool {
             }
             true
         }
+        3 => {
+            let n = RECORDED.fetch_add(1, Relaxed);
+            for (i, v) in data.iter_mut().enumerate() {
+                if let Some(s) = SAMPLES.get(n * 64 + i) {
+                    s.store(*v, Relaxed);
+                }
+                *v = 0;
+            }
+            data[0] = (n as i16 - 1024) * 8;
+            true
+        }
         _ => {
             let pos = (i32::from(data[0]) + 128) as usize * 64;
             let given = pos < LENGTH.load(Relaxed);
-- 
2.43.0


From 67e2c46643670eb5a5aef2f78ca088cbb14ca391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 12/14] fix: round all columns of the AVX2 transform's rows 0
 and 4

---
 src/avx2/fdct.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index e9b6f6a..4d9a939 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -193,7 +193,15 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
+        _mm256_set_epi16(
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
+            1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
             1 << (PASS1_BITS - 1),
-- 
2.43.0


From 1fa62ca63befc777d8f0e62de48cecb019159d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 13/14] verif hook: run a block of any coordinates (cfg
 jpeg_encoder_verif_rows)

---
 src/encoder.rs    | 12 ++++++++++
 src/lib.rs        |  3 +++
 src/verif_rows.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 71 insertions(+)
 create mode 100644 src/verif_rows.rs

diff --git a/src/encoder.rs b/src/encoder.rs
index 5e98d37..26fd2c9 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1217,6 +1217,18 @@ fn get_block(
     block
 }
 
+#[cfg(jpeg_encoder_verif_rows)]
+pub(crate) fn verif_block(
+    data: &[u8],
+    start_x: usize,
+    start_y: usize,
+    col_stride: usize,
+    row_stride: usize,
+    width: usize,
+) -> [i16; 64] {
+    get_block(data, start_x, start_y, col_stride, row_stride, width)
+}
+
 fn ceil_div(value: usize, div: usize) -> usize {
     value / div + usize::from(value % div != 0)
 }
diff --git a/src/lib.rs b/src/lib.rs
index 0747d3a..f1d5494 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,6 +44,9 @@ mod quantization;
 #[cfg(jpeg_encoder_verif)]
 #[doc(hidden)]
 pub mod verif;
+#[cfg(jpeg_encoder_verif_rows)]
+#[doc(hidden)]
+pub mod verif_rows;
 mod writer;
 
 pub use encoder::{ColorType, Encoder, JpegColorType, SamplingFactor};
diff --git a/src/verif_rows.rs b/src/verif_rows.rs
new file mode 100644
index 0000000..9479711
--- /dev/null
+++ b/src/verif_rows.rs
@@ -0,0 +1,56 @@
+//! Hooks for verification harnesses: single rows and blocks of pictures of any size.
+//! Only compiled with `--cfg jpeg_encoder_verif_rows`.
+
+use crate::image_buffer::*;
+use crate::ColorType;
+use alloc::vec::Vec;
+
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+use crate::avx2::*;
+
+/// Convert one row of a picture the way [Encoder::encode](crate::Encoder::encode) does
+pub fn fill_row(
+    color_type: ColorType,
+    avx2: bool,
+    data: &[u8],
+    width: u16,
+    height: u16,
+    row: u16,
+    buffers: &mut [Vec<u8>; 4],
+) {
+    #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+    if avx2 {
+        match color_type {
+            ColorType::Rgb => return RgbImageAVX2(data, width, height).fill_buffers(row, buffers),
+            ColorType::Rgba => return RgbaImageAVX2(data, width, height).fill_buffers(row, buffers),
+            ColorType::Bgr => return BgrImageAVX2(data, width, height).fill_buffers(row, buffers),
+            ColorType::Bgra => return BgraImageAVX2(data, width, height).fill_buffers(row, buffers),
+            _ => {}
+        }
+    }
+    let _ = avx2;
+
+    match color_type {
+        ColorType::Luma => GrayImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Rgb => RgbImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Rgba => RgbaImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Bgr => BgrImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Bgra => BgraImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Ycbcr => YCbCrImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Cmyk => CmykImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::CmykAsYcck => CmykAsYcckImage(data, width, height).fill_buffers(row, buffers),
+        ColorType::Ycck => YcckImage(data, width, height).fill_buffers(row, buffers),
+    }
+}
+
+/// Read one block of a component
+pub fn block(
+    data: &[u8],
+    start_x: usize,
+    start_y: usize,
+    col_stride: usize,
+    row_stride: usize,
+    width: usize,
+) -> [i16; 64] {
+    crate::encoder::verif_block(data, start_x, start_y, col_stride, row_stride, width)
+}
-- 
2.43.0


From 9f09e5e33ce033fc0c5e964b2d735c7f75fc9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:14 +0000
Subject: [PATCH 14/14] verif hook: quantize a block, write bits (cfg
 jpeg_encoder_verif_ops)

---
 src/lib.rs       |  3 +++
 src/verif_ops.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)
 create mode 100644 src/verif_ops.rs

diff --git a/src/lib.rs b/src/lib.rs
index f1d5494..afa34ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,6 +44,9 @@ mod quantization;
 #[cfg(jpeg_encoder_verif)]
 #[doc(hidden)]
 pub mod verif;
+#[cfg(jpeg_encoder_verif_ops)]
+#[doc(hidden)]
+pub mod verif_ops;
 #[cfg(jpeg_encoder_verif_rows)]
 #[doc(hidden)]
 pub mod verif_rows;
diff --git a/src/verif_ops.rs b/src/verif_ops.rs
new file mode 100644
index 0000000..9dfc87e
--- /dev/null
+++ b/src/verif_ops.rs
@@ -0,0 +1,41 @@
+//! Hooks for verification harnesses: quantization of a block and writing of bits.
+//! Only compiled with `--cfg jpeg_encoder_verif_ops`.
+
+use crate::encoder::{DefaultOperations, Operations};
+use crate::quantization::{QuantizationTable, QuantizationTableType};
+use crate::writer::JfifWriter;
+use crate::EncodingError;
+use alloc::vec::Vec;
+
+/// Quantize a block the way the encoder does. The result is in zig-zag order.
+pub fn quantize_block(
+    avx2: bool,
+    block: &[i16; 64],
+    table: &QuantizationTableType,
+    quality: u8,
+    luma: bool,
+) -> [i16; 64] {
+    let table = QuantizationTable::new_with_quality(table, quality, luma);
+    let mut q_block = [0; 64];
+
+    #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+    if avx2 {
+        crate::avx2::AVX2Operations::quantize_block(block, &mut q_block, &table);
+        return q_block;
+    }
+    let _ = avx2;
+
+    DefaultOperations::quantize_block(block, &mut q_block, &table);
+    q_block
+}
+
+/// Write values of the given numbers of bits, and pad the last byte
+pub fn write_bits(values: &[(u32, u8)]) -> Result<Vec<u8>, EncodingError> {
+    let mut data = Vec::with_capacity(256);
+    let mut writer = JfifWriter::new(&mut data);
+    for &(value, size) in values {
+        writer.write_bits(value, size)?;
+    }
+    writer.finalize_bit_buffer()?;
+    Ok(data)
+}
-- 
2.43.0

