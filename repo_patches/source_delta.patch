From 9c025289c384074cd0bd345c20825c93dd3bcf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 01/30] fix: compute the vertex bounding box from each axis'
 own coordinates

The running minima and maxima of different axes were mixed up, so that a
vertex could lie outside the saved box and be restored somewhere else, and
the z precision was derived from the y extent.
---
 src/vertices.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From a5947df6068b36622c974b93f9f01c3ec5dc5a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/30] fix: saving a mesh with an empty vertex array panicked

---
 src/vertices.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..92fb9fa 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -34,12 +34,14 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    // An empty array is saved with an empty bounding box.
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 876688fee07ff97879d146a56017325b268d096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 03/30] fix: saving a mesh with degenerate or incomplete
 triangles panicked

A zero-length edge made the reference length of the vertex precision zero,
and a triangle array without one whole triangle made it infinite.
---
 src/tmf_exporter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..81ce3dc 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -49,7 +49,16 @@ fn calc_shortest_edge(
                     vertices[vertex_triangles[i * 3 + 2] as usize],
                     vertices[vertex_triangles[i * 3] as usize],
                 );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+                // Edges of degenerate triangles have no length, and can't be used as a reference length.
+                for edge in [d1, d2, d3] {
+                    if edge > 0.0 {
+                        shortest_edge = shortest_edge.min(edge);
+                    }
+                }
+            }
+            if shortest_edge == FloatType::INFINITY {
+                // No edge with a length, handle the same way as a mesh with no faces.
+                return 0.1;
             }
             shortest_edge
         }
-- 
2.43.0


From a768f1a2b6842fedbd4fd54974bf7907c8d52e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 04/30] fix: unaligned reads of 64 bits, of zero-width triples
 and of unequal pairs

A 64 bit wide read (two 32 bit indices included) returned 0 without consuming
anything, so indices of 2^31 and above were lost; a pair of values of unequal
width was split at the wrong bit; three zero-width values overflowed a shift.
---
 src/unaligned_rw.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..44f9afe 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -75,12 +75,15 @@ impl<R: Read> UnalignedReader<R> {
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
-            Ok((r1, r2))
+            let r2_mask = u64::MAX.checked_shr(u32::from(u64::BITS as u8 - mode2.0));
+            let r1 = data.checked_shr(u32::from(mode2.0));
+            Ok((r1.unwrap_or(0), data & r2_mask.unwrap_or(0)))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
+        if mode.0 == 0 {
+            return Ok((0, 0, 0));
+        }
         if mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
@@ -96,7 +99,7 @@ impl<R: Read> UnalignedReader<R> {
     }
     /// Reads *mode.0* bits from self, keeping internal alignment
     pub fn read_unaligned(&mut self, mode: UnalignedRWMode) -> Result<u64> {
-        if mode.0 == 0 || mode.0 >= u64::BITS as u8 {
+        if mode.0 == 0 {
             return Ok(0);
         };
         // Prepare result integer, in which read result is stored.
@@ -111,7 +114,9 @@ impl<R: Read> UnalignedReader<R> {
             // Get amount of bits to read in current iteration: either all bits left in current_byte, or all bits remaining to read, whichever lower
             let read_ammount = total_read.min(UNALIGNED_STORAGE_BITS - self.bits_read);
             // Move res by amount of bits bits_read in current iteration to prepare res for reading into in next iteration.
-            res <<= read_ammount;
+            if read_ammount < u64::BITS as u8 {
+                res <<= read_ammount;
+            }
             // Calculate offset of bits_read bits in current byte.
             let read_offset = UNALIGNED_STORAGE_BITS - read_ammount;
             // Read bits in current_byte at read_offset into res.
-- 
2.43.0


From ff105527c064bcf68909811e2d45a1bf838d1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 05/30] fix: saved values could deviate by more than the
 requested precision

Fixed-point values were truncated instead of rounded to the nearest one, were
calculated with a multiplier which overflowed (31 bits and more) or was not
exact (25 bits and more), so that the biggest value of a range wrapped around
to 0, and model dimensions below 1e-6 were scaled by another factor when saved
than when read. Precisions a reader rejects or can't use are not written.
---
 src/custom_data.rs  | 25 ++++++++++++++-----------
 src/normals.rs      | 13 +++++++------
 src/unaligned_rw.rs |  7 +++++++
 src/uv.rs           | 11 ++++++-----
 src/vertices.rs     | 26 ++++++++++----------------
 5 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..091a706 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -90,7 +90,9 @@ impl CustomData {
                 crate::vertices::save_triangles(data, *max_index, target)
             }
             Self::CustomFloat(data, prec) => {
-                use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
+                use crate::unaligned_rw::{
+                    to_fixed_point, UnalignedRWMode, UnalignedWriter, MAX_FIXED_POINT_BITS,
+                };
                 let mut max = FloatType::MIN;
                 let mut min = FloatType::MAX;
                 for entry in data.iter() {
@@ -99,9 +101,8 @@ impl CustomData {
                 }
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer) and never higher than what can be read back;
+                let prec = prec.clamp(1, MAX_FIXED_POINT_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,24 +110,26 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = to_fixed_point((entry - min) as f64 / span as f64, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
             }
             Self::CustomColorRGBA(data, prec) => {
-                use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
+                use crate::unaligned_rw::{
+                    to_fixed_point, UnalignedRWMode, UnalignedWriter, MAX_FIXED_POINT_BITS,
+                };
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                let prec_bits = prec_bits.min(MAX_FIXED_POINT_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = to_fixed_point(entry.0 as f64, prec_bits);
+                    let entry_g = to_fixed_point(entry.1 as f64, prec_bits);
+                    let entry_b = to_fixed_point(entry.2 as f64, prec_bits);
+                    let entry_a = to_fixed_point(entry.3 as f64, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..ecb20a7 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -1,5 +1,7 @@
 use crate::read_extension::ReadExt;
-use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::unaligned_rw::{
+    to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
+};
 use crate::{FloatType, TMFImportError, Vector3, MAX_SEG_SIZE};
 #[cfg(not(feature = "double_precision"))]
 use std::f32::consts::FRAC_PI_2;
@@ -22,7 +24,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, MAX_FIXED_POINT_BITS);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +36,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, MAX_FIXED_POINT_BITS);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
@@ -68,7 +70,6 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +78,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = to_fixed_point(asine as f64, precision.0);
+    let z = to_fixed_point(normal.2.abs() as f64, precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 44f9afe..1eb9f2d 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -224,6 +224,13 @@ impl<W: Write> UnalignedWriter<W> {
         self.writer.flush()
     }
 }
+/// The highest amount of bits a fixed-point value(e.g. a coordinate) may be saved with.
+pub(crate) const MAX_FIXED_POINT_BITS: u8 = 63;
+/// Returns the value nearest to *fraction*(which should be between 0 and 1) of the ones that may be saved using *bits* bits.
+pub(crate) fn to_fixed_point(fraction: f64, bits: u8) -> u64 {
+    let max = (1_u64 << bits.min(MAX_FIXED_POINT_BITS)) - 1;
+    ((fraction * max as f64).round() as u64).min(max)
+}
 #[derive(Clone, Copy)]
 pub struct UnalignedRWMode(u8);
 impl UnalignedRWMode {
diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..e9b8300 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,5 +1,7 @@
 use crate::read_extension::ReadExt;
-use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::unaligned_rw::{
+    to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
+};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
@@ -14,7 +16,7 @@ impl UvPrecisionMode {
     /// let mode = UvPrecisionMode::form_texture_resolution(1024.0,0.1);
     /// ```
     pub fn form_texture_resolution(resolution: f32, pixel_dev: f32) -> Self {
-        Self((resolution / pixel_dev).log2().ceil() as u8)
+        Self(((resolution / pixel_dev).log2().ceil() as u8).min(MAX_FIXED_POINT_BITS))
     }
 }
 impl Default for UvPrecisionMode {
@@ -36,14 +38,13 @@ pub fn save_uvs<W: Write>(
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
     let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = to_fixed_point(uv.0 as f64, precision.bits());
+        let y = to_fixed_point(uv.1 as f64, precision.bits());
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
diff --git a/src/vertices.rs b/src/vertices.rs
index 92fb9fa..14321e7 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,5 +1,7 @@
 use crate::read_extension::ReadExt;
-use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::unaligned_rw::{
+    to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
+};
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, IndexType, Vector3};
@@ -62,10 +64,6 @@ pub fn save_tmf_vertices<W: Write>(
     let sx = max_x - min_x;
     let sy = max_y - min_y;
     let sz = max_z - min_z;
-    // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
@@ -74,18 +72,14 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, and never higher than what can be read back.
+    let prec_x = prec_x.clamp(1, MAX_FIXED_POINT_BITS);
+    let prec_y = prec_y.clamp(1, MAX_FIXED_POINT_BITS);
+    let prec_z = prec_z.clamp(1, MAX_FIXED_POINT_BITS);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -93,9 +87,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = to_fixed_point((vertex.0 - min_x) as f64 / sx as f64, prec_x.bits());
+        let y = to_fixed_point((vertex.1 - min_y) as f64 / sy as f64, prec_y.bits());
+        let z = to_fixed_point((vertex.2 - min_z) as f64 / sz as f64, prec_z.bits());
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From b971f700b936aa64986e718e45a410fbcaeb6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 06/30] fix: horizontal angle of a normal was imprecise near
 the x axis

asin of a single precision number close to 1 is off by up to 0.02 degrees,
which is more than the deviation high precision settings allow.
---
 src/normals.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index ecb20a7..dd49ed8 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -72,9 +72,8 @@ pub(crate) fn normal_to_encoding(
 ) -> (u64, u64, bool, bool, bool) {
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
-    let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
-    let xy = (xy.0 / xy_mag, xy.1 / xy_mag);
-    let asine = xy.0.asin();
+    // Equal to asine of x divided by xy magnitude, but exact near PI/2 and defined when x and y are both 0.
+    let asine = xy.0.atan2(xy.1);
 
     let asine = asine / (PI / 2.0);
     //
-- 
2.43.0


From 61d892c4f17c8c5ead3a91b7c00fb5216f63d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 07/30] fix: custom float and color data grew by one bit with
 each load and save

The precision restored when reading was a bit below the one of the saved data,
instead of a bit above it, so that saving needed one more bit each time.
---
 src/custom_data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 091a706..6d77921 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -242,7 +242,7 @@ impl CustomDataSegment {
                     let val = reader.read_unaligned(prec)?;
                     *float = (((val as f64) / div) * span + min) as FloatType;
                 }
-                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_float(&res, prec),
                     name,
@@ -267,7 +267,7 @@ impl CustomDataSegment {
                         ((a as f64) / div) as FloatType,
                     );
                 }
-                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
                     CustomData::new_color_rgba(&res, prec),
                     name,
-- 
2.43.0


From 28fcac9b06060565398adbeab583593fa5e9c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 08/30] fix: saving a mesh reversed the order of its custom
 data

Looking up a name used more than once gave another array after a load.
---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 81ce3dc..c01849a 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -88,6 +88,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end, restore their order(relevant for custom data with equal names).
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 6d3a0ccb07f0e59ecef88c67e311e0c4f42f7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 09/30] fix: a mesh with too long a name or too many segments
 was saved as a corrupt file

The name length and segment count wrapped around at 65536. Report an error.
---
 src/tmf_exporter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index c01849a..b8adbcb 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -74,9 +74,13 @@ fn calc_shortest_edge(
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    let len = fit_in_u16(bytes.len(), "Mesh name is longer than 65535 bytes.")?;
+    w.write_all(&len.to_le_bytes())?;
     w.write_all(bytes)
 }
+fn fit_in_u16(value: usize, msg: &str) -> std::io::Result<u16> {
+    u16::try_from(value).map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidInput, msg))
+}
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
     let mut segments: Vec<_> = segments.into();
     let mut new_segments = Vec::with_capacity(segments.len());
@@ -116,7 +120,8 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    let seg_count = fit_in_u16(encoded.len(), "Mesh has more than 65535 segments.")?;
+    target.write_all(&seg_count.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
-- 
2.43.0


From bc6638148888920539a3aca70fb79c73a99f7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 10/30] fix: a damaged file could abort or panic the reader

Memory was reserved, and for index arrays exposed uninitialised, for as many
elements or bytes as a file claims to have (up to 34 GB) before reading any of
them, and the length and precision of color data were not checked at all.
Indices saved with zero bits ignored the saved smallest index.
---
 src/custom_data.rs  | 22 ++++++++++++++--------
 src/lib.rs          |  2 ++
 src/normals.rs      |  6 +++---
 src/tangents.rs     |  2 +-
 src/tmf.rs          | 11 +++++++++--
 src/tmf_importer.rs | 25 +++++++++----------------
 src/uv.rs           |  4 ++--
 src/vertices.rs     |  6 +++---
 8 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 6d77921..1b5461b 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,6 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
-use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
+use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_INITIAL_CAPACITY, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
     name: Vec<u8>,
@@ -237,10 +237,10 @@ impl CustomDataSegment {
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![0.0; len as usize];
-                for float in &mut res {
+                let mut res = Vec::with_capacity((len as usize).min(MAX_INITIAL_CAPACITY));
+                for _ in 0..len {
                     let val = reader.read_unaligned(prec)?;
-                    *float = (((val as f64) / div) * span + min) as FloatType;
+                    res.push((((val as f64) / div) * span + min) as FloatType);
                 }
                 let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
@@ -252,20 +252,26 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
+                let mut res = Vec::with_capacity((len as usize).min(MAX_INITIAL_CAPACITY));
                 let div = ((1_u64 << prec_bits) - 1) as f64;
-                for vec4 in &mut res {
+                for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
-                    *vec4 = (
+                    res.push((
                         ((r as f64) / div) as FloatType,
                         ((g as f64) / div) as FloatType,
                         ((b as f64) / div) as FloatType,
                         ((a as f64) / div) as FloatType,
-                    );
+                    ));
                 }
                 let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 1.00001;
                 Ok(Self::new_raw(
diff --git a/src/lib.rs b/src/lib.rs
index b8bff8e..5a60a19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,6 +59,8 @@ const MIN_TMF_MAJOR: u16 = 0;
 const MIN_TMF_MINOR: u16 = 2;
 pub(crate) const MAX_SEG_SIZE: usize = 0x80_00_00_00; //Standard
                                                       //pub(crate) const MAX_SEG_SIZE: usize = 2_00_00;// for fuzzing!
+/// Maximal capacity reserved based only on an element count read from a file, before any of those elements are read.
+pub(crate) const MAX_INITIAL_CAPACITY: usize = 0x1_00_00;
 /// Index type used for representing triangle indices.
 #[cfg(not(any(feature = "long_indices", feature = "short_indices")))]
 pub type IndexType = u32;
diff --git a/src/normals.rs b/src/normals.rs
index dd49ed8..6ec7b97 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -2,7 +2,7 @@ use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{
     to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
 };
-use crate::{FloatType, TMFImportError, Vector3, MAX_SEG_SIZE};
+use crate::{FloatType, TMFImportError, Vector3, MAX_INITIAL_CAPACITY, MAX_SEG_SIZE};
 #[cfg(not(feature = "double_precision"))]
 use std::f32::consts::FRAC_PI_2;
 #[cfg(feature = "double_precision")]
@@ -179,7 +179,7 @@ pub(crate) fn read_normal_array<R: Read>(reader: &mut R) -> Result<Box<[Vector3]
     }
     let precision = NormalPrecisionMode(precision);
     let mut reader = UnalignedReader::new(reader);
-    let mut normals = Vec::with_capacity(count);
+    let mut normals = Vec::with_capacity(count.min(MAX_INITIAL_CAPACITY));
     for _ in 0..count {
         let normal = read_normal(precision, &mut reader)?;
         normals.push(normal);
@@ -243,7 +243,7 @@ mod test_normal {
         let mut rng = thread_rng();
         let count = ((rng.gen::<crate::IndexType>() % 0x800) + 0x800) as usize;
         let mut res = Vec::with_capacity(count);
-        let mut normals = Vec::with_capacity(count);
+        let mut normals = Vec::with_capacity(count.min(MAX_INITIAL_CAPACITY));
         for _ in 0..count {
             let norm = (
                 rng.gen::<FloatType>() * 2.0 - 1.0,
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..87c6bed 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -102,7 +102,7 @@ pub(crate) fn read_tangents<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     let prec = UnalignedRWMode::precision_bits(bits_prec);
     let tan_prec = TangentPrecisionMode::from_bits(bits_prec);
-    let mut tangents = Vec::with_capacity(count as usize);
+    let mut tangents = Vec::with_capacity((count as usize).min(crate::MAX_INITIAL_CAPACITY));
     for _ in 0..count {
         let handeness = reader.read_bit()?;
         let sx = reader.read_bit()?;
diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..26cf131 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -10,6 +10,7 @@ use crate::{
     Tangent, Vector2, Vector3,
 };
 use smallvec::{smallvec, SmallVec};
+use std::io::Read;
 #[repr(u16)]
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub(crate) enum SectionType {
@@ -146,8 +147,14 @@ impl EncodedSegment {
             return Err(TMFImportError::SegmentTooLong);
         }
         let compresion_type = CompressionType::from_u8(src.read_u8()?)?;
-        let mut data = vec![0; data_length];
-        src.read_exact(&mut data)?;
+        // Length is not known to be valid, so memory is only allocated for data that is really there.
+        let mut data = Vec::new();
+        Read::take(src, data_length as u64).read_to_end(&mut data)?;
+        if data.len() != data_length {
+            return Err(TMFImportError::IO(std::io::Error::from(
+                std::io::ErrorKind::UnexpectedEof,
+            )));
+        }
         Ok(Self {
             data: data.into(),
             compresion_type,
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..dc6d2ee 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -266,25 +266,18 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    data.reserve(length as usize);
-    let buf = data.spare_capacity_mut();
+    data.reserve((length as usize).min(crate::MAX_INITIAL_CAPACITY));
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
-    if precision_bits == 0 {
-        use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
-    } else {
-        for index in 0..(length as usize) / 2 {
-            let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
-        }
-        if length % 2 != 0 {
-            let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
-        }
+    for _ in 0..length / 2 {
+        let (i1, i2) = reader.read2_unaligned(precision)?;
+        data.push((i1 + min) as IndexType);
+        data.push((i2 + min) as IndexType);
+    }
+    if length % 2 != 0 {
+        let i = reader.read_unaligned(precision)?;
+        data.push((i + min) as IndexType);
     }
-    unsafe { data.set_len(length as usize) }
     Ok(())
 }
 #[allow(dead_code)]
diff --git a/src/uv.rs b/src/uv.rs
index e9b8300..aabeee9 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -3,7 +3,7 @@ use crate::unaligned_rw::{
     to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
 };
 use crate::TMFImportError;
-use crate::MAX_SEG_SIZE;
+use crate::{MAX_INITIAL_CAPACITY, MAX_SEG_SIZE};
 use crate::{FloatType, Vector2};
 use std::io::{Read, Write};
 /// Setting dictating how precisely the UV coordinates should be saved.
@@ -63,7 +63,7 @@ pub fn read_uvs<R: Read>(reader: &mut R) -> Result<Box<[Vector2]>, TMFImportErro
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut uvs = Vec::with_capacity(count as usize);
+    let mut uvs = Vec::with_capacity((count as usize).min(MAX_INITIAL_CAPACITY));
     let divisor = ((1_u64 << precision) - 1) as FloatType;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
diff --git a/src/vertices.rs b/src/vertices.rs
index 14321e7..89c1f71 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -3,7 +3,7 @@ use crate::unaligned_rw::{
     to_fixed_point, UnalignedRWMode, UnalignedReader, UnalignedWriter, MAX_FIXED_POINT_BITS,
 };
 use crate::TMFImportError;
-use crate::MAX_SEG_SIZE;
+use crate::{MAX_INITIAL_CAPACITY, MAX_SEG_SIZE};
 use crate::{FloatType, IndexType, Vector3};
 use std::io::{Read, Write};
 #[derive(Clone, Copy, PartialEq)]
@@ -136,7 +136,7 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     if vertex_count > MAX_SEG_SIZE {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut vertices = Vec::with_capacity(vertex_count);
+    let mut vertices = Vec::with_capacity(vertex_count.min(MAX_INITIAL_CAPACITY));
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..vertex_count {
         //let (x,y) = reader.read_pair_unaligned(prec_x,prec_y)?;
@@ -199,7 +199,7 @@ pub(crate) fn read_triangles<R: Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut res = Vec::with_capacity(length as usize);
+    let mut res = Vec::with_capacity((length as usize).min(MAX_INITIAL_CAPACITY));
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
-- 
2.43.0


From 4accdb0d869fff36cd2066eebe29a0fee20cae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 11/30] fix: invalid index arrays were read as wrong indices,
 or panicked

Index precisions over 64 bits and indices which do not fit the index type are
reported as errors.
---
 src/tmf_importer.rs | 10 +++++++---
 src/vertices.rs     | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index dc6d2ee..dff98bb 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -3,6 +3,7 @@ use crate::tmf::CompressionType;
 use crate::tmf::{DecodedSegment, EncodedSegment, SectionType};
 use crate::unaligned_rw::UnalignedRWMode;
 use crate::unaligned_rw::UnalignedReader;
+use crate::vertices::offset_index;
 use crate::CustomDataSegment;
 use crate::IndexType;
 use crate::MAX_SEG_SIZE;
@@ -261,6 +262,9 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<(), TMFImportError> {
     let precision_bits = src.read_u8()?;
+    if precision_bits > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     let length = src.read_u64()?;
     let min = ctx.read_traingle_min(&mut src)?;
     if length > MAX_SEG_SIZE as u64 {
@@ -271,12 +275,12 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     for _ in 0..length / 2 {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        data.push((i1 + min) as IndexType);
-        data.push((i2 + min) as IndexType);
+        data.push(offset_index(i1, min)?);
+        data.push(offset_index(i2, min)?);
     }
     if length % 2 != 0 {
         let i = reader.read_unaligned(precision)?;
-        data.push((i + min) as IndexType);
+        data.push(offset_index(i, min)?);
     }
     Ok(())
 }
diff --git a/src/vertices.rs b/src/vertices.rs
index 89c1f71..2e1eb45 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -194,6 +194,9 @@ pub(crate) fn read_triangles<R: Read>(
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<Box<[IndexType]>, TMFImportError> {
     let precision = reader.read_u8()?;
+    if precision > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
     let length = reader.read_u64()?;
     let min = ctx.read_traingle_min(reader)?;
     if length > MAX_SEG_SIZE as u64 {
@@ -204,14 +207,25 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(offset_index(i1, min)?);
+        res.push(offset_index(i2, min)?);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(offset_index(reader.read_unaligned(precision)?, min)?);
     }
     Ok(res.into())
 }
+/// Calculates an index from its saved *offset* from the smallest index *min*.
+pub(crate) fn offset_index(offset: u64, min: u64) -> Result<IndexType, TMFImportError> {
+    let index = offset.checked_add(min).map(IndexType::try_from);
+    match index {
+        Some(Ok(index)) => Ok(index),
+        _ => Err(TMFImportError::IO(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "An index is too big for the index type",
+        ))),
+    }
+}
 #[cfg(test)]
 mod testing {
     fn dst(a: Vector3, b: Vector3) -> FloatType {
-- 
2.43.0


From 68dc7c5cf549a8fbf0a0c47f05ab5b86eddb05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 12/30] fix: a segment with an unsupported compression was
 decoded as though it had none

---
 src/tmf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tmf.rs b/src/tmf.rs
index 26cf131..a5427a9 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -415,6 +415,12 @@ impl DecodedSegment {
         ctx: &crate::tmf_importer::TMFImportContext,
     ) -> Result<Self, TMFImportError> {
         //println!("Decoding segment of type:{:?}!",seg.seg_type());
+        // Data of a segment which is going to be ignored does not need to be supported.
+        if seg.seg_type != SectionType::Invalid && seg.compresion_type != CompressionType::None {
+            return Err(TMFImportError::UnsuportedCompressionType(
+                seg.compresion_type as u8,
+            ));
+        }
         match seg.seg_type {
             SectionType::Invalid => Ok(Self::Nothing),
             SectionType::VertexSegment => decode_vertex_seg(seg).await,
-- 
2.43.0


From a6311d5ad941868f3c6498dc919aa0b007b05bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 13/30] fix: values saved with zero bits were read as NaN

Colors may be saved that way, when the allowed deviation is 1 or more.
---
 src/custom_data.rs | 4 ++--
 src/vertices.rs    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 1b5461b..5dbd730 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -233,7 +233,7 @@ impl CustomDataSegment {
                     return Err(TMFImportError::InvalidPrecision(prec));
                 }
                 let prec_bits = prec;
-                let div = ((1_u64 << prec_bits) - 1) as f64;
+                let div = ((1_u64 << prec_bits) - 1).max(1) as f64;
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
@@ -262,7 +262,7 @@ impl CustomDataSegment {
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = Vec::with_capacity((len as usize).min(MAX_INITIAL_CAPACITY));
-                let div = ((1_u64 << prec_bits) - 1) as f64;
+                let div = ((1_u64 << prec_bits) - 1).max(1) as f64;
                 for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
diff --git a/src/vertices.rs b/src/vertices.rs
index 2e1eb45..195b3f3 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -121,9 +121,9 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
         return Err(TMFImportError::InvalidPrecision(prec_z));
     }
     // Calculate float read divisor
-    let div_x = ((1_u64 << prec_x) - 1) as FloatType;
-    let div_y = ((1_u64 << prec_y) - 1) as FloatType;
-    let div_z = ((1_u64 << prec_z) - 1) as FloatType;
+    let div_x = ((1_u64 << prec_x) - 1).max(1) as FloatType;
+    let div_y = ((1_u64 << prec_y) - 1).max(1) as FloatType;
+    let div_z = ((1_u64 << prec_z) - 1).max(1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
-- 
2.43.0


From d45aa20f351ee55ca911e764e5996ed601c2606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 14/30] fix: verify accepted out of bounds indices, out of
 range UVs and NaN normals

An index equal to the array length was accepted, and the UV range check could
never fail since it required a coordinate to be below 0 and above 1 at once.
---
 src/verify.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..f39eb5a 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -59,9 +59,9 @@ impl std::fmt::Debug for TMFIntegrityStatus {
     }
 }
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
-fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
+fn indices_inside_array(array: &[IndexType], length: usize) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index as usize >= length {
             return Some(*index);
         }
     }
@@ -77,7 +77,7 @@ fn verify_vertices(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
         }
         Some(vertices) => match mesh.get_vertex_triangles() {
-            Some(triangles) => match indices_inside_array(triangles, vertices.len() as IndexType) {
+            Some(triangles) => match indices_inside_array(triangles, vertices.len()) {
                 Some(index) => Err(TMFIntegrityStatus::IndexOutsideVertexArray(
                     index,
                     vertices.len() as IndexType,
@@ -99,12 +99,12 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !(0.0..=1.0).contains(&uv.0) || !(0.0..=1.0).contains(&uv.1) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
             match mesh.get_uv_triangles() {
-                Some(triangles) => match indices_inside_array(triangles, uvs.len() as IndexType) {
+                Some(triangles) => match indices_inside_array(triangles, uvs.len()) {
                     Some(index) => Err(TMFIntegrityStatus::IndexOutsideUVArray(
                         index,
                         uvs.len() as IndexType,
@@ -128,13 +128,14 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                let deviation = (1.0 - magnitude(*normal)).abs();
+                if deviation.is_nan() || deviation > 0.001 {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
             match mesh.get_normal_triangles() {
                 Some(triangles) => {
-                    match indices_inside_array(triangles, normals.len() as IndexType) {
+                    match indices_inside_array(triangles, normals.len()) {
                         Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
                             index,
                             normals.len() as IndexType,
-- 
2.43.0


From 68ab6082a4fcdb44bddc198e455b64cb1a12722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 15/30] fix: normalizing zero, tiny and huge normals gave NaN
 or zero vectors

---
 src/utilis.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..9ae0d66 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -50,14 +50,17 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     (xx + yy + zz).sqrt()
 }
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    let xx = i.0 * i.0;
-    let yy = i.1 * i.1;
-    let zz = i.2 * i.2;
-    let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    // Squares of very big and very small single precision numbers are only representable in double precision.
+    let (x, y, z) = (i.0 as f64, i.1 as f64, i.2 as f64);
+    let mag = (x * x + y * y + z * z).sqrt();
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
-        (i.0 / mag, i.1 / mag, i.2 / mag)
+        (
+            (x / mag) as FloatType,
+            (y / mag) as FloatType,
+            (z / mag) as FloatType,
+        )
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-- 
2.43.0


From 76603ef3d4b34cb4b2718ac7e1cd32caee1da577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 16/30] fix: estimating the cost of saving vertices far apart
 overflowed

The sum of the bits of 3 coordinates did not fit in u8 (a panic in debug builds),
and the z coordinate was not considered.
---
 src/tmf_exporter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index b8adbcb..819dfd1 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -294,17 +294,17 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         smallvec![triangles]
     }
 }
-fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
+fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> usize {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
-    let _dz = span.end.2 - span.start.2;
+    let dz = span.end.2 - span.start.2;
     let inc_x = shortest_edge / dx;
     let inc_y = shortest_edge / dy;
-    let inc_z = shortest_edge / dy;
+    let inc_z = shortest_edge / dz;
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    prec_x as usize + prec_y as usize + prec_z as usize
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
@@ -339,7 +339,7 @@ fn find_best_vertex_spilt(vertices: &[Vector3], shortest_edge: FloatType) -> Opt
 
         } else {
             let gain_per_vert = total_per_vertex_bit_count - per_vertex_bit_count;
-            let gain = index * (gain_per_vert as usize);
+            let gain = index * gain_per_vert;
             let loss = TMF_SEG_SIZE
                 + std::mem::size_of::<u64>()
                 + 6 * std::mem::size_of::<f64>()
-- 
2.43.0


From f224cadd108ddb935a5df010a90d86fb3c42237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 17/30] fix: OBJ faces without all three indices per corner
 were misread, and names cut at the first space

---
 src/model_importer.rs | 42 +++++++++++++++++++++-------
 src/obj.rs            | 64 ++++++++++++++++++++++++-------------------
 2 files changed, 68 insertions(+), 38 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..c056a77 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -14,6 +14,10 @@ pub(crate) struct ModelImporter {
     normal_triangles: Vec<IndexType>,
     uv_triangles: Vec<IndexType>,
     name: String,
+    /// True if any face of the current mesh has uv indices
+    has_uvs: bool,
+    /// True if any face of the current mesh has normal indices
+    has_normals: bool,
 }
 impl ModelImporter {
     pub(crate) fn new() -> Self {
@@ -25,6 +29,8 @@ impl ModelImporter {
             normal_triangles: Vec::new(),
             uv_triangles: Vec::new(),
             name: "".to_owned(),
+            has_uvs: false,
+            has_normals: false,
         }
     }
     pub(crate) fn next_mesh(&mut self, mut name: String) -> Option<(TMFMesh, String)> {
@@ -45,16 +51,22 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Indices of attributes no face uses are only placeholders
+        if self.has_normals {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if self.has_uvs {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         self.vertex_triangles.clear();
         self.normal_triangles.clear();
         self.uv_triangles.clear();
+        self.has_normals = false;
+        self.has_uvs = false;
 
         Some((mesh, name))
     }
@@ -72,12 +84,17 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Indices of attributes no face uses are only placeholders
+        let no_faces = self.vertex_triangles.is_empty();
+        if self.has_normals || no_faces {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if self.has_uvs || no_faces {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         Ok((mesh, self.name))
     }
@@ -90,6 +107,11 @@ impl ModelImporter {
     pub(crate) fn push_uv(&mut self, uv: Vector2) {
         self.uvs.push(uv);
     }
+    // Notes which attributes a corner of a face of the current mesh has
+    pub(crate) fn note_attributes(&mut self, has_uv: bool, has_normal: bool) {
+        self.has_uvs |= has_uv;
+        self.has_normals |= has_normal;
+    }
     // Pushes raw index into vertex triangles. WARNING: should be used with caution, because if number of pushed indices is not divisible by 3 this will corrupt the mesh
     fn push_vertex_index(&mut self, index: IndexType) {
         self.vertex_triangles.push(index);
diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..259030f 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -4,10 +4,14 @@ use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
 fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
-    // Split the line by white spaces and '/' sign used in triangles
-    let mut split = line.split(&[' ', '/']);
+    // Split the line by white spaces
+    let mut split = line.split_whitespace();
     // Get the beginning of the line
-    let beg = match_split(split.next())?;
+    let beg = match split.next() {
+        Some(beg) => beg,
+        // Ignore empty lines
+        None => return Ok(None),
+    };
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -18,7 +22,8 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         "vt" => oi.push_uv(load_vec2(&mut split)?),
         "f" => load_face(&mut split, oi)?,
         "o" => {
-            let name = match_split(split.next())?.to_owned();
+            // The name is the rest of the line, and may contain white spaces.
+            let name = line.trim()[beg.len()..].trim().to_owned();
             return Ok(oi.next_mesh(name));
         }
         _ => (), //Ignore invalid/unsuported lines.
@@ -48,9 +53,6 @@ fn parse_float_type(float: &str) -> Result<FloatType> {
         )),
     }
 }
-fn parse_index(uint: &str) -> IndexType {
-    uint.parse::<IndexType>().unwrap_or(1)
-}
 fn match_split(split: Option<&str>) -> Result<&str> {
     match split {
         Some(beg) => Ok(beg),
@@ -61,39 +63,45 @@ fn match_split(split: Option<&str>) -> Result<&str> {
     }
 }
 use smallvec::SmallVec;
-use std::str::Split;
-fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType, IndexType)> {
-    let (i0, i1, i2) = (
-        match_split(split.next())?,
-        match_split(split.next())?,
-        match_split(split.next())?,
-    );
-    let (i0, i1, i2) = (parse_index(i0), parse_index(i1), parse_index(i2));
-    if i0 < 1 || i1 < 1 || i2 < 1 {
-        Err(std::io::Error::new(
-            std::io::ErrorKind::Other,
-            "Invalid index!",
-        ))
-    } else {
-        Ok((i0 - 1, i1 - 1, i2 - 1))
+use std::str::SplitWhitespace;
+/// Loads the index of an attribute of a face corner, or [`None`] if the corner does not have this attribute.
+fn load_index(index: Option<&str>) -> Result<Option<IndexType>> {
+    match index {
+        None | Some("") => Ok(None),
+        Some(index) => match index.parse::<IndexType>() {
+            Ok(index) if index >= 1 => Ok(Some(index - 1)),
+            _ => Err(Error::new(ErrorKind::Other, "Invalid index!")),
+        },
     }
 }
 ///IMPORTANT TODO: It seems likey that normals and uvs are spwapped in this function. Investigate and cleanup the confusion and refactor triangulation
-fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()> {
+fn load_face(split: &mut SplitWhitespace, oi: &mut ModelImporter) -> Result<()> {
     let mut vertex_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut uv_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut normal_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    while let Ok((vertex_index, uv_index, normal_index)) = load_indices(split) {
+    for corner in split {
+        if corner.starts_with('#') {
+            // The rest of the line is a comment
+            break;
+        }
+        let mut corner = corner.split('/');
+        let vertex_index = match load_index(corner.next())? {
+            Some(index) => index,
+            None => return Err(Error::new(ErrorKind::Other, "Invalid index!")),
+        };
+        let uv_index = load_index(corner.next())?;
+        let normal_index = load_index(corner.next())?;
+        oi.note_attributes(uv_index.is_some(), normal_index.is_some());
         vertex_indices.push(vertex_index);
-        uv_indices.push(uv_index);
-        normal_indices.push(normal_index);
+        uv_indices.push(uv_index.unwrap_or(0));
+        normal_indices.push(normal_index.unwrap_or(0));
     }
     match oi.push_face(&vertex_indices, &uv_indices, &normal_indices) {
         Ok(()) => Ok(()),
         Err(msg) => Err(Error::new(ErrorKind::Other, msg)),
     }
 }
-pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
+pub fn load_vec3(split: &mut SplitWhitespace) -> Result<Vector3> {
     let (x, y, z) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -105,7 +113,7 @@ pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
         parse_float_type(z)?,
     ))
 }
-pub fn load_vec2(split: &mut Split<&[char; 2]>) -> Result<Vector2> {
+pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
     let (x, y) = (match_split(split.next())?, match_split(split.next())?);
     Ok((parse_float_type(x)?, parse_float_type(y)?))
 }
-- 
2.43.0


From 1ab1135da3dce2d1a5c1a27701ea8e5b32e12abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 18/30] fix: indices of meshes saved to an OBJ file after a
 mesh without faces were wrong

---
 src/obj.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 259030f..5879131 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -149,6 +149,14 @@ fn save_obj<W: Write>(
             }
         }
     }
+    let normal_count = match mesh.get_normals() {
+        Some(normals) => normals.len(),
+        None => 0,
+    };
+    let uv_count = match mesh.get_uvs() {
+        Some(uvs) => uvs.len(),
+        None => 0,
+    };
     // Check triangle arrays
     // Get the length of the vertex triangle array to use for later array size comparison
     let vert_triangle_len = match mesh.get_vertex_triangles() {
@@ -164,7 +172,11 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok((
+                vertex_count as IndexType,
+                uv_count as IndexType,
+                normal_count as IndexType,
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
@@ -211,14 +223,6 @@ fn save_obj<W: Write>(
             write!(w, " ")?
         }
     }
-    let normal_count = match mesh.get_normals() {
-        Some(normals) => normals.len(),
-        None => 0,
-    };
-    let uv_count = match mesh.get_uvs() {
-        Some(uvs) => uvs.len(),
-        None => 0,
-    };
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
     Ok((
         vertex_count as IndexType,
-- 
2.43.0


From 4fd8113f990459dfe8e38211dc1ce63899d3679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 19/30] fix: triangulation used wrong previous corners and
 panicked on missing vertices

---
 src/model_importer.rs | 6 ++++++
 src/triangulation.rs  | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index c056a77..3de1eb7 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -159,6 +159,12 @@ impl ModelImporter {
                 }
                 #[cfg(feature = "triangulation")]
                 {
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("A face uses a vertex which does not exist".to_owned());
+                    }
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..d8a733d 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -37,7 +37,7 @@ fn calc_ear_val_at_index(
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        (index + indices.len() - 1) % indices.len(),
         index,
         index.wrapping_add(1) % indices.len(),
     );
@@ -66,7 +66,7 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
@@ -89,7 +89,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From c384b6a530b0cafe33a792f571186477482cd368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 20/30] fix: the features changing the index and float types
 did not compile

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5a60a19..092efb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,13 +66,16 @@ pub(crate) const MAX_INITIAL_CAPACITY: usize = 0x1_00_00;
 pub type IndexType = u32;
 #[cfg(all(feature = "long_indices", feature = "short_indices"))]
 compile_error!("Size of indices can't be both long(u64) or short(u16)");
+/// Index type used for representing triangle indices.
 #[cfg(feature = "long_indices")]
 pub type IndexType = u64;
+/// Index type used for representing triangle indices.
 #[cfg(feature = "short_indices")]
 pub type IndexType = u16;
 /// Type used for representing floating-point numbers.
 #[cfg(not(feature = "double_precision"))]
 pub type FloatType = f32;
+/// Type used for representing floating-point numbers.
 #[cfg(feature = "double_precision")]
 pub type FloatType = f64;
 /// Type used for representing 4d floating-point vectors
-- 
2.43.0


From f268fd1a344e297d9986d1a289e46d20b738a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 21/30] fix: a mesh with an incomplete triangle was saved to
 OBJ as a broken file

---
 src/obj.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index 5879131..e1dd1b3 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -179,6 +179,13 @@ fn save_obj<W: Write>(
             ));
         }
     };
+    // A face with less than 3 corners can't be saved.
+    if vert_triangle_len % 3 != 0 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "Number of vertex triangle indices is not divisible by 3.",
+        ));
+    }
     // Ensure normal triangle array, if present, has the right length.
     if let Some(normal_triangles) = mesh.get_normal_triangles() {
         if normal_triangles.len() != vert_triangle_len {
-- 
2.43.0


From 0100e9fe56b110fa51628e7fb9882bbca6bd55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 22/30] fix: a mesh name with line breaks was saved to OBJ as
 other lines

---
 src/obj.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index e1dd1b3..162c110 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -123,6 +123,13 @@ fn save_obj<W: Write>(
     index_offset: (IndexType, IndexType, IndexType),
     name: &str,
 ) -> Result<(IndexType, IndexType, IndexType)> {
+    // The rest of such a name would be read as other lines.
+    if name.contains(['\n', '\r']) {
+        return Err(Error::new(
+            ErrorKind::InvalidInput,
+            "Name of a mesh saved to an .obj file can't contain line breaks.",
+        ));
+    }
     writeln!(w, "o {name}")?;
     let vertex_count = match mesh.get_vertices() {
         None => 0,
-- 
2.43.0


From 12ee13f716baf8e8bcfafef702eb6ec296279a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 23/30] fix: unifying index data panicked when one of two kinds
 of data had no elements

---
 src/unify_data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unify_data.rs b/src/unify_data.rs
index c669cff..a14bb39 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -121,6 +121,10 @@ fn smart_merge_data_2<A: Copy, B: Copy>(
     if !is_merge_needed(&indices) {
         return (None, None, None);
     }
+    // Same as with more arrays: there is nothing to merge with an array without elements.
+    if a.is_some_and(|data| data.is_empty()) || b.is_some_and(|data| data.is_empty()) {
+        return (None, None, None);
+    }
     if let Some(((a, indices_a), (b, indices_b))) = a.zip(indices[0]).zip(b.zip(indices[1])) {
         let (indices, a, b) = merge_data_2(&[indices_a, indices_b], a, b);
         (Some(a), Some(b), Some(indices))
-- 
2.43.0


From 0644acd663ce31ef096650030353e82814e661ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 24/30] fix: indices of .obj files saved with 16-bit indices
 wrapped around

---
 src/obj.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 162c110..f2ad6a3 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -120,9 +120,9 @@ pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
 fn save_obj<W: Write>(
     w: &mut W,
     mesh: &TMFMesh,
-    index_offset: (IndexType, IndexType, IndexType),
+    index_offset: (u64, u64, u64),
     name: &str,
-) -> Result<(IndexType, IndexType, IndexType)> {
+) -> Result<(u64, u64, u64)> {
     // The rest of such a name would be read as other lines.
     if name.contains(['\n', '\r']) {
         return Err(Error::new(
@@ -180,9 +180,9 @@ fn save_obj<W: Write>(
                 ));
             }
             return Ok((
-                vertex_count as IndexType,
-                uv_count as IndexType,
-                normal_count as IndexType,
+                vertex_count as u64,
+                uv_count as u64,
+                normal_count as u64,
             ));
         }
     };
@@ -217,11 +217,11 @@ fn save_obj<W: Write>(
             write!(w, "f ")?
         };
         // Why unwrap? Vertex triangle array MUST be present at this point in time, because if it was not, this function would have already returned.
-        let vertex = mesh.get_vertex_triangles().unwrap()[i] + index_offset.0;
+        let vertex = u64::from(mesh.get_vertex_triangles().unwrap()[i]) + index_offset.0;
         write!(w, "{}", vertex)?;
         let normals = mesh.get_normal_triangles();
         match mesh.get_uv_triangles() {
-            Some(uvs) => write!(w, "/{}", uvs[i] + index_offset.1)?,
+            Some(uvs) => write!(w, "/{}", u64::from(uvs[i]) + index_offset.1)?,
             None => {
                 if normals.is_some() {
                     write!(w, "/")?
@@ -229,7 +229,7 @@ fn save_obj<W: Write>(
             }
         }
         if let Some(normals) = normals {
-            write!(w, "/{}", normals[i] + index_offset.2)?
+            write!(w, "/{}", u64::from(normals[i]) + index_offset.2)?
         };
         if i % 3 == 2 {
             writeln!(w)?
@@ -239,9 +239,9 @@ fn save_obj<W: Write>(
     }
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
     Ok((
-        vertex_count as IndexType,
-        uv_count as IndexType,
-        normal_count as IndexType,
+        vertex_count as u64,
+        uv_count as u64,
+        normal_count as u64,
     ))
 }
 /// Writes this TMF  mesh to a .obj file.
-- 
2.43.0


From e36ed690df59567c6c5cc2fa552cb86c2070c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 25/30] fix: unifying index data wrapped indices around if
 there were too many for the index type

---
 src/lib.rs        |  1 +
 src/unify_data.rs | 48 +++++++++++++++++++++++++----------------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 092efb5..b3e7aaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,6 +194,7 @@ impl TMFMesh {
     }
     /// Changes mesh data to make all index arrays(e.g. `vertex_triangle_array`,`normal_triangle_array`, etc.) exactly the same. Does not support custom index segments,  and will leave them unaffected.
     /// Very often drastically reduces mesh size.
+    /// Leaves the mesh unchanged if there would be more elements than [`IndexType`] can index.
     /// # Example
     /// ```
     /// # use tmf::TMFMesh;
diff --git a/src/unify_data.rs b/src/unify_data.rs
index a14bb39..3fd7739 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -1,10 +1,11 @@
 #![allow(clippy::type_complexity)]
 use crate::IndexType;
 use std::collections::HashMap;
-/// This function unifies data at index level, returning info necessary for merging to `merge_data`.
+/// This function unifies data at index level, returning info necessary for merging to `merge_data`. Returns [`None`] if
+/// there would be more elements than [`IndexType`] can index.
 fn unfiy_data_common<const DATA_COUNT: usize>(
     indices: &[&[IndexType]],
-) -> (Box<[IndexType]>, Box<[Box<[IndexType]>]>) {
+) -> Option<(Box<[IndexType]>, Box<[Box<[IndexType]>]>)> {
     type ComboType<const DATA_COUNT: usize> = [IndexType; DATA_COUNT];
     let mut combos: HashMap<ComboType<DATA_COUNT>, usize> = HashMap::with_capacity(indices.len());
     assert_eq!(DATA_COUNT, indices.len());
@@ -25,7 +26,7 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
             combo_id += 1;
             id
         });
-        new_indices.push(curr_id as IndexType);
+        new_indices.push(IndexType::try_from(curr_id).ok()?);
         //println!("curr_combo:{curr_combo:?}");
     }
     let mut combos = combos.iter().collect::<Vec<_>>();
@@ -38,14 +39,14 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
         }
     }
     let data_map: Box<[Box<[_]>]> = data_map.iter().map(|v| (*v).clone().into()).collect();
-    (new_indices.into(), data_map)
+    Some((new_indices.into(), data_map))
 }
 pub(crate) fn merge_data_2<A: Copy, B: Copy>(
     indices: &[&[IndexType]; 2],
     a: &[A],
     b: &[B],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>) {
-    let (indices, index_map) = unfiy_data_common::<2>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>)> {
+    let (indices, index_map) = unfiy_data_common::<2>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -54,15 +55,15 @@ pub(crate) fn merge_data_2<A: Copy, B: Copy>(
         .iter()
         .map(|index| b[*index as usize])
         .collect();
-    (indices, a, b)
+    Some((indices, a, b))
 }
 pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
     indices: &[&[IndexType]; 3],
     a: &[A],
     b: &[B],
     c: &[C],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>) {
-    let (indices, index_map) = unfiy_data_common::<3>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>)> {
+    let (indices, index_map) = unfiy_data_common::<3>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -75,7 +76,7 @@ pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
         .iter()
         .map(|index| c[*index as usize])
         .collect();
-    (indices, a, b, c)
+    Some((indices, a, b, c))
 }
 pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     indices: &[&[IndexType]; 4],
@@ -83,8 +84,8 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     b: &[B],
     c: &[C],
     d: &[D],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>) {
-    let (indices, index_map) = unfiy_data_common::<4>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>)> {
+    let (indices, index_map) = unfiy_data_common::<4>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -101,7 +102,7 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .iter()
         .map(|index| d[*index as usize])
         .collect();
-    (indices, a, b, c, d)
+    Some((indices, a, b, c, d))
 }
 type OBoxArr<A> = Option<Box<[A]>>;
 fn is_merge_needed(indices: &[Option<&[IndexType]>]) -> bool {
@@ -126,8 +127,10 @@ fn smart_merge_data_2<A: Copy, B: Copy>(
         return (None, None, None);
     }
     if let Some(((a, indices_a), (b, indices_b))) = a.zip(indices[0]).zip(b.zip(indices[1])) {
-        let (indices, a, b) = merge_data_2(&[indices_a, indices_b], a, b);
-        (Some(a), Some(b), Some(indices))
+        match merge_data_2(&[indices_a, indices_b], a, b) {
+            Some((indices, a, b)) => (Some(a), Some(b), Some(indices)),
+            None => (None, None, None),
+        }
     } else {
         (None, None, None)
     }
@@ -155,8 +158,10 @@ pub(crate) fn smart_merge_data_3<A: Copy, B: Copy, C: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]))
     {
-        let (indices, a, b, c) = merge_data_3(&[indices_a, indices_b, indices_c], a, b, c);
-        (Some(a), Some(b), Some(c), Some(indices))
+        match merge_data_3(&[indices_a, indices_b, indices_c], a, b, c) {
+            Some((indices, a, b, c)) => (Some(a), Some(b), Some(c), Some(indices)),
+            None => (None, None, None, None),
+        }
     } else {
         (None, None, None, None)
     }
@@ -194,11 +199,10 @@ pub(crate) fn smart_merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]).zip(d.zip(indices[3])))
     {
-        let d: &[D] = d;
-        let (indices, a, b, c, d) =
-            merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d);
-        let d: Box<[D]> = d;
-        (Some(a), Some(b), Some(c), Some(d), Some(indices))
+        match merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d) {
+            Some((indices, a, b, c, d)) => (Some(a), Some(b), Some(c), Some(d), Some(indices)),
+            None => (None, None, None, None, None),
+        }
     } else {
         (None, None, None, None, None)
     }
-- 
2.43.0


From 2107de06d81bb4da7881714e7142fc4c044aa665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 26/30] fix: measure edges whose squared length can't be
 represented

---
 src/utilis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 9ae0d66..423a829 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -67,7 +67,8 @@ pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
     let dx = a.0 - b.0;
     let dy = a.1 - b.1;
     let dz = a.2 - b.2;
-    (dx * dx + dy * dy + dz * dz).sqrt()
+    // Squares of very big and very small differences could not be represented.
+    dx.hypot(dy).hypot(dz)
 }
 pub(crate) fn dot(a: Vector3, b: Vector3) -> FloatType {
     a.0 * b.0 + a.1 * b.1 + a.2 * b.2
-- 
2.43.0


From e2c247d9fc1be3cd836799e2c275f632e9f1cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 27/30] fix: save custom floats whose range exceeds that of the
 float type

---
 src/custom_data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 5dbd730..7f08efa 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -99,8 +99,9 @@ impl CustomData {
                     max = max.max(*entry);
                     min = min.min(*entry);
                 }
-                let span = max - min;
-                let prec = (span / prec).log2().ceil() as u8;
+                // Difference of the biggest and smallest single precision number is only representable in double precision.
+                let span = max as f64 - min as f64;
+                let prec = (span / *prec as f64).log2().ceil() as u8;
                 //Ensure precision is never 0(messes up the reader/writer) and never higher than what can be read back;
                 let prec = prec.clamp(1, MAX_FIXED_POINT_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
@@ -110,7 +111,7 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = to_fixed_point((entry - min) as f64 / span as f64, prec.bits());
+                    let entry = to_fixed_point((*entry as f64 - min as f64) / span, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
-- 
2.43.0


From 336304f207f5a4655fdb2245ed9b5b1beb75f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 28/30] fix: normalize double precision normals too big or
 small to be squared

---
 src/utilis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 423a829..472cf8d 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -50,8 +50,10 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     (xx + yy + zz).sqrt()
 }
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    // Squares of very big and very small single precision numbers are only representable in double precision.
+    // Scaled by the biggest component, because squares of very big and very small numbers could not be represented.
     let (x, y, z) = (i.0 as f64, i.1 as f64, i.2 as f64);
+    let max = x.abs().max(y.abs()).max(z.abs());
+    let (x, y, z) = (x / max, y / max, z / max);
     let mag = (x * x + y * y + z * z).sqrt();
     if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
-- 
2.43.0


From 5243d3e49247471fae25a2322715bbb23c02d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 29/30] fix: import .obj files whose comments or ignored lines
 are not valid UTF-8

---
 src/obj.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f2ad6a3..2634745 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -2,8 +2,14 @@ use crate::model_importer::ModelImporter;
 use crate::{FloatType, IndexType, TMFMesh, Vector2, Vector3};
 use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
-fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
+fn parse_line(
+    line: Result<Vec<u8>>,
+    oi: &mut ModelImporter,
+) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
+    // Comments and unsuported lines may be saved in any encoding.
+    let is_utf8 = std::str::from_utf8(&line).is_ok();
+    let line = String::from_utf8_lossy(&line);
     // Split the line by white spaces
     let mut split = line.split_whitespace();
     // Get the beginning of the line
@@ -12,6 +18,12 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         // Ignore empty lines
         None => return Ok(None),
     };
+    if beg == "o" && !is_utf8 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Name of an object is not valid UTF-8.",
+        ));
+    }
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -34,7 +46,7 @@ pub fn read_from_obj<R: Read>(reader: &mut R) -> Result<Vec<(TMFMesh, String)>>
     let reader = BufReader::new(reader);
     use std::io::BufRead;
     let mut oi = ModelImporter::new();
-    let lines = reader.lines();
+    let lines = reader.split(b'\n');
     let mut res = Vec::new();
     for line in lines {
         if let Some(mesh_and_name) = parse_line(line, &mut oi)? {
-- 
2.43.0


From 73e10beed601efa97d4616f800a3a20568b755e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 30/30] fix: refuse .obj face corners of more than 3 parts

---
 src/obj.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index 2634745..d03f441 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -103,6 +103,9 @@ fn load_face(split: &mut SplitWhitespace, oi: &mut ModelImporter) -> Result<()>
         };
         let uv_index = load_index(corner.next())?;
         let normal_index = load_index(corner.next())?;
+        if corner.next().is_some() {
+            return Err(Error::new(ErrorKind::Other, "Invalid face corner!"));
+        }
         oi.note_attributes(uv_index.is_some(), normal_index.is_some());
         vertex_indices.push(vertex_index);
         uv_indices.push(uv_index.unwrap_or(0));
-- 
2.43.0

