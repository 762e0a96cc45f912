From b4e719c3a69defb4efab7a1328df1892f3cd5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 01/71] hook: allow verification tools to limit the SIMD level
 (cfg basic_dsp_verif)

---
 vector/src/lib.rs                 | 12 ++++++++++++
 vector/src/simd_extensions/mod.rs | 17 +++++++++++++++++
 vector/src/simd_extensions/x86.rs |  8 ++++----
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/vector/src/lib.rs b/vector/src/lib.rs
index 8527f43..528c0d5 100644
--- a/vector/src/lib.rs
+++ b/vector/src/lib.rs
@@ -66,6 +66,7 @@
 //! complex vectors in time domain, but not with real valued vectors or frequency domain vectors.
 //! And the type `GenDspVec` serves as wild card at compile time since it defers all checks to run time.
 
+#![allow(unknown_lints, unexpected_cfgs)]
 #![cfg_attr(feature = "cargo-clippy", feature(tool_lints))]
 #![cfg_attr(feature = "cargo-clippy", allow(clippy::new_without_default_derive))] // This LINT gives false positives
 
@@ -102,6 +103,17 @@ pub use crate::multicore_support::MultiCoreSettings;
 pub use crate::vector_types::*;
 mod gpu_support;
 mod inline_vector;
+
+#[cfg(basic_dsp_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    //! Hooks for external verification tools, only present with `--cfg basic_dsp_verif`.
+
+    /// Limits the instruction set used at runtime: 0 = fallback, 1 = SSE2, 2 = AVX2.
+    pub fn set_simd_level(level: u8) {
+        crate::simd_extensions::SIMD_LEVEL.store(level, std::sync::atomic::Ordering::Relaxed);
+    }
+}
 use crate::numbers::*;
 use std::ops::Range;
 
diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..a4bec1c 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -317,6 +317,23 @@ simd_generic_impl!(f64, sse::f64x2);
 #[cfg(feature = "use_simd")]
 mod approximations;
 
+/// Limits which SIMD instruction sets `sel_reg!` may select, see `verif_hooks`.
+/// Without the `basic_dsp_verif` cfg this is always `true`.
+#[cfg(not(basic_dsp_verif))]
+#[inline(always)]
+#[allow(dead_code)]
+pub(crate) fn simd_level_allowed(_level: u8) -> bool {
+    true
+}
+
+#[cfg(basic_dsp_verif)]
+pub(crate) static SIMD_LEVEL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(2);
+
+#[cfg(basic_dsp_verif)]
+pub(crate) fn simd_level_allowed(level: u8) -> bool {
+    level <= SIMD_LEVEL.load(std::sync::atomic::Ordering::Relaxed)
+}
+
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 #[macro_use]
 mod x86;
diff --git a/vector/src/simd_extensions/x86.rs b/vector/src/simd_extensions/x86.rs
index 5483bbe..5833a7f 100644
--- a/vector/src/simd_extensions/x86.rs
+++ b/vector/src/simd_extensions/x86.rs
@@ -5,9 +5,9 @@ macro_rules! sel_reg(
         // TODO enable AVX512 detection again as soon as stdsimd is stable
         /*if is_x86_feature_detected!("avx512vl") && cfg!(feature="use_avx512") {
             $self_.$method(RegType::<<$type as ToSimd>::RegAvx512>::new(), $($args),*)
-        } else*/ if cfg!(feature="use_avx2") && is_x86_feature_detected!("avx2") {
+        } else*/ if cfg!(feature="use_avx2") && is_x86_feature_detected!("avx2") && $crate::simd_extensions::simd_level_allowed(2) {
             $self_.$method(RegType::<<$type as ToSimd>::RegAvx>::new(), $($args),*)
-        } else if cfg!(feature="use_sse2") && is_x86_feature_detected!("sse2") {
+        } else if cfg!(feature="use_sse2") && is_x86_feature_detected!("sse2") && $crate::simd_extensions::simd_level_allowed(1) {
             $self_.$method(RegType::<<$type as ToSimd>::RegSse>::new(), $($args),*)
         } else {
             $self_.$method(RegType::<<$type as ToSimd>::RegFallback>::new(), $($args),*)
@@ -16,9 +16,9 @@ macro_rules! sel_reg(
     ($method: ident::<$type: ident>($($args: expr),*)) => {
         /*if is_x86_feature_detected!("avx512vl") && cfg!(feature="use_avx512") {
             $method(RegType::<<$type as ToSimd>::RegAvx512>::new(), $($args),*)
-        } else*/ if cfg!(feature="use_avx2") && cfg!(target_feature="avx2") && is_x86_feature_detected!("avx2") {
+        } else*/ if cfg!(feature="use_avx2") && cfg!(target_feature="avx2") && is_x86_feature_detected!("avx2") && $crate::simd_extensions::simd_level_allowed(2) {
             $method(RegType::<<$type as ToSimd>::RegAvx>::new(), $($args),*)
-        } else if cfg!(feature="use_sse2")&& cfg!(target_feature="sse2") && is_x86_feature_detected!("sse2") {
+        } else if cfg!(feature="use_sse2")&& cfg!(target_feature="sse2") && is_x86_feature_detected!("sse2") && $crate::simd_extensions::simd_level_allowed(1) {
             $method(RegType::<<$type as ToSimd>::RegSse>::new(), $($args),*)
         } else {
             $method(RegType::<<$type as ToSimd>::RegFallback>::new(), $($args),*)
-- 
2.43.0


From c87448a5a505d3ec32a477dddbc8a096b8fb6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 02/71] fix: SIMD partition has to skip up to the next aligned
 address

The number of leading elements was taken from the distance to the previous
aligned address. Storage at any other than a half register offset made all
SIMD operations panic, and odd offsets tore complex numbers apart.
---
 vector/src/simd_extensions/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index a4bec1c..da68646 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -194,10 +194,13 @@ macro_rules! simd_generic_impl {
             fn calc_data_alignment_reqs(array: &[$data_type]) -> SimdPartition<$data_type> {
                 let data_length = array.len();
                 let addr = array.as_ptr();
-                let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
+                let reg_len = mem::size_of::<Self>();
+                // Distance to the next address with the alignment of a register
+                let left = (reg_len - get_alignment_offset(addr as usize, reg_len)) % reg_len;
                 assert!(left % mem::size_of::<$data_type>() == 0);
                 let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                // An odd offset would split complex numbers between `left` and the center
+                if left + Self::LEN > data_length || left % 2 != 0 {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
-- 
2.43.0


From 8f78955725dea04d1ae2b8a181e5c93d9b7c1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 03/71] fix: edge iterators must not step through memory
 outside of the slice

The pointer arithmetic of the iterators left the allocation for empty edges.
On an empty vector of complex numbers the loop then ran into unmapped memory.
---
 vector/src/simd_extensions/simd_partition.rs | 96 ++++++--------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..ea06573 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -1,5 +1,6 @@
 use num_complex::Complex;
 use std::marker::PhantomData;
+use std::slice::IterMut;
 
 /// Holds information about how to partition the access to a slice to get aligned
 /// reads/writes to the largest portion of the slice.
@@ -14,27 +15,18 @@ pub struct SimdPartition<T> {
 
 /// Iterator around the left and right side of a vector.
 pub struct EdgeIteratorMut<'a, T: 'a> {
-    pos: *mut T,
-    left: *mut T,
-    right: *mut T,
-    end: *mut T,
-    _marker: PhantomData<&'a mut T>,
+    left: IterMut<'a, T>,
+    right: IterMut<'a, T>,
 }
 
 impl<'a, T> EdgeIteratorMut<'a, T> {
-    pub fn new(slice: &mut [T], left: usize, right: usize) -> Self {
-        let start = slice.as_mut_ptr();
-        let len = slice.len() as isize;
-        let left = left as isize;
-        let right = right as isize;
-        unsafe {
-            EdgeIteratorMut {
-                pos: start,
-                left: start.offset(left - 1),
-                right: start.offset(len - right),
-                end: start.offset(len - 1),
-                _marker: PhantomData,
-            }
+    pub fn new(slice: &'a mut [T], left: usize, right: usize) -> Self {
+        let len = slice.len();
+        let (left, rest) = slice.split_at_mut(left);
+        let right = &mut rest[len - left.len() - right..];
+        EdgeIteratorMut {
+            left: left.iter_mut(),
+            right: right.iter_mut(),
         }
     }
 }
@@ -43,50 +35,28 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<&'a mut T> {
-        unsafe {
-            // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
-                self.pos = self.right;
-            }
-
-            if self.pos > self.end {
-                None
-            } else {
-                let value = &mut *self.pos;
-                self.pos = self.pos.offset(1);
-                Some(value)
-            }
+        // Jump from end of left to right.
+        match self.left.next() {
+            Some(value) => Some(value),
+            None => self.right.next(),
         }
     }
 }
 
 /// Iterator with index around the left and right side of a vector.
 pub struct IndexedEdgeIteratorMut<'a, T: 'a> {
-    pos: *mut T,
+    edges: EdgeIteratorMut<'a, T>,
     idx: isize,
-    left: *mut T,
     right_idx: isize,
-    right: *mut T,
-    end: *mut T,
-    _marker: PhantomData<&'a mut T>,
 }
 
 impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
-    pub fn new(slice: &mut [T], left: usize, right: usize) -> Self {
-        let start = slice.as_mut_ptr();
-        let len = slice.len() as isize;
-        let left = left as isize;
-        let right = right as isize;
-        unsafe {
-            IndexedEdgeIteratorMut {
-                pos: start,
-                idx: 0,
-                left: start.offset(left - 1),
-                right_idx: len - right,
-                right: start.offset(len - right),
-                end: start.offset(len - 1),
-                _marker: PhantomData,
-            }
+    pub fn new(slice: &'a mut [T], left: usize, right: usize) -> Self {
+        let right_idx = (slice.len() - right) as isize;
+        IndexedEdgeIteratorMut {
+            edges: EdgeIteratorMut::new(slice, left, right),
+            idx: 0,
+            right_idx,
         }
     }
 }
@@ -95,23 +65,15 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     type Item = (isize, &'a mut T);
 
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
-        unsafe {
-            // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
-                self.pos = self.right;
-                self.idx = self.right_idx;
-            }
-
-            if self.pos > self.end {
-                None
-            } else {
-                let value = &mut *self.pos;
-                let idx = self.idx;
-                self.pos = self.pos.offset(1);
-                self.idx += 1;
-                Some((idx, value))
-            }
+        // Jump from end of left to right.
+        if self.edges.left.len() == 0 && self.idx < self.right_idx {
+            self.idx = self.right_idx;
         }
+
+        let value = self.edges.next()?;
+        let idx = self.idx;
+        self.idx += 1;
+        Some((idx, value))
     }
 }
 
-- 
2.43.0


From 2c08d8b80382de652fa4d98a9400a75eb80e0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 04/71] fix: chunks of symmetric pairs have to mirror each
 other

The number of chunks depends on the rounding, so with several threads the
first chunks weren't paired with their counterpart at the end of the array.
Empty arrays and arrays with one element caused a panic.
---
 vector/src/multicore_support/no_threading.rs | 49 ++++----------
 vector/src/multicore_support/threading.rs    | 68 +++++++++-----------
 2 files changed, 43 insertions(+), 74 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..d794b66 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -3,9 +3,7 @@
 use super::Complexity;
 use crate::inline_vector::InlineVector;
 use crate::numbers::*;
-use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -133,7 +131,7 @@ impl Chunk {
         _: Complexity,
         _: &MultiCoreSettings,
         array: &mut [T],
-        step_size: usize,
+        _: usize,
         arguments: S,
         ref function: F,
     ) where
@@ -142,21 +140,18 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
-        let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        if array_length == 0 {
+            return;
+        }
+
+        // If the length is odd then the element in the center belongs to the first half
+        let half = array_length - array_length / 2;
+        let (mut first, mut second) = array.split_at_mut(half);
         function(
-            &mut chunks1,
-            &Range {
-                start: 0,
-                end: len1,
-            },
-            &mut chunks2,
-            &Range {
-                start: len1,
-                end: array_length,
-            },
+            &mut first,
+            &(0..half),
+            &mut second,
+            &(half..array_length),
             arguments,
         );
     }
@@ -257,26 +252,6 @@ impl Chunk {
             arguments,
         );
     }
-
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
-    #[inline]
-    fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
-        let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
-        let remainder = chunk_size % step_size;
-        if remainder > 0 {
-            chunk_size += step_size - chunk_size % step_size;
-        }
-
-        chunk_size
-    }
 }
 
 /// Prints debug information about the calibration. Returns a constant as threading is deactivated.
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..0161e4e 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -374,7 +374,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // An empty array has no chunks, but the size of a chunk still has to be valid
+        chunk_size.max(step_size)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
@@ -562,50 +563,43 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+        if array_length == 0 {
+            return;
+        }
+
+        let number_of_pairs =
+            Chunk::determine_number_of_chunks(array_length, complexity, settings);
+        // If the length is odd then the element in the center belongs to the first half
+        let half = array_length - array_length / 2;
+        let (first, second) = array.split_at_mut(half);
+        if number_of_pairs > 1 {
+            let chunk_size = Chunk::calc_chunk_size(half, step_size, number_of_pairs);
+            let chunks1 = first.chunks_mut(chunk_size);
+            // Chunks from the end of the array towards the center, so that each of them mirrors
+            // a chunk of the first half
+            let mut chunks2 = second.rchunks_mut(chunk_size);
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                let mut start = 0;
+                for mut chunk1 in chunks1 {
+                    let mut chunk2 = chunks2.next().unwrap_or(&mut []);
+                    let end1 = start + chunk1.len();
+                    let range1 = start..end1;
+                    let end2 = array_length - start;
+                    let range2 = end2 - chunk2.len()..end2;
+                    start = end1;
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
+            let (mut first, mut second) = (first, second);
             function(
-                &mut chunks1,
-                &Range {
-                    start: 0,
-                    end: len1,
-                },
-                &mut chunks2,
-                &Range {
-                    start: len1,
-                    end: array_length,
-                },
+                &mut first,
+                &(0..half),
+                &mut second,
+                &(half..array_length),
                 arguments,
             );
         }
-- 
2.43.0


From a77f81bec636222020c9afde455374e3d6375620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 05/71] fix: reject an empty argument for the *_smaller
 operations

The length check divided by the length of the argument.
---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..a4ab5c3 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.len() == 0 || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.len() == 0 || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.len() == 0 || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.len() == 0 || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From c62068c7b17622ef8d51de0556802a6e23829a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 06/71] fix: complex mul and div must only use the valid part
 of the storage

An odd number of allocated elements made them panic.
---
 vector/src/vector_types/general/elementary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index a4ab5c3..afc9526 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
-- 
2.43.0


From 8648df31770255c85fe53a85c271b69e6423440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 07/71] fix: unwrap must find the closest value if the offset
 exceeds a period

After the sum of the corrections has reached more than one period a step back
was turned into a step forward.
---
 vector/src/vector_types/real/real_ops.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index 640ad8e..b8cb465 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -272,13 +272,13 @@ where
         let half = divisor / T::from(2.0).unwrap();
         while j < data_length {
             let mut diff = data[j] - data[i];
-            if diff > half {
+            if diff > half || diff < -half {
                 diff = diff % divisor;
-                diff = diff - divisor;
-                data[j] = data[i] + diff;
-            } else if diff < -half {
-                diff = diff % divisor;
-                diff = diff + divisor;
+                if diff > half {
+                    diff = diff - divisor;
+                } else if diff < -half {
+                    diff = diff + divisor;
+                }
                 data[j] = data[i] + diff;
             }
 
-- 
2.43.0


From fb0b507e54ac66b4f0225a75c71e1150101ffbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 08/71] fix: map_inplace and map_aggregate must only visit
 valid elements

Both ran over everything what is allocated, so the given functions saw stale
elements and the result of map_aggregate depended on them.
---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..a452b15 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From 5d7b9a1f95c2c8ad4ff87b00313fae66d5524d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 09/71] fix: diff on empty vectors and on storage with an odd
 size

An empty vector made diff panic, and an odd number of allocated elements
made diff and diff_with_start panic on complex data.
---
 vector/src/vector_types/general/diff_sum.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..5c9d06d 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,11 +66,15 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len < step {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +95,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From e52a55d86c292851b8aa787fb2dfa371fae508e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 10/71] fix: never create a slice of complex numbers or
 registers beyond the source

The intermediate slice kept the number of elements while the elements got
larger. Such a reference is undefined behavior even if it isn't used.
---
 vector/src/lib.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/vector/src/lib.rs b/vector/src/lib.rs
index 528c0d5..7516ab3 100644
--- a/vector/src/lib.rs
+++ b/vector/src/lib.rs
@@ -249,20 +249,14 @@ pub mod numbers {
 /// The code panics if the slice has a length which doesn't allow conversion.
 fn transmute_slice<S, D>(source: &[S]) -> &[D] {
     let len = get_target_slice_len::<S, D>(source);
-    unsafe {
-        let trans: &[D] = &*(source as *const [S] as *const [D]);
-        std::slice::from_raw_parts(trans.as_ptr(), len)
-    }
+    unsafe { std::slice::from_raw_parts(source.as_ptr() as *const D, len) }
 }
 
 /// Transmutes a mutable slice. Both S and D must be `#[repr(C)]`.
 /// The code panics if the slice has a length which doesn't allow conversion.
 fn transmute_slice_mut<S, D>(source: &mut [S]) -> &mut [D] {
     let len = get_target_slice_len::<S, D>(source);
-    unsafe {
-        let trans: &mut [D] = &mut *(source as *mut [S] as *mut [D]);
-        std::slice::from_raw_parts_mut(trans.as_mut_ptr(), len)
-    }
+    unsafe { std::slice::from_raw_parts_mut(source.as_mut_ptr() as *mut D, len) }
 }
 
 /// Helper method which finds the length of a target slice and also perform checks on the length
-- 
2.43.0


From 37cdc13512d6dbadd674b6cd4efc05906bbf51b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 11/71] fix: get_magnitude must only use the valid part of the
 storage

---
 vector/src/vector_types/complex/complex_to_real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..66621b7 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
-- 
2.43.0


From 3f528d428c1243b485006c7c644419e3086f26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 12/71] fix: vectors with run time checks are in time domain
 after an inverse FFT

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..f76ae71 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -215,7 +215,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
-- 
2.43.0


From c26d95a080c28685a68ced849f9c9c8110696736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 13/71] fix: FixedLenBuffer has to resize the storage if the
 result is larger

The result was cut off while the vector still claimed to have all elements,
so the next access panicked.
---
 vector/src/vector_types/support_core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..03982f6 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,6 +47,10 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
+        if storage.len() < self.data.len() {
+            // Storage types with a fixed length take as much as they can hold
+            let _ = storage.try_resize(self.data.len());
+        }
         let len = std::cmp::min(storage.len(), self.data.len());
         let storage = storage.to_slice_mut();
         storage[0..len]
-- 
2.43.0


From 10ab181dfcfabedc87e65ad5518e38bc4ccbd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 14/71] fix: swapping the halves of a single element panicked

---
 vector/src/vector_types/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..cc96ea6 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -173,6 +173,10 @@ where
     T: Copy,
 {
     let len = data.len();
+    if len < 2 {
+        return;
+    }
+
     if len % 2 == 0 {
         let (lo, up) = data.split_at_mut(len / 2);
         for (lo, up) in lo.iter_mut().zip(up.iter_mut()) {
-- 
2.43.0


From 23704d1ada7621ef956be3c36bce400061dfc89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 15/71] fix: zero_interleave_b must stay in bounds

Every chunk zeroed as many elements as the whole result has, starting from a
reference to its first element, and empty vectors caused a panic.
---
 .../src/vector_types/general/data_reorganization.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..7566010 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -6,7 +6,6 @@ use crate::multicore_support::*;
 use crate::numbers::*;
 use crate::{array_to_complex_mut, memcpy, memzero};
 use std::mem;
-use std::ptr;
 
 /// This trait allows to reorganize the data by changing positions of the individual elements.
 pub trait ReorganizeDataOps<T>
@@ -275,20 +274,14 @@ macro_rules! zero_interleave {
                 (),
                 move |original, range, target, _arg| {
                     // Zero target
-                    let ptr = &mut target[0] as *mut T;
-                    unsafe {
-                        ptr::write_bytes(ptr, 0, new_len);
+                    for n in target.iter_mut() {
+                        *n = T::zero();
                     }
                     let skip = step * $tuple;
                     let mut i = 0;
                     let mut j = range.start;
                     while i < target.len() {
-                        let original_ptr = &original[j];
-                        let target_ptr = &mut target[i];
-                        unsafe {
-                            ptr::copy(original_ptr, target_ptr, $tuple);
-                        }
-
+                        target[i..i + $tuple].copy_from_slice(&original[j..j + $tuple]);
                         j += $tuple;
                         i += skip;
                     }
-- 
2.43.0


From a8668ac7028242e5b3b79c0d36e439416c0e44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 16/71] fix: zero_pad_b with PaddingOption::Center left stale
 data in the gap

The end of the zeroed range was calculated from the wrong length, which panicked
or didn't clear the whole gap.
---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 7566010..b6c0923 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -446,7 +446,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From 252469d75ef49f4362e7a1f101480ea3741f5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 17/71] fix: zero_pad with PaddingOption::Surround has to
 center the data

With an even number of additional points the data was placed one point too late,
unlike with zero_pad_b.
---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index b6c0923..381dd49 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -319,7 +319,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From 31af3009aff6f546369b8bbb428344655c1da49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 18/71] fix: zero_interleave must only use the valid part of
 the storage

An odd number of allocated elements made it panic for complex vectors.
---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 381dd49..92f8eb2 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -365,7 +365,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
-- 
2.43.0


From cf53aedda1c20c57ee970a541ba63c5498b5d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 19/71] fix: split_into and merge must only use the valid part
 of the storage

Both panicked for real vectors if more memory was allocated. split_into also has to
distribute points and not floating point numbers.
---
 vector/src/vector_types/general/data_reorganization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 92f8eb2..64289a2 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -477,7 +477,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
@@ -494,7 +494,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -538,7 +538,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From 88c07cfc0297f2bc820f8fac1e6886c6e5431e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 20/71] fix: symmetric FFTs have to return the half of the
 spectrum starting at 0 Hz

sfft and windowed_sfft cut off the positive frequencies of a shifted spectrum, and the
window was applied to the real vector with interleaved zeros. Vectors with run time checks
always panicked or had the wrong length, since the number of points was mixed up with
the number of elements.
---
 .../src/vector_types/time_freq/time_to_freq.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..eb44313 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,10 +177,10 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        let points = $points;
+        let points = points / 2 + 1;
         $self_
-            .resize(len)
+            .resize(2 * points)
             .expect("Shrinking a vector should always succeed");
     };
 }
@@ -219,9 +219,9 @@ where
             ));
         }
 
+        let points = self.points();
         self.zero_interleave_b(buffer, 2);
         self.number_space.to_complex();
-        let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
@@ -251,10 +251,10 @@ where
             ));
         }
 
+        let points = self.points();
         self.zero_interleave_b(buffer, 2);
         self.number_space.to_complex();
-        let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +287,11 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        self.zero_interleave_b(buffer, 2);
+        self.number_space.to_complex();
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From 48d89df51c3e97961e58f24bf1993cec190f6327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 21/71] fix: sifft has to expect the half of the spectrum which
 starts at 0 Hz

The halves of the half spectrum were swapped, and the result was scaled by the number of
points before the spectrum is mirrored. It wasn't the inverse of sfft.
---
 vector/src/vector_types/time_freq/freq_to_time.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index f76ae71..34cbf1e 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,11 +225,14 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.scale(Complex::<T>::new(
-            T::one() / T::from(points).unwrap(),
-            T::zero(),
-        ));
-        self.ifft_shift();
+        if points > 0 {
+            // The number of points the mirrored spectrum has
+            let points = 2 * points - 1;
+            self.scale(Complex::<T>::new(
+                T::one() / T::from(points).unwrap(),
+                T::zero(),
+            ));
+        }
         self.plain_sifft(buffer)
     }
 
-- 
2.43.0


From 02f334ef57dde228e1aa157cb66748d7db47c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 22/71] fix: mirror on an empty vector panicked

---
 vector/src/vector_types/time_freq/freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..e2d6b4a 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -59,6 +59,10 @@ where
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
-- 
2.43.0


From 79003588fbb7fcbf4a299353f48d0f046c1fcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 23/71] fix: vectors with run time checks are real after a
 symmetric inverse FFT

windowed_sifft always panicked since the vector was still marked as complex.
---
 vector/src/vector_types/time_freq/freq_to_time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index 34cbf1e..882ca85 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -217,6 +217,7 @@ where
 
         self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From 161531916a6c9820f225ebff2f77915a134ea983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 24/71] fix: magnitude of f64 vectors with AVX

The results of the horizontal add are in the lanes 0 and 2. Every second
magnitude was replaced by the one before.
---
 vector/src/simd_extensions/avx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/avx.rs b/vector/src/simd_extensions/avx.rs
index dc478bd..d1c4bb4 100644
--- a/vector/src/simd_extensions/avx.rs
+++ b/vector/src/simd_extensions/avx.rs
@@ -333,7 +333,7 @@ impl Simd<f64> for f64x4 {
     #[inline]
     fn store_half(self, target: &mut [f64], index: usize) {
         target[index] = self.extract(0);
-        target[index + 1] = self.extract(1);
+        target[index + 1] = self.extract(2);
     }
 
     #[inline]
-- 
2.43.0


From b7c7ebae0472be93492967bc29a0e7a37d3a7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 25/71] fix: set_real_imag and set_mag_phase must reject real
 vectors

The trait documents that the length is set to 0 if the vector isn't complex.
---
 vector/src/vector_types/complex/complex_to_real.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 66621b7..aac14e6 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -728,6 +728,10 @@ where
             if real.len() != imag.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
+            if !self.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
             let data_length = real.len() + imag.len();
             self.data.resize(data_length);
             self.valid_len = data_length;
@@ -751,6 +755,10 @@ where
             if mag.len() != phase.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
+            if !self.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
             let data_length = mag.len() + phase.len();
             self.data.resize(data_length);
             self.valid_len = data_length;
-- 
2.43.0


From dbe13d186da3e179db2e0212d612790a257d3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 26/71] fix: mirror, fft_shift and ifft_shift require a complex
 vector in frequency domain

The trait documents that the length is set to 0 otherwise. mirror only
checked that both conditions are violated and panicked on a single real value.
---
 vector/src/vector_types/time_freq/freq.rs         | 12 +++++++++++-
 vector/src/vector_types/time_freq/freq_to_time.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index e2d6b4a..8ed3ae8 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,7 +53,7 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
@@ -87,10 +87,20 @@ where
     }
 
     fn fft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(true)
     }
 
     fn ifft_shift(&mut self) {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         self.swap_halves_priv(false)
     }
 }
diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index 882ca85..41bfad0 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -163,7 +163,7 @@ where
     {
         let points = self.points();
         self.scale(T::one() / T::from(points).unwrap());
-        self.ifft_shift();
+        self.swap_halves_priv(false);
         self.plain_ifft(buffer)
     }
 
-- 
2.43.0


From caa6ef6c84cd04d6721151d14afb262d6a043115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 27/71] fix: dot_product has to reject arguments of a different
 size or type

A longer self caused a panic, a shorter one silently ignored values, and a
complex argument for a real vector was accepted.
---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..bb4287b 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,6 +78,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -129,6 +137,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -177,6 +189,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -227,6 +247,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
-- 
2.43.0


From a7a4af20fd1a90429293e85a5f99ca56c5e2f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 28/71] fix: Stats::merge missed the minimum if the same part
 also has the maximum

---
 vector/src/vector_types/general/statistics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..bd82d84 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
-- 
2.43.0


From 073a50f8f1063f9040e0e05e46def701438c0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 29/71] fix: statistics_split_prec needs a compensation for
 each piece

The pieces shared one compensation so that the rounding error of one sum was
subtracted from another one.
---
 vector/src/vector_types/general/precise_stats.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..f66126f 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,11 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let piece = j % len;
+                    results[piece].add_prec(*num, j / len, &mut sumc[piece], &mut rmsc[piece]);
                     j += 1;
                 }
 
@@ -507,11 +507,11 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let piece = j % len;
+                    results[piece].add_prec(*num, j / len, &mut sumc[piece], &mut rmsc[piece]);
                     j += 1;
                 }
 
-- 
2.43.0


From f57fdd2531ec3e49487111d7b945d8849b74d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 30/71] fix: dot_product_prec has to be precise for the parts
 which aren't vectorized

These can be the whole vector, e.g. if the data isn't aligned to complex numbers.
---
 .../src/vector_types/general/dot_products.rs  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index bb4287b..271e23f 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -220,10 +220,12 @@ where
             },
         );
 
-        let sum = partition
-            .edge_iter(array)
-            .zip(partition.edge_iter(other))
-            .fold(T::zero(), |sum, (a, b)| sum + *a * *b);
+        let sum = kahan_sum(
+            partition
+                .edge_iter(array)
+                .zip(partition.edge_iter(other))
+                .map(|(a, b)| *a * *b),
+        );
 
         let chunk_sum: T = (&chunks[..]).iter().fold(T::zero(), |a, b| a + *b);
         Ok(chunk_sum + sum)
@@ -274,10 +276,12 @@ where
             },
         );
 
-        let sum = partition
-            .cedge_iter(array_to_complex(array))
-            .zip(partition.cedge_iter(array_to_complex(other)))
-            .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
+        let sum = kahan_sum(
+            partition
+                .cedge_iter(array_to_complex(array))
+                .zip(partition.cedge_iter(array_to_complex(other)))
+                .map(|(a, b)| *a * *b),
+        );
 
         let chunk_sum: Complex<T> = (&chunks[..])
             .iter()
-- 
2.43.0


From 8e913549f2a77582136a6e1553ae74eb67063901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 31/71] fix: correlation and interpolation have to borrow the
 scratch memory they need

They borrowed as much as the buffer had already allocated. With a NoBuffer, a
FixedLenBuffer of another size or a small SingleBuffer this panicked.
---
 vector/src/vector_types/mod.rs                | 67 ++++++++++++-------
 .../src/vector_types/time_freq/correlation.rs |  2 +-
 .../vector_types/time_freq/interpolation.rs   |  4 +-
 3 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index cc96ea6..6ff64b3 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -601,12 +601,24 @@ where
     }
 }
 
-/// Buffer borrow type for `NoTradeBufferBurrow`.
-pub struct NoTradeBufferBurrow<'a, T: RealNumber + 'a> {
-    data: &'a mut [T],
+/// Buffer borrow type for `NoTradeBuffer`.
+struct NoTradeBufferBurrow<B, S, T>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
+    data: B,
+    storage_type: std::marker::PhantomData<S>,
+    data_type: std::marker::PhantomData<T>,
 }
 
-impl<'a, T: RealNumber + 'a> ToSlice<T> for NoTradeBufferBurrow<'a, T> {
+impl<B, S, T> ToSlice<T> for NoTradeBufferBurrow<B, S, T>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
     fn to_slice(&self) -> &[T] {
         self.data.to_slice()
     }
@@ -628,65 +640,74 @@ impl<'a, T: RealNumber + 'a> ToSlice<T> for NoTradeBufferBurrow<'a, T> {
     }
 }
 
-impl<'a, T: RealNumber + 'a> ToSliceMut<T> for NoTradeBufferBurrow<'a, T>  {
+impl<B, S, T> ToSliceMut<T> for NoTradeBufferBurrow<B, S, T>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
     fn to_slice_mut(&mut self) -> &mut [T] {
         self.data.to_slice_mut()
     }
 }
 
-impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for NoTradeBufferBurrow<'a, T> {
-    fn trade(self, _: &mut S) {
+impl<'s, B, S, T> BufferBorrow<&'s mut [T], T> for NoTradeBufferBurrow<B, S, T>
+where
+    B: BufferBorrow<S, T>,
+    S: ToSliceMut<T>,
+    T: RealNumber,
+{
+    fn trade(self, _: &mut &'s mut [T]) {
         // No trade
     }
 }
 
 /// For internal use only. A buffer which doesn't implement the `swap` routine. Swapping is a no-op in this
 /// implementation. This can be useful in cases where an implementation will do the swap step on its own.
-struct NoTradeBuffer<B, S, T>
+struct NoTradeBuffer<'b, B, S, T>
 where
-    B: BufferBorrow<S, T>,
     S: ToSliceMut<T>,
     T: RealNumber,
 {
-    data: B,
+    buffer: &'b mut B,
     storage_type: std::marker::PhantomData<S>,
     data_type: std::marker::PhantomData<T>,
 }
 
-impl<B, S, T> NoTradeBuffer<B, S, T>
+impl<'b, B, S, T> NoTradeBuffer<'b, B, S, T>
 where
-    B: BufferBorrow<S, T>,
+    B: for<'a> Buffer<'a, S, T>,
     S: ToSliceMut<T>,
     T: RealNumber,
 {
-    /// Creates a new buffer from a storage type. The buffer will internally hold
-    /// its storage for it's complete life time.
-    pub fn new(storage: B) -> NoTradeBuffer<B, S, T> {
+    /// Creates a new buffer which borrows its storage from another buffer.
+    pub fn new(buffer: &'b mut B) -> NoTradeBuffer<'b, B, S, T> {
         NoTradeBuffer {
-            data: storage,
+            buffer,
             storage_type: std::marker::PhantomData,
             data_type: std::marker::PhantomData,
         }
     }
 }
 
-impl<'a, B, S, T> Buffer<'a, &mut [T], T> for NoTradeBuffer<B, S, T>
+impl<'a, 'b, 's, B, S, T> Buffer<'a, &'s mut [T], T> for NoTradeBuffer<'b, B, S, T>
 where
-    B: BufferBorrow<S, T>,
+    B: for<'c> Buffer<'c, S, T>,
     S: ToSliceMut<T>,
-    T: RealNumber + 'a,
+    T: RealNumber,
 {
-    type Borrow = NoTradeBufferBurrow<'a, T>;
+    type Borrow = NoTradeBufferBurrow<<B as Buffer<'a, S, T>>::Borrow, S, T>;
 
     fn borrow(&'a mut self, len: usize) -> Self::Borrow {
-        self.data.try_resize(len).expect("NoTradeBuffer: Out of memory");
         NoTradeBufferBurrow {
-            data: &mut self.data.to_slice_mut()[0..len],
+            data: self.buffer.borrow(len),
+            storage_type: std::marker::PhantomData,
+            data_type: std::marker::PhantomData,
         }
     }
 
     fn alloc_len(&self) -> usize {
-        self.data.alloc_len()
+        self.buffer.alloc_len()
     }
 }
 
diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..c9cd234 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -150,7 +150,7 @@ where
         self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         let mut other = (other.data(..)).to_complex_freq_vec();
         other.delta = complex.delta;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..772d03f 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -509,7 +509,7 @@ where
         let len = self.len();
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         let interpolation_factorf = T::from(interpolation_factor).unwrap();
         complex.multiply_function_priv(
@@ -577,7 +577,7 @@ where
         complex
             .resize(complex_orig_len)
             .expect("Shrinking should always succeed");
-        let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
+        let mut buffer = NoTradeBuffer::new(buffer);
         let mut complex = complex.plain_fft(&mut buffer);
         // Add the delay, which is a linear phase in frequency domain
         if delay != T::zero() {
-- 
2.43.0


From 17439e7fa9f981fee0ab3290ba7781268b2da840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 32/71] fix: correlate must accept arguments which need no zero
 padding

The result of prepare_argument always has the same size and was rejected,
and prepare_argument_padded panicked for a single point.
---
 vector/src/vector_types/time_freq/correlation.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index c9cd234..7a9df8b 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,12 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
+                    "zero_pad_b shouldn't fail since the argument is always larger than the vector",
+                );
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
@@ -147,7 +149,9 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer);
-- 
2.43.0


From 33b7a7b59a3d926e955326d6df0687cf87505eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 33/71] fix: convolve with a function on real vectors and with
 complex functions

If SIMD is used then the impulse response of real vectors contained a zero
after each value, and the one of complex functions had a wrong length.
---
 vector/src/vector_types/time_freq/convolution.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..efc8a58 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -157,12 +157,13 @@ where
                 multicore_settings: MultiCoreSettings::default(),
             };
 
+            let step = if self.is_complex() { 2 } else { 1 };
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
@@ -218,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -231,7 +232,7 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
-                i += 2;
+                i += 1;
                 *imp_resp.data_mut(i) = value.im;
                 i += 1;
                 j = j + T::one();
-- 
2.43.0


From 85151cf0f1aa2e90f4eb1f7efdee625f09b84290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 34/71] fix: overlap_discard left a gap for signals shorter
 than two blocks

The end, which is calculated in time domain, has to start where the last block
ended.
---
 vector/src/vector_types/time_freq/convolution.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index efc8a58..88d3068 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -339,7 +339,13 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // The blocks which are calculated in frequency domain don't reach beyond this point
+        let mut block_end = step_size;
+        while block_end + fft_len < x_len {
+            block_end += step_size;
+        }
+        let block_end = block_end + imp_len / 2;
+        let remainder_len = std::cmp::max(x_len - x_len % fft_len, 2 * (x_len - block_end));
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From f8b7f184c8ae1026652f2c2054819afd55640f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 35/71] fix: interpolation with asymmetric functions shifted
 the negative frequencies

---
 vector/src/vector_types/time_freq/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..ba5d1f6 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -641,9 +641,18 @@ where
                     let max = T::from(points - offset).unwrap() / two;
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
+                    // `fft_swap_x` expects an odd number of points. If the number of points is
+                    // even then the Nyquist frequency is only there once and the negative
+                    // frequencies continue with the next point.
+                    let neg_offset = T::from(1 - offset).unwrap();
                     for num in array {
+                        let x = if is_fft_shifted && j > T::zero() {
+                            j + neg_offset
+                        } else {
+                            j
+                        };
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, x, max) * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0


From d166edd72010674ab93c543de512035608e59f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 36/71] fix: interpolate with a delay and an odd number of
 points

---
 vector/src/vector_types/time_freq/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 772d03f..cc9d540 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -320,8 +320,8 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
-        let neg_points = points - pos_points;
+        let neg_points = points / 2;
+        let pos_points = points - neg_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
             let len = self.len();
-- 
2.43.0


From cb59f16352c4c8314c7859f495d95877c6ade413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 37/71] fix: interpolatef with integer factors, delays and
 asymmetric functions

The vectorized path mirrored the function, ignored the direction of the
delay and wasn't able to handle short vectors.
---
 .../vector_types/time_freq/interpolation.rs   | 48 ++++++++++++-------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index cc9d540..2bf4007 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -130,49 +130,48 @@ fn interpolate_priv_scalar<T, TT>(
     );
 }
 
-fn function_to_vectors<T>(
-    function: &dyn RealImpulseResponse<T>,
+fn function_to_vectors<T, F>(
+    function: F,
     conv_len: usize,
     complex_result: bool,
     interpolation_factor: usize,
-    delay: T,
 ) -> InlineVector<GenDspVec<InlineVector<T>, T>>
 where
     T: RealNumber,
+    F: Fn(T) -> T,
 {
     let mut result = InlineVector::with_capacity(interpolation_factor);
     for shift in 0..interpolation_factor {
         let offset = T::from(shift).unwrap() / T::from(interpolation_factor).unwrap();
         result.push(function_to_vector(
-            function,
+            &function,
             conv_len,
             complex_result,
             offset,
-            delay,
         ));
     }
 
     result
 }
 
-fn function_to_vector<T>(
-    function: &dyn RealImpulseResponse<T>,
+fn function_to_vector<T, F>(
+    function: &F,
     conv_len: usize,
     complex_result: bool,
     offset: T,
-    delay: T,
 ) -> GenDspVec<InlineVector<T>, T>
 where
     T: RealNumber,
+    F: Fn(T) -> T,
 {
     let step = if complex_result { 2 } else { 1 };
     let data_len = step * (2 * conv_len + 1);
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -(T::from(conv_len).unwrap() - T::one());
     while i < data_len {
-        let value = function.calc(j - offset);
+        let value = function(j - offset);
         *imp_resp.data_mut(i) = value;
         i += step;
         j = j + T::one();
@@ -215,14 +214,21 @@ where
             let step = if self.is_complex() { 2 } else { 1 };
             let number_of_shifts = Reg::LEN / step;
             let vectors = function_to_vectors(
-                function,
+                |x: T| function.calc(x - delay),
                 conv_len,
                 self.is_complex(),
                 interpolation_factor,
-                delay,
             );
-            let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
-            for vector in &vectors[..] {
+            // `create_shifted_copies` reverses the vectors, so mirror the function
+            // in order to get it back into the same direction as the data
+            let mirrored = function_to_vectors(
+                |x: T| function.calc(-x - delay),
+                conv_len,
+                self.is_complex(),
+                interpolation_factor,
+            );
+            let mut shifts = InlineVector::with_capacity(mirrored.len() * number_of_shifts);
+            for vector in &mirrored[..] {
                 let shifted_copies = create_shifted_copies(vector);
                 for shift in shifted_copies.iter() {
                     shifts.push(shift.clone());
@@ -233,7 +239,14 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
+            // Stay away far enough from the edges so that all registers are inside of the data,
+            // even after the rounding to registers
+            let scalar_len = (vectors[0].points() + 2 * Reg::LEN) * interpolation_factor;
+            let scalar_len = if 2 * scalar_len < len {
+                scalar_len
+            } else {
+                len
+            };
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
@@ -244,7 +257,7 @@ where
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[scalar_len..std::cmp::max(scalar_len, len - scalar_len)],
                 1,
                 simd,
                 move |dest_range, range, simd| {
@@ -275,7 +288,8 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            let right_len = std::cmp::min(scalar_len, len - scalar_len);
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, right_len) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
-- 
2.43.0


From fac5ac9da3aa7d61e49e3a2d53934b1980151ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 38/71] fix: interpolate_lin and interpolate_hermite panicked
 for delays and many factors

---
 .../time_freq/real_interpolation.rs           | 147 +++++++-----------
 1 file changed, 58 insertions(+), 89 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..15d99f2 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -34,18 +34,17 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
-        let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
-            .round()
-            .to_usize()
-            .unwrap()
-            + 1;
+        if data_len == 0 {
+            return;
+        }
+        let dest_len = interpolated_len(data_len, interpolation_factor);
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
@@ -54,12 +53,10 @@ where
 
             for num in &mut dest[0..dest_len - 1] {
                 let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let next = before + 1;
-                let x0 = beforef;
-                let y0 = data[before];
-                let y1 = data[next];
+                let x0 = rounded.floor();
+                let before = x0.to_isize().unwrap();
+                let y0 = data[clamp_index(before, data_len)];
+                let y1 = data[clamp_index(before + 1, data_len)];
                 let x = rounded;
                 (*num) = y0 + (y1 - y0) * (x - x0);
                 i = i + T::one();
@@ -74,95 +71,35 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
         let data_len = self.len();
-        let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
-            .round()
-            .to_usize()
-            .unwrap()
-            + 1;
+        if data_len == 0 {
+            return;
+        }
+        let dest_len = interpolated_len(data_len, interpolation_factor);
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[dest_len - end..dest_len] {
+            for num in dest {
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = if before < data_len - 1 {
-                    data[before + 1]
-                } else {
-                    y1 + (y1 - y0)
-                };
-                let y3 = if before < data_len - 2 {
-                    data[before + 2]
-                } else {
-                    y2 + (y2 - y1)
-                };
+                let before = beforef.to_isize().unwrap();
+                let y0 = extrapolate(data, before - 1);
+                let y1 = extrapolate(data, before);
+                let y2 = extrapolate(data, before + 1);
+                let y3 = extrapolate(data, before + 2);
                 let x = rounded - beforef;
                 let x2 = x * x;
                 let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
@@ -178,6 +115,38 @@ where
         temp.trade(&mut self.data);
     }
 }
+
+/// Number of points after an interpolation of `len` points, where `len` is at least 1.
+fn interpolated_len<T: RealNumber>(len: usize, interpolation_factor: T) -> usize {
+    (T::from(len - 1).unwrap() * interpolation_factor)
+        .round()
+        .to_usize()
+        .unwrap()
+        + 1
+}
+
+/// The index of the sample which is the closest to `index`.
+fn clamp_index(index: isize, len: usize) -> usize {
+    if index < 0 {
+        0
+    } else {
+        (index as usize).min(len - 1)
+    }
+}
+
+/// Returns the sample at `index`. Outside of the data the first and
+/// last segment are continued with a straight line.
+fn extrapolate<T: RealNumber>(data: &[T], index: isize) -> T {
+    let inside = clamp_index(index, data.len());
+    let outside = T::from(index - inside as isize).unwrap();
+    if data.len() < 2 || outside == T::zero() {
+        data[inside]
+    } else {
+        let segment = inside.min(data.len() - 2);
+        data[inside] + (data[segment + 1] - data[segment]) * outside
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::super::super::*;
-- 
2.43.0


From 832a3180d794982d48411fe917e4bfca630fbcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 39/71] fix: ln_approx reduced the range of its argument with
 the wrong threshold

---
 vector/src/simd_extensions/approximations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/simd_extensions/approximations.rs b/vector/src/simd_extensions/approximations.rs
index 8c4b441..c2de96c 100644
--- a/vector/src/simd_extensions/approximations.rs
+++ b/vector/src/simd_extensions/approximations.rs
@@ -69,7 +69,7 @@ macro_rules! simd_approx_impl {
                 let one = $regf::splat(1.0);
                 let onef_as_uint: $regu = unsafe { mem::transmute(one) };
                 let half = $regf::splat(0.5);
-                let sqrthf = $regf::splat(2.0.sqrt());
+                let sqrthf = $regf::splat(0.5.sqrt());
                 let log_p0 = $regf::splat(7.0376836292E-2);
                 let log_p1 = $regf::splat(-1.1514610310E-1);
                 let log_p2 = $regf::splat(1.1676998740E-1);
-- 
2.43.0


From 666b8ab7823844e3392e14e53072171490264c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 40/71] fix: complex sums and dot products panicked on storage
 of odd length

array_to_complex was given the whole storage instead of the valid data.
---
 vector/src/vector_types/general/dot_products.rs | 8 ++++----
 vector/src/vector_types/general/statistics.rs   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 271e23f..fadc734 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -142,8 +142,8 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let array = &self.data.to_slice()[0..data_length];
+        let partition = Reg::calc_data_alignment_reqs(array);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
             Complexity::Small,
@@ -254,8 +254,8 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let array = &self.data.to_slice()[0..data_length];
+        let partition = Reg::calc_data_alignment_reqs(array);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
             Complexity::Small,
diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index bd82d84..2ded3c0 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -502,8 +502,8 @@ where
 
     fn sum_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
-        let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let array = &self.data.to_slice()[0..data_length];
+        let partition = Reg::calc_data_alignment_reqs(array);
         let sum = {
             let chunks = Chunk::get_chunked_results(
                 Complexity::Small,
@@ -533,8 +533,8 @@ where
 
     fn sum_sq_complex<Reg: SimdGeneric<T>>(&self, _: RegType<Reg>) -> Complex<T> {
         let data_length = self.len();
-        let array = self.data.to_slice();
-        let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
+        let array = &self.data.to_slice()[0..data_length];
+        let partition = Reg::calc_data_alignment_reqs(array);
         let sum = {
             let chunks = Chunk::get_chunked_results(
                 Complexity::Small,
-- 
2.43.0


From b80246d584ffa973c2e5968d78d0175de00e3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 41/71] fix: symmetric FFTs of statically typed vectors had
 twice the delta

The conversion to complex numbers was done twice, so the transform was
calculated with twice the number of points.
---
 vector/src/vector_types/time_freq/time_to_freq.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index eb44313..8222998 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -220,8 +220,6 @@ where
         }
 
         let points = self.points();
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
@@ -252,8 +250,6 @@ where
         }
 
         let points = self.points();
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
@@ -289,8 +285,6 @@ where
 
         self.apply_window(window);
         let points = self.points();
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
-- 
2.43.0


From 55bae88270858eedf98c07eaf62ecff0bc9ad0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 42/71] fix: rededicate_from must only keep the data if number
 space and domain agree

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 36143d2677789818cd23c23eb9e19a0935d24cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 43/71] fix: convolve_signal panicked if the impulse response
 had storage of odd length

---
 vector/src/vector_types/time_freq/convolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 88d3068..9d4a858 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -355,8 +355,8 @@ where
             let (tmp, array) = array.split_at_mut(tmp_len);
             let (filter_response_padded, array) = array.split_at_mut(filter_response_padded_len);
             let end = array;
-            let filter_response = filter_response.data.to_slice();
-            (&mut filter_response_padded[0..2 * imp_len]).copy_from_slice(&filter_response[0..2 * imp_len]);
+            let filter_response = &filter_response.data.to_slice()[0..2 * imp_len];
+            (&mut filter_response_padded[0..2 * imp_len]).copy_from_slice(filter_response);
 
             let mut filter_response_padded = (&mut filter_response_padded[..]).to_complex_time_vec();
             filter_response_padded
-- 
2.43.0


From ce1a9fa17599e72129a3be1f963e5d4f3c2d3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 44/71] fix: conversions between Vec and complex vectors failed
 for empty vectors and returned too many elements

---
 vector/src/vector_types/support_std.rs | 38 ++++++++++++++------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..1165bd9 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -644,29 +644,33 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
-    let boxed = vec.into_boxed_slice();
-    let len = boxed.len();
-    unsafe {
-        let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
-    }
+    let mut vec = mem::ManuallyDrop::new(vec);
+    let (len, capacity) = (vec.len(), vec.capacity());
+    // A complex number has the layout of two real numbers
+    unsafe { Vec::<T>::from_raw_parts(vec.as_mut_ptr() as *mut T, len * 2, capacity * 2) }
 }
 
-fn interleaved_vec_to_complex_vec<T>(mut vec: Vec<T>) -> Vec<Complex<T>>
+/// Only the complete complex numbers of the vector are part of the result.
+fn interleaved_vec_to_complex_vec<T>(vec: Vec<T>) -> Vec<Complex<T>>
 where
     T: RealNumber,
 {
-    expand_to_full_capacity(&mut vec);
-    let boxed = vec.into_boxed_slice();
-    let len = boxed.len();
+    if vec.capacity() % 2 != 0 {
+        // The memory can't be divided into complex numbers
+        return vec
+            .chunks_exact(2)
+            .map(|c| Complex::new(c[0], c[1]))
+            .collect();
+    }
+    let mut vec = mem::ManuallyDrop::new(vec);
+    let (len, capacity) = (vec.len(), vec.capacity());
+    // A complex number has the layout of two real numbers
     unsafe {
-        let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
-        let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
+        Vec::<Complex<T>>::from_raw_parts(
+            vec.as_mut_ptr() as *mut Complex<T>,
+            len / 2,
+            capacity / 2,
+        )
     }
 }
 
-- 
2.43.0


From 10de71d124fbd680bc842fb2c5804715a9d8b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 45/71] fix: get panicked for complex vectors in slices of odd
 length

---
 vector/src/vector_types/support_core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 03982f6..bc265b9 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -785,7 +785,9 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        // Slices can have an odd length if the vector doesn't use all of it
+        let complete = self.data.len() - self.data.len() % 2;
+        (array_to_complex(&self.data[..complete]), len)
     }
 }
 
@@ -798,6 +800,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        // Slices can have an odd length if the vector doesn't use all of it
+        let complete = self.data.len() - self.data.len() % 2;
+        (array_to_complex_mut(&mut self.data[..complete]), len)
     }
 }
-- 
2.43.0


From d1d8c94bbff7eb9db51aa0600e197d6dbe193048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 46/71] fix: complex vectors with an odd length could be
 created from slices and with From

---
 vector/src/vector_types/support_core.rs            | 5 ++++-
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index bc265b9..221ad27 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -520,7 +520,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From 0ae4e0c99f6d956f030b90f89bc369e4439f278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 47/71] fix: vectors with more than 64 elements collected from
 an iterator caused a panic

---
 vector/src/inline_vector/dynamic.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 12d4119..62fe3e3 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -68,7 +68,17 @@ impl<T> InlineVector<T> {
         Self::with_capacity(0)
     }
 
+    /// Continues on the heap if there is no room for another element.
+    fn make_room(&mut self) {
+        let dynamic = match *self {
+            InlineVector::Inline(ref mut v) if v.is_full() => v.drain(..).collect::<Vec<T>>(),
+            _ => return,
+        };
+        *self = InlineVector::Dynamic(dynamic);
+    }
+
     pub fn push(&mut self, elem: T) {
+        self.make_room();
         match *self {
             InlineVector::Inline(ref mut v) => {
                 v.push(elem);
@@ -132,6 +142,7 @@ impl<T> InlineVector<T> {
     }
 
     pub fn insert(&mut self, index: usize, element: T) {
+        self.make_room();
         match *self {
             InlineVector::Inline(ref mut v) => {
                 v.insert(index, element);
-- 
2.43.0


From 9e5831cc55cdaf779d3e2453c5ad8d057baf954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 48/71] fix: resizing small internal vectors did nothing

---
 vector/src/inline_vector/dynamic.rs    | 6 +++++-
 vector/src/inline_vector/fixed_size.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 62fe3e3..470040b 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -155,8 +155,12 @@ impl<T> InlineVector<T> {
 impl<T: Zero + Clone> InlineVector<T> {
     pub fn try_resize(&mut self, len: usize) -> VoidResult {
         match *self {
-            InlineVector::Inline(ref v) => {
+            InlineVector::Inline(ref mut v) => {
                 if v.capacity() >= len {
+                    v.truncate(len);
+                    while v.len() < len {
+                        v.push(T::zero());
+                    }
                     Ok(())
                 } else {
                     Err(ErrorReason::TypeCanNotResize)
diff --git a/vector/src/inline_vector/fixed_size.rs b/vector/src/inline_vector/fixed_size.rs
index 969838d..d146dd4 100644
--- a/vector/src/inline_vector/fixed_size.rs
+++ b/vector/src/inline_vector/fixed_size.rs
@@ -132,8 +132,12 @@ impl<T> InlineVector<T> {
 impl<T: Zero + Clone> InlineVector<T> {
     pub fn try_resize(&mut self, len: usize) -> VoidResult {
         match *self {
-            InlineVector::Inline(ref v) => {
+            InlineVector::Inline(ref mut v) => {
                 if v.capacity() >= len {
+                    v.truncate(len);
+                    while v.len() < len {
+                        v.push(T::zero());
+                    }
                     Ok(())
                 } else {
                     Err(ErrorReason::TypeCanNotResize)
-- 
2.43.0


From e7622dabe08f1cbfb9ec1e05cbe801130916d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 49/71] fix: Lookup tables returned their first entry for all
 arguments below their range

---
 vector/src/conv_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..44023a7 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -167,7 +167,7 @@ macro_rules! add_linear_table_lookup_impl {
                         let x = x / self.delta + center_float;
                         let round_float = x.round();
                         let round = round_float as usize;
-                        if round >= len {
+                        if round_float < 0.0 || round >= len {
                             return $result_type::zero();
                         }
 
-- 
2.43.0


From bc583065c870e9b7579e5c78c48df1e64f619784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 50/71] fix: RaisedCosineFunction returned infinity or
 inaccurate values next to its singularity

---
 vector/src/conv_types.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 44023a7..a8316a2 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -411,15 +411,18 @@ where
         let one = T::one();
         let two = T::from(2.0).unwrap();
         let pi = T::PI();
-        let four = two * two;
-        if x.abs() == one / (two * self.rolloff) {
-            let arg = pi / two / self.rolloff;
-            return (arg).sin() / arg * pi / four;
-        }
-
+        let half_pi = pi / two;
         let pi_x = pi * x;
-        let arg = two * self.rolloff * x;
-        pi_x.sin() * (pi_x * self.rolloff).cos() / pi_x / (one - (arg * arg))
+        let arg = two * self.rolloff * x.abs();
+        // `cos(pi * rolloff * x) / (1 - arg * arg)`, written so that it's accurate
+        // in the vicinity of its removable singularity at `arg == 1`
+        let distance = one - arg;
+        let edge = if distance == T::zero() {
+            half_pi
+        } else {
+            (half_pi * distance).sin() / distance
+        };
+        pi_x.sin() / pi_x * edge / (one + arg)
     }
 }
 
-- 
2.43.0


From 3efc01bbac283c032f2e633e79411d9f3c82f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 51/71] fix: Fourier transforms of lookup tables panicked for
 lengths which need a larger buffer

---
 vector/src/conv_types.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index a8316a2..1201c90 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -8,6 +8,7 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use crate::vector_types::*;
 use num_complex::{Complex32, Complex64};
+use rustfft::{FftDirection, FftPlanner};
 use std::marker::PhantomData;
 use std::ops::*;
 
@@ -286,6 +287,19 @@ add_complex_linear_table_impl!(
     ComplexTimeLinearTableLookup, RealTimeLinearTableLookup, f32, f64;
     ComplexFrequencyLinearTableLookup, RealFrequencyLinearTableLookup, f32, f64);
 
+/// A buffer for a Fourier transform with the given number of points. Some lengths
+/// require more space than the data itself.
+fn fft_buffer<T: RealNumber>(
+    points: usize,
+    direction: FftDirection,
+) -> FixedLenBuffer<InlineVector<T>, T> {
+    let scratch_len = FftPlanner::<T>::new()
+        .plan_fft(points, direction)
+        .get_inplace_scratch_len();
+    let len = 2 * std::cmp::max(points, scratch_len);
+    FixedLenBuffer::new(InlineVector::of_size(T::zero(), len))
+}
+
 macro_rules! add_complex_time_linear_table_impl {
     ($($data_type: ident),*) => {
         $(
@@ -300,7 +314,7 @@ macro_rules! add_complex_time_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_time_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let mut buffer = fft_buffer::<$data_type>(complex.len(), FftDirection::Forward);
                     let freq = vector.fft(&mut buffer);
                     let delta = freq.delta();
                     let freq = freq.datac(..);
@@ -332,7 +346,7 @@ macro_rules! add_real_time_linear_table_impl {
                     vector.resize(len).expect("shrinking should always succeed");
                     vector.data_mut(0.. len).copy_from_slice(&self.table[..]);
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), 2 * len));
+                    let mut buffer = fft_buffer::<$data_type>(len, FftDirection::Forward);
                     let freq = vector.fft(&mut buffer);
                     let freq = freq.magnitude();
                     let is_symmetric = self.is_symmetric;
@@ -367,7 +381,7 @@ macro_rules! add_complex_frequency_linear_table_impl {
                     }
                     let mut vector = interleaved.to_complex_freq_vec();
                     vector.set_delta(self.delta);
-                    let mut buffer = FixedLenBuffer::new(InlineVector::of_size($data_type::zero(), vector.len()));
+                    let mut buffer = fft_buffer::<$data_type>(complex.len(), FftDirection::Inverse);
                     let time = vector.ifft(&mut buffer);
                     let delta = time.delta();
                     let time = time.datac(..);
-- 
2.43.0


From 51d16fcb214031c662a85c91b5e25d4e008e08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 52/71] fix: get_magnitude, get_magnitude_squared and get_phase
 of matrices returned the imaginary part

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From e264c9caba7dcfd6823ed11024b9bbb31dd2e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 53/71] fix: diff_with_start and cum_sum of matrices calculated
 diff

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From c52c99b01ac8af63ce2f47e9a6110cd061a7c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 54/71] fix: sums weren't available for matrices with 3 or 4
 rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From f47f2284319c5ef6719649551cb9bb593be73c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 55/71] fix: statistics of matrices couldn't be called with any
 type of row

---
 matrix/src/general/statistics.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 4a24251..25e9724 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -3,7 +3,7 @@ use crate::IntoFixedLength;
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = Vec<Statistics<T>>;
 
@@ -20,7 +20,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = Vec<StatsVec<Statistics<T>>>;
 
@@ -37,7 +37,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 2];
 
@@ -54,7 +54,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 2];
 
@@ -71,7 +71,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 3];
 
@@ -88,7 +88,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 3];
 
@@ -105,7 +105,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 4];
 
@@ -122,7 +122,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 4];
 
@@ -239,7 +239,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = Vec<Statistics<T>>;
 
@@ -256,7 +256,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = Vec<StatsVec<Statistics<T>>>;
 
@@ -273,7 +273,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 2];
 
@@ -290,7 +290,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 2];
 
@@ -307,7 +307,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 3];
 
@@ -324,7 +324,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 3];
 
@@ -341,7 +341,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 4];
 
@@ -358,7 +358,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 4];
 
-- 
2.43.0


From 4070eb51f64220dce169db482279fc8d9b1fc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 56/71] fix: operations of two matrices ignored rows if the
 number of rows differed

---
 matrix/src/complex.rs            |  6 +++++-
 matrix/src/general/elementary.rs |  9 +++++++++
 matrix/src/general/mod.rs        | 10 +++++++++-
 matrix/src/lib.rs                |  9 +++++++++
 matrix/src/time_freq.rs          |  3 ++-
 5 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index 2a4fbe4..15cc31d 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::TransformContent;
+use crate::{must_have_same_rows, TransformContent};
 use std::marker;
 
 macro_rules! add_mat_impl {
@@ -178,6 +178,8 @@ macro_rules! add_mat_impl {
 				fn set_real_imag(&mut self,
                                  real: &O,
                                  imag: &O) -> VoidResult {
+                    must_have_same_rows(self.rows(), real.rows())?;
+                    must_have_same_rows(self.rows(), imag.rows())?;
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                     .zip(real.rows())
                                     .zip(imag.rows()) {
@@ -190,6 +192,8 @@ macro_rules! add_mat_impl {
 				fn set_mag_phase(&mut self,
                                  mag: &O,
                                  phase: &O) -> VoidResult {
+                    must_have_same_rows(self.rows(), mag.rows())?;
+                    must_have_same_rows(self.rows(), phase.rows())?;
                     for ((v, r), i) in self.rows_mut().iter_mut()
                                      .zip(mag.rows())
                                      .zip(phase.rows()) {
diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index 7b94333..54cd287 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::must_have_same_rows;
 
 macro_rules! add_mat_impl {
     ($($matrix:ident);*) => {
@@ -46,6 +47,7 @@ macro_rules! add_mat_impl {
                     for $matrix<V, S, T>
                     where V: ElementaryOps<V, T, N, D> + GetMetaData<T, N, D> {
 				fn add(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.add(o)?;
 					}
@@ -54,6 +56,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn sub(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.sub(o)?;
 					}
@@ -62,6 +65,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn div(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.div(o)?;
 					}
@@ -70,6 +74,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn mul(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.mul(o)?;
 					}
@@ -119,6 +124,7 @@ macro_rules! add_mat_impl {
                     for $matrix<V, S, T>
                     where V: ElementaryWrapAroundOps<V, T, N, D> + GetMetaData<T, N, D> {
 				fn add_smaller(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.add_smaller(o)?;
 					}
@@ -127,6 +133,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn sub_smaller(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.sub_smaller(o)?;
 					}
@@ -135,6 +142,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn div_smaller(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.div_smaller(o)?;
 					}
@@ -143,6 +151,7 @@ macro_rules! add_mat_impl {
 				}
 
 				fn mul_smaller(&mut self, summand: &Self) -> VoidResult {
+					must_have_same_rows(self.rows(), summand.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(summand.rows()) {
 						v.mul_smaller(o)?;
 					}
diff --git a/matrix/src/general/mod.rs b/matrix/src/general/mod.rs
index 562f49b..1060ace 100644
--- a/matrix/src/general/mod.rs
+++ b/matrix/src/general/mod.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::IntoFixedLength;
+use crate::{must_have_same_rows, IntoFixedLength};
 
 mod elementary;
 pub use self::elementary::*;
@@ -14,6 +14,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product(&self, factor: &MatrixMxN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product(o)?;
@@ -32,6 +33,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product(&self, factor: &Matrix2xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product(o)?;
@@ -50,6 +52,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product(&self, factor: &Matrix3xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product(o)?;
@@ -68,6 +71,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product(&self, factor: &Matrix4xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product(o)?;
@@ -158,6 +162,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product_prec(&self, factor: &MatrixMxN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product_prec(o)?;
@@ -176,6 +181,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product_prec(&self, factor: &Matrix2xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product_prec(o)?;
@@ -194,6 +200,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product_prec(&self, factor: &Matrix3xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product_prec(o)?;
@@ -212,6 +219,7 @@ where
     type Output = ScalarResult<Vec<T>>;
 
     fn dot_product_prec(&self, factor: &Matrix4xN<V, S, T>) -> ScalarResult<Vec<T>> {
+        must_have_same_rows(self.rows(), factor.rows())?;
         let mut result = Vec::with_capacity(self.col_len());
         for (v, o) in self.rows().iter().zip(factor.rows()) {
             let res = v.dot_product_prec(o)?;
diff --git a/matrix/src/lib.rs b/matrix/src/lib.rs
index 431a5c2..cfd7d31 100644
--- a/matrix/src/lib.rs
+++ b/matrix/src/lib.rs
@@ -157,6 +157,15 @@ pub type ComplexFreqMatrix32x4 = Matrix4xN<ComplexFreqVec32, Vec<f32>, f32>;
 /// A matrix which can hold exactly 4 vectors of 64 bit floating point numbers in complex number space and frequency domain.
 pub type ComplexFreqMatrix64x4 = Matrix4xN<ComplexFreqVec64, Vec<f64>, f64>;
 
+/// Operations with two matrices are done row by row and thus need the same number of rows
+fn must_have_same_rows<A, B>(a: &[A], b: &[B]) -> VoidResult {
+    if a.len() == b.len() {
+        Ok(())
+    } else {
+        Err(ErrorReason::InputMustHaveTheSameSize)
+    }
+}
+
 /// Internal trait to transform a row storage type to another
 trait TransformContent<S, D> {
     type Output;
diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..df1639f 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::TransformContent;
+use crate::{must_have_same_rows, TransformContent};
 use basic_dsp_vector::conv_types::*;
 use basic_dsp_vector::window_functions::*;
 use std::marker;
@@ -255,6 +255,7 @@ macro_rules! add_mat_impl {
 						other: &O)
 						-> VoidResult
                     where B: for<'b> Buffer<'b, S, T> {
+					must_have_same_rows(self.rows(), other.rows())?;
 					for (v, o) in self.rows_mut().iter_mut().zip(other.rows()) {
 						v.correlate(buffer, o)?;
 					}
-- 
2.43.0


From 9ef674b7518c9d6bdf18cb94d90d40c014c9200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 57/71] fix: convolutions of complex matrices ignored all
 points beyond the length of the impulse responses

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index ba5d1f6..5b8fd3c 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -415,7 +415,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From 979850904a41c4de3a574129fbf80739cbe71d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 58/71] fix: convolutions of matrices with a wrong number of
 impulse responses left garbage in the rows

---
 matrix/src/time_freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index df1639f..48c87d1 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -441,6 +441,10 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
+
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
-- 
2.43.0


From 3ff3d0a84db7fd2de26d6a6c65b9a9feb26fdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 59/71] fix: convolutions of matrices didn't check number space
 and domain

---
 vector/src/vector_types/time_freq/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 5b8fd3c..78ee494 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -16,7 +16,7 @@ mod real_interpolation;
 pub use self::real_interpolation::*;
 
 use super::{
-    Buffer, BufferBorrow, Domain, DspVec, ErrorReason, GetMetaData, MetaData, NumberSpace,
+    Buffer, BufferBorrow, DataDomain, Domain, DspVec, ErrorReason, GetMetaData, MetaData, NumberSpace,
     ToSliceMut, Vector, VoidResult,
 };
 use crate::gpu_support::GpuSupport;
@@ -373,6 +373,16 @@ where
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
+        if matrix[0].domain() != DataDomain::Time {
+            return Err(ErrorReason::InputMustBeInTimeDomain);
+        }
+
+        for v in matrix.iter().chain(impulse_response) {
+            if v.is_complex() != matrix[0].is_complex() || v.domain() != matrix[0].domain() {
+                return Err(ErrorReason::InputMetaDataMustAgree);
+            }
+        }
+
         let expected_len = matrix[0].len();
         for v in &matrix[..] {
             if v.len() != expected_len {
-- 
2.43.0


From 795dcb7ffbdcfd37c5dc6dadc193564b47213853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 60/71] fix: sub32 and sub64 expected a pointer to a pointer as
 operand

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..00761f3 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..4bc57b4 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 02c6b4a1f371822e4ac445a0c793f2c1bec75785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 61/71] fix: atan32 and atan64 calculated the tangent

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 00761f3..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 4bc57b4..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From cc22179e49976a026bc7695d8c5ee3f2bb088c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 62/71] fix: interop functions without result returned an error
 code on success

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From f39c04bbe218655933b0925838aafff3dceee761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 63/71] fix: overwrite_data rejected data of the length of the
 vector

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..40838ad 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..1a3a6e2 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From b8b6e9ca85bd4dcf0953d14a176780770a677b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 64/71] fix: fft_shift and ifft_shift weren't exported for C

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 40838ad..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 1a3a6e2..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From cd952da34f746ae72de09d5ef6b4e51aa662a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 65/71] fix: clone and getters of the interop facade freed the
 source vector

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From 224ec1b0c6a584c69e3a3f1f607b1a4b7020141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 66/71] fix: SIMD interpolation and convolution of data which
 can't be aligned

Slices may start at an address from which no register boundary can be
reached (e.g. complex data at an odd multiple of the scalar size). There are
no registers then and the index calculation underflowed.
---
 .../vector_types/time_freq/interpolation.rs   | 11 ++++++-----
 vector/src/vector_types/time_freq/mod.rs      | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 2bf4007..c61df61 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -242,15 +242,16 @@ where
             // Stay away far enough from the edges so that all registers are inside of the data,
             // even after the rounding to registers
             let scalar_len = (vectors[0].points() + 2 * Reg::LEN) * interpolation_factor;
-            let scalar_len = if 2 * scalar_len < len {
-                scalar_len
-            } else {
-                len
-            };
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // There are no registers at all if the data can't be aligned
+            let scalar_len = if 2 * scalar_len < len && !simd.is_empty() {
+                scalar_len
+            } else {
+                len
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 78ee494..e88d6da 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -574,18 +574,25 @@ where
 
             let shifts = create_shifted_copies(vector);
 
-            // The next lines uses + $reg::LEN due to rounding of odd numbers
-            let scalar_len = conv_len + Reg::LEN;
-            let conv_len = conv_len as isize;
-
             let partition = Reg::calc_data_alignment_reqs(&data[0..len]);
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+
+            // The next lines uses + $reg::LEN due to rounding of odd numbers,
+            // there are no registers at all if the data can't be aligned
+            let scalar_len = if simd.is_empty() {
+                points
+            } else {
+                conv_len + Reg::LEN
+            };
+            let right_len = std::cmp::min(scalar_len, points - scalar_len);
+            let conv_len = conv_len as isize;
+
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[scalar_len..std::cmp::max(scalar_len, points - scalar_len)],
                 1,
                 simd,
                 move |dest_range, range, simd| {
@@ -606,7 +613,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, right_len) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From c08cf147f017fa0e6cc9414f55871bf9fb74eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 67/71] fix: getters of complex vectors required destinations
 of twice the size

---
 .../src/vector_types/complex/complex_to_real.rs   | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index aac14e6..d2c7ea0 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From dd12074f456d40def58324979198f67b677cc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:58 +0000
Subject: [PATCH 68/71] fix: abs of large or small values was infinity or 0 in
 the vectorized code

---
 vector/src/vector_types/real/real_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index b8cb465..bf177d2 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -243,7 +243,7 @@ where
     fn abs(&mut self) {
         assert_real!(self);
         sel_reg!(self.simd_real_operation::<T>(
-            |x, _arg| (x * x).sqrt(),
+            |x, _arg| x.max(x.scale_real(-T::one())),
             |x, _arg| x.abs(),
             (),
             Complexity::Small
-- 
2.43.0


From 25121ba8b7a4a2f88c79e42629850895938c643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 69/71] fix: abs of zero must not be a negative zero

---
 vector/src/vector_types/real/real_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/real/real_ops.rs b/vector/src/vector_types/real/real_ops.rs
index bf177d2..4af310f 100644
--- a/vector/src/vector_types/real/real_ops.rs
+++ b/vector/src/vector_types/real/real_ops.rs
@@ -243,7 +243,8 @@ where
     fn abs(&mut self) {
         assert_real!(self);
         sel_reg!(self.simd_real_operation::<T>(
-            |x, _arg| x.max(x.scale_real(-T::one())),
+            // The addition makes sure that the result is never a negative zero
+            |x, _arg| x.max(x.scale_real(-T::one())).add_real(T::zero()),
             |x, _arg| x.abs(),
             (),
             Complexity::Small
-- 
2.43.0


From e3dd2662c38c4c80e68eb2545b95727c0c5b847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 70/71] fix: operations on storage of a fixed size reported
 success for a vector longer than its memory

---
 .../general/data_reorganization.rs            |  3 ++-
 vector/src/vector_types/mod.rs                | 11 ++++++++++
 vector/src/vector_types/time_freq/freq.rs     |  1 +
 .../vector_types/time_freq/freq_to_time.rs    |  9 ++++++++
 .../vector_types/time_freq/interpolation.rs   | 11 ++++++++++
 .../time_freq/real_interpolation.rs           |  2 ++
 .../vector_types/time_freq/time_to_freq.rs    | 22 +++++++++++++++++--
 .../src/vector_types/vec_impl_and_indexers.rs |  2 +-
 8 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 64289a2..66ce7f0 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -290,6 +290,7 @@ macro_rules! zero_interleave {
         }
 
         target.trade(&mut $self_.data);
+        let _ = $self_.verify_alloc_len();
     }};
 }
 
@@ -452,7 +453,7 @@ where
         }
 
         target.trade(&mut self.data);
-        Ok(())
+        self.verify_alloc_len()
     }
 
     fn zero_interleave_b<B>(&mut self, buffer: &mut B, factor: u32)
diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 6ff64b3..bf6bb82 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -232,6 +232,17 @@ where
         self.delta = T::nan();
     }
 
+    /// Marks the data of the vector as erroneous if the storage is too small for it. Storage
+    /// types with a fixed length don't necessarily take everything a buffer trades.
+    fn verify_alloc_len(&mut self) -> VoidResult {
+        if self.valid_len > self.data.alloc_len() {
+            self.mark_vector_as_invalid();
+            return Err(ErrorReason::TypeCanNotResize);
+        }
+
+        Ok(())
+    }
+
     /// Executes a real function.
     #[inline]
     fn pure_real_operation<A, F>(&mut self, op: F, argument: A, complexity: Complexity)
diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index 8ed3ae8..0ca6e60 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -84,6 +84,7 @@ where
         }
 
         temp.trade(&mut self.data);
+        let _ = self.verify_alloc_len();
     }
 
     fn fft_shift(&mut self) {
diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index 41bfad0..0802aa1 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -211,7 +211,16 @@ where
             ));
         }
 
+        let points = self.points();
         self.mirror(buffer);
+        if self.points() < points {
+            self.number_space.to_real();
+            self.domain.to_time();
+            return Err((
+                ErrorReason::TypeCanNotResize,
+                Self::RealTimeResult::rededicate_from_force(self),
+            ));
+        }
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c61df61..8f0cd87 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -302,6 +302,7 @@ where
         }
         self.valid_len = new_len;
         temp.trade(&mut self.data);
+        let _ = self.verify_alloc_len();
     }
 
     #[inline]
@@ -494,6 +495,7 @@ where
         }
 
         self.valid_len = new_len;
+        let _ = self.verify_alloc_len();
     }
 
     fn interpolatei<B>(
@@ -514,6 +516,7 @@ where
         }
 
         let is_complex = self.is_complex();
+        let orig_len = self.len();
 
         if !self.is_complex() {
             self.zero_interleave_b(buffer, interpolation_factor * 2);
@@ -522,6 +525,10 @@ where
         }
 
         let len = self.len();
+        if len < orig_len {
+            return Err(ErrorReason::TypeCanNotResize);
+        }
+
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer);
@@ -585,6 +592,10 @@ where
         }
 
         let complex_orig_len = self.len();
+        if complex_orig_len < orig_len {
+            return Err(ErrorReason::TypeCanNotResize);
+        }
+
         let complex_dest_len = 2 * dest_points;
         let max_len = std::cmp::max(complex_orig_len, complex_dest_len);
         self.resize_b(buffer, max_len)?; // allocate space
diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 15d99f2..1e67ebf 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -65,6 +65,7 @@ where
             self.valid_len = dest_len;
         }
         temp.trade(&mut self.data);
+        let _ = self.verify_alloc_len();
     }
 
     fn interpolate_hermite<B>(&mut self, buffer: &mut B, interpolation_factor: T, delay: T)
@@ -113,6 +114,7 @@ where
         }
         self.valid_len = dest_len;
         temp.trade(&mut self.data);
+        let _ = self.verify_alloc_len();
     }
 }
 
diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 8222998..1c9a795 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -1,7 +1,7 @@
 use super::super::{
     Buffer, DataDomain, DspVec, ErrorReason, FrequencyDomainOperations, InsertZerosOpsBuffered,
-    MetaData, NumberSpace, RealNumberSpace, RededicateForceOps, ResizeOps, TimeDomain,
-    TimeDomainOperations, ToFreqResult, ToSliceMut, TransRes, Vector,
+    MetaData, NumberSpace, RealNumberSpace, RededicateForceOps, ResizeBufferedOps, ResizeOps,
+    TimeDomain, TimeDomainOperations, ToFreqResult, ToSliceMut, TransRes, Vector,
 };
 use super::fft;
 use crate::numbers::*;
@@ -175,6 +175,21 @@ where
     }
 }
 
+/// Ensures that there is enough memory for the full spectrum of real data
+macro_rules! reserve_spectrum {
+    ($self_: ident, $buffer: ident, $points: ident) => {
+        if let Err(reason) = $self_.resize_b($buffer, 2 * $points) {
+            $self_.mark_vector_as_invalid();
+            $self_.number_space.to_complex();
+            $self_.domain.to_freq();
+            return Err((reason, Self::FreqResult::rededicate_from_force($self_)));
+        }
+        $self_
+            .resize($points)
+            .expect("Shrinking a vector should always succeed");
+    };
+}
+
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
         let points = $points;
@@ -220,6 +235,7 @@ where
         }
 
         let points = self.points();
+        reserve_spectrum!(self, buffer, points);
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
@@ -250,6 +266,7 @@ where
         }
 
         let points = self.points();
+        reserve_spectrum!(self, buffer, points);
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
@@ -285,6 +302,7 @@ where
 
         self.apply_window(window);
         let points = self.points();
+        reserve_spectrum!(self, buffer, points);
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
diff --git a/vector/src/vector_types/vec_impl_and_indexers.rs b/vector/src/vector_types/vec_impl_and_indexers.rs
index 05e880a..85112a3 100644
--- a/vector/src/vector_types/vec_impl_and_indexers.rs
+++ b/vector/src/vector_types/vec_impl_and_indexers.rs
@@ -243,7 +243,7 @@ where
                 temp.to_slice_mut()[0..orig_len].clone_from_slice(self.data(..));
                 temp.trade(&mut self.data);
                 self.valid_len = len;
-                Ok(())
+                self.verify_alloc_len()
             }
         }
     }
-- 
2.43.0


From d2781e1d9f8ef78969d90cd46c57168c0e20d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 71/71] fix: merge_cols panicked for more than 16 vectors of
 statistics

---
 vector/src/vector_types/general/statistics.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 2ded3c0..c724c5c 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -159,6 +159,15 @@ macro_rules! impl_common_stats {
             for i in 0..len {
                 let mut reordered = StatsVec::new();
                 for s in stats.iter() {
+                    if reordered.is_full() {
+                        // Make room, `rms` still has to be the sum of the squares
+                        let mut merged = Statistics::merge(&reordered);
+                        merged.rms = reordered[1..]
+                            .iter()
+                            .fold(reordered[0].rms, |sum, r| sum + r.rms);
+                        reordered.clear();
+                        reordered.push(merged);
+                    }
                     reordered.push(s[i]);
                 }
 
-- 
2.43.0

