From a229159f440751e4377d5ad18f411a2257c652fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 01/31] fix: check accesses through a mutable slice against the
 length of the slice

---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..24683e0 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,12 +219,12 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
+        assert!(local_index < self.point_range.len());
         local_index + self.point_range.start
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
+        assert!(local_range.end <= self.point_range.len());
         if local_range.start >= local_range.end {
             // Doesn't matter what range we return, as long as it is empty
             self.point_range.end..self.point_range.end
-- 
2.43.0


From 8b8db79791ff4e3d9f5c645970616a28df6b36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 02/31] fix: allow sub-slices that reach the end of a slice

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 24683e0..b664823 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From 6de112f2aed41c0e6f384833b56c425f7de345b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 03/31] fix: collect a VectorBuffer from an iterator that
 over-estimates its length

---
 pasture-core/src/containers/point_buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..3f6da2d 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,8 +851,9 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
-        if let Some(known_length) = maybe_known_length {
+        // The upper bound is only the exact number of points if it is equal to the lower bound
+        let (min_length, maybe_known_length) = iter.size_hint();
+        if let Some(known_length) = maybe_known_length.filter(|max| *max == min_length) {
             let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
             let storage = vec![0; num_bytes];
             let mut buffer = Self {
-- 
2.43.0


From d047c46716f7881b43fd7ee8a21f2608ec4c4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 04/31] fix: iterate and sort empty buffers by reference

---
 pasture-core/src/containers/attribute_iterators.rs | 13 +++++++++++--
 pasture-core/src/containers/buffer_views.rs        |  3 +++
 pasture-core/src/containers/point_iterators.rs     | 13 +++++++++++--
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..e5d20fb 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -77,7 +77,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            // The memory of an empty buffer is not necessarily aligned to `T`
+            attribute_data: if attribute_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(attribute_memory)
+            },
             current_index: 0,
         }
     }
@@ -119,7 +124,11 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            attribute_data: if attribute_memory.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(attribute_memory)
+            },
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..9d1e858 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -235,6 +235,9 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
 
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
+        if self.buffer.is_empty() {
+            return;
+        }
         let typed_points: &mut [T] =
             bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..e3ba42e 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -60,7 +60,12 @@ where
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            // The memory of an empty buffer is not necessarily aligned to `T`
+            point_data: if points_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(points_memory)
+            },
             current_index: 0,
         }
     }
@@ -100,7 +105,11 @@ where
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            point_data: if memory_for_all_points.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(memory_for_all_points)
+            },
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From 9f5d4d372b3c6da327c2d5d28ad7f37e8df327f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 05/31] fix: push no points into a HashMapBuffer with an empty
 layout

---
 pasture-core/src/containers/point_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 3f6da2d..9bd94d2 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -1279,6 +1279,10 @@ where
 {
     unsafe fn push_points(&mut self, point_bytes: &[u8]) {
         let point_size = self.point_layout.size_of_point_entry() as usize;
+        if point_size == 0 {
+            assert_eq!(point_bytes.len(), 0);
+            return;
+        }
         assert_eq!(point_bytes.len() % point_size, 0);
         let num_points_added = point_bytes.len() / point_size;
         for attribute in self.point_layout.attributes() {
-- 
2.43.0


From 7d498deb8b349e54bd835750ac1f759a52c39ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 06/31] fix: refuse a second range of values for the same
 attribute of a HashMapBuffer

---
 pasture-core/src/containers/point_buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 9bd94d2..1222bcb 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -920,7 +920,8 @@ impl<'a> HashMapBufferAttributePusher<'a> {
     /// If `attribute` is not part of the `PointLayout` of the underlying buffer.<br>
     /// If `T::data_type()` does not match `attribute.datatype()`.<br>
     /// If this is not the first call to `push_attribute_range`, and `data.len()` does not match the length of the
-    /// data that was passed to the first invocation of `push_attribute_range`
+    /// data that was passed to the first invocation of `push_attribute_range`<br>
+    /// If data for `attribute` was already pushed
     pub fn push_attribute_range<T: PrimitiveType>(
         &mut self,
         attribute: &PointAttributeDefinition,
@@ -936,6 +937,8 @@ impl<'a> HashMapBufferAttributePusher<'a> {
         } else {
             self.num_new_points = Some(data.len());
         }
+        // A second range for the same attribute would leave the attributes with different lengths
+        assert!(storage.is_empty());
         storage.extend_from_slice(bytemuck::cast_slice(data));
     }
 
-- 
2.43.0


From 066b2f0c0bffd07ca9f4f208d5d7bee0c954e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 07/31] fix: nth past the end of an iterator over points or
 values returns None

---
 pasture-core/src/containers/attribute_iterators.rs | 12 +++++++++---
 pasture-core/src/containers/point_iterators.rs     | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index e5d20fb..cd5423b 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -102,7 +102,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
@@ -150,7 +153,10 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.attribute_data.len());
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index e3ba42e..96bbb4b 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n).min(self.buffer.len());
         self.next()
     }
 }
@@ -85,7 +85,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
@@ -132,7 +135,10 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self
+            .current_index
+            .saturating_add(n)
+            .min(self.point_data.len());
         self.next()
     }
 }
-- 
2.43.0


From 834858a18a38216d03b79a6f7f000373ec1fd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 08/31] fix: add attributes behind every attribute of a layout,
 not just the last in the list

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..7777428 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1008,14 +1008,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // The attributes are not necessarily sorted by their offset, so the next field comes after the
+        // attribute that ends last in memory
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 508694ef8eb41f53e13ae4b2568aee5df566eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 09/31] fix: align packed point layouts as repr(packed(N)) does

---
 pasture-core/src/layout/point_layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 7777428..f0e84cc 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -826,9 +826,13 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
-            }
+            FieldAlignment::Packed(max_alignment) => std::cmp::min(
+                max_alignment,
+                std::cmp::max(
+                    current_max_alignment,
+                    point_attribute.datatype().min_alignment(),
+                ),
+            ),
         };
 
         self.attributes
-- 
2.43.0


From 3f79e519026477da6ae7562c6e178d2b11f4d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 10/31] fix: align numbers whose aligned value fits the type
 without an overflow in between

---
 pasture-core/src/math/arithmetic.rs | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..6a93898 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -25,7 +28,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -35,7 +41,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -45,7 +54,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -55,7 +67,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -65,7 +80,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 07f62aca1ea5a5d2e8bb1c2971eebb76c58dc5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 11/31] fix: convert attributes of equal types in
 RawPointConverter

---
 .../src/layout/conversion/attribute_conversion.rs    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..651c253 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -74,10 +74,14 @@ impl RawPointConverter {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
-                let conversion_fn = get_converter_for_attributes(
-                    from_attribute.attribute_definition(),
-                    to_attribute.attribute_definition(),
-                );
+                let conversion_fn = if from_attribute.datatype() == to_attribute.datatype() {
+                    Some(convert_unit as AttributeConversionFn)
+                } else {
+                    get_converter_for_attributes(
+                        from_attribute.attribute_definition(),
+                        to_attribute.attribute_definition(),
+                    )
+                };
                 conversion_fn.map(|conversion_fn| {
                     RawAttributeConverter::new(
                         conversion_fn,
-- 
2.43.0


From 3f22d8ef5099b3576298190d081a6f7ef0a2e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 12/31] fix: derive point layouts from the real offsets and
 alignment of the struct

---
 pasture-derive/src/layout.rs | 129 +++++++++--------------------------
 pasture-derive/src/lib.rs    | 117 ++++++++-----------------------
 2 files changed, 59 insertions(+), 187 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..e2f093c 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -1,12 +1,6 @@
 use syn::{Attribute, DataStruct, Error};
 use syn::{NestedMeta, Result};
 
-#[derive(Debug)]
-pub(crate) enum StructMemberLayout {
-    C,
-    Packed(u64),
-}
-
 /// Is the given Attribute a #[repr(...)] attribute?
 fn is_repr_attribute(attribute: &Attribute) -> bool {
     attribute
@@ -43,102 +37,43 @@ fn arg_is_packed(arg: &NestedMeta) -> bool {
     }
 }
 
-fn get_packing_from_arg(arg: &NestedMeta) -> Result<u64> {
-    match arg {
-        NestedMeta::Meta(meta) => {
-            match meta {
-                syn::Meta::Path(_) => Ok(1),
-                syn::Meta::List(list) => {
-                    let packed_value = match list.nested.first() {
-                    Some(f) => f,
-                    None => return Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]. packed List attribute has no nested members")),
-                };
-
-                    match packed_value {
-                        NestedMeta::Meta(meta) => match meta {
-                            syn::Meta::Path(path) => {
-                                let val_str = path
-                                    .get_ident()
-                                    .map(|ident| ident.to_string())
-                                    .ok_or_else(|| {
-                                        Error::new_spanned(
-                                            arg,
-                                            "Expected #[repr(packed(N))]. Could not get ident",
-                                        )
-                                    })?;
-                                val_str.parse::<u64>().map_err(|_| {
-                                    Error::new_spanned(
-                                        arg,
-                                        "Expected #[repr(packed(N))]. Could not parse number",
-                                    )
-                                })
-                            }
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))]. Meta is no Path",
-                            )),
-                        },
-                        NestedMeta::Lit(literal) => match literal {
-                            syn::Lit::Int(int_literal) => Ok(int_literal.base10_parse::<u64>()?),
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))], but argument N is no integer literal",
-                            )),
-                        },
-                    }
-                }
-                _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-            }
-        }
-        _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-    }
-}
-
-pub(crate) fn get_struct_member_layout(
+/// Checks that the struct has one of the representations that `derive(PointType)` supports: `C`, `packed` and `packed(N)`,
+/// alone or together with each other or with `align(N)`, in one or several `#[repr(...)]` attributes
+pub(crate) fn check_struct_representation(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
-) -> Result<StructMemberLayout> {
-    // Do we have a #[repr(...)] attribute?
-    let maybe_repr_attribute = struct_attributes.iter().find(|a| is_repr_attribute(a));
-    if maybe_repr_attribute.is_none() {
-        //return Ok(StructMemberLayout::Rust);
-        return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]"));
-    }
-
-    let repr_attribute = maybe_repr_attribute.unwrap();
-    let attribute_as_meta = repr_attribute.parse_meta()?;
-
-    match &attribute_as_meta {
-        syn::Meta::List(list) => {
-            // There are several possible arguments for #[repr] on structs:
-            // - C
-            // - transparent (on single-value structs)
-            // - packed
-            // - packed(N)
-            // - align(N)
-            // Several combinations of those are possible! So first we look for either
-            // the 'C' or 'packed'/'packed(N)' arguments
+) -> Result<()> {
+    let mut repr_attributes = struct_attributes
+        .iter()
+        .filter(|a| is_repr_attribute(a))
+        .peekable();
+    let first_repr_attribute = match repr_attributes.peek() {
+        Some(attribute) => *attribute,
+        None => return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]")),
+    };
 
-            let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
-            if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
+    for repr_attribute in repr_attributes {
+        match &repr_attribute.parse_meta()? {
+            syn::Meta::List(list) => {
+                if list
+                    .nested
+                    .iter()
+                    .any(|arg| arg_is_packed(arg) || arg_is_c(arg))
+                {
+                    return Ok(());
+                }
             }
-
-            let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
-            if maybe_repr_c.is_some() {
-                return Ok(StructMemberLayout::C);
+            _ => {
+                return Err(Error::new_spanned(
+                    repr_attribute,
+                    "Could not parse repr attribute",
+                ))
             }
-
-            //Ok(StructMemberLayout::Rust)
-            Err(Error::new_spanned(
-                repr_attribute,
-                "Unrecongized repr attribute",
-            ))
         }
-        _ => Err(Error::new_spanned(
-            repr_attribute,
-            "Could not parse repr attribute",
-        )),
     }
+
+    Err(Error::new_spanned(
+        first_repr_attribute,
+        "Unrecongized repr attribute",
+    ))
 }
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..08b20c4 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -2,12 +2,12 @@ extern crate proc_macro;
 use std::collections::HashSet;
 
 //use anyhow::{anyhow, bail, Result};
-use layout::{get_struct_member_layout, StructMemberLayout};
+use layout::check_struct_representation;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
+    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit, Member,
     NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
@@ -33,48 +33,6 @@ enum PasturePrimitiveType {
 }
 
 impl PasturePrimitiveType {
-    fn min_alignment(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 1,
-            PasturePrimitiveType::Vec3u16 => 2,
-            PasturePrimitiveType::Vec3f32 => 4,
-            PasturePrimitiveType::Vec3f64 => 8,
-            PasturePrimitiveType::Vec3i32 => 4,
-            &PasturePrimitiveType::Vec4u8 => 1,
-        }
-    }
-
-    fn size(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 3,
-            PasturePrimitiveType::Vec3u16 => 6,
-            PasturePrimitiveType::Vec3f32 => 12,
-            PasturePrimitiveType::Vec3f64 => 24,
-            PasturePrimitiveType::Vec3i32 => 12,
-            &PasturePrimitiveType::Vec4u8 => 4,
-        }
-    }
-
     fn as_token_stream(&self) -> quote::__private::TokenStream {
         match self {
             PasturePrimitiveType::U8 => quote! {pasture_core::layout::PointAttributeDataType::U8},
@@ -301,9 +259,10 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
     }
 }
 
-/// Describes a single field within a `PointType` struct. Contains the name of the field, the point attribute
+/// Describes a single field within a `PointType` struct. Contains the name (or index) of the field, the point attribute
 /// that the field maps to, as well as the primitive type of the field
 struct FieldLayoutDescription {
+    pub member: Member,
     pub attribute_name: String,
     pub primitive_type: PasturePrimitiveType,
 }
@@ -311,12 +270,17 @@ struct FieldLayoutDescription {
 fn get_field_layout_descriptions(fields: &Fields) -> Result<Vec<FieldLayoutDescription>> {
     fields
         .iter()
-        .map(|field| match field.ty {
+        .enumerate()
+        .map(|(index, field)| match field.ty {
             Type::Path(ref type_path) => {
                 let primitive_type = type_path_to_primitive_type(type_path)?;
                 let attribute_name = get_attribute_name_from_field(field)?;
 
                 Ok(FieldLayoutDescription {
+                    member: match &field.ident {
+                        Some(ident) => Member::Named(ident.clone()),
+                        None => Member::Unnamed(index.into()),
+                    },
                     attribute_name,
                     primitive_type,
                 })
@@ -343,41 +307,15 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
-    fields: &[FieldLayoutDescription],
-    data: &Data,
-    ident: &Ident,
-    type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
-    let struct_data = match data {
-        Data::Struct(struct_data) => struct_data,
-        _ => {
-            return Err(Error::new_spanned(
-                ident,
-                "#[derive(PointType)] is only valid for structs",
-            ))
-        }
-    };
-    let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
-
-    let mut current_offset = 0;
-    let mut max_alignment = 1;
-    let mut offsets = vec![];
-    for field in fields {
-        let min_alignment = match struct_layout {
-            StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, field.primitive_type.min_alignment())
-            }
-        };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
-
-        let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
-        current_offset = aligned_offset + field.primitive_type.size();
+/// Checks that the struct has one of the supported representations
+fn check_representation(data: &Data, ident: &Ident, type_attributes: &[Attribute]) -> Result<()> {
+    match data {
+        Data::Struct(struct_data) => check_struct_representation(type_attributes, struct_data),
+        _ => Err(Error::new_spanned(
+            ident,
+            "#[derive(PointType)] is only valid for structs",
+        )),
     }
-
-    Ok((offsets, max_alignment))
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -445,19 +383,18 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    if let Err(why) = check_representation(&input.data, name, input.attrs.as_slice()) {
+        return why.to_compile_error().into();
+    }
 
-    let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
+    // Ask the compiler for the memory layout of the struct. The representation can be spread over several `#[repr(...)]`
+    // attributes, raise the alignment, or leave the order of the fields to the compiler (`#[repr(packed(N))]` without `C`)
+    let attribute_descriptions = fields.iter().map(|field| {
         let attribute_name = &field.attribute_name;
         let primitive_type = &field.primitive_type.as_token_stream();
+        let member = &field.member;
         quote! {
-            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(#offset)
+            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(std::mem::offset_of!(#name, #member) as u64)
         }
     });
 
@@ -466,7 +403,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From 7503f448ceab58010738d0cbe9c0cca74aba85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 13/31] fix: voxelgrid_filter accepts an empty buffer

---
 pasture-algorithms/src/voxel_grid.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..2dfd44f 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -118,8 +118,11 @@ pub fn voxelgrid_filter<'a, 'b, PB: BorrowedBuffer<'a>, PBW: OwningBuffer<'b>>(
         panic!("The PointBuffer does not have the attribute attributes::POSITION_3D which is needed for the creation of the voxel grid.");
     }
 
-    // get the bounding box of the pointcloud
-    let aabb = calculate_bounds(buffer).unwrap();
+    // get the bounding box of the pointcloud, an empty pointcloud has none (and no voxels)
+    let aabb = match calculate_bounds(buffer) {
+        Some(aabb) => aabb,
+        None => return,
+    };
 
     // create arrays with all markers of one axis
     let (markers_x, markers_y, markers_z) =
-- 
2.43.0


From 744872e6ec3e76667e712c2f6426b96f9b46d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 14/31] fix: the maximum over the points of a voxel may be
 negative

---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 2dfd44f..db18613 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -172,7 +172,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From 4199b82ea7f3f23dafbad3511e80b3c7b2fbe284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 15/31] fix: keep all bits of point IDs when filtering with a
 voxel grid

---
 pasture-algorithms/src/voxel_grid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index db18613..21a730d 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -662,8 +662,9 @@ fn set_all_attributes<'a, PB: BorrowedBuffer<'a>>(
         } else if a.name() == attributes::POINT_ID.name()
             && a.datatype() == attributes::POINT_ID.datatype()
         {
-            let max =
-                centroid_max_pool::<PB>(v, buffer, &attributes::POINT_ID, a.datatype()) as u64;
+            // A maximum of type f64 would not be exact for all IDs
+            let ids = buffer.view_attribute::<u64>(&attributes::POINT_ID);
+            let max = v.points.iter().map(|p| ids.at(*p)).max().unwrap_or(0);
             let m_slice = bytemuck::bytes_of(&max);
             centroid
                 .set_raw_attribute(&attributes::POINT_ID, m_slice)
-- 
2.43.0


From 7c32190e9a89f4e50eb6b950773daf0c7002eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 16/31] fix: form no convex hull triangle of collinear points

---
 pasture-algorithms/src/convexhull.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..4352c49 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -146,10 +146,9 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 first.b = pointid;
             } else {
                 let ac: Vector3<f64> = point - first_a;
-                let ab_norm = ab.normalize();
-                let ac_ab_projected_length = ac.dot(&ab_norm);
-                if f64::abs(ac_ab_projected_length) == ac.magnitude() {
-                    if ac_ab_projected_length >= 0.0 {
+                // compare without normalizing, the rounding would let collinear points form a triangle
+                if ab.cross(&ac) == Vector3::zeros() {
+                    if ac.dot(&ab) >= 0.0 {
                         if ac.magnitude_squared() > ab_mag_sqr {
                             first.b = pointid;
                         }
-- 
2.43.0


From 743ce2c1fbd902402b54a89ebf17bad82f50c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 17/31] fix: the convex hull of an empty buffer has no points

---
 pasture-algorithms/src/convexhull.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 4352c49..0b21f6c 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -63,6 +63,9 @@ pub fn convex_hull_as_triangle_mesh<'a, T: BorrowedBuffer<'a>>(
 pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<usize> {
     let triangles = create_convex_hull(buffer);
     let mut points = HashSet::new();
+    if triangles.is_empty() {
+        return Vec::new();
+    }
     if triangles.len() > 1 {
         for tri in triangles {
             points.insert(tri.a);
-- 
2.43.0


From 2b18e3aa5ab0a16091570cfffb54e88c2c9f2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 18/31] fix: build convex hulls of positions that have to be
 converted

---
 pasture-algorithms/src/convexhull.rs | 52 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 0b21f6c..087a96f 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -96,25 +96,26 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
         }
     };
 
-    let mut pointid: usize = 0;
-    if position_attribute.datatype() == POSITION_3D.datatype() {
-        for point in buffer.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+    let positions: Vec<Vector3<f64>> = if position_attribute.datatype() == POSITION_3D.datatype() {
+        buffer
+            .view_attribute::<Vector3<f64>>(&POSITION_3D)
+            .into_iter()
+            .collect()
     } else {
-        for point in buffer
+        buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
-        {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
-        }
+            .into_iter()
+            .collect()
     };
+    for (pointid, point) in positions.iter().enumerate() {
+        iteration(&positions, pointid, *point, &mut triangles);
+    }
     triangles
 }
 
 /// Performs a single iteration of the cunvex hull algorithm.
+/// `positions`: the positions of all points within the buffer
 /// `pointid`: current index within the buffer
 /// `point`: current point to be checked against the convex hull, possibly extends the convex hull
 /// `triangles`: the set of triangles forming the convex hull
@@ -123,8 +124,8 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
 /// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
-fn iteration<'a, T: BorrowedBuffer<'a>>(
-    buffer: &'a T,
+fn iteration(
+    positions: &[Vector3<f64>],
     pointid: usize,
     point: Vector3<f64>,
     triangles: &mut Vec<Triangle>,
@@ -141,8 +142,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         if pointid == 1 {
             first.b = pointid;
         } else {
-            let first_a = buffer.view_attribute(&POSITION_3D).at(first.a);
-            let first_b = buffer.view_attribute(&POSITION_3D).at(first.b);
+            let first_a = positions[first.a];
+            let first_b = positions[first.b];
             let ab: Vector3<f64> = first_b - first_a;
             let ab_mag_sqr = ab.magnitude_squared();
             if ab_mag_sqr == 0.0 {
@@ -178,7 +179,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
         let mut planar_triangles = Vec::new();
 
         triangles.retain(|tri| {
-            let tri_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(tri.a);
+            let tri_a: Vector3<f64> = positions[tri.a];
             let pa: Vector3<f64> = tri_a - point;
             let dot = pa.dot(&tri.normal);
             if dot < 0.0 {
@@ -194,8 +195,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
         if !outer_edges.is_empty() || !inner_edges.is_empty() {
             for edge in outer_edges.iter() {
-                let edge_a: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.a);
-                let edge_b: Vector3<f64> = buffer.view_attribute(&POSITION_3D).at(edge.b);
+                let edge_a: Vector3<f64> = positions[edge.a];
+                let edge_b: Vector3<f64> = positions[edge.b];
                 triangles.push(Triangle {
                     a: edge.a,
                     b: edge.b,
@@ -207,11 +208,10 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             // Find all edges of the triangle of which the edge-normal is facing the point.
             let mut edges_facing_point = Vec::new();
             let mut edge_triangle_id = Vec::new();
-            let position_view = buffer.view_attribute(&POSITION_3D);
             for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = position_view.at(pt.a);
-                let planar_b = position_view.at(pt.b);
-                let planar_c = position_view.at(pt.c);
+                let planar_a = positions[pt.a];
+                let planar_b = positions[pt.b];
+                let planar_c = positions[pt.c];
                 let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
                 if dist_ab >= 0.0 {
                     edges_facing_point.push(Edge { a: pt.a, b: pt.b });
@@ -237,8 +237,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
             let mut edge_triangle_normals = Vec::new();
             for i in (0..edges_facing_point.len()).rev() {
                 let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = position_view.at(edg.a);
-                let edg_b: Vector3<f64> = position_view.at(edg.b);
+                let edg_a: Vector3<f64> = positions[edg.a];
+                let edg_b: Vector3<f64> = positions[edg.b];
                 let dist_edg_a_p = (edg_a - point).magnitude_squared();
                 let dist_edg_b_p = (edg_b - point).magnitude_squared();
                 let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
@@ -251,8 +251,8 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                             planar_triangles[edge_triangle_id[other_edge_id]].normal;
                         if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
                             let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = position_view.at(other_edg.a);
-                            let other_edg_b: Vector3<f64> = position_view.at(other_edg.b);
+                            let other_edg_a: Vector3<f64> = positions[other_edg.a];
+                            let other_edg_b: Vector3<f64> = positions[other_edg.b];
                             let point_other_edg_a = other_edg_a - point;
                             let point_other_edg_b = other_edg_b - point;
                             let point_other_edg_a_norm =
-- 
2.43.0


From 5094908c60e0438214db44a5ee75e5cd2d8f2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 19/31] fix: keep only the border of flat convex hulls and
 extend it by the edges that face a point

---
 pasture-algorithms/src/convexhull.rs | 240 ++++-----------------------
 1 file changed, 35 insertions(+), 205 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 087a96f..ed451bf 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 use std::hash::{Hash, Hasher};
 use std::usize;
 
@@ -123,7 +123,7 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
 /// If the point lies within the current convex hull no changes have to be made.
 /// If the point lies outside of the current convex hull the hull has to be extended to include the current point.
 /// If 'triangles' contain only one entry: no full triangle has been found yet. In case of linearily dependant points no second triangle is added.
-/// If all 'triangles' are in a plane with 'point' a special triangulation procedure is needed to prevent a degenerated triangle mesh.
+/// If all 'triangles' are in a plane with 'point' both sides of the flat convex hull have to be extended to include the current point.
 fn iteration(
     positions: &[Vector3<f64>],
     pointid: usize,
@@ -204,190 +204,44 @@ fn iteration(
                     normal: calc_normal(edge_a, edge_b, point),
                 });
             }
-        } else {
-            // Find all edges of the triangle of which the edge-normal is facing the point.
-            let mut edges_facing_point = Vec::new();
-            let mut edge_triangle_id = Vec::new();
-            for (i, pt) in planar_triangles.iter().enumerate() {
-                let planar_a = positions[pt.a];
-                let planar_b = positions[pt.b];
-                let planar_c = positions[pt.c];
-                let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
-                if dist_ab >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.a, b: pt.b });
-                    edge_triangle_id.push(i);
-                }
-                let dist_bc = dist_point_to_edge(point, planar_b, planar_c, pt.normal);
-                if dist_bc >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.b, b: pt.c });
-                    edge_triangle_id.push(i);
-                }
-                let dist_ca = dist_point_to_edge(point, planar_c, planar_a, pt.normal);
-                if dist_ca >= 0.0 {
-                    edges_facing_point.push(Edge { a: pt.c, b: pt.a });
-                    edge_triangle_id.push(i);
-                }
-                if dist_ab < 0.0 && dist_bc < 0.0 && dist_ca < 0.0 {
-                    edges_facing_point.clear();
-                    break;
-                }
+        } else if planar_triangles.len() == triangles.len() {
+            // All points so far and this one lie in a plane, in which the convex hull is a polygon with two sides.
+            // If the point lies outside of the polygon, form a new one of it and all edges that do not face it.
+            // In all other cases the point lies in the convex hull already.
+            let normal = planar_triangles[0].normal;
+            let mut edges = Vec::new();
+            for tri in planar_triangles
+                .iter()
+                .filter(|tri| tri.normal.dot(&normal) > 0.0)
+            {
+                edges.extend_from_slice(&[(tri.a, tri.b), (tri.b, tri.c), (tri.c, tri.a)]);
             }
-
-            // Remove all edges occluded by other edges.
-            let mut edge_triangle_normals = Vec::new();
-            for i in (0..edges_facing_point.len()).rev() {
-                let edg = edges_facing_point[i];
-                let edg_a: Vector3<f64> = positions[edg.a];
-                let edg_b: Vector3<f64> = positions[edg.b];
-                let dist_edg_a_p = (edg_a - point).magnitude_squared();
-                let dist_edg_b_p = (edg_b - point).magnitude_squared();
-                let dist_edg_p = dist_point_to_line_segment(point, edg_a, edg_b);
-                let edg_triangle_normal: Vector3<f64> =
-                    planar_triangles[edge_triangle_id[i]].normal;
-                let mut remove = false;
-                for other_edge_id in 0..edges_facing_point.len() {
-                    if other_edge_id != i {
-                        let other_edg_triangle_normal =
-                            planar_triangles[edge_triangle_id[other_edge_id]].normal;
-                        if edg_triangle_normal.dot(&other_edg_triangle_normal) > 0.0 {
-                            let other_edg = edges_facing_point[other_edge_id];
-                            let other_edg_a: Vector3<f64> = positions[other_edg.a];
-                            let other_edg_b: Vector3<f64> = positions[other_edg.b];
-                            let point_other_edg_a = other_edg_a - point;
-                            let point_other_edg_b = other_edg_b - point;
-                            let point_other_edg_a_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_a);
-                            let point_other_edg_b_norm =
-                                other_edg_triangle_normal.cross(&point_other_edg_b);
-                            let edg_a_other_edg_a = edg_a - other_edg_a;
-                            let edg_a_other_edg_b = edg_a - other_edg_b;
-                            let edg_b_other_edg_a = edg_b - other_edg_a;
-                            let edg_b_other_edg_b = edg_b - other_edg_b;
-                            let ea_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_a_other_edg_a);
-                            let eb_oea_dot_border_a =
-                                point_other_edg_a_norm.dot(&edg_b_other_edg_a);
-                            let ea_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_a_other_edg_b);
-                            let eb_oeb_dot_border_b =
-                                point_other_edg_b_norm.dot(&edg_b_other_edg_b);
-                            if ea_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_a_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if eb_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0 {
-                                let dist_other_edg_p = f64::min(
-                                    point_other_edg_a.magnitude_squared(),
-                                    point_other_edg_b.magnitude_squared(),
-                                );
-                                if dist_edg_b_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                            if (ea_oea_dot_border_a < 0.0 && eb_oeb_dot_border_b > 0.0)
-                                || (eb_oea_dot_border_a < 0.0 && ea_oeb_dot_border_b > 0.0)
-                            {
-                                let dist_other_edg_p =
-                                    dist_point_to_line_segment(point, other_edg_a, other_edg_b);
-                                if dist_edg_p > dist_other_edg_p {
-                                    remove = true;
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                }
-                if remove {
-                    edges_facing_point.remove(i);
-                    edge_triangle_id.remove(i);
-                } else {
-                    edge_triangle_normals.insert(0, -edg_triangle_normal);
+            // the distances of the point to all edges at the border of the polygon
+            let mut border_edges = Vec::new();
+            for (a, b) in edges.iter().copied() {
+                if !edges.contains(&(b, a)) {
+                    let dist = dist_point_to_edge(point, positions[a], positions[b], normal);
+                    border_edges.push((a, b, dist));
                 }
             }
-
-            // Remove all triangles with vertices that are contained in two edges facing point
-            let edgenum = edges_facing_point.len();
-            if edgenum > 2 {
-                let mut edges_to_remove = HashSet::new();
-                let mut vertices_on_one_edge_start = HashMap::new();
-                let mut vertices_on_one_edge_end = HashMap::new();
-                let mut vertices_on_two_edges = HashMap::new();
-                for facing_edge in edges_facing_point.iter() {
-                    let res_a = vertices_on_one_edge_start
-                        .insert(facing_edge.a, (facing_edge.b, *facing_edge));
-                    if let Some(res_a) = res_a {
-                        if res_a.0 != facing_edge.b {
-                            vertices_on_one_edge_start.remove(&facing_edge.a);
-                            vertices_on_two_edges.insert(facing_edge.a, (res_a.1, *facing_edge));
-                        }
-                    }
-                    let res_b = vertices_on_one_edge_end
-                        .insert(facing_edge.b, (facing_edge.a, *facing_edge));
-                    if let Some(res_b) = res_b {
-                        if res_b.0 != facing_edge.a {
-                            vertices_on_one_edge_end.remove(&facing_edge.b);
-                            vertices_on_two_edges.insert(facing_edge.b, (res_b.1, *facing_edge));
-                        }
-                    }
-                }
-                let mut triangles_to_remove = Vec::new();
-                for t_id in 0..triangles.len() {
-                    let tri = triangles.get(t_id).unwrap();
-                    let res_a = vertices_on_two_edges.get(&tri.a);
-                    let res_b = vertices_on_two_edges.get(&tri.b);
-                    let res_c = vertices_on_two_edges.get(&tri.c);
-                    let a_on_two_edges = res_a.is_some();
-                    let b_on_two_edges = res_b.is_some();
-                    let c_on_two_edges = res_c.is_some();
-                    if a_on_two_edges || b_on_two_edges || c_on_two_edges {
-                        triangles_to_remove.push(t_id);
-                        if c_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if b_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edges_to_remove.insert(Edge { a: tri.b, b: tri.c });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                        if a_on_two_edges {
-                            edges_facing_point.push(Edge { a: tri.b, b: tri.c });
-                            edges_to_remove.insert(Edge { a: tri.c, b: tri.a });
-                            edges_to_remove.insert(Edge { a: tri.a, b: tri.b });
-                            edge_triangle_normals.push(tri.normal);
-                        }
-                    }
-                }
-                for t_id_remove in triangles_to_remove.iter().rev() {
-                    triangles.remove(*t_id_remove);
-                }
-                for efp in (0..edges_facing_point.len()).rev() {
-                    if edges_to_remove.contains(edges_facing_point.get(efp).unwrap()) {
-                        edges_facing_point.remove(efp);
-                        edge_triangle_normals.remove(efp);
-                    }
+            if border_edges.iter().any(|(_, _, dist)| *dist > 0.0) {
+                triangles.clear();
+                for (a, b, _) in border_edges.into_iter().filter(|(_, _, dist)| *dist < 0.0) {
+                    let normal = calc_normal(positions[a], positions[b], point);
+                    triangles.push(Triangle {
+                        a,
+                        b,
+                        c: pointid,
+                        normal,
+                    });
+                    triangles.push(Triangle {
+                        a: b,
+                        b: a,
+                        c: pointid,
+                        normal: -normal,
+                    });
                 }
             }
-
-            for i in 0..edges_facing_point.len() {
-                let edg = edges_facing_point[i];
-                triangles.push(Triangle {
-                    a: edg.a,
-                    b: edg.b,
-                    c: pointid,
-                    normal: edge_triangle_normals[i],
-                });
-            }
         }
     }
 }
@@ -409,30 +263,6 @@ fn dist_point_to_edge(
     edge_ab_normal.dot(&pa)
 }
 
-/// Calculates the distance of a point to a line segment.
-/// `point`: the point that lies in the same plane as the edge
-/// `line_a`: first vertex of the line segment
-/// `line_b`: second vertex of the line segment
-fn dist_point_to_line_segment(
-    point: Vector3<f64>,
-    segment_a: Vector3<f64>,
-    segment_b: Vector3<f64>,
-) -> f64 {
-    let ab: Vector3<f64> = segment_b - segment_a;
-    let ap: Vector3<f64> = point - segment_a;
-
-    if ap.dot(&ab) <= 0.0 {
-        return ap.magnitude();
-    }
-
-    let bp = point - segment_b;
-    if bp.dot(&ab) >= 0.0 {
-        return bp.magnitude();
-    }
-
-    ab.cross(&ap).magnitude() / ab.magnitude()
-}
-
 /// Adds the given edge to the set of outer edges. If the given edge is already contained in the set of outer edges it is removed and added to the set of inner edges.
 /// `a`: first vertex of the edge
 /// `b`: second vertex of the edge
-- 
2.43.0


From 138bfecd487e9f40377853419e94eefef15ffa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 20/31] fix: refuse projections between unknown coordinate
 reference systems

PROJ returns null for them, with which all positions stay as they are: the caller got unprojected positions.
---
 pasture-algorithms/src/reprojection.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..cbc83ab 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -27,6 +27,17 @@ impl Projection {
                 std::ptr::null_mut(),
             );
 
+            // PROJ returns null if it can't find a projection between the two systems. Transforming with that would
+            // return all positions unchanged
+            if projection.is_null() {
+                proj_sys::proj_context_destroy(proj_context);
+                return Err(anyhow!(
+                    "Can't create projection from {} to {}",
+                    source_crs,
+                    target_crs
+                ));
+            }
+
             Ok(Self {
                 proj_context,
                 projection,
-- 
2.43.0


From cae3ea3e4d5c71512fcacc40287a65bddf501a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 21/31] fix: transform all corners of bounds

Only the images of the minimum and maximum were taken. Under a projection that rotates, the other corners (and most points within the bounds) lie outside of the box of these two.
---
 pasture-algorithms/src/reprojection.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index cbc83ab..9c15746 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -58,16 +58,20 @@ impl Projection {
     /// Transforms the given bounding box using the associated `Projection`. This keeps the bounding box axis-aligned,
     /// the size might change though
     pub fn transform_bounds(&self, bounds: &AABB<f64>) -> AABB<f64> {
-        let transformed_min =
-            self.transform(Vector3::new(bounds.min().x, bounds.min().y, bounds.min().z));
-        let transformed_max =
-            self.transform(Vector3::new(bounds.max().x, bounds.max().y, bounds.max().z));
-
-        let bounds: AABB<f64> = AABB::from_min_max_unchecked(
-            Point3::from(transformed_min),
-            Point3::from(transformed_min),
-        );
-        AABB::extend_with_point(&bounds, &Point3::from(transformed_max))
+        let (min, max) = (bounds.min(), bounds.max());
+        let transformed_min = Point3::from(self.transform(min.coords));
+        let mut transformed_bounds =
+            AABB::from_min_max_unchecked(transformed_min, transformed_min);
+        // A projection can rotate or skew the bounds, so each corner might be the outermost along some axis
+        for x in [min.x, max.x] {
+            for y in [min.y, max.y] {
+                for z in [min.z, max.z] {
+                    let corner = Point3::from(self.transform(Vector3::new(x, y, z)));
+                    transformed_bounds = AABB::extend_with_point(&transformed_bounds, &corner);
+                }
+            }
+        }
+        transformed_bounds
     }
 }
 
-- 
2.43.0


From 70e5e9a0450a9e06fbeffd528450970e7fb21476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 22/31] fix: take the smallest eigen value off the scaled
 covariance matrix

The eigen values were those of the unscaled matrix, the smallest one was subtracted from a copy of the diagonal
(so not at all), and it was scaled again for the curvature: normals and curvature were right for planar neighborhoods only.
Neighborhoods of equal points keep a normal of zero length instead of dividing by zero.
---
 pasture-algorithms/src/normal_estimation.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..f511b86 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -425,7 +425,11 @@ fn get_largest_eigen_vector(scaled_matrix: &DMatrix<f64>) -> Vector3<f64> {
 
 /// for a given 3x3 matrix the functions calculates the eigen vector of the smallest eigen value that can be found
 fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
-    let scale = covariance_matrix.abs().max();
+    let mut scale = covariance_matrix.abs().max();
+    if scale == 0.0 {
+        // all points are the same
+        scale = 1.0;
+    }
     let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
     for i in 0..covariance_matrix.len() {
         covariance_matrix_scaled[i] = covariance_matrix[i] / scale;
@@ -436,15 +440,15 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    // the eigen values of the scaled matrix
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..3 {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0


From 051a729bcdab602f20295cf7d623ccbef11c9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 23/31] fix: search all k nearest neighbors for normals

KdTree::nearests skips parts of the tree before it has found k points. Normals were those of other points, and clouds with
equal points panicked with too few neighbors.
---
 pasture-algorithms/src/normal_estimation.rs | 40 +++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index f511b86..0d7f155 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -103,7 +103,8 @@ where
     // iterate over all points in the point cloud and and calculate the k nearest neighbors with the constructed kd tree
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         let r: &[f64; 3] = point.as_ref();
-        let nearest_points = cloud_as_kd_tree.nearests(r, k_nn);
+        let mut nearest_points = vec![];
+        nearest_neighbors(cloud_as_kd_tree.items(), r, k_nn, 0, &mut nearest_points);
 
         // stores the k nearest neighbors in a PointStorage
         let mut k_nn_buffer =
@@ -113,7 +114,7 @@ where
         for (index, point) in nearest_points.iter().enumerate() {
             k_nn_buffer.view_attribute_mut(&POSITION_3D).set_at(
                 index,
-                Vector3::new(point.item[0], point.item[1], point.item[2]),
+                Vector3::new(point.1[0], point.1[1], point.1[2]),
             );
         }
 
@@ -127,6 +128,41 @@ where
     points_with_normals_curvature
 }
 
+/// collects the (at most) k_nn nearest neighbors of a point, with their squared distances, from the items of a kd tree.
+/// `KdTree::nearests` can't be used for this: it skips parts of the tree as soon as they are farther away than the points it
+/// has found so far, even if these are less than k_nn points.
+fn nearest_neighbors<'a>(
+    kd_tree: &'a [[f64; 3]],
+    point: &[f64; 3],
+    k_nn: usize,
+    axis: usize,
+    nearest_points: &mut Vec<(f64, &'a [f64; 3])>,
+) {
+    if kd_tree.is_empty() {
+        return;
+    }
+    let mid = kd_tree.len() / 2;
+    let item = &kd_tree[mid];
+    let squared_distance = (0..3).map(|k| (point[k] - item[k]).powi(2)).sum::<f64>();
+    let index = nearest_points.partition_point(|(d, _)| d.total_cmp(&squared_distance).is_le());
+    if index < k_nn {
+        nearest_points.insert(index, (squared_distance, item));
+        nearest_points.truncate(k_nn);
+    }
+
+    let (near, far) = if point[axis] < item[axis] {
+        (&kd_tree[..mid], &kd_tree[mid + 1..])
+    } else {
+        (&kd_tree[mid + 1..], &kd_tree[..mid])
+    };
+    let next_axis = (axis + 1) % 3;
+    nearest_neighbors(near, point, k_nn, next_axis, nearest_points);
+    let distance_to_far = (point[axis] - item[axis]).powi(2);
+    if nearest_points.len() < k_nn || distance_to_far < nearest_points[k_nn - 1].0 {
+        nearest_neighbors(far, point, k_nn, next_axis, nearest_points);
+    }
+}
+
 /// checks whether a given point cloud has points with coordinates that are Not a Number
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-- 
2.43.0


From 22a72b26dc3b8c8fb5c8ddca72c2768cb62e562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 24/31] fix: PntsWriter writes its headers completely to
 targets that accept fewer bytes per call

---
 pasture-io/src/tiles3d/common.rs      | 2 +-
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From 2c92ad7abaa8c38c9f3ee22f20539bb733c538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 25/31] fix: PntsWriter keeps points written after a flush

---
 pasture-io/src/tiles3d/pnts_writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..9959bb9 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -72,6 +72,7 @@ pub struct PntsWriter<W: Write + Seek> {
     attribute_converters: HashMap<String, Option<AttributeConversionFn>>,
     rtc_center: Option<Vector3<f64>>,
     requires_flush: bool,
+    start_position: Option<u64>,
 }
 
 impl<W: Write + Seek> PntsWriter<W> {
@@ -91,6 +92,7 @@ impl<W: Write + Seek> PntsWriter<W> {
             attribute_converters,
             rtc_center: None,
             requires_flush: true,
+            start_position: None,
         }
     }
 
@@ -211,6 +213,14 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // A repeated flush replaces what the previous one has written
+        match self.start_position {
+            Some(position) => {
+                self.writer.seek(SeekFrom::Start(position))?;
+            }
+            None => self.start_position = Some(self.writer.stream_position()?),
+        }
+
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
@@ -338,6 +348,7 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
 
+        self.requires_flush = true;
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
         } else {
-- 
2.43.0


From 45813081bc6cda60b386574553fcb489bf6c9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 26/31] fix: PntsReader moves only the points it has read by
 RTC_CENTER

---
 pasture-io/src/tiles3d/pnts_reader.rs | 43 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..4f3cfae 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -244,9 +244,11 @@ impl<R: BufRead + Seek> PntsReader<R> {
         ))
     }
 
+    /// Moves the first `num_points` positions in `point_buffer` by the `RTC_CENTER`
     fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &self,
         point_buffer: &'b mut B,
+        num_points: usize,
     ) -> Result<()>
     where
         'a: 'b,
@@ -262,20 +264,31 @@ impl<R: BufRead + Seek> PntsReader<R> {
             // not supported at the moment
             let position_attribute = position_attribute.clone();
             match position_attribute.datatype() {
-                PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
-                    position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
-                        Vector3::new(
-                            (position.x as f64 + rtc_center.x) as f32,
-                            (position.y as f64 + rtc_center.y) as f32,
-                            (position.z as f64 + rtc_center.z) as f32,
-                        )
-                    },
-                ),
-                PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
-                    position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
-                ),
+                PointAttributeDataType::Vec3f32 => {
+                    let mut positions = point_buffer.view_attribute_mut::<Vector3<f32>>(
+                        position_attribute.attribute_definition(),
+                    );
+                    for point_index in 0..num_points {
+                        let position = positions.at(point_index);
+                        positions.set_at(
+                            point_index,
+                            Vector3::new(
+                                (position.x as f64 + rtc_center.x) as f32,
+                                (position.y as f64 + rtc_center.y) as f32,
+                                (position.z as f64 + rtc_center.z) as f32,
+                            ),
+                        );
+                    }
+                }
+                PointAttributeDataType::Vec3f64 => {
+                    let mut positions = point_buffer.view_attribute_mut::<Vector3<f64>>(
+                        position_attribute.attribute_definition(),
+                    );
+                    for point_index in 0..num_points {
+                        let position = positions.at(point_index);
+                        positions.set_at(point_index, position + rtc_center);
+                    }
+                }
                 other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
             }
         }
@@ -358,7 +371,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         self.current_point_index += num_to_read;
 
         if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
+            self.apply_rtc_center_offset(point_buffer, num_to_read)
                 .context("Failed to apply RTC_CENTER offset")?;
         }
 
-- 
2.43.0


From 4655121b28ecabfc21c95f08ac3527a69614a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 27/31] fix: PntsReader::seek_point with offsets whose sum
 overflows

---
 pasture-io/src/tiles3d/pnts_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index 4f3cfae..2b2ffdc 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -393,11 +393,11 @@ impl<R: BufRead + Seek> SeekToPoint for PntsReader<R> {
             SeekFrom::Start(offset) => offset,
             SeekFrom::End(offset) => {
                 let max_point_as_i64: i64 = self.metadata.points_length().try_into()?;
-                (max_point_as_i64 + offset).try_into()?
+                max_point_as_i64.saturating_add(offset).try_into()?
             }
             SeekFrom::Current(offset) => {
                 let cur_point_asi64: i64 = self.current_point_index.try_into()?;
-                (cur_point_asi64 + offset).try_into()?
+                cur_point_asi64.saturating_add(offset).try_into()?
             }
         };
         let new_point_idx_clamped = clamp(new_point_idx, 0, self.metadata.points_length() as u64);
-- 
2.43.0


From b7c2f250539a3b75906e690a574da3728733908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 28/31] fix: AsciiWriter writes classification and user data
 instead of the return number

---
 pasture-io/src/ascii/raw_writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..ff89508 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,15 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                            let user_data =
+                                point.get_attribute::<u64>(&attributes::USER_DATA)?;
                             self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                                .write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From 4876880a654f113648f03655740cb8007a6dab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 29/31] fix: AsciiReader returns the number of lines it has
 read

---
 pasture-io/src/ascii/raw_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..c2b5c1c 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -301,6 +301,7 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     {
         let layout = point_buffer.point_layout().clone();
         let mut temp_point = UntypedPointBuffer::new(&layout);
+        let mut num_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
@@ -311,8 +312,9 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
             }
+            num_read += 1;
         }
-        Ok(count)
+        Ok(num_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
-- 
2.43.0


From eb23b9d3c57683dee97011f8d97f6dc440134a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:44 +0000
Subject: [PATCH 30/31] fix: AsciiWriter keeps the zeros of numbers without
 decimal places

---
 pasture-io/src/ascii/raw_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index ff89508..8e04ed9 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -212,6 +212,10 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
 fn trim_unnecessary_tailing_zeros(slice: &str) -> &str {
     let start = 0;
     let mut end = slice.len();
+    if !slice.contains('.') {
+        // Without decimal places, every zero is significant
+        return slice;
+    }
     while slice[start..end].ends_with('0') && !slice[start..end].ends_with(".0") {
         end -= 1;
     }
-- 
2.43.0


From 42387c6c8d66b3545a8323a504e391ee67d9e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 31/31] fix: compute_normals finds the nearest neighbours among
 points that are Not a Number

Points with coordinates that are Not a Number have no distance. Once such a point was among the nearest neighbours found so far, or
separated the halves of the tree, the far half was skipped, even if it had points with finite coordinates.
---
 pasture-algorithms/src/normal_estimation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 0d7f155..cd5a4b0 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -158,7 +158,12 @@ fn nearest_neighbors<'a>(
     let next_axis = (axis + 1) % 3;
     nearest_neighbors(near, point, k_nn, next_axis, nearest_points);
     let distance_to_far = (point[axis] - item[axis]).powi(2);
-    if nearest_points.len() < k_nn || distance_to_far < nearest_points[k_nn - 1].0 {
+    // points with coordinates that are Not a Number have no distance, they are farther away than all others
+    if nearest_points.len() < k_nn
+        || distance_to_far.is_nan()
+        || nearest_points[k_nn - 1].0.is_nan()
+        || distance_to_far < nearest_points[k_nn - 1].0
+    {
         nearest_neighbors(far, point, k_nn, next_axis, nearest_points);
     }
 }
-- 
2.43.0

