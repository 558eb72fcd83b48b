From 9b85f7b715f18f6e3a579dd73253756d7a45c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 01/19] fix: insert by value writes at the byte offset of the
 index, not at the index

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 1168834b2a1e072c13a16cd495fe128018a1ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 02/19] fix: insert and remove of trailing padded elements no
 longer underflow the byte count

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..cadd672 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -604,7 +604,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -691,10 +691,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -827,10 +827,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 5cb152a042acebb28eabb0eae5357885f1667493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 03/19] fix: lowering the alignment moves elements from their
 old offsets and records the new ones

---
 src/inner/unaligned.rs | 46 ++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index cadd672..97b9c49 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -256,49 +256,33 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         //
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
+        let start_of_alloc = self.ptr.as_ptr().cast::<u8>();
+        let mut prev_old_end_offset = ValidSizeUnaligned::ZERO;
+        let mut prev_new_end_offset = ValidSizeUnaligned::ZERO;
 
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            // SAFETY: offset comes from the vec
+            let old_start_offset = unsafe { prev_old_end_offset.unchecked_pad_to(old_align) };
 
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+            // SAFETY: can't overflow, as new start offset can't be greater than the old one
+            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
 
             // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
+            let size_of_val = unsafe { end_offset.unchecked_sub(old_start_offset) };
 
             // SAFETY: moving element to new correct position, as computed above
             unsafe {
                 ptr::copy(
-                    self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
-                    self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
+                    start_of_alloc.add(old_start_offset.get()),
+                    start_of_alloc.add(new_start_offset.get()),
                     size_of_val.get(),
                 );
             }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+            prev_old_end_offset = *end_offset;
+            // SAFETY: can't be greater than the old end offset
+            prev_new_end_offset = unsafe { new_start_offset.unchecked_add(size_of_val) };
+            *end_offset = prev_new_end_offset;
         }
     }
 }
-- 
2.43.0


From db009a3e78272024d8f088ad6683af53225fe38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 04/19] fix: shrinking keeps byte_capacity a multiple of the
 alignment

---
 src/inner/unaligned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 97b9c49..5104133 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -485,12 +485,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let new_byte_capacity = cmp::max(
             // SAFETY: `old_byte_capacity` is a valid
             // `ValidSizeUnaligned`, and result of `cmp::min`
-            // can't be bigger than it
+            // can't be bigger than it. As it is a multiple of
+            // `old_align >= new_align`, neither can the padded result.
             unsafe {
                 ValidSizeUnaligned::new_unchecked(cmp::min(
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From 5bd3e2a99f9cc9080564c69162cfc52c4f3ba806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 05/19] fix: reserving only alignment in a vector without bytes
 records the new alignment

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 5104133..c9ab34e 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -454,6 +454,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From 972e6a6153f55dd5c83c4b2091039b5cb870ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 06/19] fix: unsizing a vector of sized values records the end
 offset of each element, not its start

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index c9ab34e..fc2fa93 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1039,7 +1039,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        (index + 1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 7ec5b8884b98d8d574f1df56b2ce682a5637d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 07/19] fix: iterators take the offset of the front element
 from the front position, not from 0

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..a374771 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index fc2fa93..03fe843 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1119,7 +1119,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1168,7 +1168,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 5eba4f26c5b90b02e475e3366d57ceb34df9abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 08/19] fix: slices of zero-sized values keep their length

---
 src/helper.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 626647a..ba70b63 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -1,7 +1,7 @@
 pub(crate) mod valid_align;
 pub(crate) mod valid_size;
 
-use core::{alloc::Layout, hash::Hash, mem, ptr::Pointee};
+use core::{alloc::Layout, hash::Hash, ptr::Pointee};
 
 use crate::marker::Aligned;
 
@@ -17,12 +17,9 @@ impl<T> MetadataFromSize for T {
     fn from_size(_: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {}
 }
 
-impl<T> MetadataFromSize for [T] {
-    fn from_size(size: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {
-        debug_assert!(size.get() != 0 || size == ValidSizeUnaligned::ZERO);
-        size.get().checked_div(mem::size_of::<T>()).unwrap_or(0)
-    }
-}
+// Not implemented for `[T]`: the length of a slice of zero-sized values
+// can't be derived from its size, and whether `T` is zero-sized
+// isn't something that can be specialized on.
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub(crate) struct FullMetadataRemainder<T: Copy + Send + Sync + Ord + Hash + Unpin>(T);
-- 
2.43.0


From e531871e681f296f0512df97c4d09207f652285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 09/19] fix: CStr has alignment 1

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From 5cd273978872be3ae2b5da03b251ea6058f90e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 10/19] fix: byte reservations of vectors of sized values count
 bytes, and never divide by zero

---
 src/inner/sized.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..1367408 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -1,5 +1,6 @@
 //! The implementation of `UnsizedVec<T>` for `T: Sized`.
 
+use ::alloc::collections::TryReserveErrorKind;
 use core::{
     alloc::Layout,
     cmp,
@@ -69,12 +70,21 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        if additional_bytes == 0 {
+            return Ok(());
+        }
+
+        if mem::size_of::<T>() == 0 {
+            // No number of elements can take up any bytes.
+            return Err(TryReserveError {
+                kind: TryReserveErrorKind::CapacityOverflow,
+            });
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let additional = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(free.saturating_add(additional))?)
     }
 
     #[inline]
-- 
2.43.0


From 384172d51e0c6d9ee273980f7fc1e04de884550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 11/19] fix: shrinking a vector of zero-sized values does not
 divide by zero

---
 src/inner/sized.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 1367408..71257ea 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -94,10 +94,14 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         min_byte_capacity: usize,
         _align: (),
     ) {
-        let min_capacity = cmp::max(
-            min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
-        );
+        let min_capacity = if mem::size_of::<T>() == 0 {
+            min_capacity
+        } else {
+            cmp::max(
+                min_capacity,
+                min_byte_capacity.div_ceil(mem::size_of::<T>()),
+            )
+        };
         self.shrink_to(min_capacity);
     }
 
-- 
2.43.0


From 7d56abb5a5909c17c45ce1406ee2d83519fb4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 12/19] fix: shrink_to shrinks vectors of sized values

---
 src/inner.rs           | 3 +++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..68b5ea0 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -138,6 +138,9 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Shrinks only the elementwise capacity.
+    fn shrink_capacity_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a374771..120aecb 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -204,6 +204,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 71257ea..3606c0e 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -87,6 +87,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(free.saturating_add(additional))?)
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 03fe843..a73f393 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -460,6 +460,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 203b052..c3f43da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -687,11 +687,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_capacity_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 48cff48650a5f9321bb3823a3f5637a6ded4384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/19] fix: a failing byte reservation returns its error
 instead of failing a debug assertion

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3f43da..85a03e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,7 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        debug_assert!(result.is_err() || self.unused_byte_cap() >= additional_bytes);
 
         result
     }
-- 
2.43.0


From dc4f31e7f977e189898ecddc8ca3d254b3770b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 14/19] fix: exact reservations are exact and count room that
 is already there

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 85a03e0..dcf0b88 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -660,11 +660,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
@@ -1422,7 +1424,7 @@ where
             vec: &mut UnsizedVec<T>,
             iter: I,
         ) {
-            vec.reserve_exact(iter.size_hint().0);
+            vec.reserve(iter.size_hint().0);
             for emplacable in iter {
                 vec.push_with(emplacable);
             }
-- 
2.43.0


From 5535ab56791c0f5166d1c006934cf7c3a5d6eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 15/19] fix: push_with and insert_with use reserved room and
 grow amortised

---
 src/inner.rs           | 41 +++++++++++++++++++++++++++++++++++++++++
 src/inner/aligned.rs   |  8 ++------
 src/inner/sized.rs     |  2 +-
 src/inner/unaligned.rs | 13 ++++---------
 src/lib.rs             | 37 ++-----------------------------------
 5 files changed, 50 insertions(+), 51 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 68b5ea0..6bf479b 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -138,6 +138,47 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Try to reserve capacity for `additional` more elements, taking up
+    /// `additional_bytes` more bytes and aligned to at most `align`,
+    /// using up existing unused capacity first. Overallocates,
+    /// so that a series of calls takes amortized *O(1)* time.
+    #[inline]
+    fn try_reserve_bytes_align(
+        &mut self,
+        additional: usize,
+        additional_bytes: usize,
+        align: Self::Align,
+    ) -> Result<(), TryReserveError> {
+        self.try_reserve(additional)?;
+
+        debug_assert!(self.capacity() >= self.len() + additional);
+
+        let byte_cap = self.byte_capacity();
+
+        // SAFETY: len <= cap
+        let unused_byte_cap = unsafe { byte_cap.unchecked_sub(self.byte_len()) };
+
+        let needed_bytes = additional_bytes.saturating_sub(unused_byte_cap);
+
+        // First we try to double capacities.
+        // if that fails, we try again with only what we really need.
+        if needed_bytes > 0 && byte_cap > needed_bytes {
+            let result = self.try_reserve_additional_bytes_align(byte_cap, align);
+
+            if result.is_ok() {
+                return result;
+            }
+        }
+
+        let result = self.try_reserve_additional_bytes_align(needed_bytes, align);
+
+        debug_assert!(
+            result.is_err() || self.byte_capacity() - self.byte_len() >= additional_bytes
+        );
+
+        result
+    }
+
     /// Shrinks only the elementwise capacity.
     fn shrink_capacity_to(&mut self, min_capacity: usize);
 
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 120aecb..1c8d088 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -322,9 +322,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve_bytes_align(1, layout.size(), ());
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -508,9 +506,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve_bytes_align(1, layout.size(), ());
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 3606c0e..ed65d41 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -158,7 +158,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         let emplacer_closure =
             &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
+                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: by precondition of function
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a73f393..c39431e 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -665,12 +665,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
-                });
+                let reserve_result =
+                    self.try_reserve_bytes_align(1, unaligned_size_of_val.get(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let aligned_size_of_val =
@@ -871,9 +867,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
-                });
+                let reserve_result =
+                    self.try_reserve_bytes_align(1, layout.size(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.aligned_byte_len();
diff --git a/src/lib.rs b/src/lib.rs
index dcf0b88..8bcd608 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -550,41 +550,8 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.try_reserve(additional)?;
-
-        debug_assert!(self.capacity() >= self.len() + additional);
-
-        let align = to_align::<T>(align);
-
-        let byte_cap = self.byte_capacity();
-
-        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
-
-        let optimist_bytes = if needed_bytes > 0 {
-            cmp::max(needed_bytes, byte_cap)
-        } else {
-            0
-        };
-
-        // First we try to double capacities.
-        // if that fails, we try again with only what we really need.
-        if optimist_bytes > needed_bytes {
-            let result = self
-                .inner
-                .try_reserve_additional_bytes_align(optimist_bytes, align);
-
-            if result.is_ok() {
-                return result;
-            }
-        }
-
-        let result = self
-            .inner
-            .try_reserve_additional_bytes_align(needed_bytes, align);
-
-        debug_assert!(result.is_err() || self.unused_byte_cap() >= additional_bytes);
-
-        result
+        self.inner
+            .try_reserve_bytes_align(additional, additional_bytes, to_align::<T>(align))
     }
 
     /// Reserves capacity for at least `additional` more elements to be inserted
-- 
2.43.0


From 3cfc885c1f43fa5f9e0212d96ad334a303e0e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 16/19] fix: a panic while an element is being removed neither
 duplicates nor misplaces elements

---
 src/inner/aligned.rs   |  95 ++++++++++++++++++++++++-----------
 src/inner/sized.rs     |  74 +++++++++++++++++----------
 src/inner/unaligned.rs | 111 +++++++++++++++++++++++++++--------------
 3 files changed, 187 insertions(+), 93 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 1c8d088..012887e 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -384,12 +384,65 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Removes the element at `index` when dropped,
+        /// even if `emplacer_closure` or the element's destructor
+        /// panics, provided the element has been moved out or dropped.
+        struct ElementRemover<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            taken: bool,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // SAFETY: `index` in range
+                let start_offset = unsafe { self.vec.start_offset_of_unchecked(self.index) };
+
+                // FIXME elide bounds check
+                let ElementInfo { end_offset, .. } = self.vec.elems_info.remove(self.index);
+
+                // SAFETY: start_offset < end_offset
+                let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(size_of_val);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { self.vec.byte_len().unchecked_sub(start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let thin_ptr_to_elem =
+                        self.vec.ptr.as_ptr().cast::<u8>().add(start_offset.get());
+
+                    ptr::copy(
+                        thin_ptr_to_elem.add(size_of_val.get()),
+                        thin_ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
-        // We can't remove the metadata yet, as `emplacer_closure` might unwind,
-        // so we can't leave vec metadata in an invalid state.
+        // We can't remove the metadata yet, as `emplacer_closure` might unwind
+        // before taking the element.
         // SAFETY: by precondition of function
-        let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
+        let removed_elem_metadata = unsafe { *self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
@@ -414,6 +467,12 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 .add(start_offset.get())
         };
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -422,6 +481,8 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         // The emplacer can choose never to run the inner closure at all! In this case, the removed value
         // is simply forgotten.
         emplacer_closure(size_of_val.as_layout(), metadata, &mut |out_ptr| {
+            remover.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -441,33 +502,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             }
         });
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        remover.taken = true;
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index ed65d41..8a89118 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -194,22 +194,50 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
-        debug_assert!(index < self.len());
-
-        // SAFETY: precondition of function
-        let new_len = unsafe { self.len().unchecked_sub(1) };
+        /// Removes the element at `index` when dropped,
+        /// even if `emplacer_closure` or the element's destructor
+        /// panics, provided the element has been moved out or dropped.
+        struct ElementRemover<'a, T> {
+            vec: &'a mut ::alloc::vec::Vec<T>,
+            index: usize,
+            taken: bool,
+        }
 
-        // Set new length of vector
+        impl<T> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if self.taken {
+                    // SAFETY: `index < len`, and the element at `index` is logically uninitialized.
+                    unsafe {
+                        let new_len = self.vec.len().unchecked_sub(1);
+                        let ptr_to_elem = self.vec.as_mut_ptr().add(self.index);
+
+                        // copy elements back where they belong
+                        ptr::copy(
+                            ptr_to_elem.add(1),
+                            ptr_to_elem,
+                            new_len.unchecked_sub(self.index),
+                        );
+
+                        self.vec.set_len(new_len);
+                    }
+                }
+            }
+        }
 
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
+        debug_assert!(index < self.len());
 
-        // Get pointer to the element we are popping out of the vec
+        // Get pointer to the element we are removing from the vec
         // SAFETY: offset comes from vec
-        let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
-
-        // SAFETY: old_len > index, so old_len - 1 == new_len >= index
-        let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
+        let ptr_to_elem = unsafe { self.as_mut_ptr().add(index) };
+
+        // We can't remove the element yet, as `emplacer_closure` might unwind
+        // before taking it.
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            taken: false,
+        };
 
         // Copy element into the place
 
@@ -217,29 +245,23 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
         emplacer_closure(Layout::new::<T>(), (), &mut |out_ptr| {
+            remover.taken = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of::<T>()` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
                 unsafe {
-                    ptr::copy_nonoverlapping(thin_ptr_to_elem, out_ptr.cast(), 1);
+                    ptr::copy_nonoverlapping(ptr_to_elem, out_ptr.cast(), 1);
                 }
             } else {
-                let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
-
-                // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
-                // so this won't be double-dropped
-                unsafe { typed_ptr_to_elem.drop_in_place() }
+                // SAFETY: `remover` will forget the element, so this won't be double-dropped
+                unsafe { ptr_to_elem.drop_in_place() }
             }
         });
 
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
+        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
+        // is simply forgotten.
+        remover.taken = true;
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index c39431e..7e7f293 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -734,12 +734,71 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Removes the element at `index` when dropped,
+        /// even if `emplacer_closure` or the element's destructor
+        /// panics, provided the element has been moved out or dropped.
+        struct ElementRemover<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            taken: bool,
+        }
+
+        impl<T: ?Sized> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.taken {
+                    return;
+                }
+
+                // SAFETY: `index` in range
+                let start_offset = unsafe { self.vec.start_offset_of_unchecked(self.index) };
+
+                // FIXME elide bounds check
+                let ElementInfo { end_offset, .. } = self.vec.elems_info.remove(self.index);
+
+                // SAFETY: start_offset < end_offset, and
+                // `val` comes from the vec so must be paddable
+                let aligned_size_of_val = unsafe {
+                    end_offset
+                        .unchecked_sub(start_offset)
+                        .unchecked_pad_to(self.vec.align)
+                };
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
+                    }
+                }
+
+                let aligned_len = self.vec.aligned_byte_len();
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self.vec.ptr.as_ptr().cast::<u8>().add(start_offset.get());
+
+                    ptr::copy(
+                        ptr_to_elem.add(aligned_size_of_val.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
-        // We can't remove the metadata yet, as `emplacer_closure` might unwind,
-        // so we can't leave vec metadata in an invalid state.
+        // We can't remove the metadata yet, as `emplacer_closure` might unwind
+        // before taking the element.
         // SAFETY: by precondition of function
-        let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
+        let removed_elem_metadata = unsafe { *self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
@@ -752,9 +811,6 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: start_offset < end_offset
         let unaligned_size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
 
-        // SAFETY: `val` comes from the vec so must be paddable
-        let aligned_size_of_val = unsafe { unaligned_size_of_val.unchecked_pad_to(self.align) };
-
         let metadata = metadata.as_metadata(unaligned_size_of_val);
 
         // Get pointer to the element we are popping out of the vec
@@ -772,6 +828,12 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: the element is still initialized at this point
         let align_of_val = ValidAlign::of_val(unsafe { &*wide_ptr_to_elem });
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            taken: false,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -782,6 +844,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             unsafe { unaligned_size_of_val.as_layout_with_align_unchecked(align_of_val) },
             metadata,
             &mut |out_ptr| {
+                remover.taken = true;
+
                 if !out_ptr.is_null() {
                     // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                     // by the preconditions of `Emplacer::new`
@@ -799,35 +863,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             },
         );
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        // The emplacer can choose never to run the inner closure at all! In this case, the removed value
+        // is simply forgotten.
+        remover.taken = true;
     }
 
     #[inline]
@@ -867,8 +905,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result =
-                    self.try_reserve_bytes_align(1, layout.size(), align_of_val);
+                let reserve_result = self.try_reserve_bytes_align(1, layout.size(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.aligned_byte_len();
-- 
2.43.0


From c33d22d017cf6430b0dcd3eb4307317d192b6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 17/19] fix: emplacing a slice of Copy values copies the slice,
 not the reference to it

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 9b8a17d8e107864a6bee898a47b36f42f5c34b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 18/19] fix: emplacing a Vec announces the layout of its
 elements, not of its capacity

---
 emplacable/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..3ee2c40 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1080,8 +1080,9 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
             let ptr = vec.as_mut_ptr();
             let len = vec.len();
             let capacity = vec.capacity();
+            let layout = Layout::for_value(&**vec);
             // SAFETY: values come from the vec
-            let layout = unsafe {
+            let alloc_layout = unsafe {
                 Layout::from_size_align_unchecked(
                     capacity.unchecked_mul(mem::size_of::<T>()),
                     mem::align_of::<T>(),
@@ -1107,10 +1108,10 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
                 }
             });
 
-            if layout.size() > 0 {
+            if alloc_layout.size() > 0 {
                 // SAFETY: deallocating what the `Vec` allocated. The `Vec` is in a `ManuallyDrop`,
                 // so no double-drop
-                unsafe { alloc::dealloc(ptr.cast(), layout) }
+                unsafe { alloc::dealloc(ptr.cast(), alloc_layout) }
             }
         };
 
-- 
2.43.0


From 7a6dc49ce6f758f3bd7f152afc5b56b5f6bfb80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 19/19] fix: a panic inside with_emplacable_for does not drop
 the value twice

---
 emplacable/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 3ee2c40..a7eb008 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -328,7 +328,7 @@ mod with_emplacable_for {
                         );
                     }
                 } else {
-                    // SAFETY: we `mem::forget` `val` later to avoid double-drop
+                    // SAFETY: `val` is in a `ManuallyDrop`, so no double drop
                     unsafe { ptr::drop_in_place(val) }
                 }
             });
@@ -360,27 +360,30 @@ pub use with_emplacable_for::WithEmplacableForFn;
 /// ```
 #[cfg(not(all(doctest, any(miri, not(feature = "alloc")))))]
 #[inline]
-pub fn with_emplacable_for<T, F, R>(mut val: T, mut f: F) -> R
+pub fn with_emplacable_for<T, F, R>(val: T, f: F) -> R
 where
     T: ?Sized + 'static,
     F: FnMut(Emplacable<T, WithEmplacableForFn<'_, T>>) -> R,
 {
-    /// SAFETY: `val` must not be dropped after this function completes.
     #[inline]
-    unsafe fn with_emplacable_for_inner<'a, T: ?Sized + 'a, R>(
-        val: &'a mut T,
-        f: &mut dyn FnMut(Emplacable<T, WithEmplacableForFn<'a, T>>) -> R,
-    ) -> R {
+    fn with_emplacable_for_inner<T, F, R>(mut val: ManuallyDrop<T>, mut f: F) -> R
+    where
+        T: ?Sized + 'static,
+        F: FnMut(Emplacable<T, WithEmplacableForFn<'_, T>>) -> R,
+    {
         // SAFETY: closure fulfills safety preconditions
-        let emplacable = unsafe { Emplacable::from_fn(with_emplacable_closure(val)) };
+        let emplacable = unsafe { Emplacable::from_fn(with_emplacable_closure(&mut *val)) };
 
         f(emplacable)
     }
 
-    // SAFETY: we `forget_unsized` val immediately after this call
-    let ret = unsafe { with_emplacable_for_inner(&mut val, &mut f) };
-    mem::forget_unsized(val);
-    ret
+    let inner: fn(ManuallyDrop<T>, F) -> R = with_emplacable_for_inner;
+
+    // From here on, the `Emplacable` is responsible for dropping `val`, even if `f` panics.
+    // SAFETY: `ManuallyDrop<T>` is `repr(transparent)`, so the ABIs are compatible
+    let inner: fn(T, F) -> R = unsafe { mem::transmute(inner) };
+
+    inner(val, f)
 }
 
 /// Alias of [`for<'a> FnOnce(&'a mut Emplacer<T>)`](Emplacer<T>).
-- 
2.43.0

