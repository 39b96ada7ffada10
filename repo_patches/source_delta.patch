From 39a6057ce2982a55f19e52a575ce24f46e965b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 01/49] fix: ScopePtr::alloc must not drop the uninitialised
 memory it fills

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..f23f0db 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: memory was just allocated for the value and is not initialized yet, so
+        // nothing should be dropped in it.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From 303bd5d1f4769a0aa534d2773a4ee503354c11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 02/49] fix: ScopePtr::into_inner must not drop the moved-out
 value and free twice

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index f23f0db..e6a0c1c 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -205,6 +205,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // The value is moved out and the memory is released, nothing is left to drop.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From abf30741af9833f067ecd30747647ea132a467eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 03/49] fix: never pass zero-sized requests to the allocator

---
 src/ptr.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index e6a0c1c..1d5c7d1 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -190,7 +190,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Zero-sized requests are not allowed by `GlobalAlloc`, and need no memory.
+            NonNull::<T>::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // Nothing was ever allocated for zero-sized values.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
@@ -273,12 +281,19 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
-        );
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+        let new_size = new_capacity * size_of::<T>();
+        let ptr = if new_size == 0 {
+            // Zero-sized requests are not allowed by `GlobalAlloc`.
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if layout.size() == 0 {
+            self.alloc
+                .alloc(Layout::from_size_align_unchecked(new_size, layout.align()))
+        } else {
+            self.alloc.realloc(self.ptr.as_ptr() as _, layout, new_size)
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From 785619d9b094f38cdf89cea6df1677e2d5ebe655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 04/49] fix: report capacity overflow in realloc_array instead
 of wrapping the size

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 1d5c7d1..612c1ba 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -283,7 +283,9 @@ impl<T> ScopePtr<[T]> {
         trace!("realloc array");
         // SAFETY: we already constructed such Layout before to allocate - it will not fail.
         let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
-        let new_size = new_capacity * size_of::<T>();
+        let new_size = Layout::array::<T>(new_capacity)
+            .map_err(|_| CapacityOverflow)?
+            .size();
         let ptr = if new_size == 0 {
             // Zero-sized requests are not allowed by `GlobalAlloc`.
             self.dealloc();
-- 
2.43.0


From 5dd7f1cadf57902674ea3795f996a442c5f89606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 05/49] fix: Env::spawn must install the new scope, not its
 bytes reinterpreted as a reference

---
 src/scope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..a613c38 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -138,7 +138,8 @@ impl Env {
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            let new_ref: &mut dyn Scope = &mut new_scope;
+            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_ref));
 
             let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
-- 
2.43.0


From 7295480dd25d7e40e68b80b5a715d23ba08d0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 06/49] fix: restore the previous scope when the spawned
 function panics

---
 src/scope.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index a613c38..20022d3 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -141,11 +141,18 @@ impl Env {
             let new_ref: &mut dyn Scope = &mut new_scope;
             self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_ref));
 
-            let t = f(&mut new_scope);
-            // SAFETY: we will give up execution to previous scope so restore previous
-            // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            /// Restores previous scope, also if the function given to `spawn` panics.
+            struct Restore<'a>(&'a mut Env, *mut dyn Scope);
+            impl Drop for Restore<'_> {
+                fn drop(&mut self) {
+                    // SAFETY: we will give up execution to previous scope so restore previous
+                    // scope's lifetime by unsafe_into.
+                    self.0.cur = unsafe { (&mut *self.1).unsafe_into() };
+                }
+            }
+
+            let _restore = Restore(self, prev);
+            f(&mut new_scope)
         }
     }
 
-- 
2.43.0


From 3924ce311f3644439bb29fcb3a89314eec5da074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 07/49] fix: Vec::with_marker must keep the given marker

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From 147e36f0ba8ae3d510d08dcfed723b5960c7a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 08/49] fix: Vec::leak must return the elements, not a slice of
 a dropped Vec

---
 src/vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..c236759 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -311,10 +311,11 @@ impl<T: 'static> Vec<T> {
     }
 
     #[inline]
-    pub fn leak(mut self) -> &'static mut [T] {
+    pub fn leak(self) -> &'static mut [T] {
+        let mut this = ManuallyDrop::new(self);
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        unsafe { impose_lifetime_mut(this.as_mut_slice()) }
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From 48b2665da19a8d416a0e763580951046bdbad3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 09/49] fix: Vec::dealloc_without_drop must not run Drop of the
 Vec

---
 src/vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec.rs b/src/vec.rs
index c236759..9597e7b 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -322,6 +322,7 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From a58c721277966d78d02ef8f6dd54d7105aca2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 10/49] fix: Vec::split_off must move the tail out

---
 src/vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vec.rs b/src/vec.rs
index 9597e7b..d77558e 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -408,6 +408,11 @@ impl<T: 'static> Vec<T> {
             let at_ptr = unsafe { self.get_unchecked(at) };
 
             unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            // SAFETY: elements starting from `at` are now owned by the new Vec.
+            unsafe {
+                vec.set_len(count);
+                self.set_len(at);
+            }
             vec
         }
     }
-- 
2.43.0


From 7eb1c927b84b7919c42ca65161e0c6d18b9234a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 11/49] fix: Vec::swap_remove of the last element must not copy
 overlapping memory

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index d77558e..528e4e0 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -372,10 +372,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are the same if the last element is removed.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From 79e76bc58a1e61eb8153cd1e323c6e0f77d4cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 12/49] fix: retain and dedup must not skip the second element

---
 src/vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 528e4e0..59aa0fa 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -737,7 +737,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -774,7 +774,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
     /// Care should be taken to forget the element in `read` and only use one stored
     /// in `write` after copying.
     unsafe fn copy(&mut self) {
-        debug_assert_ne!(self.read, self.write);
+        if self.read == self.write {
+            return;
+        }
 
         let read: *const T = self.get_unchecked(self.read);
         let write: *mut T = self.get_unchecked_mut(self.write);
-- 
2.43.0


From 3ed92c301e66381d7ade17785d9bff10a8224e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 13/49] fix: dedup_by must compare with the element kept in
 place, not its old location

---
 src/vec.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 59aa0fa..67f579c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -808,12 +808,10 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 
     #[inline]
     pub fn dedup_by(vec: &'a mut dyn Vecx<T>, mut same_bucket: impl FnMut(&mut T, &mut T) -> bool) {
-        let mut keeped: *mut T = if let Some(first) = vec.get_mut(0) {
-            first
-        } else {
+        if vec.is_empty() {
             // Return on empty array.
             return;
-        };
+        }
         // Shadow `same_bucket` to accept pointers. We use those to avoid errors of
         // borrowing `vec` both mutable and immutable at the same time.
         //
@@ -825,11 +823,12 @@ impl<'a, T: 'static> RetainIter<'a, T> {
         let mut iter = RetainIter::new(vec, false);
         while iter.has_next() {
             let tested: *mut T = iter.peek_mut();
+            // SAFETY: at least one element was kept already.
+            let keeped: *mut T = unsafe { iter.get_unchecked_mut(iter.write - 1) };
             if same_bucket(tested, keeped) {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
             }
         }
     }
-- 
2.43.0


From c68e58d1f5fb8cb976d846ce8d0e9692b3ef1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 14/49] fix: drain must check its range, and close the gap with
 the tail of the vector

---
 src/vec.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 67f579c..488d4e0 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -539,25 +539,29 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        assert!(start <= end && end <= original_len);
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
         // located after the slice will be leaked.
         unsafe { vec.set_len(start) };
 
+        let vec_ptr: *mut V = vec;
         DrainInner {
-            vec_ptr: vec,
+            vec_ptr,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            // SAFETY: the range is within original length, all elements there are initialized.
+            slice: unsafe { &(*vec_ptr).as_slice_with_len(original_len)[start..end] },
+            original_len,
         }
     }
 
@@ -577,13 +581,12 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
-            let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            let vec_ptr = vec.as_slice_with_len_mut(self.original_len).as_mut_ptr();
+            let count = self.original_len - self.end;
+            ptr::copy(vec_ptr.add(self.end), vec_ptr.add(self.start), count);
 
             // Restore valid length of Vec.
-            vec.set_len(self.original_len - count);
+            vec.set_len(self.start + count);
         }
     }
 }
-- 
2.43.0


From fe42f1cd4e255c6e77b126ea83cc21992e355716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 15/49] fix: Drain::next_back must step over the yielded
 element only

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 488d4e0..fc54fa9 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -617,7 +617,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From a43eba695a28fb6fc2fb99c49e65586a5c09e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 16/49] fix: vec::IntoIter must not hand out or drop an element
 twice

---
 src/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index fc54fa9..9bbe732 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1112,7 +1112,12 @@ impl<T> Iterator for IntoIter<T> {
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            // All remaining elements were already moved out of Vec.
+            None
+        }
     }
 }
 
-- 
2.43.0


From f062e0063f1a47319b01f0344d8ad680f5e122d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 17/49] fix: vec::IntoIter must report the number of remaining
 elements

---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 9bbe732..9fdf9f3 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1106,7 +1106,8 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
@@ -1149,7 +1150,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.vec.len() - self.index;
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1157,7 +1158,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.vec.len() - self.index;
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From c258cbfa318d1019cfb9ff1b555974468d68020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 18/49] fix: Vec::clear must not drop elements again if a
 destructor panics

---
 src/vec.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 9fdf9f3..ea8144f 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -268,15 +268,8 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        // Length is shrunk before dropping, so no value will be dropped twice if its Drop panics.
+        self.truncate(0);
     }
 
     #[inline]
-- 
2.43.0


From 8dfc0e60505d26c3d8939508902a135394799574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 19/49] fix: Vec::from(&[T]) must grow the vector to hold the
 clones

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index ea8144f..e421820 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -996,7 +996,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From 0d9ea7bd779bf59dc9a789bc71531f10820c45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 20/49] fix: Vec::into_boxed_slice must keep the length of
 vectors of zero-sized elements

---
 src/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index e421820..245511b 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -382,7 +382,12 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
-        let access = unsafe { self.ptr.clone() };
+        let mut access = unsafe { self.ptr.clone() };
+        if size_of::<T>() == 0 {
+            // Nothing is allocated for zero-sized elements, so the pointer does not keep the length.
+            // SAFETY: any length is correct for zero-sized elements.
+            access = unsafe { access.cast::<T>().cast_to_slice(self.len()) };
+        }
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 28e45dd0f4f60f1ac1a9df448278da5533861fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 21/49] fix: StackVec::truncate must drop the removed elements

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..02f7df6 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,9 +250,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
+            for to_drop in len..old_len {
                 unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
+                    let to_drop = self.as_slice_with_len_mut(old_len).get_unchecked_mut(to_drop);
                     drop_in_place(to_drop);
                 }
             }
-- 
2.43.0


From 8842f318c678e46eeb7e4dcc8d2710932b012b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 22/49] fix: SmallVec::insert must check the index, and allow
 inserting at the end inline

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 02f7df6..73cd444 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -194,9 +194,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     }
 
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
-        debug_assert!(self.len() >= index);
+        assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        let write = self.as_mut_ptr().add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
-- 
2.43.0


From 58ae0c852a068174f9905b23eb9271ee1c78b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 23/49] fix: StackVec::remove must not read past its last
 element

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 73cd444..3338686 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -219,7 +219,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From a3e46d95a36f81590fc7b17fd7b769259578dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 24/49] fix: StackVec::swap_remove of the last element must not
 copy overlapping memory

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3338686..4537f26 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -269,7 +269,8 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
 
             // Copy last element in place of removed one.
             let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            // It is the same element if the last one gets removed.
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
-- 
2.43.0


From 0edd17336a048734f5e53200e549855237d57430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 25/49] fix: SmallVec::reserve must count from the length, not
 from the capacity

---
 src/small_vec.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 4537f26..3877fec 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -481,11 +481,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let new_capacity = self.capacity().overflow_guarded_add(additional);
-        let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
-
-        let reserve = new_capacity - self.capacity();
-        self.try_reserve_exact(reserve)
+        use Storage::*;
+        match &mut self.storage {
+            Stack(_) => self.try_reserve_exact(additional),
+            Heap(vec) => vec.try_reserve(additional),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 57a31f8b1c8dd51af0e2824b41790b83f501954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 26/49] fix: SmallVec::resize and resize_with must move to heap
 when elements do not fit inline

---
 src/small_vec.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3877fec..c87019e 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -375,7 +375,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -405,9 +404,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
+        if len > self.len() {
+            // Move to heap if required to be able to store all new elements.
+            self.reserve(len - self.len());
         }
 
         use Storage::*;
@@ -417,6 +416,20 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        if len > self.len() {
+            // Move to heap if required to be able to store all new elements.
+            self.reserve(len - self.len());
+        }
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From b6f7a978f5d4b054b99a78c9d3bf792f891b3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 27/49] fix: SmallVec::from array must keep the elements it
 stores inline

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c87019e..9913090 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -956,7 +956,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     &slice as *const MaybeUninit<T>,
                     &mut vec.slice as *mut MaybeUninit<T>,
                     L,
-                )
+                );
+                vec.set_len(L);
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-- 
2.43.0


From b1cdf34dbe9974823cd89a21947b8bd07e64c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 28/49] fix: SmallVec::split_off_into must accept the end of
 the vector

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 9913090..2d9efd5 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -640,7 +640,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
+        let slice = unsafe { self.as_mut_ptr().add(at) };
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
-- 
2.43.0


From d8db8aaae7f710bb5881f2b4eece1431c5763798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 29/49] fix: SmallVec::try_move_to_heap_and_reserve_exact must
 return errors instead of panicking

---
 src/small_vec.rs | 8 ++++++--
 src/vec.rs       | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 2d9efd5..63830ab 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -457,7 +457,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = old_vec
+                    .len()
+                    .checked_add(additional)
+                    .ok_or(ArrayAllocError::CapacityOverflow)?;
+                let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
@@ -472,7 +476,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
diff --git a/src/vec.rs b/src/vec.rs
index 245511b..0ef2882 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -876,7 +876,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From 6e8db459dcee9f59f291a14c32a8f0142930dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 30/49] fix: String must not encode characters into
 uninitialised bytes

---
 src/string.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..3bd688b 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1,5 +1,5 @@
 use core::slice;
-use core::{char::decode_utf16, convert::Infallible, mem::MaybeUninit, ptr, str::Utf8Error};
+use core::{char::decode_utf16, convert::Infallible, ptr, str::Utf8Error};
 
 use crate::{
     scope::AllocMarker,
@@ -126,7 +126,7 @@ impl String {
             1 => self.vec.push(ch as u8),
             _ => self
                 .vec
-                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),
+                .extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes()),
         }
     }
 
@@ -172,7 +172,7 @@ impl String {
     pub fn insert(&mut self, idx: usize, ch: char) {
         assert!(self.is_char_boundary(idx));
 
-        let mut bits = unsafe { uninit_bits() };
+        let mut bits = [0; 4];
         let bits = ch.encode_utf8(&mut bits).as_bytes();
         unsafe { self.insert_bytes(idx, bits) };
     }
@@ -411,7 +411,7 @@ impl core::fmt::Debug for String {
 
 impl From<char> for String {
     fn from(ch: char) -> Self {
-        let mut bytes = unsafe { uninit_bits() };
+        let mut bytes = [0; 4];
         let bytes = ch.encode_utf8(&mut bytes).as_bytes();
         let vec = Vec::from(bytes);
         String { vec }
@@ -656,9 +656,3 @@ impl core::fmt::Write for String {
         Ok(())
     }
 }
-
-unsafe fn uninit_bits() -> [u8; 4] {
-    MaybeUninit::<[MaybeUninit<u8>; 4]>::uninit()
-        .assume_init()
-        .map(|v| v.assume_init())
-}
-- 
2.43.0


From ff253b1166a32e0a98190b706db36c7d01844b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 31/49] fix: Debug of String must print what Debug of its text
 prints

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 3bd688b..f4749a1 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -405,7 +405,7 @@ impl core::fmt::Display for String {
 impl core::fmt::Debug for String {
     #[inline]
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
-        core::fmt::Display::fmt(&**self, f)
+        core::fmt::Debug::fmt(&**self, f)
     }
 }
 
-- 
2.43.0


From 594f65b1a8e6a2f6d9d451c779c20baace460938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 32/49] fix: extending an unallocated String must not replace
 its marker

---
 src/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index f4749a1..90c01b7 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -505,7 +505,11 @@ impl Extend<String> for String {
         // Use already allocated String if current one is not.
         if self.capacity() == 0 {
             if let Some(s) = iter.next() {
-                self.vec = s.vec;
+                if s.vec.marker() == self.vec.marker() {
+                    self.vec = s.vec;
+                } else {
+                    self.push_str(&s);
+                }
             }
         }
 
-- 
2.43.0


From da01cf48425204f69bc9ebe6d57dcc5ff37e5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 33/49] fix: Rc and its Weak must drop the value and release
 the memory

---
 src/rc.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..39fb62a 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -161,15 +161,20 @@ impl Rc<dyn core::any::Any + 'static> {
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
         if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
+            // This was the last `Rc` so drop the value. It is not possible to upgrade Weak
+            // from now on. Value may itself hold Weak pointers to this RcBox, so
+            // prevent those from deallocating it.
+            self.inner().dec_strong();
+            self.inner().inc_weak();
+            unsafe { drop_in_place(self.as_mut()) }
+            self.inner().dec_weak();
         } else {
             self.inner().dec_strong();
         }
 
         if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
-            // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+            // Nothing refers to RcBox now so deallocate it.
+            unsafe { self.0.dealloc() }
         }
     }
 }
@@ -344,10 +349,11 @@ impl<T: ?Sized> Default for Weak<T> {
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if let Some(v) = self.inner() {
-            let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
+            v.dec_weak();
+            if self.weak_count() == 0 && self.strong_count() == 0 {
+                // Nothing refers to RcBox now so deallocate it. The value is already dropped.
+                if let Some(v) = &mut self.0 {
+                    unsafe { v.dealloc() }
                 }
             }
         }
-- 
2.43.0


From d78c2a9dfc4d033d5e956c41a2eaac6ad1100edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 34/49] fix: Rc::try_unwrap must give up its reference

---
 src/rc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 39fb62a..eb73a68 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -8,7 +8,7 @@ use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
 use core::mem::ManuallyDrop;
 use core::ptr::drop_in_place;
-use core::{fmt, ptr};
+use core::{fmt, mem, ptr};
 
 /// Internal allocated holder for value and counters of Rc.
 struct RcBox<T: ?Sized> {
@@ -118,9 +118,15 @@ impl<T: 'static> Rc<T> {
         ))
     }
 
-    pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
+    pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
             let val = unsafe { ptr::read(&this.0.val) };
+            // The value is moved out, so Weak pointers cannot access it anymore.
+            this.inner().dec_strong();
+            if Rc::weak_count(&this) == 0 {
+                unsafe { this.0.dealloc() }
+            }
+            mem::forget(this);
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From 38aec043e99906ab1cd07f9ad43b73a769aa3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 35/49] fix: Rc::make_mut must leave the old memory to Weak
 pointers

---
 src/rc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index eb73a68..6e9d5e5 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -141,10 +141,12 @@ impl<T: 'static> Rc<T> {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
                 let data = unsafe { ptr::read(this.as_ref()) };
+                let new = Rc::new(data);
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                // Old RcBox is owned only by Weak pointers now.
+                mem::forget(mem::replace(this, new));
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From 9d7c01cb443f5f844b40cc9f0d4080a603537920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 36/49] fix: Rc must not lose the value when the allocation
 fails

---
 src/rc.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 6e9d5e5..7c6dda5 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,14 +108,27 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
+        let val = ManuallyDrop::new(val);
+        // SAFETY: the value is dropped here only if it was not moved.
+        let this = unsafe { Self::try_move_from(&val) };
+        if this.is_err() {
+            drop(ManuallyDrop::into_inner(val));
+        }
+        this.unwrap()
+    }
+
+    /// Move the value into new `Rc`.
+    ///
+    /// # Safety
+    /// The value is moved out if `Ok` is returned, and should not be accessed. It is
+    /// still owned by the caller otherwise.
+    unsafe fn try_move_from(val: &T) -> Result<Self, AllocError> {
         let b = RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
-            val: val.into(),
+            val: ptr::read(val).into(),
         };
-        Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
-        ))
+        ScopePtr::alloc(b, AllocSelector::new::<T>()).map(|ptr| Rc(ManuallyDrop::new(ptr)))
     }
 
     pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
@@ -140,8 +153,8 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
-                let new = Rc::new(data);
+                // SAFETY: old RcBox does not access the data after it was moved.
+                let new = unsafe { Rc::try_move_from(this.as_ref()).unwrap() };
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-- 
2.43.0


From b64b232431810d7f18c1904b17b1cc74158d46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 37/49] fix: Arc::downgrade must retry with the current weak
 count

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..a9e207c 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From fb577145066421981de18727d9aeaa764827793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 38/49] fix: dropping arc::Weak must be counted and release the
 memory

---
 src/arc.rs | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index a9e207c..4a296ab 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All strong references collectively hold one weak reference. It prevents deallocation of
+    // `ArcInner` while there is any strong reference.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -140,7 +142,7 @@ impl<T: 'static> Arc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
@@ -177,7 +179,7 @@ impl<T: 'static> Arc<T> {
         let mut weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
@@ -237,9 +239,7 @@ impl<T> Arc<T> {
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
             // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            this.release_weak();
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -272,7 +272,7 @@ impl<T: ?Sized> Arc<T> {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
         // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        cnt.get().unwrap_or(1) - 1
     }
 
     #[inline]
@@ -322,7 +322,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -333,7 +333,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -352,10 +352,16 @@ impl<T: ?Sized> Arc<T> {
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
 
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
+        // Release the memory if Weaks are not alive.
+        self.release_weak();
+    }
+
+    /// Release the weak reference held by all strong references collectively.
+    ///
+    /// # Safety
+    /// No strong references should exist, and `self` should not be used after this.
+    unsafe fn release_weak(&mut self) {
+        drop(Weak(ManuallyDrop::new(self.0.clone())));
     }
 }
 
@@ -541,6 +547,20 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    fn drop(&mut self) {
+        // See `Drop` of `Arc` for details on ordering.
+        if self.0.weak.fetch_sub(1, Release) != 1 {
+            return;
+        }
+
+        core::sync::atomic::fence(Acquire);
+
+        // This was the last reference of any kind.
+        unsafe { ManuallyDrop::drop(&mut self.0) }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 25967f5ca31779abc86de7a6ffef5a17ce0a9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 39/49] fix: Arc must not lose the value when the allocation
 fails

---
 src/arc.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/arc.rs b/src/arc.rs
index 4a296ab..2a44f13 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -140,10 +140,25 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
+        let data = ManuallyDrop::new(data);
+        // SAFETY: the data is dropped here only if it was not moved.
+        let this = unsafe { Self::try_move_from(&data) };
+        if this.is_err() {
+            drop(ManuallyDrop::into_inner(data));
+        }
+        this
+    }
+
+    /// Move the data into new `Arc`.
+    ///
+    /// # Safety
+    /// The data is moved out if `Ok` is returned, and should not be accessed. It is
+    /// still owned by the caller otherwise.
+    unsafe fn try_move_from(data: &T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
-            data: data.into(),
+            data: ptr::read(data).into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
             inner,
-- 
2.43.0


From f93920b61025725cbd549ba614cace04814500dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 40/49] fix: Arc::make_mut must leave the old memory to Weak
 pointers

---
 src/arc.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 2a44f13..530fbae 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -191,7 +191,7 @@ impl<T: 'static> Arc<T> {
         T: Clone,
     {
         let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
             if weak == 1 {
@@ -201,24 +201,21 @@ impl<T: 'static> Arc<T> {
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
-                let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
+                // Create a new Arc first, so that the data stays here if allocation fails.
+                // SAFETY: the data is used either by old or by new Arc, see below.
+                let new = unsafe { Self::try_move_from(this.as_ref()).unwrap() };
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
                 match strong.try_set_zero(Acquire) {
                     Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
+                        // The data was moved. Only Weaks own the old ArcInner now.
+                        let mut old = ManuallyDrop::new(mem::replace(this, new));
+                        unsafe { old.release_weak() };
                     }
                     Err(_) => {
+                        // The data was not moved, so just release the memory of the new Arc.
+                        let mut new = ManuallyDrop::new(new);
+                        unsafe { new.release_weak() };
                         // Probably, `Arc` was cloned before we have disassociated.
                         // Need to create a new Arc instead without decrementing and clone the
                         // data.
-- 
2.43.0


From 54d8e47a63a32f6d73659b7461a90287f29848cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 41/49] fix: Urc and its Weak must drop the value and release
 the memory

---
 src/urc.rs | 117 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 62 insertions(+), 55 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..9c838db 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -109,6 +109,8 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences collectively are also counted as one. It prevents deallocation
+    /// of `Master` while there is any strong fence.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -116,6 +118,38 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+impl<T: ?Sized> Master<T> {
+    /// Release strong fence. Drop the data if it was the last one.
+    ///
+    /// # Safety
+    /// The fence should not access the data after this. Pointer should not be accessed too if
+    /// the caller does not hold weak fence.
+    unsafe fn release_strong_fence(this: &mut ManuallyDrop<ScopePtr<Self>>) {
+        if this.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop data as this was the only strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            // Destroy the data at this time, even though we must not free the box
+            // allocation itself (there might still be weak pointers lying around).
+            drop_in_place(MaybeDropped::as_mut(&mut this.data));
+
+            Self::release_weak_fence(this);
+        }
+    }
+
+    /// Release weak fence. Deallocate `Master` if it was the last one.
+    ///
+    /// # Safety
+    /// Pointer should not be accessed after this.
+    unsafe fn release_weak_fence(this: &mut ManuallyDrop<ScopePtr<Self>>) {
+        if this.weak_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop Master as this was the only Fence");
+            core::sync::atomic::fence(Acquire);
+            this.dealloc();
+        }
+    }
+}
+
 pub struct Urc<T: ?Sized + 'static> {
     /// A fence of this Urc.
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
@@ -125,10 +159,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -166,8 +197,7 @@ impl<T: ?Sized> Urc<T> {
         this.fence().inc_weak();
         unsafe {
             Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
+                fence: ManuallyDrop::new(this.fence.clone()),
             }
         }
     }
@@ -218,7 +248,7 @@ impl<T> Urc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
+            weak_fence: 1.into(),
             data: data.into(),
         };
         let fence = Fence {
@@ -282,9 +312,7 @@ impl<T> Urc<T> {
                     &mut *(&mut this.fence_mut().master as *mut _);
                 ManuallyDrop::drop(&mut this.fence);
                 // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
+                Master::release_weak_fence(master);
             }
 
             // Prevent normal Drop execution - we already managed resources here.
@@ -324,7 +352,7 @@ impl<T> Urc<T> {
             // This is the only thread that has strong references.
 
             if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
+                if this.master().weak_fence.load(Acquire) == 2 {
                     // This is the only thread that has weak references.
                     //
                     // Since this is the only thread holding the data
@@ -357,8 +385,7 @@ impl<T> Urc<T> {
                 weak_fence.increment(Release);
                 let _ = unsafe {
                     Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
+                        fence: ManuallyDrop::new(this.fence.clone()),
                     }
                 };
 
@@ -400,12 +427,12 @@ impl<T> Urc<T> {
         if self
             .master()
             .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             let unique_fence = self.master().strong_fence.load(Acquire) == 1;
             if unique_fence {
-                self.master().weak_fence.store(0, Release);
+                self.master().weak_fence.store(1, Release);
                 // Since there is only one Fence then only this thread owns the data
                 // so it is safe to proceed without synchronization.
                 self.fence().strong_count() == 1 && self.fence().weak_count() == 0
@@ -443,11 +470,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -496,51 +518,36 @@ impl<T: ?Sized> Clone for Urc<T> {
 impl<T: ?Sized> Drop for Urc<T> {
     fn drop(&mut self) {
         trace!("Dropping Urc");
-        if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
-            // The fence is no more referenced so drop it.
-            trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
-            unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
+        self.fence().dec_strong();
+        if Urc::fence_strong_count(self) != 0 {
+            // There are still other strong references. Keep the Fence.
+            return;
+        }
 
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
+        // SAFETY: the pointer is used only while this fence is counted in Master.
+        let mut master = unsafe { ManuallyDrop::new(self.fence.master.clone()) };
+        if Urc::fence_weak_count(self) == 0 {
+            // The fence is no more referenced so release its memory.
+            trace!("Will drop Fence as it is the only Urc for it");
+            unsafe { self.fence.dealloc() };
         } else {
-            // There are still either other strong or some weak references.
-            // Just decrement the counter and keep the Fence.
-            self.fence().dec_strong()
+            // The fence is now owned only by Weaks, the last of them will release it.
+            master.weak_fence.fetch_add(1, Relaxed);
         }
+        unsafe { Master::release_strong_fence(&mut master) };
     }
 }
 
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
-        if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
+        self.fence().dec_weak();
+        if self.fence_weak_count() == 0 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
+            unsafe {
+                let mut master = ManuallyDrop::new(self.fence.master.clone());
+                self.fence.dealloc();
+                Master::release_weak_fence(&mut master);
             }
-        } else {
-            // There are still either some strong or other weak references.
-            // Just decrement the counter and keep the Fence.
-            self.fence().dec_weak()
         }
     }
 }
-- 
2.43.0


From 5295554ad263d43e0f45687796be3116e122ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 42/49] fix: Urc::try_unwrap must change nothing on refusal and
 release its memory on success

---
 src/urc.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 9c838db..e6b98af 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -286,6 +286,11 @@ impl<T> Urc<T> {
     }
 
     pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -297,31 +302,35 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
-            // If nothing refers to the Fence no more then release it.
-            if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
-                ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                Master::release_weak_fence(master);
-            }
-
-            // Prevent normal Drop execution - we already managed resources here.
+            // Prevent normal Drop execution - resources are managed here.
+            this.release_moved_out();
             mem::forget(this);
 
             Ok(elem)
         }
     }
 
+    /// Release the only strong reference after the data was moved out.
+    ///
+    /// # Safety
+    /// This should be the only strong reference, strong fence counter should be already zero,
+    /// and `self` should not be used after this.
+    unsafe fn release_moved_out(&mut self) {
+        self.fence().dec_strong();
+        // If nothing refers to the Fence no more then release it. Otherwise it is owned only
+        // by Weaks, and takes over the weak count of strong fences in the Master.
+        if self.fence().weak_count() == 0 {
+            let mut master = ManuallyDrop::new(self.fence.master.clone());
+            self.fence.dealloc();
+            // If nothing refers to the master no more then release it.
+            Master::release_weak_fence(&mut master);
+        }
+    }
+
     pub fn make_mut(this: &mut Self) -> &mut T
     where
         T: Clone,
-- 
2.43.0


From d286bedde7bb05d0cf317fc9627abbc000d21d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 43/49] fix: Urc::get_mut must not leave the weak counter
 locked

---
 src/urc.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index e6b98af..640d1df 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -431,26 +431,14 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
-
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(1, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        // If there is only one strong Fence then only this thread owns the data, and no other
+        // thread can create new strong or weak fences after this check. So weak counter
+        // does not need to be locked. Weak fences of other threads are
+        // counted before those threads release their strong fences.
+        self.master().strong_fence.load(Acquire) == 1
+            && self.master().weak_fence.load(Acquire) == 1
+            && self.fence().strong_count() == 1
+            && self.fence().weak_count() == 0
     }
 }
 
-- 
2.43.0


From a908a6d138af60841ca8fa2546551b90d8e5d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 44/49] fix: Urc must not lose the value or memory when an
 allocation fails

---
 src/urc.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 640d1df..80f42a2 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -246,23 +246,43 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
+        let data = ManuallyDrop::new(data);
+        // SAFETY: the data is dropped here only if it was not moved.
+        let this = unsafe { Self::try_move_from(&data) };
+        if this.is_err() {
+            drop(ManuallyDrop::into_inner(data));
+        }
+        this
+    }
+
+    /// Move the data into new `Urc`.
+    ///
+    /// # Safety
+    /// The data is moved out if `Ok` is returned, and should not be accessed. It is
+    /// still owned by the caller otherwise.
+    unsafe fn try_move_from(data: &T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
-            data: data.into(),
+            data: ptr::read(data).into(),
         };
-        let fence = Fence {
+        let mut master = ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?;
+        let fence = ManuallyDrop::new(Fence {
             strong: 1.into(),
             weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
-        };
-        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
-        let urc = Urc {
-            fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>())?),
+            master: ManuallyDrop::new(master.clone()),
+        });
+        let data = Scoped::unsafe_from(&master.data).unsafe_into();
+        let fence = ScopePtr::alloc(fence, AllocSelector::new::<T>());
+        if fence.is_err() {
+            master.dealloc();
+        }
+        // Master is owned by the fence, or was deallocated.
+        master.forget();
+        Ok(Urc {
+            fence: ManuallyDrop::new(fence?.cast()),
             data,
-        };
-
-        Ok(urc)
+        })
     }
 
     #[inline]
-- 
2.43.0


From 247ad649657798810bd0ea0ef57be3c4c77dfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 45/49] fix: Urc::make_mut must not move out shared data, nor
 fail when it is the sole owner

---
 src/urc.rs | 63 ++++++++++++++----------------------------------------
 1 file changed, 16 insertions(+), 47 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 80f42a2..0a7cd27 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,7 +10,6 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
 use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
@@ -366,58 +365,28 @@ impl<T> Urc<T> {
         // Move out the data to another completely new Master.
         macro_rules! move_out(
             () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
+                // If allocation fails the data just stays here.
+                // SAFETY: the data is not accessed by old Master after it was moved.
+                let new = unsafe { Self::try_move_from(this.as_ref()).unwrap() };
+
                 // Set strong to zero to indicate this Fence/Master
                 // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
-
-                *this = Self::new(data);
-                unsafe { Urc::get_mut_unchecked(this) }
+                let mut old = ManuallyDrop::new(mem::replace(this, new));
+                old.master().strong_fence.store(0, Release);
+                unsafe {
+                    old.release_moved_out();
+                    Urc::get_mut_unchecked(this)
+                }
             }};
         );
 
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 2 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
-                }
+        if this.master().strong_fence.load(Acquire) == 1 && this.fence().strong_count() == 1 {
+            // This is the only strong reference, and no thread can create another one, nor new
+            // Weaks.
+            if this.is_unique() {
+                unsafe { Urc::get_mut_unchecked(this) }
             } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: ManuallyDrop::new(this.fence.clone()),
-                    }
-                };
-
+                // This or other threads have Weaks. Disassociate those from the data.
                 move_out!()
             }
         } else {
-- 
2.43.0


From 7a0536f01bc558c3c2b8c37f196e6ddc3effe2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 46/49] fix: dropping a urc::Fence must release its reference

---
 src/urc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/urc.rs b/src/urc.rs
index 0a7cd27..c48ae0c 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -103,6 +103,14 @@ impl<T> Fence<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        // Fence is dropped as a value only when it is not used by any Urc or Weak, and
+        // so it still holds the only strong reference from which it was made.
+        unsafe { Master::release_strong_fence(&mut self.master) }
+    }
+}
+
 struct Master<T: ?Sized> {
     /// Count of `Fence` that has at least one strong reference.
     strong_fence: AtomicUsize,
-- 
2.43.0


From 412fbb8004d1029342df1bcca82ba40bbe98c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 47/49] fix: selectors and markers of the same type must be
 equal wherever they were made

---
 src/scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 20022d3..b462be8 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -27,8 +27,8 @@ pub enum AllocMarker {
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
     // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // The strings themselves are compared: the same type may have its name stored at several
+    // addresses, one for each codegen unit or crate that mentions it.
     Type(&'static str),
 }
 
@@ -36,7 +36,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -46,7 +46,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -69,14 +69,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From e4002eaf640463dc727a1b53fe479c0c0daab189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 48/49] fix: Urc::try_unwrap does not move a Urc whose data was
 released

The Urc was moved into mem::forget after its memory was released, while it still holds
a reference to that memory.
---
 src/urc.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index c48ae0c..55a0514 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -312,7 +312,7 @@ impl<T> Urc<T> {
         unsafe { Ok(Pin::new_unchecked(Self::try_new(data)?)) }
     }
 
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this.fence().strong_count() != 1 {
             // Exactly one strong reference is required but several strong references exist.
             return Err(this);
@@ -333,9 +333,10 @@ impl<T> Urc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
-            // Prevent normal Drop execution - resources are managed here.
+            // Prevent normal Drop execution - resources are managed here. Note that this should
+            // not be moved after release, as it holds a reference to the data.
+            let mut this = ManuallyDrop::new(this);
             this.release_moved_out();
-            mem::forget(this);
 
             Ok(elem)
         }
-- 
2.43.0


From 641044dfff8025cfa21dc4ba5d5ca06cbe50c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 49/49] fix: hash integers behind a Box as the hasher itself
 does

---
 src/boxed.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/boxed.rs b/src/boxed.rs
index 2e5a93c..77555ef 100644
--- a/src/boxed.rs
+++ b/src/boxed.rs
@@ -136,6 +136,54 @@ impl<T: hash::Hasher + ?Sized> hash::Hasher for Box<T> {
     fn write(&mut self, bytes: &[u8]) {
         (**self).write(bytes)
     }
+
+    fn write_u8(&mut self, i: u8) {
+        (**self).write_u8(i)
+    }
+
+    fn write_u16(&mut self, i: u16) {
+        (**self).write_u16(i)
+    }
+
+    fn write_u32(&mut self, i: u32) {
+        (**self).write_u32(i)
+    }
+
+    fn write_u64(&mut self, i: u64) {
+        (**self).write_u64(i)
+    }
+
+    fn write_u128(&mut self, i: u128) {
+        (**self).write_u128(i)
+    }
+
+    fn write_usize(&mut self, i: usize) {
+        (**self).write_usize(i)
+    }
+
+    fn write_i8(&mut self, i: i8) {
+        (**self).write_i8(i)
+    }
+
+    fn write_i16(&mut self, i: i16) {
+        (**self).write_i16(i)
+    }
+
+    fn write_i32(&mut self, i: i32) {
+        (**self).write_i32(i)
+    }
+
+    fn write_i64(&mut self, i: i64) {
+        (**self).write_i64(i)
+    }
+
+    fn write_i128(&mut self, i: i128) {
+        (**self).write_i128(i)
+    }
+
+    fn write_isize(&mut self, i: isize) {
+        (**self).write_isize(i)
+    }
 }
 
 impl<T: PartialOrd + ?Sized> PartialOrd for Box<T> {
-- 
2.43.0

