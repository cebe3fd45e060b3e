From 15d2cd8fe140f0930cbd88c1eaf916418624a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 01/72] fix: vectors of zero-sized elements overflowed the
 pointer distance and divided by zero

---
 stabby-abi/src/alloc/boxed.rs |  2 +-
 stabby-abi/src/alloc/sync.rs  |  2 +-
 stabby-abi/src/alloc/vec.rs   | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 0369bb1..560d2bd 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -414,7 +414,7 @@ impl<T, Alloc: IAlloc> From<BoxedSlice<T, Alloc>> for Vec<T, Alloc> {
                     start: slice.start,
                     end: slice.end,
                     capacity: if core::mem::size_of::<T>() == 0 {
-                        unsafe { core::mem::transmute::<usize, NonNull<T>>(usize::MAX) }
+                        unsafe { core::mem::transmute::<usize, NonNull<T>>(isize::MAX as usize) }
                     } else {
                         slice.start.ptr
                     },
diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9036d1a..77a7aae 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -522,7 +522,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                     AtomicUsize::new(0)
                 } else {
                     AtomicUsize::new(ptr_diff(
-                        core::mem::transmute::<usize, NonNull<u8>>(usize::MAX),
+                        core::mem::transmute::<usize, NonNull<u8>>(isize::MAX as usize),
                         start.ptr.cast::<u8>(),
                     ))
                 };
diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index f971e08..7ffc555 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -79,7 +79,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
                 start,
                 end: start.ptr,
                 capacity: if Self::zst_mode() {
-                    unsafe { core::mem::transmute::<usize, NonNull<T>>(usize::MAX) }
+                    unsafe { core::mem::transmute::<usize, NonNull<T>>(isize::MAX as usize) }
                 } else {
                     start.ptr
                 },
@@ -178,10 +178,10 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub const fn remaining_capacity(&self) -> usize {
         ptr_diff(self.inner.capacity, self.inner.end)
     }
-    const FIRST_CAPACITY: usize = match 1024 / core::mem::size_of::<T>() {
-        0 => 1,
-        v @ 1..=8 => v,
-        _ => 8,
+    const FIRST_CAPACITY: usize = match core::mem::size_of::<T>() {
+        0..=128 => 8,
+        size @ 129..=1024 => 1024 / size,
+        _ => 1,
     };
     fn grow(&mut self) {
         self.try_grow().unwrap();
-- 
2.43.0


From 479560accfa584ade79ede3663e9146fea9ce74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 02/72] fix: allocations for elements more aligned than the
 allocation prefix were too small

---
 stabby-abi/src/alloc/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 472c5ac..1824418 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -83,6 +83,9 @@ impl Layout {
     }
     /// Concatenates a layout to `self`, ensuring that alignment padding is taken into account.
     pub const fn concat(mut self, other: Self) -> Self {
+        let align = self.align;
+        self = self.realign(other.align);
+        self.align = align;
         self.size += other.size;
         self.realign(if self.align < other.align {
             other.align
@@ -358,8 +361,7 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
     }
     /// Allocates a pointer to an array of `capacity` `T`, prefixed by an [`AllocPrefix`]
     pub fn alloc_array(alloc: &mut Alloc, capacity: usize) -> Option<Self> {
-        let mut layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(capacity));
         let ptr = alloc.alloc(layout);
         NonNull::new(ptr).map(|ptr| unsafe { Self::init(ptr, capacity) })
     }
@@ -375,13 +377,9 @@ impl<T, Alloc: IAlloc> AllocPtr<T, Alloc> {
         prev_capacity: usize,
         new_capacity: usize,
     ) -> Option<Self> {
-        let mut layout =
-            Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
-        layout.align = core::mem::align_of::<AllocPrefix<Alloc>>();
+        let layout = Layout::of::<AllocPrefix<Alloc>>().concat(Layout::array::<T>(prev_capacity));
         let ptr = alloc.realloc(
-            (self.prefix() as *const AllocPrefix<Alloc>)
-                .cast_mut()
-                .cast(),
+            self.prefix().origin.as_ptr(),
             layout,
             Layout::of::<AllocPrefix<Alloc>>()
                 .concat(Layout::array::<T>(new_capacity))
-- 
2.43.0


From 0feea670804b66fa6604445fb739eec24c3afff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 03/72] fix: Layout::array, concat and realign wrapped around
 on huge sizes

---
 stabby-abi/src/alloc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 1824418..83209e0 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -77,7 +77,7 @@ impl Layout {
     pub const fn array<T: Sized>(n: usize) -> Self {
         let Self { size, align } = Self::of::<T>();
         Layout {
-            size: size * n,
+            size: size.saturating_mul(n),
             align,
         }
     }
@@ -86,7 +86,7 @@ impl Layout {
         let align = self.align;
         self = self.realign(other.align);
         self.align = align;
-        self.size += other.size;
+        self.size = self.size.saturating_add(other.size);
         self.realign(if self.align < other.align {
             other.align
         } else {
@@ -104,8 +104,9 @@ impl Layout {
     /// Changes the alignment of the layout, adding padding if necessary.
     pub const fn realign(mut self, new_align: usize) -> Self {
         self.align = new_align;
-        self.size = self.size
-            + (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize);
+        self.size = self.size.saturating_add(
+            (new_align - (self.size % new_align)) * (((self.size % new_align) != 0) as usize),
+        );
         self
     }
 }
-- 
2.43.0


From 601d7ab14a3713abf0eeba12f6990de598207667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 04/72] fix: RustAlloc wrote through null when the global
 allocator failed

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index 29dc4d1..afebcd2 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -26,6 +26,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     };
     // SAFETY: The layout is always non-zero-sized
     let alloc_start = unsafe { alloc_rs::alloc::alloc(layout) };
+    if alloc_start.is_null() {
+        return core::ptr::null_mut();
+    }
     let ret = // SAFETY: the addition is indeed in-bound.
         unsafe { alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>())) };
     // SAFETY: `ret` is allocated and _at least_ one `RustAllocPrefix` greater than the start of the allocation, so writing there is safe.
@@ -54,10 +57,16 @@ extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size:
         size: new_size,
         align: prev_layout.align,
     });
+    if core::alloc::Layout::from_size_align(requested.size, requested.align).is_err() {
+        return core::ptr::null_mut();
+    }
     // SAFETY: See each line
     unsafe {
         // If `ptr` was indeed allocated on by this allocator, then `realloc_start` was indeed allocated by _our_ GlobalAlloc.
         let alloc_start = alloc_rs::alloc::realloc(realloc_start, layout, requested.size);
+        if alloc_start.is_null() {
+            return core::ptr::null_mut();
+        }
         // We follow the same return-value shifting as in `alloc`
         let ret = alloc_start.add(layout.align().max(core::mem::size_of::<RustAllocPrefix>()));
         // And prepend the same prefix
-- 
2.43.0


From 9a3182059e8b9470ac64233bec77d1cc95ec7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 05/72] fix: shrinking reallocations copied past the end of the
 new block

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs |  2 +-
 stabby-abi/src/alloc/mod.rs                   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index e4e49f7..4f82508 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -86,7 +86,7 @@ impl crate::alloc::IAlloc for LibcAlloc {
                     core::ptr::copy_nonoverlapping(
                         ptr.cast::<u8>(),
                         new_ptr.cast::<u8>(),
-                        prev.size,
+                        prev.size.min(new_size),
                     )
                 }
                 self.free(ptr.cast());
diff --git a/stabby-abi/src/alloc/mod.rs b/stabby-abi/src/alloc/mod.rs
index 83209e0..1e2658a 100644
--- a/stabby-abi/src/alloc/mod.rs
+++ b/stabby-abi/src/alloc/mod.rs
@@ -140,7 +140,11 @@ pub trait IAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    prev_layout.size.min(new_size),
+                );
                 self.free(ptr);
             }
         }
@@ -179,7 +183,11 @@ pub trait IStableAlloc: Unpin {
         });
         if !ret.is_null() {
             unsafe {
-                core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), ret.cast(), prev_layout.size);
+                core::ptr::copy_nonoverlapping(
+                    ptr.cast::<u8>(),
+                    ret.cast(),
+                    prev_layout.size.min(new_size),
+                );
                 self.free(ptr);
             }
         }
-- 
2.43.0


From fe372dd87f6c9b074dc9d42a099a1c7ed4e0e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 06/72] fix: LibcAlloc failed every allocation aligned below
 the pointer size

---
 stabby-abi/src/alloc/allocators/libc_alloc.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/allocators/libc_alloc.rs b/stabby-abi/src/alloc/allocators/libc_alloc.rs
index 4f82508..c620a55 100644
--- a/stabby-abi/src/alloc/allocators/libc_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/libc_alloc.rs
@@ -59,7 +59,14 @@ impl crate::alloc::IAlloc for LibcAlloc {
         }
         let mut ptr = core::ptr::null_mut();
         // SAFETY: `posix_memalign` is always safe.
-        let err = unsafe { posix_memalign(&mut ptr, layout.align, layout.size) };
+        let err = unsafe {
+            posix_memalign(
+                &mut ptr,
+                // `posix_memalign` refuses alignments that aren't multiples of the pointer size
+                layout.align.max(core::mem::size_of::<*mut ()>()),
+                layout.size,
+            )
+        };
         if err != 0 && (ptr as usize % layout.align != 0) {
             ptr = core::ptr::null_mut();
         }
@@ -80,7 +87,13 @@ impl crate::alloc::IAlloc for LibcAlloc {
         };
         if new_ptr.is_null() {
             // SAFETY: `posix_memalign` is always safe.
-            let err = unsafe { posix_memalign(&mut new_ptr, prev.align, new_size) };
+            let err = unsafe {
+                posix_memalign(
+                    &mut new_ptr,
+                    prev.align.max(core::mem::size_of::<*mut ()>()),
+                    new_size,
+                )
+            };
             if err == 0 {
                 unsafe {
                     core::ptr::copy_nonoverlapping(
-- 
2.43.0


From b1e82f96d52451d2657fd5583275e05df4dd6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 07/72] fix: RustAlloc answered zero-sized requests instead of
 refusing them as documented

---
 stabby-abi/src/alloc/allocators/rust_alloc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stabby-abi/src/alloc/allocators/rust_alloc.rs b/stabby-abi/src/alloc/allocators/rust_alloc.rs
index afebcd2..967efdc 100644
--- a/stabby-abi/src/alloc/allocators/rust_alloc.rs
+++ b/stabby-abi/src/alloc/allocators/rust_alloc.rs
@@ -20,6 +20,9 @@ pub struct RustAllocPrefix {
 }
 
 extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
+    if requested.size == 0 {
+        return core::ptr::null_mut();
+    }
     let requested = Layout::of::<RustAllocPrefix>().concat(requested);
     let Ok(layout) = core::alloc::Layout::from_size_align(requested.size, requested.align) else {
         return core::ptr::null_mut();
@@ -41,6 +44,9 @@ extern "C" fn alloc(requested: crate::alloc::Layout) -> *mut () {
     ret.cast()
 }
 extern "C" fn realloc(ptr: *mut (), prev_layout: crate::alloc::Layout, new_size: usize) -> *mut () {
+    if new_size == 0 {
+        return core::ptr::null_mut();
+    }
     // SAFETY: The corresponding `alloc` returns the allocation offset by this much (see the line where `ret` is constructed in both the `alloc` and `realloc` functions)
     let realloc_start = unsafe {
         ptr.cast::<u8>().sub(
-- 
2.43.0


From 1551898a4cc3977e9fb2e4da9abfdb0b45518de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 08/72] fix: Vec::try_reserve wrapped around when the capacity
 overflowed

---
 stabby-abi/src/alloc/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 7ffc555..56eb20f 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -213,7 +213,12 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
         if self.remaining_capacity() < additional {
             let len = self.len();
-            let new_capacity = len + additional;
+            let Some(new_capacity) = len.checked_add(additional) else {
+                return Err(AllocationError());
+            };
+            if Self::zst_mode() {
+                return Err(AllocationError());
+            }
             let old_capacity = self.capacity();
             let start = if old_capacity != 0 {
                 unsafe {
-- 
2.43.0


From 1e5c4ac4d54b5c1d9ff98680da178fdb5aa88cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 09/72] fix: Vec::try_drain refused exactly the valid ranges

---
 stabby-abi/src/alloc/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 56eb20f..d084a89 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -378,7 +378,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => original_len,
         };
-        if to >= from || to <= original_len {
+        if to < from || to > original_len {
             return None;
         }
         unsafe { self.set_len(from) };
-- 
2.43.0


From 0019f82898f8ca662488790b5c073568ca737fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 10/72] fix: DoubleEndedDrain::next_back read the element after
 the one it removed

---
 stabby-abi/src/alloc/vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index d084a89..691273f 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -755,7 +755,7 @@ pub struct DoubleEndedDrain<'a, T: 'a, Alloc: IAlloc + 'a> {
 impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc> {
     type Item = T;
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.to - self.lindex;
+        let remaining = self.rindex - self.lindex;
         (remaining, Some(remaining))
     }
     fn next(&mut self) -> Option<Self::Item> {
@@ -769,9 +769,8 @@ impl<'a, T: 'a, Alloc: IAlloc + 'a> Iterator for DoubleEndedDrain<'a, T, Alloc>
 impl<'a, T: 'a, Alloc: IAlloc + 'a> DoubleEndedIterator for DoubleEndedDrain<'a, T, Alloc> {
     fn next_back(&mut self) -> Option<Self::Item> {
         (self.lindex < self.rindex).then(|| unsafe {
-            let ret = self.vec.inner.start.as_ptr().add(self.rindex).read();
             self.rindex -= 1;
-            ret
+            self.vec.inner.start.as_ptr().add(self.rindex).read()
         })
     }
 }
-- 
2.43.0


From 536d34ad70881ebde618fcd0e60093b2bb00eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 11/72] fix: Vec::extend wrote out of bounds when the iterator
 exceeded its size hint

---
 stabby-abi/src/alloc/vec.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 691273f..a48051d 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -559,20 +559,8 @@ impl<T: Copy, Alloc: IAlloc + Default> From<&[T]> for Vec<T, Alloc> {
 impl<T, Alloc: IAlloc> core::iter::Extend<T> for Vec<T, Alloc> {
     fn extend<Iter: IntoIterator<Item = T>>(&mut self, iter: Iter) {
         let iter = iter.into_iter();
-        let (min, max) = iter.size_hint();
-        match max {
-            Some(max) => {
-                self.reserve(max);
-                iter.for_each(|item| {
-                    unsafe { self.inner.end.as_ptr().write(item) };
-                    self.inner.end = ptr_add(self.inner.end, 1);
-                })
-            }
-            _ => {
-                self.reserve(min);
-                iter.for_each(|item| self.push(item))
-            }
-        }
+        self.reserve(iter.size_hint().0);
+        iter.for_each(|item| self.push(item))
     }
 }
 
-- 
2.43.0


From 44c108aa94b2353755f0bae52abe641ed6639cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 12/72] fix: Vec::truncate and IntoIter dropped elements twice
 when a destructor panicked

---
 stabby-abi/src/alloc/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index a48051d..c19d799 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -254,8 +254,9 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             return;
         }
         unsafe {
-            core::ptr::drop_in_place(&mut self[len..]);
-            self.set_len(len)
+            let removed: *mut [T] = &mut self[len..];
+            self.set_len(len);
+            core::ptr::drop_in_place(removed);
         };
     }
     /// Returns a slice of the vector's elements.
@@ -654,8 +655,9 @@ impl<T, Alloc: IAlloc> Iterator for IntoIter<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for IntoIter<T, Alloc> {
     fn drop(&mut self) {
         unsafe {
-            core::ptr::drop_in_place(&mut self.vec.as_slice_mut()[self.index..]);
+            let remaining: *mut [T] = &mut self.vec.as_slice_mut()[self.index..];
             self.vec.set_len(0);
+            core::ptr::drop_in_place(remaining);
         }
     }
 }
-- 
2.43.0


From dea0183ace898ebc5b6ecebfaa91bedbb6cf3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 13/72] fix: vectors of over-aligned zero-sized elements
 accessed misaligned addresses

---
 stabby-abi/src/alloc/vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index c19d799..9919cfe 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -152,7 +152,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity {
             self.grow();
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.inner.start.as_ptr().add(self.len()).write(value) }
         self.inner.end = ptr_add(self.inner.end, 1)
     }
     /// Adds `value` at the end of `self`.
@@ -166,7 +166,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         if self.inner.end == self.inner.capacity && self.try_grow().is_err() {
             return Err(value);
         }
-        unsafe { self.inner.end.as_ptr().write(value) }
+        unsafe { self.inner.start.as_ptr().add(self.len()).write(value) }
         self.inner.end = ptr_add(self.inner.end, 1);
         Ok(())
     }
@@ -311,7 +311,11 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
         }
         self.try_reserve(slice.len())?;
         unsafe {
-            core::ptr::copy_nonoverlapping(slice.as_ptr(), self.inner.end.as_ptr(), slice.len());
+            core::ptr::copy_nonoverlapping(
+                slice.as_ptr(),
+                self.inner.start.as_ptr().add(self.len()),
+                slice.len(),
+            );
             self.set_len(self.len() + slice.len());
         }
         Ok(())
@@ -430,7 +434,7 @@ impl<T, Alloc: IAlloc> Vec<T, Alloc> {
             None
         } else {
             unsafe {
-                let value = self.inner.end.as_ptr().sub(1).read();
+                let value = self.inner.start.ptr.as_ptr().add(self.len() - 1).read();
                 self.set_len(self.len() - 1);
                 Some(value)
             }
-- 
2.43.0


From adfed1bb8321d8287040a44e9a506e9221590b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 14/72] fix: boxed slices lost the allocation of empty contents
 and pushed through dangling pointers

---
 stabby-abi/src/alloc/boxed.rs | 36 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index 560d2bd..fd3324d 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -304,42 +304,36 @@ impl<T, Alloc: IAlloc> BoxedSlice<T, Alloc> {
         // SAFETY: we own this slice.
         unsafe { core::slice::from_raw_parts_mut(self.slice.start.ptr.as_ptr(), self.len()) }
     }
+    /// The capacity of the allocation, 0 if there is none.
+    fn capacity(&self) -> usize {
+        if core::mem::size_of::<T>() == 0 || self.slice.start.ptr == NonNull::dangling() {
+            return 0;
+        }
+        // SAFETY: we store the capacity in the prefix when constructed.
+        unsafe { self.slice.start.prefix() }
+            .capacity
+            .load(core::sync::atomic::Ordering::Relaxed)
+    }
     /// Attempts to add an element to the boxed slice without reallocating.
     /// # Errors
     /// Returns the value if pushing would require reallocating.
     pub fn try_push(&mut self, value: T) -> Result<(), T> {
-        // SAFETY: the prefix must be initialized for this type to exist.
-        if self.slice.len()
-            >= unsafe { self.slice.start.prefix() }
-                .capacity
-                .load(core::sync::atomic::Ordering::Relaxed)
-        {
+        if core::mem::size_of::<T>() != 0 && self.slice.len() >= self.capacity() {
             return Err(value);
         }
         // SAFETY: we've acertained that we have enough space to push an element.
         unsafe {
-            core::ptr::write(self.slice.end.as_ptr(), value);
-            self.slice.end = NonNull::new_unchecked(self.slice.end.as_ptr().add(1));
+            core::ptr::write(self.slice.start.as_ptr().add(self.slice.len()), value);
+            self.slice.end = ptr_add(self.slice.end, 1);
         }
         Ok(())
     }
     pub(crate) fn into_raw_components(self) -> (AllocSlice<T, Alloc>, usize, Alloc) {
         let slice = self.slice;
+        let capacity = self.capacity();
         // SAFETY: We forget `alloc` immediately.
         let alloc = unsafe { core::ptr::read(&self.alloc) };
         core::mem::forget(self);
-        let capacity = if core::mem::size_of::<T>() == 0 || slice.is_empty() {
-            0
-        } else {
-            // SAFETY: we store the capacity in the prefix when constructed.
-            unsafe {
-                slice
-                    .start
-                    .prefix()
-                    .capacity
-                    .load(core::sync::atomic::Ordering::Relaxed)
-            }
-        };
         (slice, capacity, alloc)
     }
 }
@@ -438,7 +432,7 @@ impl<T, Alloc: IAlloc + Default> FromIterator<T> for BoxedSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> Drop for BoxedSlice<T, Alloc> {
     fn drop(&mut self) {
         unsafe { core::ptr::drop_in_place(self.as_slice_mut()) }
-        if core::mem::size_of::<T>() != 0 && !self.is_empty() {
+        if self.capacity() != 0 {
             unsafe { self.slice.start.free(&mut self.alloc) }
         }
     }
-- 
2.43.0


From 4a40a1aec4baf430cea34573c0872f35e9f32828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 15/72] fix: turning an Arc into an ArcSlice released the
 reference it kept using

---
 stabby-abi/src/alloc/sync.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 77a7aae..665a135 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -484,10 +484,11 @@ impl<T, Alloc: IAlloc> Clone for ArcSlice<T, Alloc> {
 impl<T, Alloc: IAlloc> From<Arc<T, Alloc>> for ArcSlice<T, Alloc> {
     fn from(mut value: Arc<T, Alloc>) -> Self {
         unsafe { value.ptr.prefix_mut() }.capacity = AtomicUsize::new(1);
+        let start = Arc::into_raw(value);
         Self {
             inner: AllocSlice {
-                start: value.ptr,
-                end: ptr_add(value.ptr.ptr, 1),
+                start,
+                end: ptr_add(start.ptr, 1),
             },
         }
     }
-- 
2.43.0


From 5283047b0bd50fab5acc86cb9544336315e441a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 16/72] fix: turning an empty vector into an ArcSlice wrote the
 allocator to a dangling prefix

---
 stabby-abi/src/alloc/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 665a135..4635bf9 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -527,7 +527,7 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                         start.ptr.cast::<u8>(),
                     ))
                 };
-                slice.start.prefix_mut().alloc.write(alloc);
+                start.prefix_mut().alloc.write(alloc);
             }
             Self {
                 inner: AllocSlice {
-- 
2.43.0


From 494c651797183274d46082bff89962c63e073bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 17/72] fix: turning an empty ArcSlice into a vector leaked its
 allocation

---
 stabby-abi/src/alloc/sync.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 4635bf9..1a3004a 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -545,6 +545,12 @@ impl<T, Alloc: IAlloc> TryFrom<ArcSlice<T, Alloc>> for Vec<T, Alloc> {
             Err(value)
         } else {
             unsafe {
+                if value.inner.start.prefix().capacity.load(Ordering::Relaxed) == 0 {
+                    let start = ArcSlice::into_raw(value).start;
+                    let mut alloc = start.prefix().alloc.assume_init_read();
+                    start.free(&mut alloc);
+                    return Ok(Vec::new_in(alloc));
+                }
                 let ret = Vec {
                     inner: VecInner {
                         start: value.inner.start,
-- 
2.43.0


From f5d0390ee9aa3c6212ae51f0078a5e780c0f11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 18/72] fix: dropping a weak trait object released a strong
 reference

---
 stabby-abi/src/alloc/sync.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 1a3004a..0ae7d21 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -776,18 +776,9 @@ impl<T, Alloc: IAlloc> IntoDyn for Arc<T, Alloc> {
 }
 
 impl<T, Alloc: IAlloc> crate::IPtrOwned for Weak<T, Alloc> {
-    fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
-        if unsafe { this.ptr.prefix() }
-            .strong
-            .fetch_sub(1, Ordering::Relaxed)
-            != 1
-        {
-            return;
-        }
-        unsafe {
-            drop(this.ptr.cast().as_mut());
-            _ = Weak::<T, Alloc>::from_raw(this.ptr);
-        }
+    fn drop(this: &mut core::mem::ManuallyDrop<Self>, _drop: unsafe extern "C" fn(&mut ())) {
+        // SAFETY: `this` is immediately forgotten. The pointee isn't owned by weak references.
+        unsafe { ManuallyDrop::drop(this) }
     }
 }
 
-- 
2.43.0


From c61ef00fa48478efaee7b9df5cc46461a14d75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 19/72] fix: trait objects behind references accessed the
 reference instead of the value

---
 stabby-abi/src/fatptr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 69aa144..8b440af 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -52,17 +52,17 @@ pub trait IPtrClone: IPtrOwned {
 }
 impl<T> IPtr for &T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(*self)
     }
 }
 impl<T> IPtr for &mut T {
     unsafe fn as_ref<U>(&self) -> &U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&T, &U>(*self)
     }
 }
 impl<T> IPtrMut for &mut T {
     unsafe fn as_mut<U>(&mut self) -> &mut U {
-        core::mem::transmute(self)
+        core::mem::transmute::<&mut T, &mut U>(*self)
     }
 }
 impl<T> IPtrOwned for &mut T {
-- 
2.43.0


From 4cc2707d52e9fef16686d7888ffa48243095319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 20/72] fix: sum types' published size was not a multiple of
 their alignment

---
 stabby-abi/src/result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index 94f7f13..a84510a 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -47,8 +47,8 @@ where
     Ok: IDeterminantProvider<Err>,
     Err: IStable,
 {
-    /// The size is the max of the variants' sizes, plus the size of the determinant upgraded to a multiple of the alignment.
-    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <Ok::Size as Unsigned>::Max<Err::Size>);
+    /// The size is the max of the variants' sizes upgraded to a multiple of the alignment, plus the size of the determinant upgraded to a multiple of the alignment.
+    type Size = tyeval!(<<Determinant<Ok, Err> as IStable>::Size as Unsigned>::NextMultipleOf<Self::Align> + <<Ok::Size as Unsigned>::Max<Err::Size> as Unsigned>::NextMultipleOf<Self::Align>);
     /// The alignment is the max of the variants' alignments.
     type Align = <Ok::Align as Alignment>::Max<Err::Align>;
     // If either variant may contain an indirection, so may their sum-type.
-- 
2.43.0


From c7b455024390d00ed44977d2364a1e17c384cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 21/72] fix: reports with fewer fields were compatible with
 reports extending them

---
 stabby-abi/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index 433d235..d7db2fb 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -69,6 +69,7 @@ impl TypeReport {
             && self.module == other.module
             && self.version == other.version
             && self.tyty == other.tyty
+            && self.fields().count() == other.fields().count()
             && self
                 .fields()
                 .zip(other.fields())
-- 
2.43.0


From 557836255f1595b9fbcc94a9ae31c19d157780f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 22/72] fix: type identifiers ignored versions and the
 boundaries between names and fields

---
 stabby-abi/src/report.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/report.rs b/stabby-abi/src/report.rs
index d7db2fb..4c94356 100644
--- a/stabby-abi/src/report.rs
+++ b/stabby-abi/src/report.rs
@@ -135,21 +135,26 @@ impl Iterator for Fields {
     }
 }
 
+/// Strings are prefixed by their length, so that distinct sequences of strings always feed distinct bytes to the hash.
+const fn hash_str(hash: Sha256, s: &str) -> Sha256 {
+    hash.update(&(s.len() as u64).to_le_bytes())
+        .update(s.as_bytes())
+}
 const fn hash_report(mut hash: Sha256, report: &TypeReport) -> Sha256 {
-    hash = hash
-        .update(report.module.as_str().as_bytes())
-        .update(report.name.as_str().as_bytes());
+    hash = hash_str(hash, report.module.as_str());
+    hash = hash_str(hash, report.name.as_str());
+    hash = hash.update(&report.version.to_le_bytes());
     hash = match report.tyty {
         crate::report::TyTy::Struct => hash.update(&[0]),
         crate::report::TyTy::Union => hash.update(&[1]),
-        crate::report::TyTy::Enum(s) => hash.update(s.as_str().as_bytes()),
+        crate::report::TyTy::Enum(s) => hash_str(hash.update(&[2]), s.as_str()),
     };
     let mut fields = report.fields();
     while let (new, Some(next)) = fields.next_const() {
         fields = new;
-        hash = hash_report(hash.update(next.name.as_str().as_bytes()), next.ty)
+        hash = hash_report(hash_str(hash.update(&[1]), next.name.as_str()), next.ty)
     }
-    hash
+    hash.update(&[0])
 }
 const ARCH_INFO: [u8; 8] = [
     0,
-- 
2.43.0


From 11473033d83c1d8655e0697fb6f655581945b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 23/72] fix: `MaybeUninit` and `UnsafeCell` published niches
 and spare bits that they may overwrite

---
 stabby-abi/src/stable_impls/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 54accca..bd01e95 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -539,14 +539,16 @@ unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    same_as!(NoNiches<T::Size, T::Align>, <T as IStable>::REPORT.name.as_str());
+    // Any bytes are a valid `MaybeUninit<T>`, so `T`'s niches and padding aren't available.
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
-    type HasExactlyOneNiche = T::HasExactlyOneNiche;
+    same_as!(NoNiches<T::Size, T::Align>, <T as IStable>::REPORT.name.as_str());
+    // Rust hides the niches of cells, and writing through a shared reference may overwrite `T`'s padding.
+    type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 
-- 
2.43.0


From a3156f3551978e57281692c97d06e73d076b14a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 24/72] fix: the reports of `ManuallyDrop`, `MaybeUninit` and
 `UnsafeCell` did not describe their contents

---
 stabby-abi/src/stable_impls/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index bd01e95..918d9f1 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -533,20 +533,20 @@ unsafe impl IStable for core::num::NonZeroIsize {
 
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::ManuallyDrop<T> {
-    same_as!(T, <T as IStable>::REPORT.name.as_str());
+    same_as!(T, "core::mem::ManuallyDrop", T);
     type HasExactlyOneNiche = T::HasExactlyOneNiche;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::mem::MaybeUninit<T> {
-    same_as!(NoNiches<T::Size, T::Align>, <T as IStable>::REPORT.name.as_str());
+    same_as!(NoNiches<T::Size, T::Align>, "core::mem::MaybeUninit", T);
     // Any bytes are a valid `MaybeUninit<T>`, so `T`'s niches and padding aren't available.
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl<T: IStable> IStable for core::cell::UnsafeCell<T> {
-    same_as!(NoNiches<T::Size, T::Align>, <T as IStable>::REPORT.name.as_str());
+    same_as!(NoNiches<T::Size, T::Align>, "core::cell::UnsafeCell", T);
     // Rust hides the niches of cells, and writing through a shared reference may overwrite `T`'s padding.
     type HasExactlyOneNiche = B0;
     type ContainsIndirections = T::ContainsIndirections;
-- 
2.43.0


From afe3d88d92fce66247effe9b8c0a7b3f090f654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 25/72] fix: orderings, native enums and file descriptors
 claimed that Rust sees no niche in them

---
 stabby-abi/src/stable_impls/mod.rs | 12 +++++++-----
 stabby-macros/src/enums.rs         |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 918d9f1..3ff1522 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -917,16 +917,18 @@ mod abi_stable;
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::OwnedFd {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::OwnedFd");
+    // Rust uses -1 as a niche.
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::OwnedFd");
 }
 #[cfg(all(feature = "std", target_family = "unix"))]
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for std::os::fd::BorrowedFd<'_> {
-    same_as!(core::ffi::c_int);
+    same_as!(core::ffi::c_int, "std::os::fd::BorrowedFd");
+    // Rust uses -1 as a niche.
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B1;
-    primitive_report!("std::os::fd::BorrowedFd");
 }
 
 const ARRAY_NAME: [&str; 129] = [
@@ -989,7 +991,7 @@ unsafe impl IStable for core::cmp::Ordering {
     type Size = U1;
     type ForbiddenValues = crate::istable::ForbiddenRange<U2, U254, U0>;
     type UnusedBits = End;
-    type HasExactlyOneNiche = B0;
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
     #[cfg(feature = "experimental-ctypes")]
     type CType = u8;
diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index cf2cb1a..f5c8f52 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -311,7 +311,8 @@ pub fn stabby(
             type UnusedBits =<#layout as #st::IStable>::UnusedBits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
-            type HasExactlyOneNiche = #st::B0;
+            // Rust uses the values that aren't any variant's discriminant as niches.
+            type HasExactlyOneNiche = #st::istable::Saturator;
             type ContainsIndirections = <#layout as #st::IStable>::ContainsIndirections;
             #ctype
             const REPORT: &'static #st::report::TypeReport = & #report;
-- 
2.43.0


From bebd45ee9b08f337272af9fa665ec3cc9586f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 26/72] fix: `c_void` published a size of 0

---
 stabby-abi/src/stable_impls/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/stable_impls/mod.rs b/stabby-abi/src/stable_impls/mod.rs
index 3ff1522..aedec47 100644
--- a/stabby-abi/src/stable_impls/mod.rs
+++ b/stabby-abi/src/stable_impls/mod.rs
@@ -278,9 +278,9 @@ unsafe impl IStable for core::marker::PhantomPinned {
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for core::ffi::c_void {
-    same_as!(());
+    same_as!(u8, "core::ffi::c_void");
+    type HasExactlyOneNiche = Saturator;
     type ContainsIndirections = B0;
-    primitive_report!("core::ffi::c_void");
 }
 // SAFETY: Automatic checks verify this.
 unsafe impl IStable for bool {
-- 
2.43.0


From f4ca9b8c5e2c57487e5c41d7ead587cbe5d326ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 27/72] fix: reading an explicit tag assumed that its spare
 bits were never used

---
 stabby-abi/src/enums/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/enums/mod.rs b/stabby-abi/src/enums/mod.rs
index 6268d0d..643d63d 100644
--- a/stabby-abi/src/enums/mod.rs
+++ b/stabby-abi/src/enums/mod.rs
@@ -69,7 +69,9 @@ impl IDeterminant for BitDeterminant {
         BitDeterminant::Err
     }
     fn is_det_ok(&self, _: *const u8) -> bool {
-        (*self as u8 & 1) == 0
+        // Outer sum types may have written in the spare bits, which the enum's own values don't cover.
+        // SAFETY: `Self` is a single initialized byte.
+        unsafe { (*(self as *const Self).cast::<u8>() & 1) == 0 }
     }
     type IsNicheTrick = B0;
 }
-- 
2.43.0


From 037bde6e128cddf7da9ed63a4624457dd2f9eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 28/72] fix: `repr(align)` on stable structs let Rust reorder
 fields or was ignored when combined with other reprs

---
 stabby-macros/src/structs.rs | 44 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index faebcbd..923ab48 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -63,17 +63,13 @@ enum AllowedRepr {
 }
 impl syn::parse::Parse for AllowedRepr {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
-        let mut content = input.fork();
-        if input.peek(syn::token::Paren) {
-            syn::parenthesized!(content in input);
-        }
-        let ident: Ident = content.parse()?;
+        let ident: Ident = input.parse()?;
         Ok(match ident.to_string().as_str() {
             "C" => AllowedRepr::C,
             "transparent" => AllowedRepr::Transparent,
             "packed" => return Err(input.error("stabby does not support packed structs, though you may implement IStable manually if you're very comfident")),
             "align" => {
-                let input = content;
+                let content;
                 syn::parenthesized!(content in input);
                 let lit: syn::LitInt = content.parse()?;
                 AllowedRepr::Align(lit.base10_parse()?)
@@ -122,15 +118,29 @@ pub fn stabby(
     let clauses = where_clause.as_ref().map(|w| &w.predicates);
     let mut layout = None;
     let mut report = crate::Report::r#struct(ident.to_string(), version, module);
-    let repr = attrs.iter().find_map(|attr| {
-        if attr.path.is_ident("repr") {
-            syn::parse2::<AllowedRepr>(attr.tokens.clone()).ok()
-        } else {
-            None
-        }
-    });
-    let repr_attr = repr.is_none().then(|| quote! {#[repr(C)]});
-    optimize &= !matches!(repr, Some(AllowedRepr::Align(_)));
+    let reprs = attrs
+        .iter()
+        .filter(|attr| attr.path.is_ident("repr"))
+        .flat_map(|attr| {
+            attr.parse_args_with(
+                syn::punctuated::Punctuated::<AllowedRepr, syn::Token!(,)>::parse_terminated,
+            )
+            .unwrap()
+        })
+        .collect::<Vec<_>>();
+    let align = reprs
+        .iter()
+        .filter_map(|repr| match repr {
+            AllowedRepr::Align(n) => Some(*n),
+            _ => None,
+        })
+        .max();
+    // `repr(align)` alone would let Rust reorder the fields.
+    let repr_attr = reprs
+        .iter()
+        .all(|repr| matches!(repr, AllowedRepr::Align(_)))
+        .then(|| quote! {#[repr(C)]});
+    optimize &= align.is_none();
     let struct_code = match &fields {
         syn::Fields::Named(fields) => {
             let fields = &fields.named;
@@ -177,7 +187,7 @@ pub fn stabby(
     let layout = layout.map_or_else(
         || quote!(()),
         |layout| {
-            if let Some(AllowedRepr::Align(mut n)) = repr {
+            if let Some(mut n) = align {
                 let mut align = quote!(#st::U1);
                 while n > 1 {
                     n /= 2;
@@ -213,7 +223,7 @@ pub fn stabby(
     });
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
-        if matches!(repr, Some(AllowedRepr::Align(_))) {
+        if align.is_some() {
             return quote! {type CType = Self;};
         }
         let ctype = report.crepr();
-- 
2.43.0


From c1a33186500e223dd171f594085717aadeb972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 29/72] fix: over-aligned structs without fields published an
 alignment of 1

---
 stabby-macros/src/structs.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/stabby-macros/src/structs.rs b/stabby-macros/src/structs.rs
index 923ab48..3d50d0c 100644
--- a/stabby-macros/src/structs.rs
+++ b/stabby-macros/src/structs.rs
@@ -184,21 +184,19 @@ pub fn stabby(
             }
         }
     };
-    let layout = layout.map_or_else(
-        || quote!(()),
-        |layout| {
-            if let Some(mut n) = align {
-                let mut align = quote!(#st::U1);
-                while n > 1 {
-                    n /= 2;
-                    align = quote!(#st::UInt<#align, #st::B0>);
-                }
-                quote!(#st::AlignedStruct<#layout, #align>)
-            } else {
-                quote!(#st::Struct<#layout>)
+    let layout = match (layout, align) {
+        (layout, Some(mut n)) => {
+            let layout = layout.unwrap_or_else(|| quote!(()));
+            let mut align = quote!(#st::U1);
+            while n > 1 {
+                n /= 2;
+                align = quote!(#st::UInt<#align, #st::B0>);
             }
-        },
-    );
+            quote!(#st::AlignedStruct<#layout, #align>)
+        }
+        (Some(layout), None) => quote!(#st::Struct<#layout>),
+        (None, None) => quote!(()),
+    };
     let opt_id = quote::format_ident!("OptimizedLayoutFor{ident}");
     let size_bug = format!(
         "{ident}'s size was mis-evaluated by stabby, this is definitely a bug and may cause UB, please file an issue"
-- 
2.43.0


From 5c497f15e40542a8e5e58e939fcd7a1f89be22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 30/72] fix: enums with an integer representation published the
 layout of a tagged union

---
 stabby-macros/src/enums.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/enums.rs b/stabby-macros/src/enums.rs
index f5c8f52..6c922cb 100644
--- a/stabby-macros/src/enums.rs
+++ b/stabby-macros/src/enums.rs
@@ -174,6 +174,7 @@ pub fn stabby(
         todo!("empty enums are not supported by stabby YET")
     }
     let mut layout = quote!(());
+    let mut payloads = Vec::with_capacity(data.variants.len());
     let DataEnum { variants, .. } = &data;
     let mut has_non_empty_fields = false;
     let unit: syn::Type = syn::parse2(quote!(())).unwrap();
@@ -221,6 +222,7 @@ pub fn stabby(
                     let f = f.unnamed.first().unwrap();
                     let ty = f.ty.unself(&ident);
                     layout = quote!(#st::Union<#layout, core::mem::ManuallyDrop<#ty>>);
+                    payloads.push(ty.clone());
                     report.add_field(variant.ident.to_string(), ty);
                 }
             }
@@ -271,6 +273,18 @@ pub fn stabby(
         quote!(#[repr(#reprid)])
     };
     layout = quote!(#st::Tuple<#reprid, #layout>);
+    let mut unused_bits = quote!(<#layout as #st::IStable>::UnusedBits);
+    if !repr.is_some_and(|r| r.is_c) {
+        // Without `repr(C)`, each variant places its payload as soon after the tag as its own alignment allows.
+        layout = quote!(#reprid);
+        for ty in &payloads {
+            layout = quote!(#st::Union<#layout, #st::Tuple<#reprid, core::mem::ManuallyDrop<#ty>>>);
+            let align = quote!(<<#ty as #st::IStable>::Align as #st::unsigned::Alignment>::AsUint);
+            unused_bits = quote!(<#unused_bits as #st::istable::IBitMask>::BitAnd<
+                <#st::istable::AlignedAfter<#align, <#reprid as #st::IStable>::Size> as #st::IStable>::UnusedBits
+            >);
+        }
+    }
     report.tyty = crate::Tyty::Enum(trepr);
     let report_bounds = report.bounds();
     let ctype = cfg!(feature = "experimental-ctypes").then(|| {
@@ -308,7 +322,7 @@ pub fn stabby(
         // SAFETY: This is generated by `stabby`, and checks have been added to detect potential issues.
         unsafe impl #generics #st::IStable for #ident <#unbound_generics> where #report_bounds #layout: #st::IStable {
             type ForbiddenValues = <#layout as #st::IStable>::ForbiddenValues;
-            type UnusedBits =<#layout as #st::IStable>::UnusedBits;
+            type UnusedBits = #unused_bits;
             type Size = <#layout as #st::IStable>::Size;
             type Align = <#layout as #st::IStable>::Align;
             // Rust uses the values that aren't any variant's discriminant as niches.
-- 
2.43.0


From 64a514d835784d92c7f8168bf84328a024587a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 31/72] fix: the maximum of signed restricted-width integers
 was too small

---
 stabby-abi/src/num.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 229d263..60dbfb7 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -394,9 +394,12 @@ macro_rules! makeimask {
                     - <$bits as $crate::typenum2::Unsigned>::U128 as i32))
                 | (1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// The maximum value for this type.
-            pub const MAX: Self =
-                Self($base::MAX >> (<$bits as $crate::typenum2::Unsigned>::U128 as $base));
-            /// The maximum value for this type.
+            pub const MAX: Self = Self(
+                $base::MAX
+                    >> (8 * ::core::mem::size_of::<$base>() as i32
+                        - <$bits as $crate::typenum2::Unsigned>::U128 as i32),
+            );
+            /// The minimum value for this type.
             pub const MIN: Self =
                 Self(1 << (<$bits as $crate::typenum2::Unsigned>::U128 as i32 - 1));
             /// Construct a new value if it can fit.
-- 
2.43.0


From 996198b1e1fc3ef5bd7f9a98fa8c7419a08342a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 32/72] fix: comparisons and formatting of restricted-width
 integers depended on their unused bits

---
 stabby-abi/src/num.rs | 80 +++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/stabby-abi/src/num.rs b/stabby-abi/src/num.rs
index 60dbfb7..b558f90 100644
--- a/stabby-abi/src/num.rs
+++ b/stabby-abi/src/num.rs
@@ -252,8 +252,30 @@ macro_rules! makeumask {
         /// However, `stabby` can tell that it's most significant bits are unused, and use that knowledge to make
         /// `#[repr(stabby)]` `enum`s smaller.
         #[allow(non_camel_case_types)]
-        #[derive(Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Hash, Default)]
+        #[derive(Clone, Copy, Default)]
         pub struct $name($base);
+        // The unused bits may have been overwritten, and must not take part in comparisons.
+        impl PartialEq for $name {
+            fn eq(&self, other: &Self) -> bool {
+                self.get() == other.get()
+            }
+        }
+        impl Eq for $name {}
+        impl PartialOrd for $name {
+            fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+                Some(self.cmp(other))
+            }
+        }
+        impl Ord for $name {
+            fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+                self.get().cmp(&other.get())
+            }
+        }
+        impl core::hash::Hash for $name {
+            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+                self.get().hash(state)
+            }
+        }
         impl $name {
             const MASK: $base = $base::MAX
                 >> (8 * ::core::mem::size_of::<$base>() as $base
@@ -276,42 +298,42 @@ macro_rules! makeumask {
         }
         impl ::core::fmt::Debug for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Debug::fmt(&self.0, f)
+                ::core::fmt::Debug::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Display for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Display::fmt(&self.0, f)
+                ::core::fmt::Display::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::LowerHex for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::LowerHex::fmt(&self.0, f)
+                ::core::fmt::LowerHex::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::UpperHex for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::UpperHex::fmt(&self.0, f)
+                ::core::fmt::UpperHex::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::LowerExp for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::LowerExp::fmt(&self.0, f)
+                ::core::fmt::LowerExp::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::UpperExp for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::UpperExp::fmt(&self.0, f)
+                ::core::fmt::UpperExp::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Binary for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Binary::fmt(&self.0, f)
+                ::core::fmt::Binary::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Octal for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Octal::fmt(&self.0, f)
+                ::core::fmt::Octal::fmt(&self.get(), f)
             }
         }
         impl ::core::ops::BitAnd<$base> for $name {
@@ -386,8 +408,30 @@ macro_rules! makeimask {
         /// However, `stabby` can tell that it's most significant bits are unused, and use that knowledge to make
         /// `#[repr(stabby)]` `enum`s smaller.
         #[allow(non_camel_case_types)]
-        #[derive(Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Hash, Default)]
+        #[derive(Clone, Copy, Default)]
         pub struct $name($base);
+        // The unused bits may have been overwritten, and must not take part in comparisons.
+        impl PartialEq for $name {
+            fn eq(&self, other: &Self) -> bool {
+                self.get() == other.get()
+            }
+        }
+        impl Eq for $name {}
+        impl PartialOrd for $name {
+            fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+                Some(self.cmp(other))
+            }
+        }
+        impl Ord for $name {
+            fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+                self.get().cmp(&other.get())
+            }
+        }
+        impl core::hash::Hash for $name {
+            fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+                self.get().hash(state)
+            }
+        }
         impl $name {
             const MASK: $base = ($base::MAX
                 >> (8 * ::core::mem::size_of::<$base>() as i32
@@ -421,42 +465,42 @@ macro_rules! makeimask {
         }
         impl ::core::fmt::Debug for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Debug::fmt(&self.0, f)
+                ::core::fmt::Debug::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Display for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Display::fmt(&self.0, f)
+                ::core::fmt::Display::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::LowerHex for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::LowerHex::fmt(&self.0, f)
+                ::core::fmt::LowerHex::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::UpperHex for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::UpperHex::fmt(&self.0, f)
+                ::core::fmt::UpperHex::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::LowerExp for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::LowerExp::fmt(&self.0, f)
+                ::core::fmt::LowerExp::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::UpperExp for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::UpperExp::fmt(&self.0, f)
+                ::core::fmt::UpperExp::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Binary for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Binary::fmt(&self.0, f)
+                ::core::fmt::Binary::fmt(&self.get(), f)
             }
         }
         impl ::core::fmt::Octal for $name {
             fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> core::fmt::Result {
-                ::core::fmt::Octal::fmt(&self.0, f)
+                ::core::fmt::Octal::fmt(&self.get(), f)
             }
         }
         impl ::core::ops::BitAnd<$base> for $name {
-- 
2.43.0


From 42749b1b8e4dd5c416a591de793057d3995a8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 33/72] fix: `IStable::is_invalid` never recognized multi-byte
 forbidden values

---
 stabby-abi/src/istable.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/istable.rs b/stabby-abi/src/istable.rs
index d996611..fede321 100644
--- a/stabby-abi/src/istable.rs
+++ b/stabby-abi/src/istable.rs
@@ -285,6 +285,14 @@ pub trait IForbiddenValues {
     /// # Safety
     /// Calling this on uninitialized memory is UB.
     unsafe fn is_invalid(ptr: *const u8) -> bool;
+    /// Returns `true` if `ptr` points to the remainder of a multi-byte forbidden value.
+    ///
+    /// # Safety
+    /// Calling this on uninitialized memory is UB.
+    #[doc(hidden)]
+    unsafe fn is_invalid_rest(ptr: *const u8) -> bool {
+        Self::is_invalid(ptr)
+    }
 }
 /// A single multi-byte forbidden value.
 pub trait ISingleForbiddenValue {
@@ -305,6 +313,9 @@ impl IForbiddenValues for End {
     unsafe fn is_invalid(_: *const u8) -> bool {
         false
     }
+    unsafe fn is_invalid_rest(_: *const u8) -> bool {
+        true
+    }
 }
 impl ISingleForbiddenValue for Saturator {
     type Push<O: Unsigned, T> = Saturator;
@@ -337,7 +348,7 @@ impl<Offset: Unsigned, T: Unsigned, Rest: IForbiddenValues> IForbiddenValues
         >;
     type SelectOne = Array<Offset, T, Rest::SelectOne>;
     unsafe fn is_invalid(ptr: *const u8) -> bool {
-        ptr.add(Offset::USIZE).read() == T::U8 && Rest::is_invalid(ptr)
+        ptr.add(Offset::USIZE).read() == T::U8 && Rest::is_invalid_rest(ptr)
     }
 }
 impl<A: IForbiddenValues, B: IForbiddenValues> IForbiddenValues for Or<A, B> {
-- 
2.43.0


From 39db1f6ab2282a171a6b113804ae43a706ce5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 34/72] fix: `SingleOrVec::truncate` kept counting the inline
 element it had dropped

---
 stabby-abi/src/alloc/single_or_vec.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 670069c..13bd834 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -232,15 +232,20 @@ where
         if self.len() <= len {
             return;
         }
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let Single { value, alloc } = core::ptr::read(&*value);
-                core::mem::drop(value); // drop `value` to prevent leaking it since we'll overwrite `inner` with something that doesn't own it
-                                        // overwrite `inner` with the new owner of `alloc`
-                core::ptr::write(inner, crate::Result::Err(Vec::new_in(alloc)))
+        if self.inner.is_err() {
+            return self.inner.match_mut(|_| (), |mut vec| vec.truncate(len));
+        }
+        // Safety: `self.inner` is overwritten without being dropped by the new owner of `alloc`
+        // before `value` is dropped, so neither of them can be dropped twice.
+        let this = unsafe { core::ptr::read(&self.inner) };
+        this.match_owned(
+            |Single { value, alloc }| {
+                unsafe {
+                    core::ptr::write(&mut self.inner, crate::Result::Err(Vec::new_in(alloc)))
+                };
+                core::mem::drop(value);
             },
-            |mut vec| vec.truncate(len),
+            |_| unreachable!(),
         )
     }
     /// Returns a slice of the elements in the vector.
-- 
2.43.0


From 596d86776c38ff8e52094f04a8a93e5abd61dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 35/72] fix: `SingleOrVec::try_reserve` corrupted inline
 elements

---
 stabby-abi/src/alloc/single_or_vec.rs | 43 ++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index 13bd834..cfdd627 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -201,28 +201,31 @@ where
     /// Returns Ok(new_capacity) if succesful (including if no reallocation was needed),
     /// otherwise returns Err(AllocationError)
     pub fn try_reserve(&mut self, additional: usize) -> Result<NonMaxUsize, AllocationError> {
-        let inner = &mut self.inner as *mut _;
-        self.inner.match_mut(
-            |value| unsafe {
-                let new_capacity = 1 + additional;
-                // either `inner` must be leaked and overwritten by the new owner of `value` and `alloc`,
-                // or these two must be leaked to prevent double frees.
-                let Single { value, alloc } = core::ptr::read(&*value);
-                match Vec::try_with_capacity_in(new_capacity, alloc) {
-                    Ok(mut vec) => {
-                        vec.push(value);
-                        // overwrite `inner` with `value` and `alloc` with their new owner without freeing `inner`.
-                        core::ptr::write(inner, crate::Result::Err(vec));
-                        NonMaxUsize::new(new_capacity).ok_or(AllocationError())
-                    }
-                    Err(alloc) => {
-                        // leak both `value` and `alloc` since `inner` can't be overwritten
-                        core::mem::drop((value, alloc));
-                        Err(AllocationError())
-                    }
+        if self.inner.is_err() {
+            return self
+                .inner
+                .match_mut(|_| unreachable!(), |mut vec| vec.try_reserve(additional));
+        }
+        let Some(new_capacity) = additional.checked_add(1) else {
+            return Err(AllocationError());
+        };
+        // Safety: either `this` or `self.inner` MUST be leaked to prevent double-frees.
+        let this = unsafe { core::ptr::read(&self.inner) };
+        this.match_owned(
+            |Single { value, alloc }| match Vec::try_with_capacity_in(new_capacity, alloc) {
+                Ok(mut vec) => {
+                    vec.push(value);
+                    // overwrite `inner` with the new owner of `value` and `alloc` without dropping its previous contents.
+                    unsafe { core::ptr::write(&mut self.inner, crate::Result::Err(vec)) };
+                    NonMaxUsize::new(new_capacity).ok_or(AllocationError())
+                }
+                Err(alloc) => {
+                    // leak both `value` and `alloc` since `inner` can't be overwritten
+                    core::mem::forget((value, alloc));
+                    Err(AllocationError())
                 }
             },
-            |mut vec| vec.try_reserve(additional),
+            |_| unreachable!(),
         )
     }
     /// Removes all elements from `self` from the `len`th onward.
-- 
2.43.0


From 470dfa0f671a33dabc8f2f5cb666485761b19dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 36/72] fix: skipping past the end of `SingleOrVec`'s mutable
 iterator overflowed

---
 stabby-abi/src/alloc/single_or_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/single_or_vec.rs b/stabby-abi/src/alloc/single_or_vec.rs
index cfdd627..09139bb 100644
--- a/stabby-abi/src/alloc/single_or_vec.rs
+++ b/stabby-abi/src/alloc/single_or_vec.rs
@@ -516,7 +516,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start += n;
+        self.start = self.start.saturating_add(n).min(self.end);
         self.next()
     }
 }
@@ -540,7 +540,7 @@ where
         }
     }
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.end = self.end.saturating_sub(n);
+        self.end = self.end.saturating_sub(n).max(self.start);
         self.next_back()
     }
 }
-- 
2.43.0


From 1a32948b0a46dd1c3b78a3d508c344f99779f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 37/72] fix: `Result` and `Option` were `Send` and `Sync`
 whatever they hold

---
 stabby-abi/src/result.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stabby-abi/src/result.rs b/stabby-abi/src/result.rs
index a84510a..3ae92ba 100644
--- a/stabby-abi/src/result.rs
+++ b/stabby-abi/src/result.rs
@@ -33,6 +33,7 @@ where
     Err: IStable,
 {
     storage: Storage<<Self as IStable>::Size, <Self as IStable>::Align>,
+    marker: core::marker::PhantomData<(Ok, Err)>,
 }
 impl<Ok: Unpin, Err: Unpin> Unpin for Result<Ok, Err>
 where
@@ -245,6 +246,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::ok(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                marker: core::marker::PhantomData,
             }
         }
     }
@@ -258,6 +260,7 @@ where
             Self::det_ptr_mut(storage_ptr).write(Determinant::<Ok, Err>::err(storage_ptr.cast()));
             Self {
                 storage: storage.assume_init(),
+                marker: core::marker::PhantomData,
             }
         }
     }
-- 
2.43.0


From a87d0effd16fed0911b51def6f90a2b5faf93c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 38/72] fix: `AtomicArcBTreeSet` was `Send` and `Sync` whatever
 it holds

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index d74a0f6..05f43ee 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -8,6 +8,7 @@ use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
 /// An [`ArcBTreeSet`] that can be atomically modified.
 pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
     AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+    PhantomData<ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
@@ -27,7 +28,7 @@ where
 {
     /// Constructs a new, empty set.
     pub const fn new() -> Self {
-        Self(AtomicPtr::new(core::ptr::null_mut()))
+        Self(AtomicPtr::new(core::ptr::null_mut()), PhantomData)
     }
     /// Applies `f` to the current value, swapping the current value for the one returned by `f`.
     ///
-- 
2.43.0


From fb904ff3c9db577135ca55c291ca77bb42a9f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 39/72] fix: boxes could be shared between threads even if
 their allocator couldn't

---
 stabby-abi/src/alloc/boxed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/boxed.rs b/stabby-abi/src/alloc/boxed.rs
index fd3324d..5aab625 100644
--- a/stabby-abi/src/alloc/boxed.rs
+++ b/stabby-abi/src/alloc/boxed.rs
@@ -29,11 +29,11 @@ pub struct Box<T, Alloc: IAlloc = super::DefaultAllocator> {
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for Box<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for Box<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
 unsafe impl<T: Send, Alloc: IAlloc + Send> Send for BoxedSlice<T, Alloc> {}
 // SAFETY: Same constraints as `std::boxed::Box`
-unsafe impl<T: Sync, Alloc: IAlloc> Sync for BoxedSlice<T, Alloc> {}
+unsafe impl<T: Sync, Alloc: IAlloc + Sync> Sync for BoxedSlice<T, Alloc> {}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Box<T> {
-- 
2.43.0


From e2d4a6591d0fffe500a9a51160c7297d137b7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 40/72] fix: a trait object with `Sync` before its last trait
 passed for `Send`

---
 stabby-abi/src/vtable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index 21dcc60..e9bbb91 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -336,7 +336,7 @@ impl<T: HasDropVt> HasDropVt for VtSync<T> {
 pub trait HasSendVt {}
 impl<T> HasSendVt for VtSend<T> {}
 impl<T: HasSendVt> HasSendVt for VtSync<T> {}
-impl<Head, Tail: HasSyncVt> HasSendVt for VTable<Head, Tail> {}
+impl<Head, Tail: HasSendVt> HasSendVt for VTable<Head, Tail> {}
 /// Whether or not a vtable includes [`VtSync`]
 pub trait HasSyncVt {}
 impl<T> HasSyncVt for VtSync<T> {}
-- 
2.43.0


From 38fa2821b24af041e3bca8ebc7977b215563bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 41/72] fix: `DynRef` could be sent to another thread when its
 target can't be shared

---
 stabby-abi/src/fatptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/fatptr.rs b/stabby-abi/src/fatptr.rs
index 8b440af..bc0c1e1 100644
--- a/stabby-abi/src/fatptr.rs
+++ b/stabby-abi/src/fatptr.rs
@@ -372,7 +372,7 @@ impl<'a, T, Vt: Copy + IConstConstructor<'a, T>> From<&'a T> for DynRef<'a, Vt>
 }
 
 // SAFETY: This is analogous to a reference, and Vt proves the rest
-unsafe impl<Vt: HasSendVt> Send for DynRef<'_, Vt> {}
+unsafe impl<Vt: HasSyncVt> Send for DynRef<'_, Vt> {}
 // SAFETY: This is analogous to a reference, and Vt proves the rest
 unsafe impl<Vt: HasSyncVt> Sync for DynRef<'_, Vt> {}
 
-- 
2.43.0


From 61a14f4ae351d788bfa99ab2f190afae0fe8fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 42/72] fix: imports could be shared between threads whatever
 they hold

---
 stabby-abi/src/checked_import.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 1e1c678..4bb1e1f 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -24,9 +24,9 @@ pub struct CanariedImport<F> {
     canary: extern "C" fn(),
 }
 // SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Send for CanariedImport<F> {}
+unsafe impl<F: Send> Send for CanariedImport<F> {}
 // SAFETY: `CanariedImport`s always refer to `Send + Sync` things.
-unsafe impl<F> Sync for CanariedImport<F> {}
+unsafe impl<F: Sync> Sync for CanariedImport<F> {}
 impl<F> CanariedImport<F> {
     /// Used in `#[stabby::import(canaries)]`
     pub const fn new(source: F, canary_caller: extern "C" fn()) -> Self {
@@ -58,9 +58,9 @@ pub struct CheckedImport<F> {
     local_report: &'static crate::report::TypeReport,
 }
 // SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Send for CheckedImport<F> {}
+unsafe impl<F: Send> Send for CheckedImport<F> {}
 // SAFETY: `CheckedImport`s always refer to functions.
-unsafe impl<F> Sync for CheckedImport<F> {}
+unsafe impl<F: Send + Sync> Sync for CheckedImport<F> {}
 
 /// When reports mismatch between loader and loadee, both reports are exposed to allow debuging the issue.
 #[crate::stabby]
-- 
2.43.0


From bd17b2048e1ae8a622591fe80490c7e611708341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 43/72] fix: a vtable differed from its copies, since the
 addresses of their `drop` pointers were compared

---
 stabby-abi/src/vtable/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/vtable/mod.rs b/stabby-abi/src/vtable/mod.rs
index e9bbb91..db4346f 100644
--- a/stabby-abi/src/vtable/mod.rs
+++ b/stabby-abi/src/vtable/mod.rs
@@ -364,8 +364,8 @@ impl Hash for VtDrop {
 impl PartialEq for VtDrop {
     fn eq(&self, other: &Self) -> bool {
         core::ptr::eq(
-            unsafe { self.drop.as_ref_unchecked() } as *const unsafe extern "C" fn(&mut ()),
-            unsafe { other.drop.as_ref_unchecked() } as *const unsafe extern "C" fn(&mut ()),
+            unsafe { *self.drop.as_ref_unchecked() } as *const (),
+            unsafe { *other.drop.as_ref_unchecked() } as *const (),
         )
     }
 }
-- 
2.43.0


From 21ba3668776cb3ad6399a6eae3ce8ca24859626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 44/72] fix: clones of a `StableWaker` in a custom allocator
 were released in the default one

---
 stabby-abi/src/future.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index b975f3d..57d406a 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -127,21 +127,25 @@ mod stable_waker {
     impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
-            const VTABLE: RawWakerVTable =
-                RawWakerVTable::new(clone, wake_by_ref, wake_by_ref, drop);
-            unsafe fn clone(this: *const ()) -> RawWaker {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.clone)(this.waker).into_raw_waker()
-            }
-            unsafe fn wake_by_ref(this: *const ()) {
-                let this = unsafe { &*(this as *const StableWaker) };
-                (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
-            }
-            const unsafe fn drop(_: *const ()) {}
-            let waker = RawWaker::new(self as *const Self as *const _, &VTABLE);
+            let waker = RawWaker::new(self as *const Self as *const _, &Self::VTABLE);
             let waker = unsafe { Waker::from_raw(waker) };
             f(&waker)
         }
+        const VTABLE: RawWakerVTable = RawWakerVTable::new(
+            Self::raw_clone,
+            Self::raw_wake_by_ref,
+            Self::raw_wake_by_ref,
+            Self::raw_drop,
+        );
+        unsafe fn raw_clone(this: *const ()) -> RawWaker {
+            let this = unsafe { &*(this as *const Self) };
+            (this.clone)(this.waker).into_raw_waker()
+        }
+        unsafe fn raw_wake_by_ref(this: *const ()) {
+            let this = unsafe { &*(this as *const Self) };
+            (this.wake_by_ref.as_ref_unchecked())(this.waker.as_ref_unchecked())
+        }
+        const unsafe fn raw_drop(_: *const ()) {}
         unsafe extern "C" fn waker_drop(waker: &mut ManuallyDrop<Waker>) {
             ManuallyDrop::drop(waker)
         }
-- 
2.43.0


From da6fc31e5cec4ba3f603229855e126240bd94075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 45/72] fix: wakers could carry an allocator that can't be sent
 or shared to other threads

---
 stabby-abi/src/future.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index 57d406a..0c8856e 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -124,7 +124,7 @@ mod stable_waker {
         clone: unsafe extern "C" fn(StableLike<&'a Waker, &'a ()>) -> SharedStableWaker<Alloc>,
         wake_by_ref: StableLike<unsafe extern "C" fn(&Waker), &'a ()>,
     }
-    impl<Alloc: IAlloc + Default> StableWaker<'_, Alloc> {
+    impl<Alloc: IAlloc + Default + Send + Sync> StableWaker<'_, Alloc> {
         /// Turns this into a waker whose clone implementation is to clone the underlying waker into a stable Arc.
         pub fn with_waker<F: FnOnce(&Waker) -> U, U>(&self, f: F) -> U {
             let waker = RawWaker::new(self as *const Self as *const _, &Self::VTABLE);
@@ -166,7 +166,7 @@ mod stable_waker {
             SharedStableWaker(shared)
         }
     }
-    impl<'a, Alloc: IAlloc + Default> From<&'a Waker> for StableWaker<'a, Alloc> {
+    impl<'a, Alloc: IAlloc + Default + Send + Sync> From<&'a Waker> for StableWaker<'a, Alloc> {
         fn from(value: &'a Waker) -> Self {
             StableWaker {
                 waker: StableLike::new(value),
-- 
2.43.0


From 2718fd3eb82d47f1fe91785675ceac17af41f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 46/72] fix: polling a `MaybeResolved` to completion corrupted
 it

---
 stabby-abi/src/future.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/stabby-abi/src/future.rs b/stabby-abi/src/future.rs
index 0c8856e..ef1a9d7 100644
--- a/stabby-abi/src/future.rs
+++ b/stabby-abi/src/future.rs
@@ -350,26 +350,18 @@ where
         cx: &mut Context<'_>,
     ) -> core::task::Poll<Self::Output> {
         let this = self.get_mut();
-        let inner = this as *mut _;
-        this.match_mut(
-            |value| {
-                let value = unsafe {
-                    let value = core::ptr::read(value);
-                    core::ptr::write(inner, MaybeResolved::Empty());
-                    value
-                };
-                core::task::Poll::Ready(value)
-            },
+        // `match_mut` restores the variant it matched once its closures return: `self` may only be replaced after that.
+        let polled = this.match_mut(
+            |_| core::task::Poll::Ready(None),
             || core::task::Poll::Pending,
-            |future| match core::future::Future::poll(core::pin::Pin::new(future), cx) {
-                core::task::Poll::Ready(value) => {
-                    unsafe {
-                        core::ptr::replace(inner, MaybeResolved::Empty());
-                    }
-                    core::task::Poll::Ready(value)
-                }
-                core::task::Poll::Pending => core::task::Poll::Pending,
-            },
-        )
+            |future| core::future::Future::poll(core::pin::Pin::new(future), cx).map(Some),
+        );
+        polled.map(|value| {
+            let this = core::mem::replace(this, MaybeResolved::Empty());
+            match value {
+                Some(value) => value,
+                None => this.match_owned(|value| value, || unreachable!(), |_| unreachable!()),
+            }
+        })
     }
 }
-- 
2.43.0


From be71d709feea1ebba6f5892f5dd999d3339fdaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 47/72] fix: lifetime bounds on an associated type of a stable
 trait didn't compile beside other bounds

---
 stabby-macros/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index cd83189..525f15e 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -552,7 +552,7 @@ impl DynTraitDescription<'_> {
                             let bound = self.self_dependent_types.unselfed(bound);
                             quote!(#target: #lifetimes #bound,)
                         }
-                        Err(l) => quote!(#target: #l),
+                        Err(l) => quote!(#target: #l,),
                     }
                 },
             )
-- 
2.43.0


From 5d28ca43a3143e7d934a831e1567aff9136e9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 48/72] fix: stable traits couldn't have unsafe methods

---
 stabby-macros/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index 525f15e..57cc2f1 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -443,7 +443,7 @@ impl DynTraitFn<'_> {
             quote!(-> #ty)
         });
         let inputs = inputs.iter().map(|ty| ty.replace_self(self_as_trait));
-        quote!(#forgen #generics #abi #unsafety fn(#receiver, #(#inputs),*) #output)
+        quote!(#forgen #generics #unsafety #abi fn(#receiver, #(#inputs),*) #output)
     }
     fn stability_cond(&self, sdts: &SelfDependentTypes) -> TokenStream {
         let st = crate::tl_mod();
@@ -494,7 +494,7 @@ impl DynTraitFn<'_> {
             quote!(-> #ty)
         });
         let forgen = (!generics.params.is_empty()).then(|| quote!(for));
-        quote!(#forgen #generics #abi #unsafety fn(#receiver, #(#inputs),*) #output)
+        quote!(#forgen #generics #unsafety #abi fn(#receiver, #(#inputs),*) #output)
     }
 }
 impl DynTraitDescription<'_> {
-- 
2.43.0


From 3d0a19d00796ed37b9cefff461260b38f3865604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 49/72] fix: stable traits couldn't have lifetime parameters

---
 stabby-macros/src/traits.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index 57cc2f1..a5dea82 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -727,6 +727,7 @@ impl DynTraitDescription<'_> {
             where
                 StabbyArbitraryType: #trait_id <#(#unbound_trait_lts,)* #(#unbound_trait_types,)* #(#unbound_trait_consts,)* #(#trait_to_vt_bindings,)* >,
                 #(#vt_bounds)*
+                #(#unbound_trait_lts: 'stabby_vt_lt,)*
                 #(#unbound_trait_types: 'stabby_vt_lt,)*
                 #(#dyntrait_types: 'stabby_vt_lt,)* {
                 #[doc = #vt_doc]
-- 
2.43.0


From 0aab21f435eb7baeab67939b416e4dc8255614a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 50/72] fix: checked traits couldn't have methods taking
 references of elided lifetimes

---
 stabby-macros/src/traits.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index a5dea82..efed34f 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -1105,9 +1105,7 @@ impl Ty {
         match self {
             Ty::Never | Ty::Unit => {}
             Ty::Reference { lifetime, elem, .. } => {
-                if let Some(lt) = lifetime {
-                    *lt = syn::Lifetime::new("'static", Span::call_site())
-                }
+                *lifetime = Some(syn::Lifetime::new("'static", Span::call_site()));
                 elem.elide_lifetime();
             }
             Ty::Array { elem, .. }
-- 
2.43.0


From 03e92ce1dfa304387d80f2506fa05f3a1113ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 51/72] fix: stable traits couldn't have a mutable method
 called `vtable`

---
 stabby-macros/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/traits.rs b/stabby-macros/src/traits.rs
index efed34f..797720a 100644
--- a/stabby-macros/src/traits.rs
+++ b/stabby-macros/src/traits.rs
@@ -885,7 +885,7 @@ impl DynTraitDescription<'_> {
                     #[doc = #vt_doc]
                     #mut_fns {
                         // SAFETY: We simply observe the internals of an unsafe `stabby::abi::StableLike`
-                        unsafe {(self.vtable().tderef().#mut_fn_ids.as_ref_unchecked())(self.ptr_mut().as_mut(), #mut_fn_args)}
+                        unsafe {((&*self).vtable().tderef().#mut_fn_ids.as_ref_unchecked())(self.ptr_mut().as_mut(), #mut_fn_args)}
                     }
                 )*
             }
-- 
2.43.0


From 48fa5516493f327af8243a15b9312415cd27c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 52/72] fix: the last handle of a shared pointer could drop the
 value while another thread's accesses weren't ordered before

---
 stabby-abi/src/alloc/sync.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 0ae7d21..cfe3791 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -18,7 +18,7 @@ use core::{
     marker::PhantomData,
     mem::{ManuallyDrop, MaybeUninit},
     ptr::NonNull,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
+    sync::atomic::{fence, AtomicPtr, AtomicUsize, Ordering},
 };
 
 use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
@@ -286,11 +286,13 @@ impl<T, Alloc: IAlloc> Drop for Arc<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every access through the other handles happens-before what follows.
+        fence(Ordering::Acquire);
         unsafe {
             core::ptr::drop_in_place(self.ptr.as_mut());
             _ = Weak::<T, Alloc>::from_raw(self.ptr);
@@ -383,11 +385,13 @@ impl<T, Alloc: IAlloc> Drop for Weak<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.ptr.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every access through the other handles happens-before what follows.
+        fence(Ordering::Acquire);
         unsafe {
             let mut alloc = self.ptr.prefix().alloc.assume_init_read();
             self.ptr.free(&mut alloc)
@@ -593,11 +597,13 @@ impl<T, Alloc: IAlloc> Drop for ArcSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every access through the other handles happens-before what follows.
+        fence(Ordering::Acquire);
         unsafe { core::ptr::drop_in_place(self.as_slice_mut_unchecked()) }
         _ = WeakSlice { inner: self.inner };
     }
@@ -720,11 +726,13 @@ impl<T, Alloc: IAlloc> Drop for WeakSlice<T, Alloc> {
     fn drop(&mut self) {
         if unsafe { self.inner.start.prefix() }
             .weak
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every access through the other handles happens-before what follows.
+        fence(Ordering::Acquire);
         let mut alloc = unsafe { self.inner.start.prefix().alloc.assume_init_read() };
         unsafe { self.inner.start.free(&mut alloc) }
     }
@@ -751,11 +759,13 @@ impl<T, Alloc: IAlloc> crate::IPtrOwned for Arc<T, Alloc> {
     fn drop(this: &mut core::mem::ManuallyDrop<Self>, drop: unsafe extern "C" fn(&mut ())) {
         if unsafe { this.ptr.prefix() }
             .strong
-            .fetch_sub(1, Ordering::Relaxed)
+            .fetch_sub(1, Ordering::Release)
             != 1
         {
             return;
         }
+        // Every access through the other handles happens-before what follows.
+        fence(Ordering::Acquire);
         unsafe {
             drop(this.ptr.cast().as_mut());
             _ = Weak::<T, Alloc>::from_raw(this.ptr);
-- 
2.43.0


From 2ea38707ca4b07b06edc48414d7916582e635fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 53/72] fix: racing upgrades could reset the strong count of a
 shared pointer that is still held

---
 stabby-abi/src/alloc/sync.rs | 38 +++++++++++++-----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index cfe3791..9ad8bd9 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -359,18 +359,13 @@ impl<T, Alloc: IAlloc> Weak<T, Alloc> {
     /// Attempts to upgrade self into an Arc.
     pub fn upgrade(&self) -> Option<Arc<T, Alloc>> {
         let strong = &unsafe { self.ptr.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(Arc { ptr: self.ptr })
-            }
-        }
+        strong
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+                0 | USIZE_TOP_BIT => None,
+                count => Some(count + 1),
+            })
+            .ok()?;
+        Some(Arc { ptr: self.ptr })
     }
 }
 impl<T, Alloc: IAlloc> Clone for Weak<T, Alloc> {
@@ -663,18 +658,13 @@ impl<T, Alloc: IAlloc> WeakSlice<T, Alloc> {
     /// Return a strong reference to the slice if it hasn't been destroyed yet.
     pub fn upgrade(&self) -> Option<ArcSlice<T, Alloc>> {
         let strong = &unsafe { self.inner.start.prefix() }.strong;
-        let count = strong.fetch_or(USIZE_TOP_BIT, Ordering::Acquire);
-        match count {
-            0 | USIZE_TOP_BIT => {
-                strong.store(0, Ordering::Release);
-                None
-            }
-            _ => {
-                strong.fetch_add(1, Ordering::Release);
-                strong.fetch_and(!USIZE_TOP_BIT, Ordering::Release);
-                Some(ArcSlice { inner: self.inner })
-            }
-        }
+        strong
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| match count {
+                0 | USIZE_TOP_BIT => None,
+                count => Some(count + 1),
+            })
+            .ok()?;
+        Some(ArcSlice { inner: self.inner })
     }
     /// For types that are [`Copy`], the slice actually remains valid even after all strong references
     /// have been dropped as long as at least a weak reference lives on.
-- 
2.43.0


From fb89a953e44b27d047a76bcf9bfc88249979cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 54/72] fix: a shared pointer could be considered unique while
 another thread still reached its value

---
 stabby-abi/src/alloc/sync.rs | 68 +++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 9ad8bd9..caf1b52 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -25,7 +25,7 @@ use crate::{unreachable_unchecked, vtable::HasDropVt, Dyn, IStable, IntoDyn};
 
 use super::{
     vec::{ptr_add, ptr_diff, Vec, VecInner},
-    AllocPtr, AllocSlice, DefaultAllocator, IAlloc,
+    AllocPrefix, AllocPtr, AllocSlice, DefaultAllocator, IAlloc,
 };
 
 /// [`alloc::sync::Arc`](https://doc.rust-lang.org/stable/alloc/sync/struct.Arc.html), but ABI-stable.
@@ -38,6 +38,49 @@ unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Send for Arc<T, Alloc>
 // SAFETY: Same constraints as in `std`.
 unsafe impl<T: Send + Sync, Alloc: IAlloc + Send + Sync> Sync for Arc<T, Alloc> {}
 const USIZE_TOP_BIT: usize = 1 << (core::mem::size_of::<usize>() as i32 * 8 - 1);
+/// The value of the weak count while a handle checks that it is the only one.
+const WEAK_LOCKED: usize = usize::MAX;
+/// Whether the caller's strong handle is the only handle to the value.
+fn is_unique<Alloc>(prefix: &AllocPrefix<Alloc>) -> bool {
+    // The weak count is locked, since a strong handle could otherwise be downgraded and dropped
+    // between the checks of both counts.
+    loop {
+        match prefix.weak.compare_exchange_weak(
+            1,
+            WEAK_LOCKED,
+            Ordering::Acquire,
+            Ordering::Relaxed,
+        ) {
+            Ok(_) => break,
+            Err(1 | WEAK_LOCKED) => core::hint::spin_loop(),
+            Err(_) => return false,
+        }
+    }
+    let unique = prefix.strong.load(Ordering::Acquire) == 1;
+    prefix.weak.store(1, Ordering::Release);
+    unique
+}
+/// Increments the weak count from a strong handle, returning the previous count.
+fn increment_weak<Alloc>(prefix: &AllocPrefix<Alloc>) -> usize {
+    loop {
+        if let Ok(count) = prefix
+            .weak
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |count| {
+                (count != WEAK_LOCKED).then_some(count.wrapping_add(1))
+            })
+        {
+            return count;
+        }
+        core::hint::spin_loop();
+    }
+}
+/// Returns the weak count, as seen from a strong handle.
+fn weak_count<Alloc>(prefix: &AllocPrefix<Alloc>) -> usize {
+    match prefix.weak.load(Ordering::Relaxed) {
+        WEAK_LOCKED => 1,
+        count => count,
+    }
+}
 
 #[cfg(not(stabby_default_alloc = "disabled"))]
 impl<T> Arc<T> {
@@ -226,13 +269,11 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
     }
     /// Returns the weak count. Note that all Arcs to a same value share a Weak, so the weak count can never be 0.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }.weak.load(Ordering::Relaxed)
+        weak_count(unsafe { this.ptr.prefix() })
     }
     /// Increments the weak count, returning its previous value.
     pub fn increment_weak_count(this: &Self) -> usize {
-        unsafe { this.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed)
+        increment_weak(unsafe { this.ptr.prefix() })
     }
 
     /// Returns a mutable reference to this `Arc`'s value, cloning that value into a new `Arc` if [`Self::get_mut`] would have failed.
@@ -252,7 +293,7 @@ impl<T, Alloc: IAlloc> Arc<T, Alloc> {
 
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        is_unique(unsafe { this.ptr.prefix() })
     }
     /// Attempts the value from the allocation, freeing said allocation.
     /// # Errors
@@ -335,9 +376,7 @@ impl<T, Alloc: IAlloc> From<&Weak<T, Alloc>> for Weak<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&Arc<T, Alloc>> for Weak<T, Alloc> {
     fn from(value: &Arc<T, Alloc>) -> Self {
-        unsafe { value.ptr.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(unsafe { value.ptr.prefix() });
         Self { ptr: value.ptr }
     }
 }
@@ -427,8 +466,7 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns a mutable borrow to the slice if no other references to it may exist.
     pub fn as_slice_mut(&mut self) -> Option<&mut [T]> {
-        (ArcSlice::strong_count(self) == 1 && ArcSlice::weak_count(self) == 1)
-            .then(|| unsafe { self.as_slice_mut_unchecked() })
+        ArcSlice::is_unique(self).then(|| unsafe { self.as_slice_mut_unchecked() })
     }
     /// Returns a mutable borrow to the slice.
     /// # Safety
@@ -444,11 +482,11 @@ impl<T, Alloc: IAlloc> ArcSlice<T, Alloc> {
     }
     /// Returns the weak count to the slice.
     pub fn weak_count(this: &Self) -> usize {
-        unsafe { this.inner.start.prefix().weak.load(Ordering::Relaxed) }
+        weak_count(unsafe { this.inner.start.prefix() })
     }
     /// Whether or not `this` is the sole owner of its data, including weak owners.
     pub fn is_unique(this: &Self) -> bool {
-        Self::strong_count(this) == 1 && Self::weak_count(this) == 1
+        is_unique(unsafe { this.inner.start.prefix() })
     }
     /// Returns the slice's raw representation, without altering the associated reference counts.
     ///
@@ -706,9 +744,7 @@ impl<T, Alloc: IAlloc> From<&WeakSlice<T, Alloc>> for WeakSlice<T, Alloc> {
 }
 impl<T, Alloc: IAlloc> From<&ArcSlice<T, Alloc>> for WeakSlice<T, Alloc> {
     fn from(value: &ArcSlice<T, Alloc>) -> Self {
-        unsafe { value.inner.start.prefix() }
-            .weak
-            .fetch_add(1, Ordering::Relaxed);
+        increment_weak(unsafe { value.inner.start.prefix() });
         Self { inner: value.inner }
     }
 }
-- 
2.43.0


From a90a0d59c140957f4ad7b3da4d028f1a70039a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 55/72] fix: `AtomicArc::store` leaked the previous value

---
 stabby-abi/src/alloc/sync.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index caf1b52..bc24593 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -910,8 +910,19 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
     }
     /// Atomically store a new value.
     pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
+        let order = match order {
+            Ordering::Release => Ordering::AcqRel,
+            order => order,
+        };
         let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        self.ptr.store(ptr, order)
+        let previous = NonNull::new(self.ptr.swap(ptr, order));
+        // SAFETY: `self` owned its previous value.
+        drop(previous.map(|ptr| unsafe {
+            Arc::<T, Alloc>::from_raw(AllocPtr {
+                ptr,
+                marker: PhantomData,
+            })
+        }));
     }
     /// Compares `self` with `current` by pointer.
     /// # Errors
-- 
2.43.0


From 2f396a32fac7e5a499ba43bee8cf4d1c9f066a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 56/72] fix: `AtomicArc::compare_exchange` leaked the new value
 when it failed

---
 stabby-abi/src/alloc/sync.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index bc24593..6d468cc 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -959,14 +959,23 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
         failure: Ordering,
     ) -> Result<MaybeArc<T, Alloc>, MaybeArc<T, Alloc>> {
         let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
-        let new = new.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        match self.ptr.compare_exchange(current, new, success, failure) {
-            Ok(ptr) => Ok(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+        let new_ptr = new
+            .as_ref()
+            .map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
+        match self
+            .ptr
+            .compare_exchange(current, new_ptr, success, failure)
+        {
+            Ok(ptr) => {
+                // `self` owns `new` from now on.
+                core::mem::forget(new);
+                Ok(NonNull::new(ptr).map(|ptr| unsafe {
+                    Arc::from_raw(AllocPtr {
+                        ptr,
+                        marker: PhantomData,
+                    })
+                }))
+            }
             Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
                 Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
                 Arc::from_raw(AllocPtr {
-- 
2.43.0


From 74e29ef5e48fa54a316f049903f2c7fb0504de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 57/72] fix: `AtomicArc` could hand out a value that another
 thread was releasing

---
 stabby-abi/src/alloc/sync.rs | 152 ++++++++++++++++++++---------------
 1 file changed, 89 insertions(+), 63 deletions(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index 6d468cc..f586974 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -897,92 +897,118 @@ impl<T, Alloc: IAlloc> AtomicArc<T, Alloc> {
             alloc: PhantomData,
         }
     }
-    /// Atomically load the current value.
-    pub fn load(&self, order: Ordering) -> MaybeArc<T, Alloc> {
-        let ptr = NonNull::new(self.ptr.load(order))?;
-        unsafe {
-            Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-            Some(Arc::from_raw(AllocPtr {
+    /// Waits until no other thread is reading or replacing the pointer, and keeps others from doing so until [`Self::unlock`] is called.
+    ///
+    /// A thread that has loaded the pointer must be able to increment the strong count before another one releases it.
+    /// The pointer's lowest bit is set meanwhile: it is otherwise unused, since values follow an [`AllocPrefix`].
+    fn lock(&self) -> *mut T {
+        let mut ptr = self.ptr.load(Ordering::Relaxed);
+        loop {
+            if ptr as usize & 1 == 0 {
+                let locked = ptr.cast::<u8>().wrapping_add(1).cast();
+                match self.ptr.compare_exchange_weak(
+                    ptr,
+                    locked,
+                    Ordering::SeqCst,
+                    Ordering::Relaxed,
+                ) {
+                    Ok(ptr) => return ptr,
+                    Err(new) => ptr = new,
+                }
+            } else {
+                core::hint::spin_loop();
+                ptr = self.ptr.load(Ordering::Relaxed);
+            }
+        }
+    }
+    /// Sets the pointer, letting other threads access it again.
+    fn unlock(&self, ptr: *mut T) {
+        self.ptr.store(ptr, Ordering::SeqCst)
+    }
+    /// Takes ownership from the pointer.
+    /// # Safety
+    /// `ptr` must be null, or own a strong reference.
+    unsafe fn own(ptr: *mut T) -> MaybeArc<T, Alloc> {
+        NonNull::new(ptr).map(|ptr| unsafe {
+            Arc::from_raw(AllocPtr {
                 ptr,
                 marker: PhantomData,
-            }))
+            })
+        })
+    }
+    /// Constructs another reference to the value behind the pointer.
+    /// # Safety
+    /// `ptr` must be null, or own a strong reference.
+    unsafe fn share(ptr: *mut T) -> MaybeArc<T, Alloc> {
+        if !ptr.is_null() {
+            unsafe { Arc::<T, Alloc>::increment_strong_count(ptr) };
         }
+        unsafe { Self::own(ptr) }
+    }
+    /// Atomically load the current value.
+    ///
+    /// The effective ordering is always [`Ordering::SeqCst`].
+    pub fn load(&self, _order: Ordering) -> MaybeArc<T, Alloc> {
+        let ptr = self.lock();
+        // SAFETY: `self` owns `ptr`, and keeps it until `unlock` is called.
+        let value = unsafe { Self::share(ptr) };
+        self.unlock(ptr);
+        value
     }
     /// Atomically store a new value.
-    pub fn store(&self, value: MaybeArc<T, Alloc>, order: Ordering) {
-        let order = match order {
-            Ordering::Release => Ordering::AcqRel,
-            order => order,
-        };
-        let ptr = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
-        let previous = NonNull::new(self.ptr.swap(ptr, order));
+    ///
+    /// The effective ordering is always [`Ordering::SeqCst`].
+    pub fn store(&self, value: MaybeArc<T, Alloc>, _order: Ordering) {
+        let new = value.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr());
+        let previous = self.lock();
+        self.unlock(new);
         // SAFETY: `self` owned its previous value.
-        drop(previous.map(|ptr| unsafe {
-            Arc::<T, Alloc>::from_raw(AllocPtr {
-                ptr,
-                marker: PhantomData,
-            })
-        }));
+        drop(unsafe { Self::own(previous) });
     }
     /// Compares `self` with `current` by pointer.
+    ///
+    /// The effective ordering is always [`Ordering::SeqCst`].
     /// # Errors
     /// Returns the new value of `self` if it differs from `current`.
     pub fn is(
         &self,
         current: Option<&Arc<T, Alloc>>,
-        order: Ordering,
+        _order: Ordering,
     ) -> Result<(), MaybeArc<T, Alloc>> {
-        let ptr = NonNull::new(self.ptr.load(order));
-        match (ptr, current) {
-            (None, None) => Ok(()),
-            (None, _) => Err(None),
-            (Some(ptr), Some(current)) if core::ptr::eq(ptr.as_ptr(), current.ptr.as_ptr()) => {
-                Ok(())
-            }
-            (Some(ptr), _) => unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Err(Some(Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })))
-            },
-        }
+        let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
+        let ptr = self.lock();
+        let result = if core::ptr::eq(ptr, current) {
+            Ok(())
+        } else {
+            // SAFETY: `self` owns `ptr`, and keeps it until `unlock` is called.
+            Err(unsafe { Self::share(ptr) })
+        };
+        self.unlock(ptr);
+        result
     }
     /// Replace the current value with the new value.
+    ///
+    /// The effective orderings are always [`Ordering::SeqCst`].
     /// # Errors
-    /// If `current` no longer points to the same value as `self`, it
+    /// If `current` no longer points to the same value as `self`, the value of `self` is returned and `new` is dropped.
     pub fn compare_exchange(
         &self,
         current: Option<&Arc<T, Alloc>>,
         new: MaybeArc<T, Alloc>,
-        success: Ordering,
-        failure: Ordering,
+        _success: Ordering,
+        _failure: Ordering,
     ) -> Result<MaybeArc<T, Alloc>, MaybeArc<T, Alloc>> {
         let current = current.map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
-        let new_ptr = new
-            .as_ref()
-            .map_or(core::ptr::null_mut(), |value| value.ptr.ptr.as_ptr());
-        match self
-            .ptr
-            .compare_exchange(current, new_ptr, success, failure)
-        {
-            Ok(ptr) => {
-                // `self` owns `new` from now on.
-                core::mem::forget(new);
-                Ok(NonNull::new(ptr).map(|ptr| unsafe {
-                    Arc::from_raw(AllocPtr {
-                        ptr,
-                        marker: PhantomData,
-                    })
-                }))
-            }
-            Err(ptr) => Err(NonNull::new(ptr).map(|ptr| unsafe {
-                Arc::<T, Alloc>::increment_strong_count(ptr.as_ptr());
-                Arc::from_raw(AllocPtr {
-                    ptr,
-                    marker: PhantomData,
-                })
-            })),
+        let ptr = self.lock();
+        if core::ptr::eq(ptr, current) {
+            self.unlock(new.map_or(core::ptr::null_mut(), |value| Arc::into_raw(value).as_ptr()));
+            // SAFETY: `self` owned its previous value.
+            Ok(unsafe { Self::own(ptr) })
+        } else {
+            // SAFETY: `self` owns `ptr`, and keeps it until `unlock` is called.
+            let value = unsafe { Self::share(ptr) };
+            self.unlock(ptr);
+            Err(value)
         }
     }
 }
-- 
2.43.0


From 1b5f498c8d627962c5cbd35fd00f3c7e0dee4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 58/72] fix: dropping an `AtomicArcBTreeSet` leaked its
 elements

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 05f43ee..046d4f7 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -12,6 +12,21 @@ pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_
 )
 where
     DefaultAllocator: core::default::Default + IAlloc;
+impl<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Drop
+    for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
+where
+    DefaultAllocator: core::default::Default + IAlloc,
+{
+    fn drop(&mut self) {
+        // SAFETY: the pointer came from `ArcBTreeSet::as_ptr`, and `self` owns its pointee.
+        drop(unsafe {
+            core::mem::transmute::<
+                *mut ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
+                Option<ArcBTreeSetNode<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+            >(*self.0.get_mut())
+        });
+    }
+}
 impl<T: Ord + Clone, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize> Default
     for AtomicArcBTreeSet<T, REPLACE_ON_INSERT, SPLIT_LIMIT>
 where
-- 
2.43.0


From b92eddc8258ca7a772d45bfd93e8de0db9809a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 59/72] fix: `AtomicArcBTreeSet` could hand out a tree that
 another thread was releasing, and lose updates to reused addresses

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 55 +++++++++++++------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index 046d4f7..beea9ea 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -1,6 +1,10 @@
 use core::{
-    borrow::Borrow, marker::PhantomData, mem::MaybeUninit, ops::Deref, ptr::NonNull,
-    sync::atomic::AtomicPtr,
+    borrow::Borrow,
+    marker::PhantomData,
+    mem::MaybeUninit,
+    ops::Deref,
+    ptr::NonNull,
+    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 
 use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
@@ -8,6 +12,8 @@ use crate::alloc::{sync::Arc, AllocPtr, DefaultAllocator, IAlloc};
 /// An [`ArcBTreeSet`] that can be atomically modified.
 pub struct AtomicArcBTreeSet<T: Ord, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: usize>(
     AtomicPtr<ArcBTreeSetNodeInner<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
+    /// The number of threads that may have loaded the pointer without having cloned its pointee yet.
+    AtomicUsize,
     PhantomData<ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>>,
 )
 where
@@ -43,7 +49,18 @@ where
 {
     /// Constructs a new, empty set.
     pub const fn new() -> Self {
-        Self(AtomicPtr::new(core::ptr::null_mut()), PhantomData)
+        Self(
+            AtomicPtr::new(core::ptr::null_mut()),
+            AtomicUsize::new(0),
+            PhantomData,
+        )
+    }
+    /// Returns a handle to the current value.
+    fn current(&self) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT> {
+        self.1.fetch_add(1, Ordering::SeqCst);
+        let current = ArcBTreeSet::copy_from_ptr(self.0.load(Ordering::SeqCst));
+        self.1.fetch_sub(1, Ordering::Release);
+        current
     }
     /// Applies `f` to the current value, swapping the current value for the one returned by `f`.
     ///
@@ -54,27 +71,30 @@ where
             ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
         ) -> ArcBTreeSet<T, DefaultAllocator, REPLACE_ON_INSERT, SPLIT_LIMIT>,
     ) {
-        let mut current = self.0.load(core::sync::atomic::Ordering::Acquire);
+        // Held until it's been replaced, lest its address be reused by another value.
+        let mut current = self.current();
         loop {
-            let new = f(ArcBTreeSet::copy_from_ptr(current));
-            let new_ptr = new.as_ptr();
-            if core::ptr::eq(current, new_ptr) {
+            let new = f(current.clone());
+            let (current_ptr, new_ptr) = (current.as_ptr(), new.as_ptr());
+            if core::ptr::eq(current_ptr, new_ptr) {
                 return;
             }
-            match self.0.compare_exchange(
-                current,
-                new_ptr,
-                core::sync::atomic::Ordering::Release,
-                core::sync::atomic::Ordering::Acquire,
-            ) {
-                // SAFETY: we've just replaced the old pointer succesfully, we can now free it.
+            match self
+                .0
+                .compare_exchange(current_ptr, new_ptr, Ordering::SeqCst, Ordering::Relaxed)
+            {
+                // SAFETY: we've just replaced the old pointer succesfully, we can free it once
+                // the threads that might have loaded it have cloned its pointee.
                 Ok(old) => unsafe {
                     core::mem::forget(new);
+                    while self.1.load(Ordering::SeqCst) != 0 {
+                        core::hint::spin_loop();
+                    }
                     ArcBTreeSet::take_ownership_from_ptr(old);
                     return;
                 },
-                Err(new_old) => {
-                    current = new_old;
+                Err(_) => {
+                    current = self.current();
                 }
             }
         }
@@ -84,8 +104,7 @@ where
     where
         T: PartialOrd<K>,
     {
-        let set = ArcBTreeSet::copy_from_ptr(self.0.load(core::sync::atomic::Ordering::Relaxed));
-        f(set.get(value))
+        f(self.current().get(value))
     }
 }
 
-- 
2.43.0


From ae20a2af473a26ce95821c4dc045014222e37a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 60/72] fix: converting a vector of zero-sized elements into an
 `ArcSlice` leaked them if the allocation failed

---
 stabby-abi/src/alloc/sync.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/sync.rs b/stabby-abi/src/alloc/sync.rs
index f586974..351f099 100644
--- a/stabby-abi/src/alloc/sync.rs
+++ b/stabby-abi/src/alloc/sync.rs
@@ -552,7 +552,16 @@ impl<T, Alloc: IAlloc> From<Vec<T, Alloc>> for ArcSlice<T, Alloc> {
                 },
             }
         } else {
-            let mut start = AllocPtr::alloc_array(&mut alloc, 0).expect("Allocation failed");
+            let Some(mut start) = AllocPtr::alloc_array(&mut alloc, 0) else {
+                // SAFETY: `slice` was taken from `value`, and still owns its (zero-sized) elements.
+                unsafe {
+                    core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(
+                        slice.start.as_ptr(),
+                        slice.len(),
+                    ))
+                };
+                panic!("Allocation failed");
+            };
             unsafe {
                 start.prefix_mut().strong = AtomicUsize::new(1);
                 start.prefix_mut().weak = AtomicUsize::new(1);
-- 
2.43.0


From 8a350f86906782ab04a282c013d6b8b33d96cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 61/72] fix: a first insertion into an `ArcBTreeSet` dropped
 its allocator twice if the allocation failed

---
 stabby-abi/src/alloc/collections/arc_btree.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stabby-abi/src/alloc/collections/arc_btree.rs b/stabby-abi/src/alloc/collections/arc_btree.rs
index beea9ea..aa7388b 100644
--- a/stabby-abi/src/alloc/collections/arc_btree.rs
+++ b/stabby-abi/src/alloc/collections/arc_btree.rs
@@ -423,16 +423,21 @@ impl<T: Ord, Alloc: IAlloc, const REPLACE_ON_INSERT: bool, const SPLIT_LIMIT: us
             None => {
                 // SAFETY: root == None <=> allocator is can be taken to construct a node.
                 let alloc = unsafe { self.alloc.assume_init_read() };
-                self.root = Some(ArcBTreeSetNode(Arc::new_in(
-                    ArcBTreeSetNodeInner::new(
-                        Some(ArcBTreeSetEntry {
-                            value,
-                            smaller: None,
-                        }),
-                        None,
-                    ),
-                    alloc,
-                )));
+                let inner = ArcBTreeSetNodeInner::new(
+                    Some(ArcBTreeSetEntry {
+                        value,
+                        smaller: None,
+                    }),
+                    None,
+                );
+                match Arc::try_new_in(inner, alloc) {
+                    Ok(root) => self.root = Some(ArcBTreeSetNode(root)),
+                    Err((_, alloc)) => {
+                        // The root is still `None`, so the allocator must be there.
+                        self.alloc.write(alloc);
+                        panic!("Allocation failed");
+                    }
+                }
                 None
             }
         }
-- 
2.43.0


From f1dc58e9c83c9823a41a4e0c565738219361bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 62/72] fix: `Str` didn't hash like the `str` it was made from

---
 stabby-abi/src/str.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/str.rs b/stabby-abi/src/str.rs
index adffa48..4d43c53 100644
--- a/stabby-abi/src/str.rs
+++ b/stabby-abi/src/str.rs
@@ -20,7 +20,7 @@ use core::ops::{Deref, DerefMut};
 
 /// An ABI stable equivalent of `&'a str`
 #[stabby::stabby]
-#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, PartialEq, Eq)]
 pub struct Str<'a> {
     pub(crate) inner: crate::slice::Slice<'a, u8>,
 }
@@ -73,6 +73,11 @@ impl core::fmt::Display for Str<'_> {
         self.deref().fmt(f)
     }
 }
+impl core::hash::Hash for Str<'_> {
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        self.deref().hash(state)
+    }
+}
 impl core::cmp::PartialOrd for Str<'_> {
     fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
         self.deref().partial_cmp(other.deref())
-- 
2.43.0


From c6d0890b08f483b35b6ecee7a55476ab1f70eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 63/72] fix: `Duration::new` didn't carry over excess
 nanoseconds, and `AtomicDuration::MAX` had more than a second of them

---
 stabby/src/time.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index d3792e9..e015e68 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -11,10 +11,12 @@ pub struct Duration {
 }
 impl Duration {
     /// Construct a new [`Duration`].
+    ///
+    /// If `subsec_nanos` is a second or more, the excess is carried over into the seconds.
     pub const fn new(secs: u64, subsec_nanos: u32) -> Self {
         Self {
-            secs,
-            nanos: subsec_nanos,
+            secs: secs + (subsec_nanos / 1_000_000_000) as u64,
+            nanos: subsec_nanos % 1_000_000_000,
         }
     }
     /// Construct a new [`Duration`].
@@ -139,7 +141,7 @@ impl AtomicDuration {
     /// This type's time resolution.
     pub const RESOLUTION: Duration = Self::i64_to_duration(1).0;
     /// This type's maximum value.
-    pub const MAX: Duration = Self::i64_to_duration(i64::MAX).0;
+    pub const MAX: Duration = Duration::new((i64::MAX >> SHIFT) as u64, 999_999_000);
     /// Atomically loads the stored value, converting it to a duration-sign tuple.
     ///
     /// The [`Ordering`] is used in a single `load` operation.
-- 
2.43.0


From be903693a35cfd4e82213184f3e4a7f9adaaab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 64/72] fix: `Duration::from_secs_f64` lost a nanosecond, and
 accepted infinite durations

---
 stabby/src/time.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stabby/src/time.rs b/stabby/src/time.rs
index e015e68..763d76c 100644
--- a/stabby/src/time.rs
+++ b/stabby/src/time.rs
@@ -37,14 +37,11 @@ impl Duration {
     /// Construct a new [`Duration`].
     ///
     /// # Panics
-    /// if `secs` is negative.
+    /// if `secs` is negative, not finite or overflows a [`Duration`].
     #[cfg(feature = "std")]
     pub fn from_secs_f64(secs: f64) -> Self {
         assert!(secs >= 0.);
-        Self {
-            secs: secs.floor() as u64,
-            nanos: ((secs % 1.) * 1_000_000_000.) as u32,
-        }
+        core::time::Duration::from_secs_f64(secs).into()
     }
     /// Returns the number of seconds in the duration.
     pub const fn as_secs(&self) -> u64 {
-- 
2.43.0


From 54eb5e9712dde107dec88bc2d083ac981425bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 65/72] fix: deserializing a vector panicked on data announcing
 a huge length

---
 stabby-abi/src/alloc/vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stabby-abi/src/alloc/vec.rs b/stabby-abi/src/alloc/vec.rs
index 9919cfe..b6c7fc9 100644
--- a/stabby-abi/src/alloc/vec.rs
+++ b/stabby-abi/src/alloc/vec.rs
@@ -865,7 +865,13 @@ mod serde_impl {
         where
             A: serde::de::SeqAccess<'a>,
         {
-            let mut this = Vec::with_capacity_in(seq.size_hint().unwrap_or(0), Alloc::default());
+            // The hint comes from the data: don't let it request more than 1MiB ahead of the elements.
+            const MAX_PREALLOCATION: usize = 1 << 20;
+            let capacity = match core::mem::size_of::<T>() {
+                0 => 0,
+                size => seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATION / size),
+            };
+            let mut this = Vec::with_capacity_in(capacity, Alloc::default());
             while let Some(v) = seq.next_element()? {
                 this.push(v);
             }
-- 
2.43.0


From c6df6ac95aa031c0204b4175220a899e3227f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 66/72] fix: strings only deserialized from data they could
 borrow from

---
 stabby-abi/src/alloc/string.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/alloc/string.rs b/stabby-abi/src/alloc/string.rs
index 6ab2b5b..5f8a034 100644
--- a/stabby-abi/src/alloc/string.rs
+++ b/stabby-abi/src/alloc/string.rs
@@ -371,7 +371,10 @@ mod std_impl {
 mod serde_impl {
     use super::*;
     use crate::alloc::IAlloc;
-    use serde::{Deserialize, Serialize};
+    use serde::{
+        de::{Error, Unexpected, Visitor},
+        Deserialize, Serialize,
+    };
     impl<Alloc: IAlloc> Serialize for String<Alloc> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -386,7 +389,23 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            crate::str::Str::deserialize(deserializer).map(Into::into)
+            deserializer.deserialize_string(StringVisitor(core::marker::PhantomData))
+        }
+    }
+    struct StringVisitor<Alloc>(core::marker::PhantomData<Alloc>);
+    impl<Alloc: IAlloc + Default> Visitor<'_> for StringVisitor<Alloc> {
+        type Value = String<Alloc>;
+        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+            formatter.write_str("a string")
+        }
+        fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+            Ok(v.into())
+        }
+        fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(v) {
+                Ok(v) => Ok(v.into()),
+                Err(_) => Err(E::invalid_value(Unexpected::Bytes(v), &self)),
+            }
         }
     }
 }
-- 
2.43.0


From bc4d0adef59e7afe8efb521bc42a0e2616a20897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 67/72] fix: `Str` and `Slice` refused borrowed data that
 `&str` and `&[u8]` accept

---
 stabby-abi/src/slice.rs | 17 ++---------------
 stabby-abi/src/str.rs   | 17 ++---------------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/stabby-abi/src/slice.rs b/stabby-abi/src/slice.rs
index bf5325a..ac18f8c 100644
--- a/stabby-abi/src/slice.rs
+++ b/stabby-abi/src/slice.rs
@@ -203,7 +203,7 @@ impl<'a, T> From<SliceMut<'a, T>> for &'a [T] {
 #[cfg(feature = "serde")]
 mod serde_impl {
     use super::*;
-    use serde::{de::Visitor, Deserialize, Serialize};
+    use serde::{Deserialize, Serialize};
     impl<T: Serialize> Serialize for Slice<'_, T> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -227,20 +227,7 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            deserializer.deserialize_bytes(BytesVisitor(core::marker::PhantomData))
-        }
-    }
-    struct BytesVisitor<'a>(core::marker::PhantomData<Slice<'a, u8>>);
-    impl<'a> Visitor<'a> for BytesVisitor<'a> {
-        type Value = Slice<'a, u8>;
-        fn visit_borrowed_bytes<E>(self, v: &'a [u8]) -> Result<Self::Value, E>
-        where
-            E: serde::de::Error,
-        {
-            Ok(v.into())
-        }
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            write!(formatter, "A borrowed_str")
+            <&'a [u8]>::deserialize(deserializer).map(Into::into)
         }
     }
 }
diff --git a/stabby-abi/src/str.rs b/stabby-abi/src/str.rs
index 4d43c53..1f51245 100644
--- a/stabby-abi/src/str.rs
+++ b/stabby-abi/src/str.rs
@@ -138,7 +138,7 @@ impl<'a> From<StrMut<'a>> for &'a str {
 #[cfg(feature = "serde")]
 mod serde_impl {
     use super::*;
-    use serde::{de::Visitor, Deserialize, Serialize};
+    use serde::{Deserialize, Serialize};
     impl<'a> Serialize for Str<'a> {
         fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
         where
@@ -160,20 +160,7 @@ mod serde_impl {
         where
             D: serde::Deserializer<'a>,
         {
-            deserializer.deserialize_str(StrVisitor(core::marker::PhantomData))
-        }
-    }
-    struct StrVisitor<'a>(core::marker::PhantomData<Str<'a>>);
-    impl<'a> Visitor<'a> for StrVisitor<'a> {
-        type Value = Str<'a>;
-        fn visit_borrowed_str<E>(self, v: &'a str) -> Result<Self::Value, E>
-        where
-            E: serde::de::Error,
-        {
-            Ok(v.into())
-        }
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            write!(formatter, "A borrowed_str")
+            <&'a str>::deserialize(deserializer).map(Into::into)
         }
     }
 }
-- 
2.43.0


From 20aab36f2937abee18515319ba7ed6be7961fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 68/72] fix: `#[stabby::import]` only compiled for `extern "C"`
 blocks

---
 stabby-macros/src/functions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 4e12d77..6b5e459 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -428,6 +428,11 @@ pub fn import(
         attrs, abi, items, ..
     } = &fn_decl;
     let st = crate::tl_mod();
+    // The functions that check signatures are always `extern "C"`, regardless of the imported functions' calling convention.
+    let extern_abi = match &canaries {
+        Some(_) => quote!(#abi),
+        None => quote!(extern "C"),
+    };
     let modid = quote::format_ident!("_stabbymod_{}", rand::random::<u128>());
     let mut externs = Vec::new();
     let mut interns = Vec::new();
@@ -492,7 +497,7 @@ pub fn import(
         mod #modid {
             #(#attrs)*
             #[link(#link_args)]
-            #abi {
+            #extern_abi {
                 #(#externs)*
             }
             #(#interns)*
-- 
2.43.0


From c446c31ed4a05db95920934e011eb59ebc699752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:19 +0000
Subject: [PATCH 69/72] fix: `#[stabby::import]` refused the `opt_level` and
 `num_jobs` canaries

---
 stabby-macros/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-macros/src/functions.rs b/stabby-macros/src/functions.rs
index 6b5e459..5327c07 100644
--- a/stabby-macros/src/functions.rs
+++ b/stabby-macros/src/functions.rs
@@ -188,7 +188,7 @@ impl FromStr for CanarySpec {
         }
         let known = Self::ARRAY.iter().map(|s| s.0).collect::<Vec<_>>();
         if s.chars()
-            .any(|c| !(c.is_alphabetic() || c == ' ' || c == ','))
+            .any(|c| !(c.is_alphabetic() || c == '_' || c == ' ' || c == ','))
         {
             return Err(format!("Invalid canary-spec: `{s}` must be a comma-separated list of canary identifiers ({known:?})"));
         }
-- 
2.43.0


From 9cd694851bc4ae8a5bcd5d0f1328ab9dd0c155d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 70/72] fix: a racing thread could use a `CanariedImport`
 before its canaries were called

---
 stabby-abi/src/checked_import.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 4bb1e1f..3ca1358 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -40,8 +40,10 @@ impl<F> CanariedImport<F> {
 impl<F> Deref for CanariedImport<F> {
     type Target = F;
     fn deref(&self) -> &Self::Target {
-        if self.checked.swap(1, Ordering::Relaxed) == 0 {
-            (self.canary)()
+        // The import is only marked as checked once its canaries have been called: racing threads may all call them.
+        if self.checked.load(Ordering::Acquire) == 0 {
+            (self.canary)();
+            self.checked.store(1, Ordering::Release);
         }
         &self.result
     }
-- 
2.43.0


From 1a0dad97b98a3f29227c7d754b4100d86400a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:58 +0000
Subject: [PATCH 71/72] fix: threads racing on a `CheckedImport` could read its
 function before it was written

---
 stabby-abi/src/checked_import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stabby-abi/src/checked_import.rs b/stabby-abi/src/checked_import.rs
index 3ca1358..12c8979 100644
--- a/stabby-abi/src/checked_import.rs
+++ b/stabby-abi/src/checked_import.rs
@@ -111,7 +111,7 @@ impl<F> CheckedImport<F> {
     /// Returns a [`ReportMismatch`] if the local and loaded reports differ.
     pub fn as_ref(&self) -> Result<&F, ReportMismatch> {
         loop {
-            match self.checked.load(Ordering::Relaxed) {
+            match self.checked.load(Ordering::Acquire) {
                 UNCHECKED => match unsafe { (self.checker)(self.local_report) } {
                     Some(result) => {
                         if self
-- 
2.43.0


From d260c4204972a6f754d47f22fad10a2318b00f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 72/72] fix: a conversion panicking in `ref_as` or `mut_as` let
 its value be dropped twice

---
 stabby-abi/src/as_mut.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/stabby-abi/src/as_mut.rs b/stabby-abi/src/as_mut.rs
index 58c9bad..4564b38 100644
--- a/stabby-abi/src/as_mut.rs
+++ b/stabby-abi/src/as_mut.rs
@@ -49,6 +49,23 @@ pub trait IGuardMut<T: ?Sized>: IGuardRef<T> {
     fn guard_mut_inner(&mut self) -> Self::GuardMut<'_>;
 }
 
+/// Converts the bitwise copy of a value which will still be considered owned by its source should the conversion panic.
+///
+/// Since there's no telling how much of the value was dropped by the panicking conversion, unwinding from it would
+/// allow the value to be dropped twice: the process is aborted instead.
+fn convert<T: Into<As>, As>(value: T) -> As {
+    struct AbortOnUnwind;
+    impl Drop for AbortOnUnwind {
+        fn drop(&mut self) {
+            panic!("Conversions must not panic while viewing a value as another type")
+        }
+    }
+    let guard = AbortOnUnwind;
+    let converted = value.into();
+    core::mem::forget(guard);
+    converted
+}
+
 /// A guard exposing an immutable reference to `T` as an immutable reference to `As`
 pub struct RefAs<'a, T, As> {
     source: core::marker::PhantomData<&'a T>,
@@ -69,7 +86,7 @@ impl<T: Into<As>, As: Into<T>> IGuardRef<As> for T {
     fn guard_ref_inner(&self) -> Self::Guard<'_> {
         RefAs {
             source: core::marker::PhantomData,
-            target: core::mem::ManuallyDrop::new(unsafe { core::ptr::read(self).into() }),
+            target: core::mem::ManuallyDrop::new(convert(unsafe { core::ptr::read(self) })),
         }
     }
 }
@@ -94,7 +111,7 @@ impl<T, As: Into<T>> DerefMut for MutAs<'_, T, As> {
 }
 impl<T, As: Into<T>> Drop for MutAs<'_, T, As> {
     fn drop(&mut self) {
-        unsafe { core::ptr::write(self.source, core::ptr::read(&*self.target).into()) }
+        unsafe { core::ptr::write(self.source, convert(core::ptr::read(&*self.target))) }
     }
 }
 impl<T: Into<As>, As: Into<T>> IGuardMut<As> for T {
@@ -105,7 +122,7 @@ impl<T: Into<As>, As: Into<T>> IGuardMut<As> for T {
 
     fn guard_mut_inner(&mut self) -> Self::GuardMut<'_> {
         MutAs {
-            target: core::mem::ManuallyDrop::new(unsafe { core::ptr::read(self).into() }),
+            target: core::mem::ManuallyDrop::new(convert(unsafe { core::ptr::read(self) })),
             source: self,
         }
     }
-- 
2.43.0

