From dc9e9a91630628db9fbd7fc8f5e803b60465d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 01/13] fix: RingBuffer io::Write must not panic in debug
 builds when the write wraps

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..16880c2 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
+        debug_assert!(count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 78405befdaee74fedcd7f143ec7b352bb6cd23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/13] fix: indexing a RingBuffer Slice/SliceMut must respect
 the bounds of the slice

---
 src/ring_buffer/slice.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..fe4dcaf 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("Slice::index: index out of bounds");
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +445,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("SliceMut::index: index out of bounds");
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +456,9 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!("SliceMut::index_mut: index out of bounds");
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From 05f4a4d8fc712f74b351fab2f103c6d00ec645b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/13] fix: Chunk::from_front/from_back must check the count
 in release builds too

---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..9556663 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From 33e63dfa6073ec4331ce4d9e0afed36e203dc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 04/13] fix: Chunk::insert_from must ask an untrusted iterator
 for its length only once

---
 src/sized_chunk/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 9556663..89f4a9c 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, len: usize, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -615,14 +614,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right += insert_size;
         } else {
@@ -630,7 +629,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 14fee649e45b9ac671dfe2d1c13a02b3552e16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/13] fix: insert_from capacity check must not overflow for
 huge iterators

---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 16880c2..809ef92 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -652,7 +652,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 89f4a9c..0cdb6cd 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -598,7 +598,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 30b48aedddd3d31d0af19741f697f63c6c2ab2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 06/13] fix: a panicking element destructor must not make
 clear/drop_left/drop_right drop twice

---
 src/inline_array/mod.rs |  4 +++-
 src/ring_buffer/mod.rs  | 22 ++++++++++++++--------
 src/sized_chunk/mod.rs  | 12 +++++++++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..186af68 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -395,8 +395,10 @@ impl<A, T> InlineArray<A, T> {
     /// Time: O(n)
     pub fn clear(&mut self) {
         unsafe {
-            self.drop_contents();
+            let drop_slice: *mut [A] = &mut **self;
+            // Give up ownership first, in case dropping an element panics.
             *self.len_mut() = 0;
+            ptr::drop_in_place(drop_slice);
         }
     }
 
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 809ef92..20af312 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let range = self.range().take(index);
+            // Give up ownership first, in case dropping an element panics.
             self.origin += index;
             self.length -= index;
+            for i in range {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let range = self.range().skip(index);
+        // Give up ownership first, in case dropping an element panics.
+        self.length = index;
+        for i in range {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let range = self.range();
+        // Give up ownership first, in case dropping an element panics.
         self.origin = 0.into();
         self.length = 0;
+        for i in range {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 0cdb6cd..2d1ebb5 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -405,8 +405,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let drop_slice: *mut [A] = &mut self[..index];
+            // Give up ownership first, in case dropping an element panics.
             self.left += index;
+            unsafe { ptr::drop_in_place(drop_slice) }
         }
     }
 
@@ -417,8 +419,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let drop_slice: *mut [A] = &mut self[index..];
+            // Give up ownership first, in case dropping an element panics.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(drop_slice) }
         }
     }
 
@@ -672,9 +676,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let drop_slice: *mut [A] = self.as_mut_slice();
+        // Give up ownership first, in case dropping an element panics.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(drop_slice) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 1b64435052fc22429f2b1594a23c82e18bae802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/13] fix: Chunk and InlineArray must hash like the slices
 they Borrow as

---
 src/inline_array/mod.rs | 4 +---
 src/sized_chunk/mod.rs  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 186af68..633bd96 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        (**self).hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 2d1ebb5..e892abd 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From 04e8e8e89ce1044968ae537c27ee461b4c293918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 08/13] fix: InlineArray over a usize sized host is documented
 to work with capacity 0

---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 633bd96..c12c917 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -258,7 +258,7 @@ impl<A, T> InlineArray<A, T> {
     #[inline]
     #[must_use]
     pub fn new() -> Self {
-        assert!(Self::HOST_SIZE > Self::HEADER_SIZE);
+        assert!(Self::HOST_SIZE >= Self::HEADER_SIZE);
         assert!(
             (Self::CAPACITY == 0) || (mem::align_of::<Self>() % mem::align_of::<A>() == 0),
             "InlineArray can't satisfy alignment of {}",
-- 
2.43.0


From 8170f1108800ba7aa3ca63368791ab35779c37f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 09/13] fix: a RingBuffer of capacity 0 must be usable instead
 of panicking or looping forever

---
 src/ring_buffer/index.rs | 6 +++---
 src/ring_buffer/mod.rs   | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..cf84bd5 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,7 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        debug_assert!(index < N || (N == 0 && index == 0));
         RawIndex(index)
     }
 }
@@ -76,7 +76,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +87,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 20af312..a4f7ce0 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -190,6 +190,9 @@ impl<A, const N: usize> RingBuffer<A, N> {
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
         debug_assert!(count <= Self::CAPACITY);
+        if count == 0 {
+            return;
+        }
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 5cc23b53c066f83a4accc34de0db97a9ae4e679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 10/13] fix: slicing a RingBuffer with a huge range must panic
 in release builds too

---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a4f7ce0..a099935 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -354,7 +354,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index fe4dcaf..2335d0f 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,13 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -360,13 +360,13 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From 25a73dfa2863f060237b39a8fe30c7d637268c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 11/13] fix: sorting a RingBuffer must work when empty and when
 elements are equal

---
 src/ring_buffer/mod.rs   | 45 ++++++++++++++++++++++++++++++++++++++++
 src/ring_buffer/slice.rs | 10 ++++++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a099935..f5fd0da 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -105,6 +105,51 @@ impl<A, const N: usize> ArrayMut for RingBuffer<A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Sort the elements of the buffer using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        heap_sort(self, compare)
+    }
+}
+
+/// Sort an array using a comparator function.
+///
+/// The default implementation of `ArrayMut::sort_unstable_by` panics on empty
+/// arrays, and either panics or leaves the array unsorted on many arrays with
+/// equal elements in them, so we can't use it.
+fn heap_sort<A, Arr, F>(array: &mut Arr, mut compare: F)
+where
+    Arr: ArrayMut + Index<usize, Output = A>,
+    F: FnMut(&A, &A) -> Ordering,
+{
+    let len = array.len();
+    // Turn the array into a max heap, then keep moving the top of the heap to
+    // the end of it and restoring the heap property of what remains.
+    for step in (0..len / 2 + len).rev() {
+        let (mut parent, end) = if step < len {
+            array.swap(0, step);
+            (0, step)
+        } else {
+            (step - len, len)
+        };
+        loop {
+            let mut child = 2 * parent + 1;
+            if child >= end {
+                break;
+            }
+            if child + 1 < end && compare(&array[child], &array[child + 1]) == Ordering::Less {
+                child += 1;
+            }
+            if compare(&array[parent], &array[child]) != Ordering::Less {
+                break;
+            }
+            array.swap(parent, child);
+            parent = child;
+        }
+    }
 }
 
 impl<A, const N: usize> RingBuffer<A, N> {
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 2335d0f..8ada050 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -12,7 +12,7 @@ use core::hash::Hasher;
 use core::ops::IndexMut;
 use core::ops::{Bound, Index, Range, RangeBounds};
 
-use super::{Iter, IterMut, RingBuffer};
+use super::{heap_sort, Iter, IterMut, RingBuffer};
 
 use array_ops::{Array, ArrayMut, HasLength};
 
@@ -293,6 +293,14 @@ impl<'a, A: 'a, const N: usize> ArrayMut for SliceMut<'a, A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Sort the elements of the slice using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        heap_sort(self, compare)
+    }
 }
 
 impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
-- 
2.43.0


From fa7cc44ffd1337db4e9cc847102fa1edfa9244ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 12/13] fix: the Arbitrary size hint of containers must count
 the byte before each element

---
 src/arbitrary.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..3e087ef 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,12 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// The most bytes `count` elements can use: each of them is preceded by a byte
+/// telling whether there is another element. `None` if unknown or too large.
+fn max_size(element: Option<usize>, count: usize) -> Option<usize> {
+    element?.checked_add(1)?.checked_mul(count)
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -27,7 +33,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, max_size(upper, Self::CAPACITY))
         })
     }
 }
@@ -49,7 +55,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, max_size(upper, Self::CAPACITY))
         })
     }
 }
@@ -71,7 +77,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, max_size(upper, Self::CAPACITY))
         })
     }
 }
@@ -92,7 +98,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, max_size(upper, Self::CAPACITY))
         })
     }
 }
-- 
2.43.0


From e7645d6ac301b5cbcb152ddfaf934b2e1315230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 13/13] fix: slicing a RingBuffer with an excluded start bound
 must work

---
 src/ring_buffer/mod.rs   | 2 +-
 src/ring_buffer/slice.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index f5fd0da..efb8466 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -395,7 +395,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => 0,
                 Bound::Included(index) => *index,
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => index.saturating_add(1),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 8ada050..0a232bf 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -77,7 +77,7 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
                 Bound::Included(index) => self.range.start.saturating_add(*index),
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index).saturating_add(1),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
@@ -369,7 +369,7 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
                 Bound::Included(index) => self.range.start.saturating_add(*index),
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index).saturating_add(1),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-- 
2.43.0

