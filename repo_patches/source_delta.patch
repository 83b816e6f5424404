From 77fcf738f5928e592c08e1f2f9fd0d1161294fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 01/28] fix: Vector::clear must not drop elements twice when an
 element's drop panics

---
 src/vector/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..3a164ce 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -87,20 +87,21 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
 
     /// Clears all of the contents
     pub fn clear(&mut self) {
-        if !self.begin_ptr.is_null() {
+        let (begin_ptr, len, capacity) = (self.begin_ptr, self.len(), self.capacity());
+
+        // reset our contents first, so that nothing is dropped twice if an element's drop panics
+        self.begin_ptr = std::ptr::null_mut();
+        self.end_ptr = std::ptr::null_mut();
+        self.capacity_ptr = std::ptr::null_mut();
+
+        if !begin_ptr.is_null() {
             unsafe {
                 // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                std::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(begin_ptr, len));
                 // free the array
-                self.allocator
-                    .deallocate::<T>(self.begin_ptr, self.capacity())
+                self.allocator.deallocate::<T>(begin_ptr, capacity)
             }
         }
-
-        // reset our contents
-        self.begin_ptr = std::ptr::null_mut();
-        self.end_ptr = std::ptr::null_mut();
-        self.capacity_ptr = std::ptr::null_mut();
     }
 
     /// Returns true if the vector is empty
-- 
2.43.0


From d247666c451e0b60f03f79f4ce143f601601bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 02/28] fix: Vector::append and assign must not drop
 uninitialized elements or lose surplus ones

---
 src/vector/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 3a164ce..a57cbdc 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -285,10 +285,12 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // clone each element into its uninitialized slot
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -298,14 +300,14 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The slice
     pub fn assign(&mut self, buf: &[T]) {
-        if buf.len() > self.capacity() {
-            self.reserve(buf.len() - self.capacity());
+        if !self.is_empty() {
+            // drop the previous elements
+            let old_elems: *mut [T] = self.as_slice_mut();
+            self.end_ptr = self.begin_ptr;
+            unsafe { std::ptr::drop_in_place(old_elems) };
         }
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
-        }
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From ef11a5c715eadf61626604a2bad167d5e175f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 03/28] fix: String::assign must replace the previous contents
 instead of appending

---
 src/string/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..4a31d95 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -73,10 +73,8 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        self.reserve(buf.as_ref().len());
-
-        // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        // replace the previous contents
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From 8cabc4b53468b97d4e2ebaa41ed29a328f09d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:37 +0000
Subject: [PATCH 04/28] fix: keep String NUL-terminated after with_capacity,
 reserve and remove

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 4a31d95..6cd4a57 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // null terminate
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -154,7 +159,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -165,7 +175,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // null terminate
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From 7f177a2dc3208143b1af3efbfaaf89c7a1708589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 05/28] fix: String push, insert, pop and remove must work on
 whole UTF-8 chars

---
 src/string/mod.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 6cd4a57..c3f41a8 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -126,7 +126,12 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.chars().next_back();
+
+        // pop each byte of the char
+        for _ in 0..elem.map_or(0, char::len_utf8) {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -135,7 +140,7 @@ impl<A: Allocator> String<A> {
     }
 
     /// Inserts a char into the string at an index.
-    /// `index` must be less than or equal to `size`
+    /// `index` must be less than or equal to `size`, and lie on a char boundary
     ///
     /// # Arguments
     ///
@@ -143,29 +148,38 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(
+            self.is_char_boundary(index),
+            "index out of bounds or not on a char boundary"
+        );
+
+        // insert each byte of the char
+        let mut buf = [0; 4];
+        for (offset, byte) in elem.encode_utf8(&mut buf).bytes().enumerate() {
+            self.vec.insert(index + offset, byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
     }
 
-    /// Remove the char at the index and return it
+    /// Remove the char that starts at the index and return it
     ///
     /// # Arguments
     ///
     /// `index`: The index of the element to remove
     pub fn remove(&mut self, index: usize) -> Option<char> {
-        // account for null terminator
-        if index >= self.len() {
-            None
-        } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
-
-            // null terminate
-            unsafe { self.null_terminate() }
+        let elem = self.get(index..)?.chars().next()?;
 
-            elem
+        // remove each byte of the char
+        for _ in 0..elem.len_utf8() {
+            self.vec.remove(index);
         }
+
+        // null terminate
+        unsafe { self.null_terminate() }
+
+        Some(elem)
     }
 
     /// Reserves space for chars within the string
-- 
2.43.0


From e2f372ccc35a20737f117eb8cbf15b7e32adfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:02 +0000
Subject: [PATCH 06/28] fix: Deque must free its last subarray on drop

---
 src/deque/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..2b3a02d 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -445,7 +445,8 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    // the end iterator's subarray is always allocated as well
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From 1f96369c439fcddb2a746b8cffb57d4dd337267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 07/28] fix: HashTable must free its bucket arrays

---
 src/internal/hash_table/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..70feed3 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -347,6 +347,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array itself
+    fn free_bucket_array(&mut self) {
+        // the bucket array of an empty hash table is static
+        if self.bucket_count > 1 {
+            unsafe {
+                // account for the sentinel
+                self.allocator
+                    .deallocate(self.bucket_array, self.bucket_count as usize + 1)
+            }
+        }
+    }
+
     /// Inserts a key-value pair into the hash-table.
     ///
     /// # Arguments
@@ -413,6 +425,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             });
         // free the old buckets before setting new ones
         self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -431,6 +444,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From fb79f715f583aeaddec5ec96b92f449e6deeb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:43 +0000
Subject: [PATCH 08/28] fix: free hash buckets iteratively and unlink each node
 before dropping it

---
 src/internal/hash_table/mod.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 70feed3..48c0c3a 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -318,16 +318,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: &mut *mut Node<K, V>) {
+        while !bucket.is_null() {
+            let node = *bucket;
+            unsafe {
+                // unlink the node first, so that it is not freed again if its drop panics
+                *bucket = (*node).next;
+                // drop and free our node
+                std::ptr::drop_in_place(node);
+                self.allocator.deallocate(node, 1)
+            }
         }
     }
 
@@ -339,11 +340,9 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             let buckets = unsafe {
                 std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
             };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
+            for bucket in buckets {
                 self.free_bucket(bucket)
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From e9c489723955aa1b3d775ef3ec8a925df042160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 09/28] fix: HashSet::insert must return true when the key was
 inserted

---
 src/hash_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From 7c15ebeced95187c0fb7ee15938e47b5a4d8d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:46 +0000
Subject: [PATCH 10/28] fix: hash iterators must convert to and from EASTL's
 begin/end pairs

---
 src/internal/hash_table/iter.rs | 68 ++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..dbf0bdc 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -42,21 +42,22 @@ struct RawIter<'a, K: PartialEq + 'a, V: 'a> {
 }
 
 impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
+    /// The node that terminates the bucket array
+    const SENTINEL: *mut Node<K, V> = !0 as *mut Node<K, V>;
+
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
+        let (begin, end) = unsafe { self.into_compat_mut() };
         (
             CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
+                node_ptr: begin.node_ptr,
+                bucket_ptr: begin.bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
             CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
+                node_ptr: end.node_ptr,
+                bucket_ptr: end.bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
         )
@@ -70,19 +71,23 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
+        let buckets = self.bucket_iter.as_slice().as_ptr_range();
+        // like C++, the end iterator points to the sentinel
+        let (node_ptr, bucket_ptr) = if self.node_ptr.is_null() {
+            (Self::SENTINEL, buckets.end)
+        } else {
+            // the bucket iterator is already past the bucket of the current node
+            (self.node_ptr, buckets.start.sub(1))
+        };
         (
             CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
+                node_ptr,
+                bucket_ptr,
                 _marker: PhantomData,
             },
             CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
+                node_ptr: Self::SENTINEL,
+                bucket_ptr: buckets.end,
                 _marker: PhantomData,
             },
         )
@@ -102,14 +107,18 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_compat_mut(
+            CompatIterMut {
+                node_ptr: begin.node_ptr,
+                bucket_ptr: begin.bucket_ptr as *const *mut Node<K, V>,
+                _marker: PhantomData,
+            },
+            CompatIterMut {
+                node_ptr: end.node_ptr,
+                bucket_ptr: end.bucket_ptr as *const *mut Node<K, V>,
+                _marker: PhantomData,
+            },
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,11 +135,18 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
+        // like C++, the end iterator points to the sentinel
+        let (node_ptr, next_bucket_ptr) = if begin.bucket_ptr == end.bucket_ptr {
+            (std::ptr::null_mut(), end.bucket_ptr)
+        } else {
+            // the bucket of the current node is already visited
+            (begin.node_ptr, begin.bucket_ptr.add(1))
+        };
         Self {
-            node_ptr: begin.node_ptr,
+            node_ptr,
             bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
+                next_bucket_ptr,
+                end.bucket_ptr.offset_from(next_bucket_ptr) as usize,
             )
             .iter(),
         }
-- 
2.43.0


From 50e3839e4cc0402beb90f696c683a0c5ff06c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 11/28] fix: hash C strings by their raw bytes

---
 src/hash.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..db53c55 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -98,11 +98,11 @@ impl Hash<bool> for DefaultHash<bool> {
 /// # Arguments
 ///
 /// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+fn fnv1<S: AsRef<[u8]>>(str: S) -> usize {
     let mut res: u32 = 2166136261;
     str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+        .iter()
+        .for_each(|&c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
     res as usize
 }
 
@@ -120,7 +120,8 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        // hash the raw bytes, as the string is not necessarily UTF-8
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From 99e70d4fe06bb0240f0297dd2af40aff59fd2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:48 +0000
Subject: [PATCH 12/28] fix: List must deallocate nodes with the type and count
 they were allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From 786b5f5fe4d39671559d51ee6e502c53cfedd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 13/28] fix: List::clear must not drop values twice when a
 value's drop panics

---
 src/list/mod.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..93bf831 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -71,20 +71,11 @@ impl<T, A: Allocator> List<T, A> {
 
     /// Remove all elements from this list
     pub fn clear(&mut self) {
-        let mut next = self.node.next;
-        unsafe {
-            while next != &mut self.node {
-                let to_drop = next;
-                // Advance the next pointer before we delete the current node
-                next = (*next).next;
-                // Drop the value
-                ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
-                // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
-            }
+        // each node is unlinked and freed before its value is dropped, so that the list stays
+        // consistent if the drop panics
+        while let Some(value) = self.pop_front() {
+            drop(value);
         }
-        self.init_sentinel_node();
-        self.size = 0;
     }
 
     /// If the list is empty or not
-- 
2.43.0


From 9cee8c45248a5594260391d78033279408820d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 14/28] fix: clearing a red-black tree must drop its pairs and
 detach its nodes

---
 src/internal/rb_tree/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..1b28ee0 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,13 +259,24 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(root as *mut Node<K, V>);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
     fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
+        let root = self.parent;
+
+        // detach the nodes, so that they are not reachable once they are freed
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
+
+        if let Some(node) = unsafe { root.as_mut() } {
             self.free_tree(node)
         }
     }
-- 
2.43.0


From 522b36f179731e0f1d91a9a331d6d6965d01d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 15/28] fix: FixedVector::move_new must not swap with the
 uninitialized target

---
 src/fixed_vector/mod.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..c61debd 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,7 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +63,22 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let has_overflowed = src.has_overflowed();
+        let len = src.base_vec.len();
+        // Move everything over. `src` is not dropped, and `this` is uninitialized before
+        let this = this
+            .get_unchecked_mut()
+            .write(MoveRef::into_inner(Pin::into_inner_unchecked(src)));
+        if !has_overflowed {
+            // We haven't overflowed, so we need to re-init the base vec pointers to point to our buffer
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // We have overflowed, so the base vec pointers stay valid, but the pool is our buffer now
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From d793bc89169955e786d99325d2d6506b7a224eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 16/28] fix: clearing a FixedVector must return to its fixed
 buffer

---
 src/fixed_vector/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index c61debd..86a4d43 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -83,6 +83,12 @@ unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
 }
 
 impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT, A> {
+    /// Clears all of the contents and returns to the fixed buffer
+    pub fn clear(&mut self) {
+        self.base_vec.clear();
+        self.init_base_vec();
+    }
+
     /// Returns the max fixed size, which is the user-supplied NodeCount parameter
     pub fn max_size(&self) -> usize {
         NODE_COUNT
@@ -90,7 +96,8 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
 
     /// Returns true if the allocations spilled over into the overflow allocator. Meaningful only if overflow is enabled.
     pub fn has_overflowed(&self) -> bool {
-        !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
+        !self.base_vec.begin_ptr.is_null()
+            && !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
     }
 }
 
-- 
2.43.0


From 3458b1e6c3560b6941ff6744a2d924bdb712522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:43 +0000
Subject: [PATCH 17/28] fix: allocation sizes and capacities must not silently
 overflow

---
 src/allocator.rs                        | 9 ++++-----
 src/string/mod.rs                       | 3 ++-
 src/string/null_terminator_allocator.rs | 3 ++-
 src/vector/mod.rs                       | 5 ++++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..c70557f 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,11 +13,10 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
-        unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
-        }
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("allocation size overflow");
+        unsafe { std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>())) }
     }
 
     /// Allocate `n` bytes aligned to usize. `n` must not be zero.
diff --git a/src/string/mod.rs b/src/string/mod.rs
index c3f41a8..f349c64 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -189,7 +189,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1);
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
 
         // null terminate
         unsafe { self.null_terminate() }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..e075ebc 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -5,7 +5,8 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let size = n.checked_add(1).expect("allocation size overflow");
+        let res = self.0.allocate_raw_aligned(size, align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index a57cbdc..44d1102 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -207,7 +207,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From 7df91e6dd001a0cc945d2193bb77cd2fd59f3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 18/28] fix: DefaultAllocator must not return null when memory
 is exhausted

---
 src/allocator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index c70557f..5bdde45 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -101,11 +101,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout)
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
-- 
2.43.0


From bf0db08635a89dbe26819f1456cf0344f6316852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 19/28] fix: red-black tree nodes must hold their pair in C
 layout

---
 src/internal/rb_tree/iter.rs |  2 +-
 src/internal/rb_tree/node.rs | 14 +++++++++-----
 src/util.rs                  |  8 ++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/internal/rb_tree/iter.rs b/src/internal/rb_tree/iter.rs
index ec169c1..d49334b 100644
--- a/src/internal/rb_tree/iter.rs
+++ b/src/internal/rb_tree/iter.rs
@@ -42,7 +42,7 @@ impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> {
         unsafe { self.node.as_mut() }.map(|node| {
             // update the iterator
             self.node = node.next_mut();
-            (&node.pair.0, &mut node.pair.1)
+            (&node.pair.first, &mut node.pair.second)
         })
     }
 }
diff --git a/src/internal/rb_tree/node.rs b/src/internal/rb_tree/node.rs
index 0f36fe1..502357c 100644
--- a/src/internal/rb_tree/node.rs
+++ b/src/internal/rb_tree/node.rs
@@ -1,3 +1,4 @@
+use crate::util::Pair;
 use duplicate::duplicate_item;
 use std::{fmt::Debug, marker::PhantomData, ptr};
 
@@ -88,7 +89,7 @@ pub struct Node<K, V> {
     pub right: *mut Node<K, V>,
     pub left: *mut Node<K, V>,
     pub parent: ParentColor<K, V>,
-    pub(crate) pair: (K, V),
+    pub(crate) pair: Pair<K, V>,
 }
 
 impl<K: Default, V: Default> Default for Node<K, V> {
@@ -97,7 +98,10 @@ impl<K: Default, V: Default> Default for Node<K, V> {
             right: std::ptr::null_mut(),
             left: std::ptr::null_mut(),
             parent: ParentColor::default(),
-            pair: (K::default(), V::default()),
+            pair: Pair {
+                first: K::default(),
+                second: V::default(),
+            },
         }
     }
 }
@@ -234,17 +238,17 @@ impl<K, V> Node<K, V> {
 
     /// The key stored in the node
     pub fn key(&self) -> &K {
-        &self.pair.0
+        &self.pair.first
     }
 
     /// The value stored in the node
     pub fn val(&self) -> &V {
-        &self.pair.1
+        &self.pair.second
     }
 
     /// The value stored in the node
     pub fn val_mut(&mut self) -> &mut V {
-        &mut self.pair.1
+        &mut self.pair.second
     }
 }
 
diff --git a/src/util.rs b/src/util.rs
index 25f49d0..899a422 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -9,3 +9,11 @@ pub unsafe fn rotate<'a, I: 'a, I1: Iterator<Item = &'a mut I>, I2: Iterator<Ite
         mem::swap(current, next)
     }
 }
+
+/// A key-value pair, laid out like `eastl::pair`. The layout of a tuple is unspecified
+#[repr(C)]
+#[derive(Debug)]
+pub struct Pair<K, V> {
+    pub first: K,
+    pub second: V,
+}
-- 
2.43.0


From afe4384c368923f57a01f609684a076851f53b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 20/28] fix: hash nodes must hold their pair in C layout

---
 src/internal/hash_table/entry.rs |  7 ++++---
 src/internal/hash_table/iter.rs  |  2 +-
 src/internal/hash_table/mod.rs   |  4 ++--
 src/internal/hash_table/node.rs  | 17 ++++++++++-------
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/internal/hash_table/entry.rs b/src/internal/hash_table/entry.rs
index 67b4264..688029d 100644
--- a/src/internal/hash_table/entry.rs
+++ b/src/internal/hash_table/entry.rs
@@ -27,7 +27,7 @@ impl<'a, K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Entry<'a, K, V
     /// `f`: A function taking a mutable reference to the value.
     pub fn and_modify<F: Fn(&mut V)>(mut self, f: F) -> Self {
         if let Self::Occupied(occupied) = &mut self {
-            f(&mut occupied.val);
+            f(&mut occupied.pair.second);
         }
 
         self
@@ -49,13 +49,14 @@ impl<'a, K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Entry<'a, K, V
     /// `default`: A function producing a default value.
     pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'a mut V {
         match self {
-            Self::Occupied(v) => &mut v.val,
+            Self::Occupied(v) => &mut v.pair.second,
             Self::Vacant(entry) => {
                 let val = default();
                 &mut entry
                     .table
                     .insert_impl(entry.target_bucket, entry.key, val)
-                    .val
+                    .pair
+                    .second
             }
         }
     }
diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index dbf0bdc..7621458 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -195,7 +195,7 @@ impl<'a, K: PartialEq, V> Iterator for RawIter<'a, K, V> {
             .unwrap_or_else(std::ptr::null_mut);
         // of course it is safe to deref old_ptr here because
         // we have already verified it is non-null
-        Some(unsafe { (&(*old_ptr).key, &mut (*old_ptr).val) })
+        Some(unsafe { (&(*old_ptr).pair.first, &mut (*old_ptr).pair.second) })
     }
 }
 
diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 48c0c3a..85aa335 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -207,8 +207,8 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             } else {
                 let node = *bucket;
                 (*bucket) = (**bucket).next;
-                let key = std::ptr::read(&(*node).key);
-                let value = std::ptr::read(&(*node).val);
+                let key = std::ptr::read(&(*node).pair.first);
+                let value = std::ptr::read(&(*node).pair.second);
                 // notice we don't drop the key or value here.
                 // we don't want to drop them now and still have
                 // binary copies of them existing
diff --git a/src/internal/hash_table/node.rs b/src/internal/hash_table/node.rs
index 186ef2f..0c94497 100644
--- a/src/internal/hash_table/node.rs
+++ b/src/internal/hash_table/node.rs
@@ -1,8 +1,9 @@
+use crate::util::Pair;
+
 /// A node in a hashtable
 #[repr(C)]
 pub struct Node<K: PartialEq, V> {
-    pub key: K,
-    pub val: V,
+    pub pair: Pair<K, V>,
     pub next: *mut Self,
 }
 
@@ -18,25 +19,27 @@ impl<K: PartialEq, V> Node<K, V> {
     /// `next`: The next linked node in the list
     pub fn new(key: K, value: V, next: *mut Self) -> Self {
         Self {
-            key,
-            val: value,
+            pair: Pair {
+                first: key,
+                second: value,
+            },
             next,
         }
     }
 
     /// Returns the key of the node
     pub fn key(&self) -> &K {
-        &self.key
+        &self.pair.first
     }
 
     /// Returns the value of the node
     pub fn value(&self) -> &V {
-        &self.val
+        &self.pair.second
     }
 
     /// Returns the value of the node
     pub fn value_mut(&mut self) -> &mut V {
-        &mut self.val
+        &mut self.pair.second
     }
 
     /// Returns the next node following this node
-- 
2.43.0


From 119a19f3bf008eb0d5746b3904dab20699e8fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 21/28] fix: stepping past the last tree node must not treat
 the anchor as a node

---
 src/internal/rb_tree/node.rs | 44 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/internal/rb_tree/node.rs b/src/internal/rb_tree/node.rs
index 502357c..7554844 100644
--- a/src/internal/rb_tree/node.rs
+++ b/src/internal/rb_tree/node.rs
@@ -196,16 +196,18 @@ impl<K, V> Node<K, V> {
         old_right
     }
 
-    /// Returns the next node in the tree, in increasing order.
-    ///
-    /// # Safety
-    /// This method returns
+    /// Returns the next node in the tree, in increasing order. The successor of the
+    /// last node is the tree's anchor, which holds links only: it must not be
+    /// dereferenced as a node.
     #[duplicate_item(
-        next        Self        Node;
-        [next]      [Self]      [Node];
-        [next_mut]  [mut Self]  [mut Node]
+        next        Self        Ptr;
+        [next]      [Self]      [*const Node<K, V>];
+        [next_mut]  [mut Self]  [*mut Node<K, V>]
     )]
-    pub fn next(mut self: &Self) -> &Node<K, V> {
+    pub fn next(self: &Self) -> Ptr {
+        // a node without a pair, which is all there is to the anchor
+        type Links = Node<(), ()>;
+
         if let Some(mut right_node) = unsafe { self.right.as_mut() } {
             // the successor lies in the right subtree. find the smallest value in the greater
             // subtree, which is the left-most node.
@@ -219,20 +221,22 @@ impl<K, V> Node<K, V> {
             // parent's left node (meaning the parent is the first node greater than the node)
             // safety: the parent of a node is always present, because the parent of the root node
             // is inside the tree itself
-            let mut parent = unsafe { &mut *self.parent.ptr() };
-            while ptr::eq(self as *const _, parent.right as *const _) {
-                let parent_parent = unsafe { &mut *parent.parent.ptr() };
-                self = parent;
-                parent = parent_parent;
-            }
-
-            // I have deliberated on this and truly have no clue why we are doing this, but it works
-            // and is how it is originally implemented
-            if !ptr::eq(self.right, parent) {
-                self = parent;
+            let mut node = self as *const Node<K, V> as *mut Links;
+            let mut parent = self.parent.ptr() as *mut Links;
+            unsafe {
+                while ptr::eq(node, (*parent).right) {
+                    node = parent;
+                    parent = (*parent).parent.ptr();
+                }
+
+                // I have deliberated on this and truly have no clue why we are doing this, but it works
+                // and is how it is originally implemented
+                if !ptr::eq((*node).right, parent) {
+                    node = parent;
+                }
             }
 
-            self
+            node as Ptr
         }
     }
 
-- 
2.43.0


From b54de68b2dc076360ffde090af652741da2b06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:01 +0000
Subject: [PATCH 22/28] fix: an exhausted vector iterator must not form a
 reference past its allocation

---
 src/vector/into_iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vector/into_iter.rs b/src/vector/into_iter.rs
index 7405bfa..9208d5a 100644
--- a/src/vector/into_iter.rs
+++ b/src/vector/into_iter.rs
@@ -16,19 +16,19 @@ pub struct IntoIter<T: Sized, A: Allocator> {
 impl<T: Sized, A: Allocator> IntoIter<T, A> {
     /// Returns the vector as raw bytes
     pub fn as_slice(&self) -> &[T] {
-        if let Some(front_cursor) = unsafe { self.front_cursor.as_ref() } {
-            unsafe { std::slice::from_raw_parts(front_cursor, self.len()) }
-        } else {
+        if self.front_cursor.is_null() {
             &[]
+        } else {
+            unsafe { std::slice::from_raw_parts(self.front_cursor, self.len()) }
         }
     }
 
     /// Returns the vector as raw bytes
     pub fn as_slice_mut(&mut self) -> &mut [T] {
-        if let Some(front_cursor) = unsafe { self.front_cursor.as_mut() } {
-            unsafe { std::slice::from_raw_parts_mut(front_cursor, self.len()) }
-        } else {
+        if self.front_cursor.is_null() {
             &mut []
+        } else {
+            unsafe { std::slice::from_raw_parts_mut(self.front_cursor, self.len()) }
         }
     }
 
-- 
2.43.0


From 8223bef21c0097e9768e1143546345b177a0a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 23/28] fix: deque and queue iterators must borrow the
 container they walk

---
 src/deque/mod.rs | 4 ++--
 src/queue.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index 2b3a02d..80ebdd8 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -59,12 +59,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
     }
 
     /// Returns an iterator over the deque
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         unsafe { Iter::from_compat((&self.begin_it).into(), (&self.end_it).into()) }
     }
 
     /// Returns a mutable iterator over the deque
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         unsafe { IterMut::from_compat(self.begin_it.clone(), self.end_it.clone()) }
     }
 
diff --git a/src/queue.rs b/src/queue.rs
index 50e3fc3..3804206 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -36,12 +36,12 @@ impl<'a, T: 'a, A: Allocator> Queue<'a, T, A> {
     }
 
     /// Produces an iterator over all of the elements in the queue
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         self.deque.iter()
     }
 
     /// Produces a mutable iterator over all of the elements in the queue
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         self.deque.iter_mut()
     }
 
-- 
2.43.0


From 27faea1d78b7379918203657608a42655e805a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 24/28] fix: mutable iteration over a list needs exclusive
 access to it

---
 src/fixed_list/conformant.rs | 2 +-
 src/list/mod.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_list/conformant.rs b/src/fixed_list/conformant.rs
index cb7bb45..7a2b856 100644
--- a/src/fixed_list/conformant.rs
+++ b/src/fixed_list/conformant.rs
@@ -111,7 +111,7 @@ where
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> crate::list::iter::IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> crate::list::iter::IterMut<'_, T> {
         self.base_list.iter_mut()
     }
 
diff --git a/src/list/mod.rs b/src/list/mod.rs
index 93bf831..a740356 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -115,7 +115,7 @@ impl<T, A: Allocator> List<T, A> {
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         IterMut::new(&self.node, self.size())
     }
 
-- 
2.43.0


From 6442ad2582244d1547f808b522547f255536c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 25/28] fix: a mutable hash table iterator must not be
 cloneable

---
 src/internal/hash_table/iter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 7621458..026f8cb 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -296,7 +296,6 @@ impl<'a, K: PartialEq + 'a, V: 'a> Iterator for Iter<'a, K, V> {
 /// It is unspecified whether or not an element
 /// inserted after an iterator was created will
 /// be yielded by the iterator
-#[derive(Clone)]
 pub struct IterMut<'a, K: PartialEq + 'a, V: 'a> {
     inner: RawIter<'a, K, V>,
 }
-- 
2.43.0


From 609e993e21ce8620af7cd7eed1563c1b5e3b8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:49 +0000
Subject: [PATCH 26/28] fix: Deque does not free a null index array when its
 allocation panics

---
 src/deque/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index 80ebdd8..b085aab 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -453,7 +453,10 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             }
         }
 
-        self.free_ptr_array();
+        // there is no array if its allocation panicked
+        if !self.ptr_array.is_null() {
+            self.free_ptr_array();
+        }
     }
 }
 
-- 
2.43.0


From c89ee9df701e2096711eabfa09a10ce24acd30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 27/28] fix: String is left valid and terminated when its
 allocator panics

---
 src/string/mod.rs | 21 +++++++++++++++++----
 src/vector/mod.rs |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index f349c64..536905a 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -78,8 +78,13 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        // replace the previous contents
-        self.vec.assign(buf.as_ref().as_bytes());
+        let bytes = buf.as_ref().as_bytes();
+
+        // drop the previous contents first, so that the end is still null-terminated if the
+        // allocation of a larger buffer panics
+        self.vec.assign(&[]);
+        unsafe { self.null_terminate() }
+        self.vec.assign(bytes);
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
@@ -153,9 +158,17 @@ impl<A: Allocator> String<A> {
             "index out of bounds or not on a char boundary"
         );
 
-        // insert each byte of the char
         let mut buf = [0; 4];
-        for (offset, byte) in elem.encode_utf8(&mut buf).bytes().enumerate() {
+        let bytes = elem.encode_utf8(&mut buf).as_bytes();
+
+        // make room for the whole char first, so that no part of it is left behind if that panics
+        while self.capacity() - self.len() < bytes.len() {
+            self.vec.grow();
+            unsafe { self.null_terminate() }
+        }
+
+        // insert each byte of the char
+        for (offset, &byte) in bytes.iter().enumerate() {
             self.vec.insert(index + offset, byte);
         }
 
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 44d1102..2dd32ce 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -251,7 +251,7 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
     }
 
     /// Grows the array to fit additional elements
-    fn grow(&mut self) {
+    pub(crate) fn grow(&mut self) {
         let new_capacity = Self::calculate_grow_capacity(self.capacity());
         // reserve the additional needed capacity
         self.reserve(new_capacity - self.capacity());
-- 
2.43.0


From 8ac23aaa3483fb5da404fabb24e5687f057dc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:23 +0000
Subject: [PATCH 28/28] fix: keep the hash table's resize threshold when its
 rehash panics

The rehash policy stored the new threshold before the new bucket array was allocated. When that
allocation panicked, the next insertion believed the table was already large enough, and wrote to the
static empty bucket array.
---
 src/internal/hash_table/mod.rs           | 9 ++++++---
 src/internal/hash_table/rehash_policy.rs | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 85aa335..3215e8c 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -371,15 +371,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         key: K,
         value: V,
     ) -> &mut Node<K, V> {
-        // check if we need to re-hash
+        // check if we need to re-hash. the policy's new threshold is only stored once the table has
+        // been re-hashed, as we would otherwise insert into a table that is too small (or into the
+        // static empty bucket array) if the re-hash panics
+        let mut rehash_policy = self.rehash_policy.clone();
         if let Some(bucket_count) =
-            self.rehash_policy
-                .get_rehash_required(self.bucket_count, self.element_count, 1)
+            rehash_policy.get_rehash_required(self.bucket_count, self.element_count, 1)
         {
             self.rehash(bucket_count);
             // update the target bucket
             target_bucket = self.bucket_for_key_mut(&key);
         }
+        self.rehash_policy = rehash_policy;
         // allocate a new node and add it to the bucket
         let node = self.allocator.allocate::<Node<K, V>>(1);
         unsafe {
diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..838df9b 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -2,6 +2,7 @@ use superslice::Ext;
 
 /// The default hash policy which always keeps prime
 /// numbers of buckets
+#[derive(Clone)]
 #[repr(C)]
 pub struct PrimeRehashPolicy {
     max_load_factor: f32,
-- 
2.43.0

