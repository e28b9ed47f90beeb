From 9a70887c74365b9a0cb94a30df411c0582e88a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 1/6] fix: AABB::contains tests containment of points and boxes

Containment of a point had both comparisons inverted, so only degenerate
boxes contained anything, and containment of a box tested intersection.
---
 src/bounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From b2877d02fe9dcbed628b3615f27e9886759f715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 2/6] fix: remove takes out the first entry with the key

Children of inner nodes were searched from last to first, so with several
equal keys the entry removed was not the one get() reports.
---
 src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..0113de4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,7 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From 97308ed4bb695edb386195e891b94acbf66eda8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 3/6] fix: a ray starts at its origin and does not miss flat
 boxes

The ray was treated as an infinite line, boxes without volume along the ray
were missed, and the first dimension did not tolerate a zero delta.
---
 src/intersects.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..0409576 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,12 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    let mut tmin: f64 = 0.0;
+    // Finite, so that a ray parallel to and outside of a slab, for which both
+    // intersections are infinitely far away, does not intersect.
+    let mut tmax: f64 = f64::MAX;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +52,7 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    tmin <= tmax
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From 1d2c2e1f93ecc944faef7f7d396e575441583e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 4/6] fix: queries do not hand an empty tree's bounds to
 filters and rankings

The bounds of an empty root are Bounds::empty(), whose extreme coordinates
overflow in the built-in rankings and filters. An empty root is now treated
as having no items.
---
 src/iter.rs      | 56 +++++++++++++++++++++++++++---------------------
 src/join.rs      |  5 ++++-
 src/left_join.rs | 12 +++++++----
 src/node.rs      |  4 ++++
 4 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..991e78d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,7 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +278,7 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +361,12 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +435,14 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,11 +508,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItem { node: root.node() },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItem { node: root.node() },
+                });
+            }
         }
         Self {
             ranking,
@@ -580,13 +586,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItemMut {
-                    node: root.into_node(),
-                },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItemMut {
+                        node: root.into_node(),
+                    },
+                });
+            }
         }
         Self {
             ranking,
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..08e1073 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,10 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..a15912f 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,19 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index 0113de4..6434a39 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -643,6 +643,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         }
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     pub(crate) fn into_get_mut<Q>(self, key: &Q) -> Option<&'a mut Value>
     where
         B: Contains<B>,
-- 
2.43.0


From d66f62416a4462dbceb03f7d72b588031cd177d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 5/6] fix: zero-sized entries do not allocate and are not lost

FCVec asked the global allocator for zero bytes, and its IntoIter walked
entries by pointer, which loses zero-sized ones and divides by zero in
size_hint.
---
 src/fc_vec.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..33bd2a0 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -128,9 +128,14 @@ impl Alloc {
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
+        let buf = if layout.size() == 0 {
+            // Zero-sized allocations are not allowed, and no memory is needed
+            NonNull::dangling()
+        } else {
+            match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+                Some(ptr) => ptr,
+                None => alloc::handle_alloc_error(layout),
+            }
         };
         FCVecContainer {
             data: FCVec { buf, len: 0 },
@@ -334,7 +339,9 @@ impl<'a, T> FCVecRefMut<'a, T> {
         while self.pop().is_some() {}
 
         let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        }
     }
 }
 
@@ -441,13 +448,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +505,8 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +517,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +536,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -543,8 +548,10 @@ impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            unsafe {
+                alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+            }
         }
     }
 }
-- 
2.43.0


From 811babae6474c4c21c529b838cebabbfb8558fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 6/6] fix: the root collapses until it has two children or is a
 leaf

With min_children = 1 the child that replaces the root may itself have one
child. Removing the remaining entries then left an inner root without
children, and the next insertion panicked.
---
 src/node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6434a39..2bd9c84 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -772,7 +772,8 @@ where
             let level = children.level();
             reinsert_entries[level] = Some(children.leak());
         }) {
-            self.try_unbranch();
+            // The child that becomes the new root may have a single child too
+            while self.try_unbranch() {}
 
             for (level, entries) in reinsert_entries.iter_mut().enumerate() {
                 if let Some(entries) = entries.take() {
@@ -843,7 +844,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// If the root is an inner node with a single child, replaces the root with
+    /// that child. Returns `true` if the root was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -859,6 +862,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0

