From 943d705fa7f4e258a3644c9903dfeb24405c0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 01/14] fix: AABB::contains(point) tests the point against the
 right corners

The comparisons were reversed, so a box contained a point only when both
corners were equal to it. This also broke SVec: Intersects<SAABB>.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..36c5b44 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From 264e5d719d7ef2f24c40c45f52cafb9680a80c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 02/14] fix: AABB::contains(AABB) tests containment instead of
 intersection

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36c5b44..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From e545819f5212a0e8d99431bc657206287c6b9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/14] fix: RTree::remove removes the first of several equal
 entries

The documentation of get, get_mut, insert_unique and remove refers to the
first entry. remove searched inner nodes backwards, so with duplicate keys
it removed a different entry than get returned.
---
 src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..0113de4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,7 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From b2b43cd8d5e81182ccb340ce20a9db265ce80fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 04/14] fix: remove no longer leaves an inner root without
 children

With min_children = 1 the root could keep a single child after a removal.
Removing the last entries below it then left an inner root without
children, and the next insert panicked. Shrink the root until it is a leaf
or has at least two children.
---
 src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 0113de4..3d67d5b 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -768,8 +768,6 @@ where
             let level = children.level();
             reinsert_entries[level] = Some(children.leak());
         }) {
-            self.try_unbranch();
-
             for (level, entries) in reinsert_entries.iter_mut().enumerate() {
                 if let Some(entries) = entries.take() {
                     // SAFETY: The children in `reinsert_entries` are placed in
@@ -793,6 +791,9 @@ where
                 }
             }
 
+            // The remaining child of the root may itself have a single child.
+            while self.try_unbranch() {}
+
             Some(value)
         } else {
             None
@@ -839,7 +840,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces a root with a single child by that child. Returns `true` if the
+    /// root was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -855,6 +858,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From 9436d9eee688b3724741feb62dedb1f23c08bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 05/14] fix: remove empty nodes when min_children is 0

Empty nodes were kept, so is_empty() returned false for a tree without
entries and later inserts computed the volume of empty bounds.
---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 3d67d5b..653c2ca 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -529,7 +529,7 @@ where
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
                         if let Some(value) = value {
-                            if child.shallow_len() < min_children {
+                            if child.shallow_len() < min_children.max(1) {
                                 let child = children.swap_remove(i);
                                 on_underfull(child.children());
                             }
-- 
2.43.0


From f4c896353f8d575e33a2e6be6f575e39b78ac27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 06/14] fix: compute SAABB volume without overflowing the
 scalar type

Inserting keys more than N::MAX apart, such as -100 and 100 for i8, panicked
with an arithmetic overflow.
---
 src/bounds.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 8cb220f..9ebb642 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,7 +140,11 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64((max.clone() - min.clone()).into()))
+            .map(|(min, max)| {
+                // Convert before subtracting, the difference may overflow N
+                let (min, max): (f64, f64) = (min.clone().into(), max.clone().into());
+                n64(max - min)
+            })
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
-- 
2.43.0


From de26313070a5bb0c91a24acc5db82cbf8fd35a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 07/14] fix: compute SAABB::sq_dist_to without overflowing the
 scalar type

For unsigned scalars the distance between any two disjoint boxes overflowed.
---
 src/bounds.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 9ebb642..36d0bed 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -163,9 +163,10 @@ where
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
             // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64((rhs_min.clone() - lhs_max.clone()).into());
+            // (converted before subtracting, the difference may overflow N)
+            let lhs_then_rhs = n64(rhs_min.clone().into() - lhs_max.clone().into());
             // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64((lhs_min.clone() - rhs_max.clone()).into());
+            let rhs_then_lhs = n64(lhs_min.clone().into() - rhs_max.clone().into());
 
             // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
             let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
-- 
2.43.0


From b1e60cf62ca4f521278b750ec71a9292f7bf3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/14] fix: ray intersection ignores boxes behind the origin
 and includes edges

The range of the ray was not limited to t >= 0, so boxes behind the origin
intersected. Boxes touched by the ray in a single point or flat in the
direction of the ray did not, and neither did rays along an edge of the
box in the first dimension, where 0 * inf = NaN spread to the result.
---
 src/intersects.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..2cb7749 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,10 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    let mut tmin: f64 = 0.0;
+    let mut tmax: f64 = f64::INFINITY;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +50,7 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    tmin <= tmax
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From 118e77e5f917ff0389dd6860b42498d543c03cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/14] fix: split fills both groups to min_children whenever
 that is possible

The first group was topped up one value too early, leaving the second group
below min_children when 2 * min_children = max_children + 1.
---
 src/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split.rs b/src/split.rs
index 747e697..0b35eec 100644
--- a/src/split.rs
+++ b/src/split.rs
@@ -126,7 +126,7 @@ where
             let add_to_group_1 = if candidate_1.1 < candidate_2.1 {
                 group_2.len() + remaining.len() > min_children
             } else {
-                group_1_len + remaining.len() - 1 == min_children
+                group_1_len + remaining.len() == min_children
             };
 
             if add_to_group_1 {
-- 
2.43.0


From ed23e8a2c0c82727da9ce1ead4153baf90bf8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 10/14] fix: ranked queries on an empty R-tree do not rank
 empty bounds

min_by with a EuclideanDistanceRanking on an empty tree with integer
coordinates panicked with an arithmetic overflow instead of returning None,
because the empty bounds of the root extend from N::MAX to N::MIN.
---
 src/iter.rs | 56 ++++++++++++++++++++++++++++++++---------------------
 src/node.rs |  4 ++++
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..28e77ef 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -361,10 +361,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        // The bounds of an empty root are empty and cannot be ranked
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +436,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        // The bounds of an empty root are empty and cannot be ranked
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,11 +510,14 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItem { node: root.node() },
-            });
+        // The bounds of an empty root are empty and cannot be ranked
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItem { node: root.node() },
+                });
+            }
         }
         Self {
             ranking,
@@ -580,13 +589,16 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItemMut {
-                    node: root.into_node(),
-                },
-            });
+        // The bounds of an empty root are empty and cannot be ranked
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItemMut {
+                        node: root.into_node(),
+                    },
+                });
+            }
         }
         Self {
             ranking,
diff --git a/src/node.rs b/src/node.rs
index 653c2ca..798e102 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -566,6 +566,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         self.node
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     pub(crate) fn into_node(self) -> &'a mut Node<B, Key, Value> {
         self.node
     }
-- 
2.43.0


From 9f07280aba9f76fad6d7d35f65c6a7d679a8042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 11/14] fix: filtered iteration of an empty R-tree does not
 test empty bounds

Testing a line or ray against the empty bounds of the root, which extend
from N::MAX to N::MIN, panicked with an arithmetic overflow.
---
 src/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 28e77ef..02ba5dd 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,7 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +278,7 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
-- 
2.43.0


From bf9f94bf9a05d948d2cfaf7bf818e0d10f9f7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 12/14] fix: joins with an empty R-tree do not test empty
 bounds

A distance filter using SAABB::sq_dist_to or any other arithmetic on the
empty bounds of an empty root could overflow.
---
 src/join.rs      |  5 ++++-
 src/left_join.rs | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index 7c2c756..08e1073 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,10 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..59969f9 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,20 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        // The bounds of an empty root are empty and cannot be tested
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
-- 
2.43.0


From 0fe80dd2fa10cc64bd98dc637a06329cc3380c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 13/14] fix: removal keeps zero-sized entries

The iterator over the entries of an underfull node compared pointers, which
are all equal for zero-sized entries, so none of them were reinserted. Also
avoid zero-sized allocations, which are undefined behavior.
---
 src/fc_vec.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..4b931c1 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -128,9 +128,14 @@ impl Alloc {
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
+        let buf = if layout.size() == 0 {
+            // Zero-sized allocations are not allowed
+            NonNull::dangling()
+        } else {
+            match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+                Some(ptr) => ptr,
+                None => alloc::handle_alloc_error(layout),
+            }
         };
         FCVecContainer {
             data: FCVec { buf, len: 0 },
@@ -334,7 +339,9 @@ impl<'a, T> FCVecRefMut<'a, T> {
         while self.pop().is_some() {}
 
         let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        }
     }
 }
 
@@ -441,13 +448,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +505,9 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    // Indices, because pointers cannot tell zero-sized values apart
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +518,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +537,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -543,8 +549,10 @@ impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            unsafe {
+                alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+            }
         }
     }
 }
-- 
2.43.0


From 4399a0b170865d2f623eb3369bcb4497891dcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:21 +0000
Subject: [PATCH 14/14] fix: volumes too large for f64 count as the largest f64

Where boxes with f64 coordinates are so large that their volume is infinite,
the volume increase is the difference of two infinities, and insertion
panicked (unexpected NaN). So did the volume of a flat box with an infinite
side.
---
 src/bounds.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36d0bed..a4eb188 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -138,14 +138,18 @@ where
             panic!("Cannot calculate volume of bounds with D = 0")
         }
 
+        // What is too large for f64 counts as the largest f64. Infinite volumes
+        // cannot be subtracted from each other.
+        let finite = |x: f64| n64(x.clamp(f64::MIN, f64::MAX));
+
         self.min
             .zip(&self.max)
             .map(|(min, max)| {
                 // Convert before subtracting, the difference may overflow N
                 let (min, max): (f64, f64) = (min.clone().into(), max.clone().into());
-                n64(max - min)
+                finite(max - min)
             })
-            .reduce(|acc, length| acc * length)
+            .reduce(|acc, length| finite(acc.raw() * length.raw()))
             .unwrap()
     }
 }
-- 
2.43.0

