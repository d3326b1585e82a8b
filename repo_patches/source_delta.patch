From 72958534cd26970ae47ebb6c5a8ce3de59ef512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 01/24] fix: keep computed aabbs in primitive order

par_bridge yields items in no particular order, so aabbs[i] did not belong to
primitives[i] whenever the builder computed the boxes itself.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..0fc96a0 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 41da78dc9da08bf614f55a7aa392c6f82e11f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 02/24] fix: refit must keep the tree topology

Overwriting the whole Aabb reset the count and left_first stored next to the
extents, which turned every node into an empty leaf.
---
 src/bvh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 0fc96a0..4f4417d 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -196,8 +196,9 @@ impl Bvh {
                 aabb.offset_by(0.0001);
             }
 
-            // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            // Overwrite the extents only, the bounds also store the node's count and left_first
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From a6c28f603bef92b584201ff23bb2d22d26609a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 03/24] fix: bound the left child of a binned split by the bins
 that went left

The fallback median split changes both axis and split index, the left box was
still accumulated up to the SAH split of that axis.
---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From 0a4e16f863014a10c2838ac9a78480a33dca7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 04/24] fix: interpolate along the edge when splitting a
 triangle

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..5719260 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From e073642c0adcfdde7cbaa03ae5aa63b0d4a35121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 05/24] fix: let the right child follow its moved references

The references of the right child are moved back to make room for splits of
the left child, but the right work item kept the old range and lost the last
references.
---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5719260..ad45e79 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -422,6 +422,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         }
 
         let left_end = right_begin;
+        let right_begin = right_begin + left_split_count;
+        let right_end = right_end + left_split_count;
 
         let left_item = WorkItem::new(
             new_nodes.left,
@@ -435,7 +437,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         let right_item = WorkItem::new(
             new_nodes.right,
             right_begin,
-            right_end ,
+            right_end,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From 95d3fb65ae6e615950fc85226e7b5d822e366ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 06/24] fix: offset the equal split of references by the start
 of the work item

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index ad45e79..0bf05ae 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -649,7 +649,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From 832fcebf46c83d219b1530c4b53dcadd760075e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 07/24] fix: sort spatial references with a total order

The tolerance made the comparison inconsistent (a < b but b == a), which
sort_by is allowed to punish with a panic.
---
 src/builders/spatial_sah.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 0bf05ae..95542de 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -320,13 +320,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
                     let a_center = a.center[axis];
                     let b_center = b.center[axis];
 
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a_center.total_cmp(&b_center)
                 });
             }
         }
-- 
2.43.0


From e4c3b8aeee08d68cfb441d13d59b24ab79f3ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 08/24] fix: partition all axes of an object split by reference
 instead of by primitive

---
 src/builders/spatial_sah.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 95542de..d082559 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -8,7 +8,6 @@ use glam::*;
 use rayon::prelude::*;
 use std::num::NonZeroUsize;
 use std::{
-    cmp::Ordering,
     fmt::Debug,
     ops::BitAnd,
     sync::atomic::{AtomicUsize, Ordering::SeqCst},
@@ -458,36 +457,24 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         );
 
         let other_axis = ((split.axis + 1) % 3, (split.axis + 2) % 3);
-        let mut reference_marks = vec![false; self.prim_indices.len()];
-
-        for i in self.work_item.begin..split_index {
-            reference_marks[self.references[split.axis][i].prim_id as usize] = true;
-        }
-        for i in split_index..self.work_item.end {
-            reference_marks[self.references[split.axis][i].prim_id as usize] = false;
-        }
-
-        let partition_predicate = |a: &SpatialReference, b: &SpatialReference| {
-            let a_mark = reference_marks[a.prim_id as usize];
-            let b_mark = reference_marks[b.prim_id as usize];
-            match (a_mark, b_mark) {
-                (false, true) => Ordering::Greater,
-                (true, false) => Ordering::Less,
-                _ => Ordering::Equal,
-            }
-        };
-
-        self.references[other_axis.0].as_mut()[self.work_item.begin..self.work_item.end]
-            .sort_by(partition_predicate);
-        self.references[other_axis.1].as_mut()[self.work_item.begin..self.work_item.end]
-            .sort_by(partition_predicate);
+        let (begin, end) = (self.work_item.begin, self.work_item.end);
+
+        // A primitive can own multiple references, so the prim_id cannot tell on which side a
+        // reference belongs: let the other axes follow the partition of the split axis.
+        let references = self.references[split.axis].range(begin, end);
+        self.references[other_axis.0]
+            .range(begin, end)
+            .copy_from_slice(references);
+        self.references[other_axis.1]
+            .range(begin, end)
+            .copy_from_slice(references);
 
         self.allocate_children(
             split_index,
             self.work_item.end,
             split.left_box,
             split.right_box,
-            true,
+            false,
         )
     }
 
-- 
2.43.0


From a51a93e56cac45ca04f5162c2a6358a60fb3ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 09/24] fix: traversing an empty Mbvh must not read past its
 nodes

---
 src/iter.rs         | 10 ++++++++--
 src/iter_indices.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..28010ff 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -307,7 +307,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -419,7 +422,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..294e6c2 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -266,7 +266,10 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -369,7 +372,10 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
-- 
2.43.0


From 018dfcc580efb2ca17c83cf49554b1a8a5590cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 10/24] fix: skip indices without a primitive instead of
 restarting the leaf

---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 28010ff..79fcfd9 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -111,6 +111,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -226,6 +227,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -342,6 +344,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -459,6 +462,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0


From cd027c2da00dd0d046e1aa1878696257ca1fe2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 11/24] fix: let the traversal stack grow with the depth of the
 tree

---
 src/bvh_node.rs     |  5 +++--
 src/iter.rs         | 37 +++++++++++++++++--------------------
 src/iter_indices.rs | 37 +++++++++++++++++--------------------
 src/utils.rs        | 45 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 42 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..5277a51 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,6 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
+use crate::utils::TraversalStack;
 use crate::{Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
@@ -150,7 +151,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -180,7 +181,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
diff --git a/src/iter.rs b/src/iter.rs
index 79fcfd9..d32a4a4 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -132,7 +133,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -159,7 +160,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -189,7 +190,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -209,7 +210,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -251,7 +252,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -273,7 +274,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -295,7 +296,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -349,9 +350,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -367,7 +366,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -389,7 +388,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -411,7 +410,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -467,9 +466,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 294e6c2..57f05eb 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -304,9 +305,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -322,7 +321,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -343,7 +342,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -359,7 +358,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -409,9 +408,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..8ff47ea 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -95,6 +95,51 @@ where
     count
 }
 
+/// Stack of nodes that still have to be visited by a traversal.
+/// Moves to the heap once a tree is too deep for the inline part.
+#[derive(Debug, Clone)]
+pub(crate) struct TraversalStack {
+    inline: [i32; 32],
+    spill: Vec<i32>,
+}
+
+impl TraversalStack {
+    pub fn new() -> Self {
+        Self {
+            inline: [0; 32],
+            spill: Vec::new(),
+        }
+    }
+}
+
+impl Index<usize> for TraversalStack {
+    type Output = i32;
+
+    #[inline(always)]
+    fn index(&self, index: usize) -> &i32 {
+        if index < self.inline.len() {
+            &self.inline[index]
+        } else {
+            &self.spill[index - self.inline.len()]
+        }
+    }
+}
+
+impl IndexMut<usize> for TraversalStack {
+    #[inline(always)]
+    fn index_mut(&mut self, index: usize) -> &mut i32 {
+        if index < self.inline.len() {
+            &mut self.inline[index]
+        } else {
+            let index = index - self.inline.len();
+            if index >= self.spill.len() {
+                self.spill.resize(index + 1, 0);
+            }
+            &mut self.spill[index]
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct UnsafeSliceWrapper<'a, T: Sized> {
     ptr: *mut T,
-- 
2.43.0


From e9188542e3fb1970bbc93f923c8766d2064bd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 12/24] fix: align MbvhNode for its SIMD loads

---
 src/mbvh_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..fb006f3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -25,7 +25,7 @@ impl Default for MbvhHit {
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug, Clone)]
-#[repr(C)]
+#[repr(C, align(16))]
 pub struct MbvhNode {
     min_x: [f32; 4],
     max_x: [f32; 4],
-- 
2.43.0


From 7d9000eb8ca36e235f96dc19e39a1373260ed433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 13/24] fix: take the sign of a ray direction from its sign bit

---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From ddd57ab8d6d1a743346fe74d7d43587f160b0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 14/24] fix: packets must not miss boxes without thickness

---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index fb006f3..6cd5b5f 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 23bdab20c6fe985cf178904cbb38769cdd4cc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 15/24] fix: pad the leaf bounds of the spatial builder like
 every other node

---
 src/builders/spatial_sah.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index d082559..cd48b93 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -721,6 +721,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
                 prim_indices.set(first_prim + i, references[0][begin + i].prim_id);
             }
 
+            node.bounds.offset_by(0.0001);
             node.set_left_first(Some(first_prim as u32));
             node.set_count(Some(prim_count as u32));
         };
-- 
2.43.0


From 1b89ac4c3a76d34eb11b23747bd75459f01a83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 16/24] fix: validating an empty Bvh must not panic

---
 src/bvh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 4f4417d..37952dd 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -229,7 +229,9 @@ impl Bvh {
     /// tree structure
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
-        self.traverse_check(&self.nodes[0], found_indices.as_mut());
+        if let Some(root) = self.nodes.first() {
+            self.traverse_check(root, found_indices.as_mut());
+        }
 
         let mut valid = true;
         for (i, index) in found_indices.iter().copied().enumerate() {
-- 
2.43.0


From 9dc2ba3476955307767c8bcc4ee7d23ea9bbd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 17/24] fix: no aliasing slices while clustering

---
 src/builders/locb.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/builders/locb.rs b/src/builders/locb.rs
index 2934edf..f2df69d 100644
--- a/src/builders/locb.rs
+++ b/src/builders/locb.rs
@@ -167,13 +167,8 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
             });
 
         // Perform a prefix sum to compute the insertion indices
-        unsafe {
-            let count = end - begin;
-            let start = std::slice::from_raw_parts(merged_index.as_ptr().add(begin), count);
-            let output =
-                std::slice::from_raw_parts_mut(merged_index.as_mut_ptr().add(begin), count);
-            prefix_sum(start, count, output);
-        }
+        let marks = merged_index[begin..end].to_vec();
+        prefix_sum(&marks, end - begin, &mut merged_index[begin..end]);
 
         let merged_count = merged_index[end - 1] as usize;
         let unmerged_count = end - begin - merged_count;
@@ -293,15 +288,7 @@ impl<'a, T: Primitive<i32>> BuildAlgorithm for LocallyOrderedClusteringBuilder<'
             node.set_left_first(Some(i as u32));
         }
 
-        let (aux_slice0, aux_slice1) = unsafe {
-            (
-                std::slice::from_raw_parts_mut(auxiliary_data.as_mut_ptr(), node_count * 3),
-                std::slice::from_raw_parts_mut(
-                    auxiliary_data.as_mut_ptr().add(node_count),
-                    node_count * 2,
-                ),
-            )
-        };
+        let (aux_slice0, aux_slice1) = auxiliary_data.split_at_mut(node_count);
 
         while end - begin > 1 {
             let (next_begin, next_end) = self.cluster(
-- 
2.43.0


From b485ec97691ffab53a931dfb996a47b08b5aa77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 18/24] fix: compute the aabb of an ffi triangle from its own
 vertices

---
 rtbvh_ffi/src/lib.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..e2f70dc 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,17 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
 
         aabb
     }
-- 
2.43.0


From 408ff488d6c395a088defa7aca47178731fc0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 19/24] fix: don't assume that aabbs of ffi callers are 16-byte
 aligned

---
 rtbvh_ffi/src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index e2f70dc..0216608 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -172,6 +172,14 @@ impl From<RTAabb> for Aabb {
     }
 }
 
+/// RTAabb has a smaller alignment than Aabb, so an array of the caller can't be used in place.
+unsafe fn copy_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|aabb| Aabb::from(*aabb))
+        .collect()
+}
+
 #[derive(Debug, Copy, Clone)]
 #[repr(C)]
 pub struct RTBvhNode {
@@ -348,7 +356,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -366,7 +374,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .collect();
 
     match (Builder {
-        aabbs,
+        aabbs: aabbs.as_deref(),
         primitives: primitives.as_slice(),
         primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
     })
@@ -441,7 +449,7 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -450,7 +458,7 @@ pub unsafe extern "C" fn create_bvh(
         12 => {
             let primitives = slice::from_raw_parts(centers as *const Vector3, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -462,7 +470,7 @@ pub unsafe extern "C" fn create_bvh(
         16 => {
             let primitives = slice::from_raw_parts(centers as *const Vector4, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -515,10 +523,7 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            bvh.refit(&copy_aabbs(aabbs, bvh.prim_count()));
         })
         .is_some();
 
-- 
2.43.0


From 52b334a7e29210c65f1fd80779a1b2b04d45f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 20/24] fix: refit must only read an aabb per primitive

---
 rtbvh_ffi/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 0216608..16ae27c 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -523,7 +523,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(&copy_aabbs(aabbs, bvh.prim_count()));
+            // A primitive can be referenced more than once, so there can be more indices than aabbs
+            let prim_count = bvh.indices().iter().map(|i| *i as usize + 1).max();
+            bvh.refit(&copy_aabbs(aabbs, prim_count.unwrap_or(0)));
         })
         .is_some();
 
-- 
2.43.0


From e6802927df0189c846772b11213b60ea432e0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 21/24] fix: don't assume that t of ffi callers is 16-byte
 aligned

---
 rtbvh_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 16ae27c..776e939 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -679,7 +679,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -828,7 +828,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From 55f6737233311b7c687115235fed96301ee9f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 22/24] fix: report null pointers of ffi callers as errors

---
 rtbvh_ffi/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 776e939..c338fb5 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -353,6 +353,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     prims_per_leaf: u32,
     result: *mut RTBvh,
 ) -> ResultCode {
+    if centers.is_null() || vertices.is_null() || result.is_null() {
+        return ResultCode::Error;
+    }
+
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
@@ -555,6 +559,10 @@ pub unsafe extern "C" fn intersect(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
     if origin.is_nan() || direction.is_nan() {
@@ -607,6 +615,10 @@ pub unsafe extern "C" fn intersect_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
@@ -704,6 +716,10 @@ pub unsafe extern "C" fn intersect_mbvh(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
 
@@ -757,6 +773,10 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
-- 
2.43.0


From 0ea42146782767904212fa455fcb0cf78fbd17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:59 +0000
Subject: [PATCH 23/24] fix: keep the left child's share of the free split
 space within that space

---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index cd48b93..7fc585f 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -384,7 +384,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         let left_split_count = if remaining_split_count == 0 {
             0
         } else {
-            (remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize
+            // Rounding or a negative cost can make the product exceed the space that there is
+            ((remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize)
+                .min(remaining_split_count)
         };
 
         // Move references of the right child to end of the list to leave some split space for the left one
-- 
2.43.0


From 41743be0a8b1e11d3fe931eb0cc7adec682f0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:17 +0000
Subject: [PATCH 24/24] fix: compute the C interface's byte offsets in full
 width

---
 rtbvh_ffi/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index c338fb5..e8801fd 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -266,11 +266,11 @@ impl Default for RTMbvh {
 #[derive(Debug, Copy, Clone)]
 struct RTTriangleWrapper {
     centers: *const f32,
-    center_stride: u32,
-    center_i: u32,
+    center_stride: usize,
+    center_i: usize,
     vertices: *const f32,
-    vertex0_offset: u32,
-    vertex_stride: u32,
+    vertex0_offset: usize,
+    vertex_stride: usize,
 }
 
 impl Primitive for RTTriangleWrapper {
@@ -278,7 +278,7 @@ impl Primitive for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .centers
-                .add((self.center_i * self.center_stride / 4) as usize);
+                .add(self.center_i * self.center_stride / 4);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -302,7 +302,7 @@ unsafe impl Sync for RTTriangleWrapper {}
 impl SpatialTriangle for RTTriangleWrapper {
     fn vertex0(&self) -> Vec3 {
         unsafe {
-            let ptr = self.vertices.add(self.vertex0_offset as usize);
+            let ptr = self.vertices.add(self.vertex0_offset);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -314,7 +314,7 @@ impl SpatialTriangle for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .vertices
-                .add((self.vertex0_offset + self.vertex_stride) as usize);
+                .add(self.vertex0_offset + self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -326,7 +326,7 @@ impl SpatialTriangle for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .vertices
-                .add((self.vertex0_offset + 2 * self.vertex_stride) as usize);
+                .add(self.vertex0_offset + 2 * self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -370,10 +370,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .map(|i| RTTriangleWrapper {
             vertices,
             centers,
-            center_stride: stride as u32,
-            center_i: i as u32,
-            vertex0_offset: (i * triangle_stride / 4) as u32,
-            vertex_stride: (vertex_stride / 4) as u32,
+            center_stride: stride,
+            center_i: i,
+            vertex0_offset: i * triangle_stride / 4,
+            vertex_stride: vertex_stride / 4,
         })
         .collect();
 
-- 
2.43.0

