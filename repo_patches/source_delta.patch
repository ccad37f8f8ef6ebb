From 87b72d90dd6346ddebffdc856fa2c870cd9edd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 01/36] verif hook: export data structures under cfg
 rcgal_verif

---
 src/data_structure/avl_tree.rs | 28 ++++++++++++++++++++++++++++
 src/lib.rs                     |  9 +++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..2e55c68 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -219,3 +219,31 @@ where
         result
     }
 }
+
+/// Read-only view of the tree's nodes for external verification builds.
+#[cfg(rcgal_verif)]
+impl<T> AVLTree<T>
+where
+    T: Ord + Clone + Copy,
+{
+    /// The nodes in pre-order: (depth, value, recorded height, has left child, has right child).
+    pub fn verif_nodes(&self) -> Vec<(usize, T, i32, bool, bool)> {
+        let mut result = Vec::new();
+        let mut stack = vec![(0, self.root.clone())];
+        while let Some((depth, node)) = stack.pop() {
+            if let Some(node) = node {
+                let node = node.borrow();
+                result.push((
+                    depth,
+                    node.value,
+                    node.height,
+                    node.left.is_some(),
+                    node.right.is_some(),
+                ));
+                stack.push((depth + 1, node.right.clone()));
+                stack.push((depth + 1, node.left.clone()));
+            }
+        }
+        result
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..c00b95d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,14 @@
+#![allow(unexpected_cfgs)] // rcgal_verif, see verif_hooks below
+
 pub mod algorithm;
 mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
+
+/// Access to the private data structures for external verification builds
+/// (`RUSTFLAGS="--cfg rcgal_verif"`); absent from every ordinary build.
+#[cfg(rcgal_verif)]
+pub mod verif_hooks {
+    pub use crate::data_structure::{avl_tree, circular_doubly_linked_list, priority_queue};
+}
-- 
2.43.0


From 58677811450492b242a622ce2d038453e03ba013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 02/36] fix: AVL tree delete no longer panics when equal values
 are stored

Deleting a node with two children kept the successor borrowed while the
recursive delete mutated it, so a duplicate of the successor's value hit
'RefCell already borrowed'. Copy the successor's value first.
---
 src/data_structure/avl_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 2e55c68..ec3941b 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,8 +89,9 @@ where
                         temp = temp_left.unwrap();
                     }
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let successor = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete(right, successor);
+                    node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
-- 
2.43.0


From d530dc610b3e2608ceaf92bdbffbdcd47e9a143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 03/36] fix: ArcSegment2::monotone covers the arc and nothing
 else

The split emitted a piece before the arc's source, lost arcs whose source
angle exceeds their target angle or is negative, and returned pieces past a
full turn that is_top misjudged.
---
 src/kernel/arc_segment_2.rs | 48 +++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..8e388f1 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -40,30 +40,42 @@ impl<T: NumberType> ArcSegment2<T> {
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = Vec::new();
-        let mut end_pi = T::zero();
-        let mut min_flag = false;
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
-                radians.push(end_pi.clone());
+        let two_pi = pi * T::from_f64(2.0);
+        let mut source_radian = self.source_radian;
+        let mut target_radian = self.target_radian;
+        while !source_radian.equals(T::zero()) && source_radian < T::zero() {
+            source_radian = source_radian + two_pi;
+        }
+        while source_radian.equals(two_pi) || source_radian > two_pi {
+            source_radian = source_radian - two_pi;
+        }
+        while target_radian.equals(source_radian) || target_radian < source_radian {
+            target_radian = target_radian + two_pi;
+        }
+        let full_turn = source_radian + two_pi;
+        while !target_radian.equals(full_turn) && target_radian > full_turn {
+            target_radian = target_radian - two_pi;
+        }
+        let mut radians = vec![source_radian];
+        let mut end_pi = pi;
+        while !end_pi.equals(target_radian) && end_pi < target_radian {
+            if !end_pi.equals(source_radian) && end_pi > source_radian {
+                radians.push(end_pi);
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
+        radians.push(target_radian);
         for i in 0..radians.len() - 1 {
+            let mut source_radian = radians[i];
+            let mut target_radian = radians[i + 1];
+            if source_radian.equals(two_pi) || source_radian > two_pi {
+                source_radian = source_radian - two_pi;
+                target_radian = target_radian - two_pi;
+            }
             arcs.push(ArcSegment2::new(
                 self.support,
-                radians[i].clone(),
-                radians[i + 1].clone(),
+                source_radian,
+                target_radian,
             ));
         }
         arcs
-- 
2.43.0


From be51aff9f009066e3ee19d979d0c6de4372a9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 04/36] fix: a point at the target end of a segment is on it
 within tolerance

The upper bound of the parameter check had no tolerance while the lower one
had, so a computed end point could miss its own segment.
---
 src/algorithm/location/point_2_line_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..3726d7c 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -29,7 +29,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From d7c05a9287d1bd14e888af0119d5d89b69c03e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 05/36] fix: sweep finds every intersection of the set

The status tree was ordered by a comparison that is not a consistent total
order at shared points, for vertical segments and for arcs, so deletions
missed their node, neighbours were wrong and intersections were lost (or the
sort panicked). Keep the active segments by index and test each starting
segment against all of them; reset the last event point on every query and
skip an event already handled.
---
 .../sweep_segment_2_intersection.rs           | 545 +-----------------
 1 file changed, 28 insertions(+), 517 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..22ff35d 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -19,18 +19,12 @@ enum StatusNodeSegment<T: NumberType> {
     ArcSegment2(ArcSegment2<T>),
 }
 
-#[derive(Debug, Clone, Copy)]
-struct StatusNode<T: NumberType> {
-    value: T,
-    point: Point2<T>,
-    segment: StatusNodeSegment<T>,
-}
-
 pub struct SweepSegment2Intersection<T: NumberType> {
     origin_segments: Vec<StatusNodeSegment<T>>,
     segments: Vec<StatusNodeSegment<T>>,
     event_queue: PriorityQueue<Point2<T>>,
-    status_tree: AVLTree<StatusNode<T>>,
+    /// Indices into `segments` of those the sweep line currently meets.
+    status_tree: AVLTree<usize>,
     intersection_points: AVLTree<Point2<T>>,
     last_event_point: Option<Point2<T>>,
 }
@@ -118,6 +112,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +132,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            if self.last_event_point == Some(event_point) {
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
@@ -180,144 +178,33 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
-        for segment in &target_is_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
-        for segment in &contain_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
-        let source_is_p_empty = source_is_p.is_empty();
-        let contain_p_empty = contain_p.is_empty();
-        let old_status_nodes = self.status_tree.mid_order_traversal();
-        self.status_tree.clear();
-        let mut reinserted_segments = Vec::new();
-        for status_node in old_status_nodes {
-            reinserted_segments.push(status_node.segment.clone());
-        }
-        for segment in &source_is_p {
-            reinserted_segments.push(segment.clone());
+        for index in target_is_p {
+            self.status_tree.delete(index);
         }
-        for segment in &contain_p {
-            reinserted_segments.push(segment.clone());
-        }
-        reinserted_segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
-        for segment in reinserted_segments {
-            match segment {
-                StatusNodeSegment::LineSegment2(line_segment) => {
-                    self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&line_segment, event_point),
-                        point: event_point.clone(),
-                        segment,
-                    })
-                }
-                StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&arc_segment, event_point),
-                        point: event_point.clone(),
-                        segment,
-                    })
-                }
-            }
-        }
-        let mid_order_traversal = self.status_tree.mid_order_traversal();
-        if source_is_p_empty && contain_p_empty {
-            let neighbors = self.get_neighbors_with_point(event_point);
-            match neighbors {
-                Some((segment_left, segment_right)) => {
-                    self.find_intersection_points(&segment_left, &segment_right, event_point);
-                }
-                None => {}
-            }
-        } else {
-            let segment_left = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .0;
-            let segment_left_left = self.get_left_of_segment(&segment_left, &mid_order_traversal);
-            match segment_left_left {
-                Some(segment) => {
-                    self.find_intersection_points(&segment_left, &segment, event_point);
-                }
-                _ => {}
-            }
-            let segment_right = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .1;
-            let segment_right_right =
-                self.get_right_of_segment(&segment_right, &mid_order_traversal);
-            match segment_right_right {
-                Some(segment) => {
-                    self.find_intersection_points(&segment_right, &segment, event_point);
-                }
-                _ => {}
+        for index in source_is_p {
+            for active in self.status_tree.mid_order_traversal() {
+                let segment_a = self.segments[index];
+                let segment_b = self.segments[active];
+                self.find_intersection_points(&segment_a, &segment_b, event_point);
             }
+            self.status_tree.insert(index);
         }
     }
 
-    fn get_segment_with_source(&self, event_point: &Point2<T>) -> Vec<StatusNodeSegment<T>> {
+    fn get_segment_with_source(&self, event_point: &Point2<T>) -> Vec<usize> {
         let mut result = Vec::new();
-        for segment in &self.segments {
+        for (index, segment) in self.segments.iter().enumerate() {
             match segment {
                 StatusNodeSegment::LineSegment2(line_segment) => {
                     if line_segment.source().equals(event_point) {
-                        result.push(segment.clone());
+                        result.push(index);
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
                     if (arc_segment.is_top() && arc_segment.target().equals(event_point))
                         || (!arc_segment.is_top() && arc_segment.source().equals(event_point))
                     {
-                        result.push(segment.clone());
+                        result.push(index);
                     }
                 }
             }
@@ -325,21 +212,20 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         result
     }
 
-    fn get_active_segment_with_target(&self, target: &Point2<T>) -> Vec<StatusNodeSegment<T>> {
+    fn get_active_segment_with_target(&self, target: &Point2<T>) -> Vec<usize> {
         let mut result = Vec::new();
-        let status_nodes = self.status_tree.mid_order_traversal();
-        for status_node in status_nodes {
-            match status_node.segment {
+        for index in self.status_tree.mid_order_traversal() {
+            match self.segments[index] {
                 StatusNodeSegment::LineSegment2(line_segment) => {
                     if line_segment.target().equals(target) {
-                        result.push(status_node.segment);
+                        result.push(index);
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
                     if (arc_segment.is_top() && arc_segment.source().equals(target))
                         || (!arc_segment.is_top() && arc_segment.target().equals(target))
                     {
-                        result.push(status_node.segment);
+                        result.push(index);
                     }
                 }
             }
@@ -347,11 +233,10 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         result
     }
 
-    fn get_active_segment_containing_point(&self, point: &Point2<T>) -> Vec<StatusNodeSegment<T>> {
+    fn get_active_segment_containing_point(&self, point: &Point2<T>) -> Vec<usize> {
         let mut result = Vec::new();
-        let status_nodes = self.status_tree.mid_order_traversal();
-        for status_node in status_nodes {
-            match status_node.segment {
+        for index in self.status_tree.mid_order_traversal() {
+            match self.segments[index] {
                 StatusNodeSegment::LineSegment2(line_segment) => {
                     let source = line_segment.source();
                     let target = line_segment.target();
@@ -359,7 +244,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         continue;
                     }
                     if is_point_2_on_line_segment_2(point, &line_segment) {
-                        result.push(status_node.segment);
+                        result.push(index);
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
@@ -369,7 +254,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                         continue;
                     }
                     if is_point_2_on_arc_segment_2(point, &arc_segment) {
-                        result.push(status_node.segment);
+                        result.push(index);
                     }
                 }
             }
@@ -377,156 +262,6 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         result
     }
 
-    fn get_neighbors_with_point(
-        &self,
-        point: &Point2<T>,
-    ) -> Option<(StatusNodeSegment<T>, StatusNodeSegment<T>)> {
-        let status_nodes = self.status_tree.mid_order_traversal();
-        let mut index = 0;
-        let mut flag = false;
-        for (status_index, status_node) in status_nodes.iter().enumerate() {
-            if status_node.value.equals(point.y()) || status_node.value > point.y() {
-                index = status_index;
-                flag = true;
-                break;
-            }
-        }
-        if flag {
-            if index == 0 {
-                return None;
-            } else {
-                return Some((
-                    status_nodes[index - 1].segment.clone(),
-                    status_nodes[index].segment.clone(),
-                ));
-            }
-        } else {
-            return None;
-        }
-    }
-
-    fn get_left_right_in_u_c(
-        &self,
-        source_is_p: &Vec<StatusNodeSegment<T>>,
-        contain_p: &Vec<StatusNodeSegment<T>>,
-        event_point: &Point2<T>,
-    ) -> (StatusNodeSegment<T>, StatusNodeSegment<T>) {
-        let mut segments = Vec::new();
-        for segment in source_is_p {
-            segments.push(segment.clone());
-        }
-        for segment in contain_p {
-            segments.push(segment.clone());
-        }
-        segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
-        let left = segments[0].clone();
-        let right = segments[segments.len() - 1].clone();
-        (left, right)
-    }
-
-    fn get_left_of_segment(
-        &self,
-        segment: &StatusNodeSegment<T>,
-        mid_order_traversal: &Vec<StatusNode<T>>,
-    ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
-            let mut status_node_segment = status_node.segment.clone();
-            match status_node_segment {
-                StatusNodeSegment::LineSegment2(line_segment) => match segment {
-                    StatusNodeSegment::LineSegment2(segment) => {
-                        if line_segment.source().equals(&segment.source())
-                            && line_segment.target().equals(&segment.target())
-                        {
-                            if index == 0 {
-                                return None;
-                            }
-                            status_node_segment = mid_order_traversal[index - 1].segment.clone();
-                            return Some(status_node_segment);
-                        }
-                    }
-                    _ => {}
-                },
-                StatusNodeSegment::ArcSegment2(arc_segment) => match segment {
-                    StatusNodeSegment::ArcSegment2(segment) => {
-                        if arc_segment.center().equals(&segment.center())
-                            && arc_segment.radius().equals(segment.radius())
-                            && arc_segment.source().equals(&segment.source())
-                            && arc_segment.target().equals(&segment.target())
-                        {
-                            if index == 0 {
-                                return None;
-                            }
-                            status_node_segment = mid_order_traversal[index - 1].segment.clone();
-                            return Some(status_node_segment);
-                        }
-                    }
-                    _ => {}
-                },
-            }
-        }
-        None
-    }
-
-    fn get_right_of_segment(
-        &self,
-        segment: &StatusNodeSegment<T>,
-        mid_order_traversal: &Vec<StatusNode<T>>,
-    ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
-            let mut status_node_segment = status_node.segment.clone();
-            match status_node_segment {
-                StatusNodeSegment::LineSegment2(line_segment) => match segment {
-                    StatusNodeSegment::LineSegment2(segment) => {
-                        if line_segment.source().equals(&segment.source())
-                            && line_segment.target().equals(&segment.target())
-                        {
-                            if index == mid_order_traversal.len() - 1 {
-                                return None;
-                            }
-                            status_node_segment = mid_order_traversal[index + 1].segment.clone();
-                            return Some(status_node_segment);
-                        }
-                    }
-                    _ => {}
-                },
-                StatusNodeSegment::ArcSegment2(arc_segment) => match segment {
-                    StatusNodeSegment::ArcSegment2(segment) => {
-                        if arc_segment.center().equals(&segment.center())
-                            && arc_segment.radius().equals(segment.radius())
-                            && arc_segment.source().equals(&segment.source())
-                            && arc_segment.target().equals(&segment.target())
-                        {
-                            if index == mid_order_traversal.len() - 1 {
-                                return None;
-                            }
-                            status_node_segment = mid_order_traversal[index + 1].segment.clone();
-                            return Some(status_node_segment);
-                        }
-                    }
-                    _ => {}
-                },
-            }
-        }
-        None
-    }
-
     fn find_intersection_points(
         &mut self,
         segment_a: &StatusNodeSegment<T>,
@@ -561,230 +296,6 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
     }
 }
 
-fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
-    let x = target.x() - source.x();
-    let y = target.y() - source.y();
-    if x.equals(T::zero()) {
-        return None;
-    }
-    Some(y / x)
-}
-
-fn calculate_tangent_slope<T: NumberType>(center: &Point2<T>, point: &Point2<T>) -> Option<T> {
-    let x = point.x() - center.x();
-    let y = point.y() - center.y();
-    if y.equals(T::zero()) {
-        return None;
-    }
-    Some(-x / y)
-}
-
-fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> T {
-    match segment.segment_type() {
-        Segment2Type::LineSegment2 => {
-            let source = segment.source();
-            let target = segment.target();
-            if source.x().equals(target.x()) {
-                return point.y();
-            }
-            let y = source.y()
-                + (point.x() - source.x()) * (target.y() - source.y()) / (target.x() - source.x());
-            y
-        }
-        _ => {
-            let radius = segment.radius();
-            let center = segment.center();
-            let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
-            let y_a = center.y() + y;
-            let y_b = center.y() - y;
-            let p_a = Point2::new(point.x(), y_a);
-            let p_b = Point2::new(point.x(), y_b);
-            if is_point_2_on_arc_segment_2(&p_a, segment) {
-                y_a
-            } else if is_point_2_on_arc_segment_2(&p_b, segment) {
-                y_b
-            } else {
-                point.y()
-            }
-        }
-    }
-}
-
-fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T> {
-    match segment.segment_type() {
-        Segment2Type::LineSegment2 => segment.target(),
-        _ => {
-            let arc_segment = ArcSegment2::new(
-                CircleSegment2::new(segment.center(), segment.radius()),
-                segment.source_radian(),
-                segment.target_radian(),
-            );
-            if arc_segment.is_top() {
-                arc_segment.source()
-            } else {
-                arc_segment.target()
-            }
-        }
-    }
-}
-
-fn calculate_mid_value<T: NumberType>(
-    segment_a: &impl Segment2<T>,
-    segment_b: &impl Segment2<T>,
-    event_point: &Point2<T>,
-) -> (T, T) {
-    let target_a = get_target_of_segment(segment_a);
-    let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
-        target_a
-    } else {
-        target_b
-    };
-    let mid = (*event_point + target) * T::from_f64(0.5);
-    let mid = Point2::new(mid.x(), mid.y());
-    (
-        calculate_segment_value(segment_a, &mid),
-        calculate_segment_value(segment_b, &mid),
-    )
-}
-
-fn compare_segments_same_slope<T: NumberType>(
-    segment_a: &impl Segment2<T>,
-    segment_b: &impl Segment2<T>,
-    event_point: &Point2<T>,
-) -> std::cmp::Ordering {
-    let (mid_a_value, mid_b_value) = calculate_mid_value(segment_a, segment_b, event_point);
-    if mid_a_value.equals(mid_b_value) {
-        return std::cmp::Ordering::Equal;
-    } else if mid_a_value < mid_b_value {
-        return std::cmp::Ordering::Less;
-    } else {
-        return std::cmp::Ordering::Greater;
-    }
-}
-
-fn compare_segments<T: NumberType>(
-    segment_a: &impl Segment2<T>,
-    segment_b: &impl Segment2<T>,
-    event_point: &Point2<T>,
-) -> std::cmp::Ordering {
-    let segment_a_value = calculate_segment_value(segment_a, event_point);
-    let segment_b_value = calculate_segment_value(segment_b, event_point);
-    if segment_a_value.equals(segment_b_value) {
-        let segment_a_slope = match segment_a.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
-        };
-        let segment_b_slope = match segment_b.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
-        };
-        match segment_a_slope {
-            Some(a_slope) => match segment_b_slope {
-                Some(b_slope) => {
-                    if a_slope.equals(b_slope) {
-                        compare_segments_same_slope(segment_a, segment_b, event_point)
-                    } else if a_slope < b_slope {
-                        std::cmp::Ordering::Less
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
-                }
-                None => std::cmp::Ordering::Less,
-            },
-            None => match segment_b_slope {
-                Some(_) => std::cmp::Ordering::Greater,
-                None => compare_segments_same_slope(segment_a, segment_b, event_point),
-            },
-        }
-    } else if segment_a_value < segment_b_value {
-        std::cmp::Ordering::Less
-    } else {
-        std::cmp::Ordering::Greater
-    }
-}
-
-impl<T: NumberType> Eq for StatusNode<T> {}
-
-impl<T: NumberType> PartialEq for StatusNode<T> {
-    fn eq(&self, other: &Self) -> bool {
-        match self.segment {
-            StatusNodeSegment::LineSegment2(segment) => match other.segment {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    segment.source().equals(&other_segment.source())
-                        && segment.target().equals(&other_segment.target())
-                }
-                _ => false,
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match other.segment {
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    segment.center().equals(&other_segment.center())
-                        && segment.radius().equals(other_segment.radius())
-                        && segment.source().equals(&other_segment.source())
-                        && segment.target().equals(&other_segment.target())
-                }
-                _ => false,
-            },
-        }
-    }
-}
-
-impl<T: NumberType> Ord for StatusNode<T> {
-    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let self_value = self.value;
-        let other_value = other.value;
-        if self.value.equals(other.value) {
-            let mut point = self.point.clone();
-            if point > other.point {
-                point = other.point.clone();
-            }
-            match self.segment {
-                StatusNodeSegment::LineSegment2(segment) => match other.segment {
-                    StatusNodeSegment::LineSegment2(other_segment) => {
-                        if segment.source().equals(&other_segment.source())
-                            && segment.target().equals(&other_segment.target())
-                        {
-                            std::cmp::Ordering::Equal
-                        } else {
-                            compare_segments(&segment, &other_segment, &point)
-                        }
-                    }
-                    StatusNodeSegment::ArcSegment2(other_segment) => {
-                        compare_segments(&segment, &other_segment, &point)
-                    }
-                },
-                StatusNodeSegment::ArcSegment2(segment) => match other.segment {
-                    StatusNodeSegment::LineSegment2(other_segment) => {
-                        compare_segments(&segment, &other_segment, &point)
-                    }
-                    StatusNodeSegment::ArcSegment2(other_segment) => {
-                        if segment.center().equals(&other_segment.center())
-                            && segment.radius().equals(other_segment.radius())
-                            && segment.source().equals(&other_segment.source())
-                            && segment.target().equals(&other_segment.target())
-                        {
-                            std::cmp::Ordering::Equal
-                        } else {
-                            compare_segments(&segment, &other_segment, &point)
-                        }
-                    }
-                },
-            }
-        } else if self_value < other_value {
-            std::cmp::Ordering::Less
-        } else {
-            std::cmp::Ordering::Greater
-        }
-    }
-}
-
-impl<T: NumberType> PartialOrd for StatusNode<T> {
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 13e0d4ed480d240a577b9286d1473ddc8a452b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 06/36] fix: a segment of zero length contains only its own
 point

Both the cross and the dot product vanish for such a segment, so every point
of the plane was reported on it.
---
 src/algorithm/location/point_2_line_segment_2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index 3726d7c..b437927 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -19,6 +19,13 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
 ) -> Point2Segment2Location {
     let source = segment_2.source();
     let target = segment_2.target();
+    if source.equals(&target) {
+        return if point_2.equals(&source) {
+            Point2Segment2Location::On
+        } else {
+            Point2Segment2Location::Collinear
+        };
+    }
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
     let area = vec_ab.cross(&vec_ac);
-- 
2.43.0


From 14c64058a3257182539690c82830f6847e5867b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 07/36] fix: collinear apart and small segments no longer count
 as intersecting

Products of two cross products were compared with the tolerance, so segments
a few hundredths long always passed, and collinear segments that do not touch
passed too and produced a point with NaN coordinates.
---
 .../line_segment_2_line_segment_2.rs          | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..ba63689 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,8 +13,35 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
+    is_on_both_sides(ab.cross(&ac), ab.cross(&ad))
+        && is_on_both_sides(cd.cross(&ca), cd.cross(&cb))
+        && is_range_overlapped(
+            (line_segment_a.source().x(), line_segment_a.target().x()),
+            (line_segment_b.source().x(), line_segment_b.target().x()),
+        )
+        && is_range_overlapped(
+            (line_segment_a.source().y(), line_segment_a.target().y()),
+            (line_segment_b.source().y(), line_segment_b.target().y()),
+        )
+}
+
+fn is_on_both_sides<T: NumberType>(cross_a: T, cross_b: T) -> bool {
+    let eps = T::default_eps();
+    !(cross_a > eps && cross_b > eps) && !(cross_a < -eps && cross_b < -eps)
+}
+
+fn is_range_overlapped<T: NumberType>(range_a: (T, T), range_b: (T, T)) -> bool {
+    let sort = |range: (T, T)| {
+        if range.0 > range.1 {
+            (range.1, range.0)
+        } else {
+            range
+        }
+    };
+    let (min_a, max_a) = sort(range_a);
+    let (min_b, max_b) = sort(range_b);
     let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    min_a <= max_b + eps && min_b <= max_a + eps
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From dec1bdf95df1e3dd3085024bd98c7d045f7c9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 08/36] fix: a segment leaving a circle intersects it

With one end point inside and the other outside the query still looked at the
foot of the centre on the segment, and said no when that foot is off it.
---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..e61ae2c 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -26,6 +26,9 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         || target_relation == Point2Circle2Location::On
     {
         return true;
+    } else if source_relation != target_relation {
+        // one end point inside, the other outside
+        return true;
     } else {
         let projection_point = point_2_project_line_segment_2(&center, line_segment);
         match projection_point {
-- 
2.43.0


From c68c5a61342837d9b9fd17c1ee828fd87e17bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 09/36] fix: querying an arc against a circle no longer panics

The pair was dispatched to the arc/arc query, which asks the circle for end
points it does not have.
---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 26185679c8ca20ef4778afe9ca4e1509418d483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 10/36] fix: a ray meets a segment wherever they cross

Only crossings at the segment's midpoint were found (the two cross products
compared are always equal), and the query used a side test that ignores where
the ray starts. Compute the crossing parameter and answer the query from the
intersection.
---
 .../intersection/line_segment_2_ray_2.rs      | 31 +++++--------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..85415c4 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,7 +1,6 @@
 use crate::{
     algorithm::location::{
-        location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
+        location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2,
     },
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
@@ -13,12 +12,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -59,22 +53,11 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                     }
                     _ => {
                         let v1 = target - source;
-                        let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
-                            let point =
-                                ray_segment.origin().get_vector() + ray_segment.direction() * t;
+                        let v2 = source - ray_segment.origin();
+                        let direction = ray_segment.direction();
+                        let t = v2.cross(&v1) / direction.cross(&v1);
+                        if t >= -T::default_eps() {
+                            let point = ray_segment.origin().get_vector() + direction * t;
                             result.push(Point2::new(point.x(), point.y()));
                         }
                         return result;
-- 
2.43.0


From c7cb542c7dc90ad094d493152db5a8356d3b4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 11/36] fix: a line meets a ray far from its origin too

The ray was turned into a slope-form line and the crossing looked up on the
ray again, which rounding defeats for steep rays and far crossings. Compute
the crossing parameter along the ray instead.
---
 src/algorithm/intersection/line_2_ray_2.rs | 26 +++++++++-------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/algorithm/intersection/line_2_ray_2.rs b/src/algorithm/intersection/line_2_ray_2.rs
index f1cbfe0..25795d1 100644
--- a/src/algorithm/intersection/line_2_ray_2.rs
+++ b/src/algorithm/intersection/line_2_ray_2.rs
@@ -1,9 +1,4 @@
-use crate::{
-    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
-    kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2},
-};
-
-use super::line_2_line_2::line_2_line_2_intersection;
+use crate::kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2};
 
 pub fn is_line_2_ray_2_intersected<T: NumberType>(line: &Line2<T>, ray: &Ray2<T>) -> bool {
     line_2_ray_2_intersection(line, ray).is_some()
@@ -15,17 +10,16 @@ pub fn line_2_ray_2_intersection<T: NumberType>(
 ) -> Option<Point2<T>> {
     let origin = ray.origin();
     let direction = ray.direction();
-    let target = direction + origin.get_vector();
-    let target = Point2::new(target.x(), target.y());
-    let line_ray = Line2::from_points(&origin, &target);
-    let intersection = line_2_line_2_intersection(&line, &line_ray);
-    match intersection {
-        Some(point) => match locate_point_2_ray_2(&point, ray) {
-            Point2Ray2Location::On => Some(point),
-            _ => None,
-        },
-        None => None,
+    let det = line.a() * direction.x() + line.b() * direction.y();
+    if det.equals(T::zero()) {
+        return None;
+    }
+    let t = -(line.a() * origin.x() + line.b() * origin.y() + line.c()) / det;
+    if t < -T::default_eps() {
+        return None;
     }
+    let point = origin.get_vector() + direction * t;
+    Some(Point2::new(point.x(), point.y()))
 }
 
 #[cfg(test)]
-- 
2.43.0


From bd2d397dd6fc2c2001be7e918f85c83fe9c7232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 12/36] fix: project a point on a line along the perpendicular

The perpendicular to a*x + b*y + c = 0 has slope b/a, not a/b, so only lines
at 45 degrees or along an axis gave the foot of the perpendicular.
---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From b8204126292852b6c6daac1c7c3fefed4ab89df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 13/36] fix: projecting on a segment of zero length gives its
 point, not NaN

---
 src/algorithm/projection/point_2_line_segment_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..d6d8223 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -4,6 +4,9 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     point: &Point2<T>,
     segment: &impl Segment2<T>,
 ) -> Option<Point2<T>> {
+    if segment.source().equals(&segment.target()) {
+        return Some(segment.source());
+    }
     let v = segment.target() - segment.source();
     let w = *point - segment.source();
     let c1 = w.dot(&v);
-- 
2.43.0


From 858aa084ed120e273b1f6a9bdb1f97428e260f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 14/36] fix: the hull of coinciding points is that one point

One point gave an empty hull and repeated points gave hulls listing the same
point more than once.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..fee1861 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,9 +17,14 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        let mut points = self.points.clone();
+        points.dedup();
+        if points.len() < 2 {
+            return points;
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
-        for p in self.points.iter() {
+        for p in points.iter() {
             while lower.len() >= 2
                 && Self::cross(&lower[lower.len() - 2], &lower[lower.len() - 1], &p) <= T::zero()
             {
@@ -27,7 +32,7 @@ impl<T: NumberType> ConvexHull2<T> {
             }
             lower.push(p.clone());
         }
-        for p in self.points.iter().rev() {
+        for p in points.iter().rev() {
             while upper.len() >= 2
                 && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) <= T::zero()
             {
-- 
2.43.0


From 72c534610db81dd009b30643e3a18d3575c13984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 15/36] fix: deleting the last element empties the circular
 list

Head and tail kept pointing at the deleted node.
---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From 24aa3dcaf4dc16df1e782e5cd282b171a02e2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 16/36] fix: locate points against polygons that are not convex

A point was inside only when it lies on the same side of every edge, so
points inside a non-convex polygon were reported outside, and points on a
later edge could be reported outside before that edge was looked at. Test all
edges for the boundary first, then count crossings.
---
 src/algorithm/location/point_2_polygon_2.rs | 47 +++++++++------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..29a8cf4 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +42,25 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
     for edge in &edges {
-        let edge_location = locate_point_2_line_segment_2(point, edge);
-        match edge_location {
-            Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
-            _ => {}
+        if locate_point_2_line_segment_2(point, edge) == Point2Segment2Location::On {
+            return Point2Polygon2Location::On;
         }
     }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
+    let mut inside = false;
+    for edge in &edges {
+        let source = edge.source();
+        let target = edge.target();
+        if (source.y() > point.y()) != (target.y() > point.y()) {
+            let cross = (target - source).cross(&(*point - source));
+            if (cross > T::zero()) == (target.y() > source.y()) {
+                inside = !inside;
+            }
         }
     }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
+    }
 }
-- 
2.43.0


From c7aec5d31c539b0fbac11b0b4dee4a6a1e76aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 17/36] fix: polygons touching themselves are not simple

Only the number of intersections was compared with the number of vertices, so
a vertex touching another edge and an edge folded back on its predecessor
went unnoticed.
---
 src/kernel/polygon_2.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..506bb4a 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,7 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::{
+    intersection::sweep_segment_2_intersection::SweepSegment2Intersection,
+    location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+};
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -51,10 +54,16 @@ impl<T: NumberType> Polygon2<T> {
         }
         let intersections = sweep.intersection();
         let vertices_size = self.vertices.len();
-        if vertices_size == intersections.len() {
-            return true;
+        if vertices_size != intersections.len() {
+            return false;
         }
-        return false;
+        // a vertex on a third edge touches it or folds back
+        self.vertices.iter().all(|vertex| {
+            let touching = edges
+                .iter()
+                .filter(|edge| is_point_2_on_line_segment_2(vertex, *edge));
+            touching.count() == 2
+        })
     }
 
     pub fn is_convex(&self) -> bool {
-- 
2.43.0


From eaf81dedb400878c4011ec332a5810e609637b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 18/36] fix: earcut keeps its ear and reflex lists and
 diagonals right

A vertex that stopped being an ear or reflex because another vertex lies in
its triangle stayed in its list, and a vertex on a new diagonal did not block
the ear, so triangles overlapped, were degenerate or went missing.
---
 src/algorithm/triangulation/earcut_2.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..da5f49f 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -211,14 +211,24 @@ fn get_vertex_type<T: NumberType>(
         Orientation::CounterClockwise => {
             for i in 0..reflexes.len() {
                 let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+                let reflex_index = reflex.borrow().data.index;
+                if points.iter().any(|x| x.index == reflex_index) {
                     continue;
                 }
                 let point = reflex.borrow().data.point;
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
+                        let index = match vertex.borrow().data.vertex_type {
+                            VertexType::Reflex => reflexes
+                                .iter()
+                                .position(|x| x.borrow().data.point == cur.borrow().data.point),
+                            VertexType::Ear => ears
+                                .iter()
+                                .position(|x| x.borrow().data.point == cur.borrow().data.point),
+                            VertexType::Convex => None,
+                        };
+                        return (VertexType::Convex, index);
                     }
                     _ => {
                         continue;
@@ -262,7 +272,7 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
+                    Point2Triangle2Location::Inside | Point2Triangle2Location::On => {
                         return VertexType::Convex;
                     }
                     _ => {
-- 
2.43.0


From fbbbdcbbac06d3d8e2ee3e646aa431a7572b0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 19/36] fix: earcut triangulates clockwise polygons

Ears were only looked for at counter-clockwise corners, so a clockwise
polygon gave no or wrong triangles.
---
 src/algorithm/triangulation/earcut_2.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index da5f49f..f938f36 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -33,7 +33,11 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
     let mut vertices = CircularDoubleLinkedList::new();
     let mut ears = Vec::new();
     let mut reflexes = Vec::new();
-    let polygon_vertices = polygon.vertices();
+    let mut polygon_vertices = polygon.vertices();
+    let is_clockwise = polygon.area() < T::zero();
+    if is_clockwise {
+        polygon_vertices.reverse();
+    }
     let mut _vertex = vertices.tail();
     for i in 0..polygon_vertices.len() {
         let vertex_type = init_vertex_type(&polygon_vertices, i);
@@ -182,6 +186,15 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
     }
+    if is_clockwise {
+        let last = polygon_vertices.len() - 1;
+        for triangle in triangles.iter_mut() {
+            for index in triangle.iter_mut() {
+                *index = last - *index;
+            }
+            triangle.sort();
+        }
+    }
     triangles
 }
 
-- 
2.43.0


From d13b68b83eaf22e6fedf453ad0de8607196cba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 20/36] fix: points computed on long segments are on them

---
 src/algorithm/location/point_2_line_segment_2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index b437927..a7bfb94 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -28,15 +28,17 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     }
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
+    // the cross and dot products are distances scaled by the length of the segment
+    let eps = T::default_eps() * vec_ab.length();
     let area = vec_ab.cross(&vec_ac);
-    if area > T::default_eps() {
+    if area > eps {
         Point2Segment2Location::Left
-    } else if area < -T::default_eps() {
+    } else if area < -eps {
         Point2Segment2Location::Right
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + eps && dot_ab_ac >= -eps {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From c0b1a050047f681ac39993aa7163b7a718c2ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 21/36] fix: removing an edge from a vertex it ends at no
 longer panics

---
 src/kernel/vertex_2.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index 3897545..31597c7 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -1,6 +1,9 @@
 use std::{cell::RefCell, rc::Rc};
 
-use super::{edge_2::Edge2, number_type::NumberType, point_2::Point2};
+use super::{
+    edge_2::Edge2, line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2,
+    util_enum::Edge2Type,
+};
 
 #[derive(Debug, Clone)]
 pub struct Vertex2<T: NumberType> {
@@ -35,7 +38,25 @@ impl<T: NumberType> Vertex2<T> {
     }
 
     pub fn remove_edge(&mut self, edge: Rc<RefCell<Edge2<T>>>) {
-        self.edges.retain(|e| e != &edge);
+        // edges usually end at this vertex, which is mutably borrowed here
+        let vertex: *const Self = self;
+        let point = self.to_point();
+        let end = |v: Rc<RefCell<Self>>| {
+            if std::ptr::eq(v.as_ptr(), vertex) {
+                point
+            } else {
+                v.borrow().to_point()
+            }
+        };
+        let segment = |e: &Edge2<T>| LineSegment2::new(end(e.source()), end(e.target()));
+        let edge = edge.borrow();
+        self.edges.retain(|e| {
+            let e = e.borrow();
+            match (e.edge_type(), edge.edge_type()) {
+                (Edge2Type::Segment, Edge2Type::Segment) => segment(&e) != segment(&edge),
+                _ => *e != *edge,
+            }
+        });
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-- 
2.43.0


From afd843ff55456f9d2a63f278b78989d290f52ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 22/36] fix: AVL tree delete keeps the other values that
 compare equal

---
 src/data_structure/avl_tree.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index ec3941b..eb96107 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -80,17 +80,9 @@ where
                         }
                     }
                 } else {
-                    let mut temp = node.borrow().right.clone().unwrap();
-                    loop {
-                        let temp_left = temp.borrow().left.clone();
-                        if temp_left.is_none() {
-                            break;
-                        }
-                        temp = temp_left.unwrap();
-                    }
-                    let right = node.borrow().right.clone();
-                    let successor = temp.borrow().value;
-                    node.borrow_mut().right = Self::delete(right, successor);
+                    let right = node.borrow().right.clone().unwrap();
+                    let (right, successor) = Self::delete_min(right);
+                    node.borrow_mut().right = right;
                     node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
@@ -101,6 +93,23 @@ where
         }
     }
 
+    /// Unlinks the leftmost node and returns what remains and the value it held.
+    fn delete_min(node: Rc<RefCell<AVLTreeNode<T>>>) -> (OptionNodeRc<T>, T) {
+        let left = node.borrow().left.clone();
+        match left {
+            None => {
+                let node = node.borrow();
+                (node.right.clone(), node.value)
+            }
+            Some(left) => {
+                let (left, min) = Self::delete_min(left);
+                node.borrow_mut().left = left;
+                Self::update_height(Some(node.clone()));
+                (Self::rotate(Some(node)), min)
+            }
+        }
+    }
+
     fn update_height(node: OptionNodeRc<T>) {
         if let Some(node) = node {
             let left = node.borrow().left.clone();
-- 
2.43.0


From a2d6f61f620b1fc80119d8c4ef6fdecbb5a5e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:42 +0000
Subject: [PATCH 23/36] fix: the sweep ends when event points nearly coincide

---
 .../intersection/sweep_segment_2_intersection.rs          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 22ff35d..86a6ac8 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -27,6 +27,8 @@ pub struct SweepSegment2Intersection<T: NumberType> {
     status_tree: AVLTree<usize>,
     intersection_points: AVLTree<Point2<T>>,
     last_event_point: Option<Point2<T>>,
+    /// Whether the sweep line has already met each of `segments`.
+    started: Vec<bool>,
 }
 
 impl<T: NumberType> SweepSegment2Intersection<T> {
@@ -105,6 +107,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             status_tree: AVLTree::new(AVLTreeOption::SameNodeInsertRight),
             intersection_points: AVLTree::new(AVLTreeOption::DisableSameNode),
             last_event_point: None,
+            started: Vec::new(),
         }
     }
 
@@ -113,6 +116,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.status_tree.clear();
         self.intersection_points.clear();
         self.last_event_point = None;
+        self.started = vec![false; self.segments.len()];
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -182,6 +186,10 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             self.status_tree.delete(index);
         }
         for index in source_is_p {
+            if self.started[index] {
+                continue;
+            }
+            self.started[index] = true;
             for active in self.status_tree.mid_order_traversal() {
                 let segment_a = self.segments[index];
                 let segment_b = self.segments[active];
-- 
2.43.0


From f2774ac16898a2e99940779bb1eaba209ee91e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 24/36] fix: convex hull of points closer than the tolerance no
 longer panics

---
 src/algorithm/convex_hull/convex_hull_2.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index fee1861..c343fdf 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -11,11 +11,8 @@ impl<T: NumberType> ConvexHull2<T> {
 
     pub fn convex_hull(&mut self) -> Vec<Point2<T>> {
         self.points.sort_by(|a, b| {
-            if !a.x().equals(b.x()) {
-                a.x().partial_cmp(&b.x()).unwrap()
-            } else {
-                a.y().partial_cmp(&b.y()).unwrap()
-            }
+            let by_x = a.x().partial_cmp(&b.x()).unwrap();
+            by_x.then(a.y().partial_cmp(&b.y()).unwrap())
         });
         let mut points = self.points.clone();
         points.dedup();
-- 
2.43.0


From 0a98b8b9557d71fd851706872c693a91fb10e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 25/36] fix: segments closer than the tolerance never meet at
 NaN

---
 .../line_segment_2_line_segment_2.rs          | 33 ++++---------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index ba63689..25876e0 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -13,35 +13,16 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let cd = line_segment_b.target() - line_segment_b.source();
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
-    is_on_both_sides(ab.cross(&ac), ab.cross(&ad))
-        && is_on_both_sides(cd.cross(&ca), cd.cross(&cb))
-        && is_range_overlapped(
-            (line_segment_a.source().x(), line_segment_a.target().x()),
-            (line_segment_b.source().x(), line_segment_b.target().x()),
-        )
-        && is_range_overlapped(
-            (line_segment_a.source().y(), line_segment_a.target().y()),
-            (line_segment_b.source().y(), line_segment_b.target().y()),
-        )
+    is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+        || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+        || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+        || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a)
+        || is_on_both_sides(ab.cross(&ac), ab.cross(&ad))
+            && is_on_both_sides(cd.cross(&ca), cd.cross(&cb))
 }
 
 fn is_on_both_sides<T: NumberType>(cross_a: T, cross_b: T) -> bool {
-    let eps = T::default_eps();
-    !(cross_a > eps && cross_b > eps) && !(cross_a < -eps && cross_b < -eps)
-}
-
-fn is_range_overlapped<T: NumberType>(range_a: (T, T), range_b: (T, T)) -> bool {
-    let sort = |range: (T, T)| {
-        if range.0 > range.1 {
-            (range.1, range.0)
-        } else {
-            range
-        }
-    };
-    let (min_a, max_a) = sort(range_a);
-    let (min_b, max_b) = sort(range_b);
-    let eps = T::default_eps();
-    min_a <= max_b + eps && min_b <= max_a + eps
+    (cross_a < T::zero() && cross_b > T::zero()) || (cross_a > T::zero() && cross_b < T::zero())
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From e1e712ed9b690182a1482670cc2dbae888113a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 26/36] fix: a segment too short to project still meets the
 circle at its end

---
 .../line_segment_2_circle_segment_2.rs         | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index e61ae2c..2b01cac 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -113,19 +113,17 @@ pub fn line_segment_2_circle_segment_2_intersection<T: NumberType>(
                         result.push(Point2::new(point_a.x(), point_a.y()));
                         result.push(Point2::new(point_b.x(), point_b.y()));
                         return result;
-                    } else {
-                        return result;
-                    }
-                }
-                None => {
-                    if source_relation == Point2Circle2Location::On {
-                        result.push(source);
-                    } else if target_relation == Point2Circle2Location::On {
-                        result.push(target);
                     }
-                    return result;
                 }
+                None => {}
             }
+            // also for a segment too short to project onto
+            if source_relation == Point2Circle2Location::On {
+                result.push(source);
+            } else if target_relation == Point2Circle2Location::On {
+                result.push(target);
+            }
+            return result;
         }
     }
 }
-- 
2.43.0


From 4e3b32ce3ba372159489ae00f57412632bf49326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 27/36] fix: segments on one line with a gap between them do
 not intersect

Rounding gives collinear ends tiny cross products of either sign, and the
sign test took such segments for crossing, reporting a point at infinity.
Decide the sides with the same tolerance as the location of a point.
---
 .../line_segment_2_line_segment_2.rs          | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index 25876e0..1825c77 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -1,5 +1,8 @@
 use crate::{
-    algorithm::location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+    algorithm::location::{
+        location_enum::Point2Segment2Location,
+        point_2_line_segment_2::{is_point_2_on_line_segment_2, locate_point_2_line_segment_2},
+    },
     kernel::{number_type::NumberType, point_2::Point2, segment_2::Segment2},
 };
 
@@ -7,22 +10,20 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     line_segment_a: &impl Segment2<T>,
     line_segment_b: &impl Segment2<T>,
 ) -> bool {
-    let ab = line_segment_a.target() - line_segment_a.source();
-    let ac = line_segment_b.source() - line_segment_a.source();
-    let ad = line_segment_b.target() - line_segment_a.source();
-    let cd = line_segment_b.target() - line_segment_b.source();
-    let ca = line_segment_a.source() - line_segment_b.source();
-    let cb = line_segment_a.target() - line_segment_b.source();
-    is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
-        || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
-        || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
-        || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a)
-        || is_on_both_sides(ab.cross(&ac), ab.cross(&ad))
-            && is_on_both_sides(cd.cross(&ca), cd.cross(&cb))
+    let a_source = locate_point_2_line_segment_2(&line_segment_a.source(), line_segment_b);
+    let a_target = locate_point_2_line_segment_2(&line_segment_a.target(), line_segment_b);
+    let b_source = locate_point_2_line_segment_2(&line_segment_b.source(), line_segment_a);
+    let b_target = locate_point_2_line_segment_2(&line_segment_b.target(), line_segment_a);
+    [a_source, a_target, b_source, b_target].contains(&Point2Segment2Location::On)
+        || is_on_both_sides(a_source, a_target) && is_on_both_sides(b_source, b_target)
 }
 
-fn is_on_both_sides<T: NumberType>(cross_a: T, cross_b: T) -> bool {
-    (cross_a < T::zero() && cross_b > T::zero()) || (cross_a > T::zero() && cross_b < T::zero())
+fn is_on_both_sides(a: Point2Segment2Location, b: Point2Segment2Location) -> bool {
+    match (a, b) {
+        (Point2Segment2Location::Left, Point2Segment2Location::Right) => true,
+        (Point2Segment2Location::Right, Point2Segment2Location::Left) => true,
+        _ => false,
+    }
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From 123d02baa04c95b1ffd056c1165bdd75ecaa8acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 28/36] fix: the hull does not list a point on both chains

Of points on one line up to rounding, the tests for the lower and the upper
chain could each keep the same point between the extremes.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index c343fdf..eb1055c 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -29,7 +29,12 @@ impl<T: NumberType> ConvexHull2<T> {
             }
             lower.push(p.clone());
         }
+        // no point between the extremes is on both chains
+        let mut on_lower = lower[1..lower.len() - 1].iter().rev().peekable();
         for p in points.iter().rev() {
+            if on_lower.next_if(|q| q.x() == p.x() && q.y() == p.y()).is_some() {
+                continue;
+            }
             while upper.len() >= 2
                 && Self::cross(&upper[upper.len() - 2], &upper[upper.len() - 1], &p) <= T::zero()
             {
-- 
2.43.0


From 0a50710662da25a97c199da848106a81ae85285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 29/36] fix: the hull lists equal corners once

Points equal within the tolerance need not be neighbours in the exact order
they are sorted by, so removing repetitions only there is not enough.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index eb1055c..3605608 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -45,6 +45,11 @@ impl<T: NumberType> ConvexHull2<T> {
         lower.pop();
         upper.pop();
         lower.extend(upper);
+        // equal points need not be neighbours in the sorted order
+        lower.dedup();
+        while lower.len() > 1 && lower[0] == lower[lower.len() - 1] {
+            lower.pop();
+        }
         lower
     }
 
-- 
2.43.0


From 093ab29f0112ac5668106241765fb24330a047b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 30/36] fix: arcs compare their radii within the tolerance

---
 src/kernel/arc_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index 8e388f1..cf00026 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -123,7 +123,7 @@ impl<T: NumberType> Segment2<T> for ArcSegment2<T> {
 impl<T: NumberType> PartialEq for ArcSegment2<T> {
     fn eq(&self, other: &Self) -> bool {
         self.center() == other.center()
-            && self.radius() == other.radius()
+            && self.radius().equals(other.radius())
             && self.source_radian.equals(other.source_radian)
             && self.target_radian.equals(other.target_radian)
     }
-- 
2.43.0


From bfe1ad61181eba7c72de102212ba28046c9f2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 31/36] fix: the hull finds equal points on one vertical up to
 rounding

---
 src/algorithm/convex_hull/convex_hull_2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 3605608..a2e1292 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -14,6 +14,10 @@ impl<T: NumberType> ConvexHull2<T> {
             let by_x = a.x().partial_cmp(&b.x()).unwrap();
             by_x.then(a.y().partial_cmp(&b.y()).unwrap())
         });
+        // points on one vertical up to rounding go by their height, equal ones side by side
+        for column in self.points.chunk_by_mut(|a, b| a.x().equals(b.x())) {
+            column.sort_by(|a, b| a.y().partial_cmp(&b.y()).unwrap());
+        }
         let mut points = self.points.clone();
         points.dedup();
         if points.len() < 2 {
-- 
2.43.0


From 9a7c68a20d7247b4945075dea05b03f5e9448ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 32/36] fix: circles that touch up to rounding meet in finite
 points

radius_a^2 - a^2 can round below zero for circles of very different radii.
---
 .../intersection/circle_segment_2_circle_segment_2.rs        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/circle_segment_2_circle_segment_2.rs b/src/algorithm/intersection/circle_segment_2_circle_segment_2.rs
index 3da16ea..1fb1c4e 100644
--- a/src/algorithm/intersection/circle_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/circle_segment_2_circle_segment_2.rs
@@ -62,7 +62,10 @@ pub fn circle_segment_2_circle_segment_2_intersection<T: NumberType>(
     } else if distance < radius_sum && distance > radius_dif {
         let a = (radius_a * radius_a + distance * distance - radius_b * radius_b)
             / (T::from_f64(2.0) * distance);
-        let h = (radius_a * radius_a - a * a).sqrt();
+        // all four factors are positive here, while radius_a^2 - a^2 may round below zero
+        let h = ((radius_sum + distance) * (radius_sum - distance)).sqrt()
+            * ((distance + radius_dif) * (distance - radius_dif)).sqrt()
+            / (T::from_f64(2.0) * distance);
         let vector = center_b - center_a;
         let vector = vector.normalize();
         let x = center_a.get_vector() + vector * a;
-- 
2.43.0


From 607c2add36b722545270ee28918db7f45c9a678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 33/36] fix: a segment starting just inside a circle meets it
 in a finite point

The distance of the projection can round above the radius.
---
 .../intersection/line_segment_2_circle_segment_2.rs      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index 2b01cac..f97b36b 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -88,8 +88,13 @@ pub fn line_segment_2_circle_segment_2_intersection<T: NumberType>(
             let projection_point = inside_point + projection_point;
             let projection_point = Point2::new(projection_point.x(), projection_point.y());
             let distance: T = circle_segment.center().distance(&projection_point);
-            let offset =
-                (circle_segment.radius() * circle_segment.radius() - distance * distance).sqrt();
+            let offset = circle_segment.radius() * circle_segment.radius() - distance * distance;
+            // an inside point next to the circle may be its own projection up to rounding
+            let offset = if offset > T::zero() {
+                offset.sqrt()
+            } else {
+                T::zero()
+            };
             let projection_point = projection_point.get_vector() + v.normalize() * offset;
             result.push(Point2::new(projection_point.x(), projection_point.y()));
             return result;
-- 
2.43.0


From 5ea682e35b9b079b25607c4ac1a9c9e49f3568b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 34/36] fix: projecting on a short segment misses where the
 foot is beyond its ends

---
 src/algorithm/projection/point_2_line_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index d6d8223..b54bd00 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -11,7 +11,7 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     let w = *point - segment.source();
     let c1 = w.dot(&v);
     let c2 = v.dot(&v);
-    let eps = T::default_eps();
+    let eps = T::default_eps() * v.length();
     if c1 < -eps || c1 > c2 + eps {
         return None;
     }
-- 
2.43.0


From c251752f528a871c8cf8c8c66c8a0395a379e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 35/36] fix: the turn of a small triangle is not taken for
 collinear

---
 src/kernel/point_2.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernel/point_2.rs b/src/kernel/point_2.rs
index b2faf58..06eed84 100644
--- a/src/kernel/point_2.rs
+++ b/src/kernel/point_2.rs
@@ -56,7 +56,16 @@ impl<T: NumberType> Point2<T> {
         let pq = Vector2::new(q.x - p.x, q.y - p.y);
         let qr = Vector2::new(r.x - q.x, r.y - q.y);
         let cross = pq.cross(&qr);
-        if cross.equals(T::zero()) {
+        let mut eps = T::default_eps();
+        let length = if pq.length() > qr.length() {
+            pq.length()
+        } else {
+            qr.length()
+        };
+        if length < T::from_f64(1.0) {
+            eps = eps * length;
+        }
+        if cross.abs() < eps || cross == T::zero() {
             return TurnDirection::Collinear;
         } else if cross > T::zero() {
             return TurnDirection::Left;
-- 
2.43.0


From f8caaa4656fc0f00ecd2480f8e77b4c963c69561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 36/36] fix: a point on a flat triangle's side is on the
 triangle

---
 src/algorithm/location/point_2_triangle_2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_triangle_2.rs b/src/algorithm/location/point_2_triangle_2.rs
index be99406..dd7c6ba 100644
--- a/src/algorithm/location/point_2_triangle_2.rs
+++ b/src/algorithm/location/point_2_triangle_2.rs
@@ -11,6 +11,7 @@ pub fn locate_point_2_triangle_2<T: NumberType>(
 ) -> Point2Triangle2Location {
     let edges = triangle.edges();
     let mut location = None;
+    let mut beyond = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
         match edge_location {
@@ -33,11 +34,13 @@ pub fn locate_point_2_triangle_2<T: NumberType>(
                 }
                 _ => {}
             },
-            _ => {
-                return Point2Triangle2Location::Outside;
-            }
+            // beyond the ends of this edge, but a flat triangle may have it on another
+            _ => beyond = true,
         }
     }
+    if beyond {
+        return Point2Triangle2Location::Outside;
+    }
     return Point2Triangle2Location::Inside;
 }
 
-- 
2.43.0

