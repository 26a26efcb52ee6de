From d91a6fd91d17e59c7629d78db6665c0320d4b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 1/9] fix: restore the output collection when the first
 delimited fan contains the delimiter

---
 src/outputs/formats/delimited_fan.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..379630f 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,9 +65,13 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
+        // On failure `fail` will never be called for this builder, so `fans` must be restored here
+        for vi in [vi0, vi1, vi2] {
+            if let Err(err) = fb.push_index(vi) {
+                fb.fans.truncate(fb.initial_vert_count);
+                return Err(err);
+            }
+        }
 
         Ok(fb)
     }
-- 
2.43.0


From e0642aa8c769295200fde9d1603a829a01ef8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 2/9] fix: notify a list builder whose first add_triangle call
 fails

---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..b351904 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder already exists, so it must be notified of the failure
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0


From 310eb85074f75982e899b385a045da053ea56b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 3/9] fix: iterate nested polygons by the indices they report

A list of custom polygons with usize indices was walked as 0..vertex_count()
instead of through each polygon's own iter_indices, so polygons whose indices
are not contiguous from zero were looked up with indices they never issued.
---
 src/inputs/polygon_list.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inputs/polygon_list.rs b/src/inputs/polygon_list.rs
index 46a52ff..68583e4 100644
--- a/src/inputs/polygon_list.rs
+++ b/src/inputs/polygon_list.rs
@@ -218,10 +218,10 @@ impl<'p, P: PolygonList<'p> + ?Sized> ops::Index<P::Index> for PolygonListExt<'p
 }
 
 /// [Iterator] for a [PolygonList] represented as nested vectors
-pub struct VecVecIter<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> {
+pub struct VecVecIter<'a, 'p: 'a, V: Vertex + 'a, P: Polygon<'p, Index=usize, Vertex=V> + 'a> {
     parent: &'a [P],
     outer_index: usize,
-    inner_index: usize,
+    inner_iter: Option<P::Iter<'a>>,
     _phantom: PhantomData<&'p ()>,
 }
 
@@ -230,7 +230,7 @@ impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a
         Self {
             parent,
             outer_index: 0,
-            inner_index: 0,
+            inner_iter: None,
             _phantom: PhantomData,
         }
     }
@@ -241,12 +241,13 @@ impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.outer_index < self.parent.len() {
-            Some(if self.inner_index < (self.parent[self.outer_index]).vertex_count() {
-                let result = [self.outer_index, self.inner_index];
-                self.inner_index += 1;
-                PolygonElement::ContinuePolygon(result)
+            // The indices are chosen by the inner polygon, and are not necessarily contiguous
+            let parent = self.parent;
+            let inner_iter = self.inner_iter.get_or_insert_with(|| parent[self.outer_index].iter_indices());
+            Some(if let Some(inner_index) = inner_iter.next() {
+                PolygonElement::ContinuePolygon([self.outer_index, inner_index])
             } else {
-                self.inner_index = 0;
+                self.inner_iter = None;
                 self.outer_index += 1;
                 PolygonElement::NewPolygon
             })
-- 
2.43.0


From 37ae1da3eafb8550e8d561b79ac20b31fa0f2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:32 +0000
Subject: [PATCH 4/9] fix: put the root first in every fan of a clockwise
 builder

When a fan is emitted in advancing order its root is the active vertex if
backtracking, and the previous skipped vertex otherwise. The swap was keyed on
the chain side, which coincides only for counter-clockwise builders, so
clockwise builders and reverse_winding received fans around the wrong vertex:
overlapping triangles of mixed winding.
---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..059c130 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // The fan root must come first, and it is the active vertex when backtracking
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From 5efdfbf1627f3d7f404c23bfd78521ea26b10e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:33 +0000
Subject: [PATCH 5/9] fix: draw nothing for coordinates which cannot be
 converted to f32

With debug output enabled, a coordinate type whose to_f32 returns None made
every triangulation panic.
---
 src/trapezoidation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index f205f18..fba296c 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -145,10 +145,12 @@ impl DebugInfo {
             let index: PolygonElement<_> = index.into();
             if let PolygonElement::ContinuePolygon(index) = index {
                 let v = &ps[index];
-                view_x_min = view_x_min.min(v.x().to_f32().unwrap());
-                view_x_max = view_x_max.max(v.x().to_f32().unwrap());
-                view_y_min = view_y_min.min(v.y().to_f32().unwrap());
-                view_y_max = view_y_max.max(v.y().to_f32().unwrap());
+                // Coordinates which have no f32 representation cannot be drawn, but must not prevent triangulation
+                let (x, y) = (v.x().to_f32()?, v.y().to_f32()?);
+                view_x_min = view_x_min.min(x);
+                view_x_max = view_x_max.max(x);
+                view_y_min = view_y_min.min(y);
+                view_y_max = view_y_max.max(y);
             }
         }
 
-- 
2.43.0


From 947524f78024d4bd698d6eec878cc6a3b82f3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:06 +0000
Subject: [PATCH 6/9] fix: backtrack past an exposed fan root within the same
 pass

An advancing fan could expose its root and carry on, leaving the root for
another pass over all the remaining vertices: up to one pass for every other
vertex of a monotone polygon, i.e. quadratic time.
---
 src/monotone.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 059c130..5c2ec3f 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -100,6 +100,9 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
         }
 
         while self.remaining_vertices() >= 3 {
+            // Has an advancing fan made it possible to backtrack past its root?
+            let mut is_root_exposed = false;
+
             if self.can_triangulate() {
                 // The base triangle, with all 3 points specified
                 let vi1 = self.skipped_pop().0;
@@ -134,9 +137,10 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                     }
                 } else {
                     self.transfer_pending();
-                    while self.can_triangulate() {
+                    while !is_root_exposed && self.can_triangulate() {
                         self.skipped_pop();
                         bodt.add_triangle(self.pending_peek().0).map_err(TriangulationError::from)?;
+                        is_root_exposed = self.can_triangulate();
 
                         self.transfer_pending();
                     }
@@ -159,7 +163,10 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 }
             }
 
-            if self.has_pending() {
+            if is_root_exposed {
+                // Backtrack now, otherwise every exposed root can take another pass over all the remaining vertices
+                self.return_pending();
+            } else if self.has_pending() {
                 self.transfer_pending();
             } else {
                 // In rare cases, pushing vertices and popping whenever backtracking is possible will not be able to triangulate everything.
@@ -209,6 +216,14 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
         self.pending_top += 1;
     }
 
+    fn return_pending(&mut self) {
+        self.skipped_top -= 1;
+        self.pending_top -= 1;
+        if self.skipped_top != self.pending_top {
+            self.skipped_and_pending.swap(self.skipped_top, self.pending_top);
+        }
+    }
+
     fn reset_position(&mut self) {
         self.skipped_and_pending.truncate(self.skipped_top);
         self.skipped_top = 2;
-- 
2.43.0


From 1196a15054e4cd72b0e93bd2694dbf751b76b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 7/9] fix: report an error instead of looping forever when a
 monotone polygon cannot be cut any further

On input which does not meet the preconditions the same vertices were scanned again and again without any progress.
---
 src/monotone.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 5c2ec3f..f060292 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -169,9 +169,9 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
             } else if self.has_pending() {
                 self.transfer_pending();
             } else {
-                // In rare cases, pushing vertices and popping whenever backtracking is possible will not be able to triangulate everything.
-                // If we have pushed all vertices and we can't backtrack, reset our position to the initial setup (minus all removed vertices)
-                self.reset_position();
+                // All vertices have been pushed and nothing is left to cut off, so another pass could not change anything.
+                // If there are still vertices remaining, the preconditions are not met
+                break;
             }
         }
 
@@ -224,12 +224,6 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
         }
     }
 
-    fn reset_position(&mut self) {
-        self.skipped_and_pending.truncate(self.skipped_top);
-        self.skipped_top = 2;
-        self.pending_top = 2;
-    }
-
     fn has_pending(&self) -> bool { self.pending_top < self.skipped_and_pending.len() }
 
     fn deferred_index(&self, is_backtracking: bool, i: usize) -> Index {
-- 
2.43.0


From 0b889478af32ce22859d6d0a1dec8bc04c8fa9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:17 +0000
Subject: [PATCH 8/9] fix: insert the polygons of a list in random order

Polygons were inserted in the order they are listed. A list sorted by position
(or nested rings, from the outside to the inside) degenerated the query
structure, so that locating each polygon took time linear in the number of
polygons before it.
---
 src/trapezoidation.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/trapezoidation.rs b/src/trapezoidation.rs
index fba296c..bf696fe 100644
--- a/src/trapezoidation.rs
+++ b/src/trapezoidation.rs
@@ -261,8 +261,10 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
         // Periodically, for each uninserted vertex, we search for the trapezoid that contains the point and update the QueryNode.
         // Finally, once a vertex is inserted, we replace the QueryNode with the exact Nexus we created for the vertex
 
-        // Allocate as if there is a single polygon (ensuring no reallocations)
         let mut v_lookup: Vec<VertexLocation<P::Vertex, P::Index>> = Vec::with_capacity(self.ps.vertex_count());
+        // The range in `v_lookup` of each polygon
+        let mut polygons = Vec::new();
+        let mut v_start = 0;
 
         // Ensure the iteration ends with NewPolygon
         for polygon_vertex in self.ps.clone().iter_polygon_vertices().map(Into::into).chain(iter::once(PolygonElement::NewPolygon)) {
@@ -272,19 +274,26 @@ impl<'p, P: PolygonList<'p> + ?Sized> TrapezoidationState<'p, P> {
                     v_lookup.push(VertexLocation::Pending(c, index, self.query_node_root()));
                 }
                 PolygonElement::NewPolygon => {
-                    let v_count = v_lookup.len();
+                    let v_count = v_lookup.len() - v_start;
                     if v_count > 0 {
                         if v_count < 3 {
                             return Err(TrapezoidationError::NotEnoughVertices(v_count));
                         } else {
-                            self.add_polygon(v_lookup.as_mut_slice()).map_err(TrapezoidationError::InternalError)?;
-                            v_lookup.clear();
+                            polygons.push(v_start..v_lookup.len());
+                            v_start = v_lookup.len();
                         }
                     }
                 }
             }
         }
 
+        // As with the segments of each polygon, a random order avoids the worst cases (e.g. many polygons, sorted by position)
+        polygons[..].shuffle(&mut rand::thread_rng());
+
+        for polygon in polygons {
+            self.add_polygon(&mut v_lookup[polygon]).map_err(TrapezoidationError::InternalError)?;
+        }
+
         Ok(Trapezoidation::new(self))
     }
 
-- 
2.43.0


From 59c421920bec4035f7773f1b86ff6203ea12b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 9/9] fix: truncating a flat list to more than usize::MAX / 3
 triangles keeps it as it is

---
 src/outputs/list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/outputs/list.rs b/src/outputs/list.rs
index 134fb19..6effb84 100644
--- a/src/outputs/list.rs
+++ b/src/outputs/list.rs
@@ -27,7 +27,8 @@ impl<V> List<V> for Vec<V> {
     }
 
     fn truncate(&mut self, len: usize) {
-        self.truncate(len * 3)
+        // A `len` this list can never reach is no reason to remove anything
+        self.truncate(len.saturating_mul(3))
     }
 }
 
-- 
2.43.0

