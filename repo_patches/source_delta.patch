From 329cd88e3b24385fa001150ca03b7293cc142bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 1/5] fix: clockwise output was not wound clockwise

The base triangle of a fan that is emitted directly has to start with the fan
root, which is the active vertex exactly when backtracking. Testing the chain
side instead is only equivalent for counter-clockwise builders: clockwise ones
received counter-clockwise, and for longer fans wrong, triangles.
---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..11cec6a 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // The fan root must come first
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From bf758315535b9de06d2620d544d3bb3bfad5259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:16 +0000
Subject: [PATCH 2/5] fix: partial output was left behind when the first fan
 contains the delimiter

DelimitedFanBuilder::new pushes to the caller's collection before it can fail,
and on failure there is no builder yet for fail() to be called on.
---
 src/outputs/formats/delimited_fan.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..322c673 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -65,9 +65,13 @@ impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilde
             _phantom: PhantomData,
         };
 
-        fb.push_index(vi0)?;
-        fb.push_index(vi1)?;
-        fb.push_index(vi2)?;
+        for vi in [vi0, vi1, vi2] {
+            if let Err(err) = fb.push_index(vi) {
+                // No builder is returned for `fail` to be called on
+                fb.fans.truncate(initial_vert_count);
+                return Err(err);
+            }
+        }
 
         Ok(fb)
     }
-- 
2.43.0


From 54268260ce3d1f17cf647550dd75db887ddc4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:17 +0000
Subject: [PATCH 3/5] fix: fail was not called on a list builder that rejects
 the first triangle

---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..cebb24c 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(err) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder exists already, but will not be returned for `fail` to be called on
+            let err = TriangulationError::FanBuilder(err);
+            list_builder.fail(&err);
+            return match err {
+                TriangulationError::FanBuilder(err) => Err(err),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0


From f654481ad0620351ba81be88b67ed8c114b32192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 4/5] fix: lists of polygons use the indices their polygons
 yield

VecVecIter counted from zero to vertex_count instead of iterating over
the polygon's own indices, so a Polygon implementation with any others
worked by itself but not as a member of a list.
---
 src/inputs/polygon_list.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/inputs/polygon_list.rs b/src/inputs/polygon_list.rs
index 46a52ff..ac9e5e4 100644
--- a/src/inputs/polygon_list.rs
+++ b/src/inputs/polygon_list.rs
@@ -218,11 +218,10 @@ impl<'p, P: PolygonList<'p> + ?Sized> ops::Index<P::Index> for PolygonListExt<'p
 }
 
 /// [Iterator] for a [PolygonList] represented as nested vectors
-pub struct VecVecIter<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> {
+pub struct VecVecIter<'a, 'p: 'a, V: Vertex + 'a, P: Polygon<'p, Index=usize, Vertex=V>> {
     parent: &'a [P],
     outer_index: usize,
-    inner_index: usize,
-    _phantom: PhantomData<&'p ()>,
+    inner_iter: Option<P::Iter<'a>>,
 }
 
 impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a, 'p, V, P> {
@@ -230,8 +229,7 @@ impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> VecVecIter<'a
         Self {
             parent,
             outer_index: 0,
-            inner_index: 0,
-            _phantom: PhantomData,
+            inner_iter: None,
         }
     }
 }
@@ -240,19 +238,16 @@ impl<'a, 'p: 'a, V: Vertex, P: Polygon<'p, Index=usize, Vertex=V>> Iterator for
     type Item = PolygonElement<[usize; 2]>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.outer_index < self.parent.len() {
-            Some(if self.inner_index < (self.parent[self.outer_index]).vertex_count() {
-                let result = [self.outer_index, self.inner_index];
-                self.inner_index += 1;
-                PolygonElement::ContinuePolygon(result)
-            } else {
-                self.inner_index = 0;
-                self.outer_index += 1;
-                PolygonElement::NewPolygon
-            })
+        let polygon = self.parent.get(self.outer_index)?;
+        // The polygon decides which indices it uses, and in which order
+        let inner_iter = self.inner_iter.get_or_insert_with(|| polygon.iter_indices());
+        Some(if let Some(inner_index) = inner_iter.next() {
+            PolygonElement::ContinuePolygon([self.outer_index, inner_index])
         } else {
-            None
-        }
+            self.inner_iter = None;
+            self.outer_index += 1;
+            PolygonElement::NewPolygon
+        })
     }
 }
 
-- 
2.43.0


From 608a26319b882046fc9f0fc824c403a6bb8d2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 5/5] fix: a failure removed vertices that were in a flat list
 before

List for Vec<V> counts whole triangles, so with contents that are not a
multiple of three vertices truncate went below the initial length.
---
 src/outputs/list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/outputs/list.rs b/src/outputs/list.rs
index 134fb19..382e020 100644
--- a/src/outputs/list.rs
+++ b/src/outputs/list.rs
@@ -27,7 +27,9 @@ impl<V> List<V> for Vec<V> {
     }
 
     fn truncate(&mut self, len: usize) {
-        self.truncate(len * 3)
+        // Vertices short of a triangle were there before any triangle was added
+        let rest = Vec::len(self) % 3;
+        self.truncate(len * 3 + rest)
     }
 }
 
-- 
2.43.0

