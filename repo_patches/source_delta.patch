From 1985bd0a6c9c35dbce9d800a6654ba3e38c37900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 01/41] fix: KnotVector::span_index skipped the first span for
 a parameter just below the first knot

---
 src/knot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knot.rs b/src/knot.rs
index 79d792a..62814a5 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -57,7 +57,7 @@ impl KnotVector {
                 index
             }
         } else {
-            self.multiplicity(0)
+            self.multiplicity(0) - 1
         }
     }
 
-- 
2.43.0


From 27cb0ed0810354d8e04dc11d98d8d145e591e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 02/41] fix: BSplineCurve::add_knot panicked on knots before
 the domain of an unclamped curve

---
 src/curve/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..a5dee6c 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,13 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                // control points beyond the ends of an unclamped curve count as zero
+                let previous = if i == 0 {
+                    Point3::ZERO
+                } else {
+                    self.control_points[i - 1]
+                };
+                self.control_points[i] = previous * (1.0 - a) + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From 5004fe375a3f942d6d3e52277ed41ceff1de298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 03/41] fix: Polyline::get_point panicked when rounding left a
 remainder near the end

---
 src/curve/polyline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..1ca7b82 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -53,7 +53,8 @@ impl Curve for Polyline {
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            // rounding left a tiny remainder
+            self.end()
         }
     }
 
-- 
2.43.0


From 8072944cce941fca79edaaa2e5d03bb70ef4bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 04/41] fix: Line::project ignored the length of the direction
 vector

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From 2c30f1a50a7b40be80f4f31f41f52e9d778def65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 05/41] fix: Polyline::project ran past the end of the nearest
 segment and gave NaN on repeated vertices

---
 src/curve/polyline.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 1ca7b82..3c6f262 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -35,6 +35,30 @@ impl Polyline {
     pub fn nearest_vertex(&self, point: Point3) -> usize {
         utils::find_nearest_point(&self.vertices, point)
     }
+
+    /// Get index of nearest segment and the ratio of nearest point along it
+    pub(crate) fn nearest_segment(&self, point: Point3) -> (usize, Float) {
+        let mut min = Float::MAX;
+        let mut min_index = 0;
+
+        for (index, pair) in self.vertices.windows(2).enumerate() {
+            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
+            if distance < min {
+                min = distance;
+                min_index = index;
+            }
+        }
+
+        let start = self.vertices[min_index];
+        let vector = self.vertices[min_index + 1] - start;
+        let length_squared = vector.length_squared();
+        let ratio = if length_squared > 0.0 {
+            ((point - start).dot(vector) / length_squared).clamp(0.0, 1.0)
+        } else {
+            0.0
+        };
+        (min_index, ratio)
+    }
 }
 
 impl Curve for Polyline {
@@ -59,20 +83,12 @@ impl Curve for Polyline {
     }
 
     fn project(&self, point: Point3) -> Float {
-        let mut min = Float::MAX;
-        let mut min_index = 0;
-
-        for (index, pair) in self.vertices.windows(2).enumerate() {
-            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
-            if distance < min {
-                min = distance;
-                min_index = index;
-            }
+        if self.length == 0.0 {
+            return 0.0;
         }
-
-        let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+        let (index, ratio) = self.nearest_segment(point);
+        let length = self.segment_lengths.iter().take(index).sum::<Float>()
+            + self.segment_lengths[index] * ratio;
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From e493518cfd413dedfe11dbb0b23f8d21c57bf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 06/41] fix: BSplineCurve::project of a first degree curve
 assumed arc length parameters

---
 src/curve/bspline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index a5dee6c..0aa8ba3 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -150,8 +150,9 @@ impl Curve for BSplineCurve<Point3> {
 
     fn project(&self, point: Point3) -> Float {
         if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+            let polyline = crate::curve::Polyline::new(self.control_points.clone());
+            let (i, ratio) = polyline.nearest_segment(point);
+            return utils::range_at((self.knots[i + 1], self.knots[i + 2]), ratio);
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-- 
2.43.0


From 25fe660c6f507f282a1fe33c6f870fc70b514cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 07/41] fix: find_nearest_parameter returned a worse point when
 Newton iteration diverged

---
 src/utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9adb3bb..7a41636 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -153,20 +153,29 @@ pub fn find_nearest_parameter(
         point,
     )];
     // use Newton iteration to minimize the distance between point and curve
+    let mut nearest = (u, Float::MAX);
     for _ in 0..trials {
         let delta = curve.get_point(u) - point;
+        if delta.length_squared() < nearest.1 {
+            nearest = (u, delta.length_squared());
+        }
         if delta.length_squared().near(0.0) {
             return u;
         }
         let tangent = der1.get_point(u);
         let f = tangent.dot(delta);
         if f.near(0.0) {
-            return u;
+            break;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
         u = clamp_in_range(u - f / fprime, range);
     }
-    u
+    // Newton iteration may diverge
+    if (curve.get_point(u) - point).length_squared() < nearest.1 {
+        u
+    } else {
+        nearest.0
+    }
 }
 
 pub fn get_min_max_by_key<T, F: Fn(&T) -> Float>(items: &Vec<T>, key: F) -> (Float, Float) {
-- 
2.43.0


From ad906c33e9c6cbc22db6293b911e3f8760a2b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 08/41] fix: Circle::refine_parameter_range gave a closed edge
 an empty range instead of a full turn

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From e7c3539b5d233557703d2e79b434541e403d17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 09/41] fix: boxed surfaces lost their normals

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 4f05eea226f367e06297e5fb20472321d2b2695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 10/41] fix: ear clipping kept straightened corners as
 obstacles and lost triangles

---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..9ba747a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0


From 7a07672b57209d837561355001f5c838f0bc232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 11/41] fix: holes were bridged to invisible vertices and ear
 clipping mixed up both ends of a bridge

---
 src/utils/meshgen.rs |   2 +-
 src/utils/polygon.rs | 153 +++++++++++++++++++++++++------------------
 2 files changed, 91 insertions(+), 64 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 415190c..5308d2b 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -130,7 +130,7 @@ fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     center + displace * ratio
 }
 
-fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
     if a.x.min(b.x) > c.x.max(d.x)
         || c.x.min(d.x) > a.x.max(b.x)
         || a.y.min(b.y) > c.y.max(d.y)
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 9ba747a..92a37d3 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,3 +1,4 @@
+use crate::utils::meshgen::is_segments_intersect;
 use crate::utils::{Point, Tolerance};
 use crate::{Float, Point2};
 use std::collections::VecDeque;
@@ -49,8 +50,13 @@ pub fn find_concave_vertices(points: &[Point2], vertices: &mut VecDeque<usize>)
                 concave_points.push(vertices[i]);
             }
             Convexity::Colinear => {
-                // remove colinear or duplicate point
-                to_delete.push(i);
+                if vertices.iter().filter(|v| **v == vertices[i]).count() == 1 {
+                    // remove colinear or duplicate point
+                    to_delete.push(i);
+                } else {
+                    // the other end of a bridge must stay a vertex on both sides
+                    concave_points.push(vertices[i]);
+                }
             }
         }
     }
@@ -90,52 +96,37 @@ pub fn trianglate_polygon(
         let mut i = 0;
         while i < m {
             let curr = vertices[i];
-            if concave_points.binary_search(&curr).is_err() {
-                let prev = vertices[(m + i - 1).rem_euclid(m)];
-                let next = vertices[(i + 1).rem_euclid(m)];
-                if is_ear(points, &concave_points, prev, curr, next) {
-                    triangles.push(prev as u32);
-                    triangles.push(curr as u32);
-                    triangles.push(next as u32);
-
-                    let mut to_delete = vec![i];
+            let prev = vertices[(m + i - 1).rem_euclid(m)];
+            let next = vertices[(i + 1).rem_euclid(m)];
+            // the end of a bridge occurs twice, maybe convex once and concave once
+            if is_convex(points, prev, curr, next)
+                && is_ear(points, &concave_points, prev, curr, next)
+            {
+                triangles.push(prev as u32);
+                triangles.push(curr as u32);
+                triangles.push(next as u32);
 
-                    // update concave_points
+                // update concave_points
+                let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
+                if !is_convex(points, prev_prev, prev, curr)
+                    && is_convex(points, prev_prev, prev, next)
+                {
                     if let Ok(j) = concave_points.binary_search(&prev) {
-                        let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
-                        match compute_convexity(points[prev_prev], points[prev], points[next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                concave_points.remove(j);
-                                to_delete.push((m + i - 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
+                        concave_points.remove(j);
                     }
+                }
+                let next_next = vertices[(i + 2).rem_euclid(m)];
+                if !is_convex(points, curr, next, next_next)
+                    && is_convex(points, prev, next, next_next)
+                {
                     if let Ok(j) = concave_points.binary_search(&next) {
-                        let next_next = vertices[(i + 2).rem_euclid(m)];
-                        match compute_convexity(points[prev], points[next], points[next_next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                concave_points.remove(j);
-                                to_delete.push((i + 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-
-                    // drop ear
-                    to_delete.sort();
-                    to_delete.reverse();
-                    m -= to_delete.len();
-                    for j in to_delete {
-                        vertices.remove(j);
+                        concave_points.remove(j);
                     }
                 }
+
+                // drop ear
+                vertices.remove(i);
+                m -= 1;
             }
             i += 1;
         }
@@ -162,10 +153,11 @@ fn compute_convexity(a: Point2, b: Point2, c: Point2) -> Convexity {
     }
 }
 
-fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
-    (a - p).perp_dot(b - p) >= 0.0
-        && (b - p).perp_dot(c - p) >= 0.0
-        && (c - p).perp_dot(a - p) >= 0.0
+fn is_convex(points: &[Point2], prev: usize, curr: usize, next: usize) -> bool {
+    match compute_convexity(points[prev], points[curr], points[next]) {
+        Convexity::Convex => true,
+        _ => false,
+    }
 }
 
 fn is_ear(
@@ -176,8 +168,8 @@ fn is_ear(
     next: usize,
 ) -> bool {
     for &other in concave_points {
-        if other != prev && other != next {
-            if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
+        if other != prev && other != curr && other != next {
+            if points[other].is_inside_triangle(points[prev], points[curr], points[next]) {
                 return false;
             }
         }
@@ -208,32 +200,34 @@ pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize>
     let (outer_start, outer_end, _, _) = sorted_polygons.pop().unwrap();
     let mut vertices = VecDeque::with_capacity(points.len() + polygons.len() - 1);
     vertices.extend(outer_start..outer_end);
-    for (start, end, i_max, _) in sorted_polygons.into_iter().rev() {
-        merge_two_polygons(points, &mut vertices, start..end, i_max);
+    while let Some((start, end, i_max, _)) = sorted_polygons.pop() {
+        merge_two_polygons(points, polygons, &mut vertices, start..end, i_max);
     }
     vertices
 }
 
 fn merge_two_polygons(
     points: &[Point2],
+    polygons: &[usize],
     outer: &mut VecDeque<usize>,
     inner: std::ops::Range<usize>,
     max_x_index: usize,
 ) {
     let inner_point = points[max_x_index];
-    // find nearest edge to inner point
-    let mut min = Float::MAX;
-    let mut min_index = 0;
-    for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
-            min = distance;
-            min_index = i;
-        }
-    }
+    // find nearest vertex which can be connected to inner point
+    let mut candidates = (0..outer.len()).collect::<Vec<_>>();
+    let distance = |i: &usize| (points[outer[*i]] - inner_point).length_squared();
+    candidates.sort_by(|a, b| distance(a).partial_cmp(&distance(b)).unwrap());
+    let min_index = candidates
+        .iter()
+        .copied()
+        .find(|&i| {
+            let prev = points[outer[(i + outer.len() - 1).rem_euclid(outer.len())]];
+            let next = points[outer[(i + 1).rem_euclid(outer.len())]];
+            is_locally_inside(prev, points[outer[i]], next, inner_point)
+                && is_visible(points, polygons, outer, inner_point, points[outer[i]])
+        })
+        .unwrap_or(candidates[0]);
     // insert inner polygon at min_index
     let insert_at = min_index + 1;
     outer.insert(insert_at, outer[min_index]);
@@ -245,6 +239,39 @@ fn merge_two_polygons(
     }
 }
 
+// check if the line from vertex b to point p starts between the edges ab and bc
+fn is_locally_inside(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
+    let left_of_ab = (b - a).perp_dot(p - b) > 0.0;
+    let left_of_bc = (c - b).perp_dot(p - b) > 0.0;
+    if (b - a).perp_dot(c - b) > 0.0 {
+        left_of_ab && left_of_bc
+    } else {
+        left_of_ab || left_of_bc
+    }
+}
+
+// check if the line from a to b touches no edge except those ending at a or b
+fn is_visible(
+    points: &[Point2],
+    polygons: &[usize],
+    outer: &VecDeque<usize>,
+    a: Point2,
+    b: Point2,
+) -> bool {
+    let is_end = |p: Point2| p == a || p == b;
+    let is_clear = |c: Point2, d: Point2| {
+        let is_near = |p: Point2| !is_end(p) && p.distance_to_line_segment(a, b).near(0.0);
+        !is_near(c) && !is_near(d) && (is_end(c) || is_end(d) || !is_segments_intersect(a, b, c, d))
+    };
+    let ring = outer.iter().zip(outer.iter().cycle().skip(1));
+    let bridges = ring.map(|(i, j)| (points[*i], points[*j]));
+    let edges = polygons.windows(2).flat_map(|pair| {
+        let (start, end) = (pair[0], pair[1]);
+        (start..end).map(move |i| (points[i], points[if i + 1 < end { i + 1 } else { start }]))
+    });
+    bridges.chain(edges).all(|(c, d)| is_clear(c, d))
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From 1c4e009ee1e7682b611cdeb05517fd80d7e81a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 12/41] fix: trimmed cylinders were projected from a center
 inside or below the face

---
 src/surface/cylinder.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..b5b2465 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -71,9 +71,15 @@ impl Surface for Cylinder {
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
 
+        // the projection center has to be above all boundary points, wherever they are on the axis
+        let base = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            ..*self
+        };
+
         let mut points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| base.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
@@ -83,7 +89,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -99,7 +105,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
-- 
2.43.0


From 21da8724ad23d6bbdcf2c81acfc06a1c1bad8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 13/41] fix: trimmed cylinders with holes put inner vertices
 off the surface and never ended for clockwise outlines

---
 src/surface/cylinder.rs | 15 +++++++++++++--
 src/utils/polygon.rs    | 15 +++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index b5b2465..33e54a8 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -116,17 +116,28 @@ impl Surface for Cylinder {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            let is_clockwise = !utils::is_outer_polygon_counter_clockwise(&points, &polygons);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| base.generate_point_from_ring(p, d)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 92a37d3..b367bd5 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -13,6 +13,21 @@ pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
     sum < 0.0
 }
 
+/// Check the winding of the polygon which encloses all others
+pub(crate) fn is_outer_polygon_counter_clockwise(points: &[Point2], polygons: &[usize]) -> bool {
+    let mut x_max = Float::MIN;
+    let mut is_counter_clockwise = true;
+    for pair in polygons.windows(2) {
+        let polygon = &points[pair[0]..pair[1]];
+        let x = polygon.iter().fold(Float::MIN, |x, p| x.max(p.x));
+        if x > x_max {
+            x_max = x;
+            is_counter_clockwise = is_polygon_counter_clockwise(polygon);
+        }
+    }
+    is_counter_clockwise
+}
+
 pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
     let n = points.len();
     let mut vertices = VecDeque::with_capacity(n);
-- 
2.43.0


From e0c10ffe0f15da496ea734cdea93440f6399e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 14/41] fix: trimmed B-spline surfaces with holes never ended
 for clockwise outlines

---
 src/surface/bspline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..5896677 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -259,18 +259,28 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
+            let is_clockwise = !utils::is_outer_polygon_counter_clockwise(&points, &polygons);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
                     .map(|p| self.get_point(p.x, p.y)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
-- 
2.43.0


From 0a7cca93a7e40a6859f3a7b7eb5e1931b719ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 15/41] fix: trimming a B-spline surface wrote bound.obj into
 the working directory and panicked where it could not

---
 src/surface/bspline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5896677..a504a7f 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -222,7 +222,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-- 
2.43.0


From 8cc8b1791f179d5c924bb1c8ffe2c661e7288abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 16/41] fix: advancing front joined nodes just outside of a
 triangle and never ended on nearly straight boundaries

---
 src/utils/meshgen.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 5308d2b..4c8064c 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,5 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{utils::Point, Float, Point2};
+use crate::{Float, Point2};
 use std::collections::VecDeque;
 
 /// generate triangular mesh by advancing front method
@@ -75,7 +75,7 @@ fn find_intersection_with_front(
         .iter()
         .filter_map(|e| {
             if selected_node != Some(e.0) {
-                if e.0 != start && e.0 != end && vertices[e.0].is_inside_triangle(a, b, new_point) {
+                if e.0 != start && e.0 != end && is_inside_triangle(vertices[e.0], a, b, new_point) {
                     let factor = shape_factor(a, b, vertices[e.0]);
                     // give inner nodes higher priority
                     return Some((e.0, 1.0 + factor));
@@ -151,6 +151,18 @@ pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2)
     return true;
 }
 
+// The tolerance covers rounding only, the node has to be in front of the edge ab.
+fn is_inside_triangle(p: Point2, a: Point2, b: Point2, c: Point2) -> bool {
+    let tolerance = -1e-10
+        * (b - a)
+            .length_squared()
+            .max((c - b).length_squared())
+            .max((a - c).length_squared());
+    (a - p).perp_dot(b - p) > 0.0
+        && (b - p).perp_dot(c - p) >= tolerance
+        && (c - p).perp_dot(a - p) >= tolerance
+}
+
 fn shape_factor(a: Point2, b: Point2, c: Point2) -> Float {
     let ab = b - a;
     let ac = c - a;
-- 
2.43.0


From b9d6d029e8ac871e52bf8c5066f0e6c089834f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 17/41] fix: saving points ignored short writes, losing data
 while reporting success

---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..8db6a68 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -43,7 +43,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -54,7 +54,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -68,7 +68,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From ef05f5d5694e9df3ff9e509b3caea988eda7ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 18/41] fix: loading a point cloud panicked on malformed
 numbers

---
 src/points.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 8db6a68..1c4f9c9 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -8,6 +8,15 @@ pub fn scale_points(points: &[Point3], scale: Float) -> Vec<Point3> {
     points.iter().map(|&point| point * scale).collect()
 }
 
+fn parse_float(text: &str) -> std::io::Result<Float> {
+    Float::from_str(text).map_err(|error| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("{:?}: {}", text, error),
+        )
+    })
+}
+
 pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>> {
     let bytes = std::fs::read(file)?;
     let cursor = std::io::Cursor::new(bytes);
@@ -25,14 +34,14 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .as_slice()
         {
             [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_float(x)?,
+                parse_float(y)?,
+                parse_float(z)?,
             )),
             [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_float(x)?,
+                parse_float(y)?,
+                parse_float(z)?,
             )),
             _ => {}
         }
-- 
2.43.0


From 10297bd396ea405270dee3ca672d0b3185da206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 19/41] fix: saving STL reported success when the file was not
 written completely, and panicked on paths without a file name

---
 src/model.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..5414a6c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -25,7 +25,7 @@ impl<F: Face> Model<F> {
     pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
         use std::io::{Seek, SeekFrom, Write};
         let path = std::path::Path::new(filename.as_ref());
-        let name = path.file_stem().unwrap().to_string_lossy();
+        let name = path.file_stem().unwrap_or_default().to_string_lossy();
         let file = std::fs::File::create(path)?;
         let mut writer = std::io::BufWriter::new(file);
 
@@ -33,33 +33,33 @@ impl<F: Face> Model<F> {
         let mut header = Vec::with_capacity(header_size);
         writeln!(header, "Binary STL file\nName: {:57}", name)?;
         header.truncate(header_size);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
 
         let mut triangle_count: usize = 0;
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
 
         for face in &self.faces {
             let mesh = face.get_triangle_mesh();
             triangle_count += mesh.triangle_count();
             for triangle in mesh.triangles.chunks(3) {
                 // normal
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
                 // vertices
                 for index in triangle {
                     let point = &mesh.vertices[*index as usize];
-                    writer.write(&(point.x as f32).to_le_bytes())?;
-                    writer.write(&(point.y as f32).to_le_bytes())?;
-                    writer.write(&(point.z as f32).to_le_bytes())?;
+                    writer.write_all(&(point.x as f32).to_le_bytes())?;
+                    writer.write_all(&(point.y as f32).to_le_bytes())?;
+                    writer.write_all(&(point.z as f32).to_le_bytes())?;
                 }
                 // attribute byte count
-                writer.write(&[0u8, 0u8])?;
+                writer.write_all(&[0u8, 0u8])?;
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
-        dbg!(triangle_count);
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 91121646bfe9f43b77bd6bbb5212f81e18e4c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 20/41] fix: SVG drew polylines and cubic B-splines whole and
 forwards whatever the parameter range

---
 src/model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 5414a6c..11f7b4d 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -110,7 +110,9 @@ impl<F: Face> Model<F> {
                     data.push_str(&format!(" L {:.2},{:.2}", end.x, end.y));
                     continue;
                 }
-                if let Some(polyline) = segment.curve.downcast_ref::<curve::Polyline>() {
+                // a part of a curve, or a curve backwards, has to be sampled
+                let polyline = segment.curve.downcast_ref::<curve::Polyline>();
+                if let Some(polyline) = polyline.filter(|_| segment.parameter_range == (0.0, 1.0)) {
                     for (index, point) in polyline.vertices.iter().enumerate() {
                         if index == 0 {
                             data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
@@ -121,7 +123,7 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(bspline) = segment.curve.downcast_ref::<curve::BSplineCurve<Point3>>() {
-                    if bspline.degree == 3 {
+                    if bspline.degree == 3 && segment.parameter_range == bspline.knots.range() {
                         for (index, bezier_curve) in
                             bspline.to_piecewise_bezier().into_iter().enumerate()
                         {
-- 
2.43.0


From 53abcc0835e5f1682df23cdd18cf1f3575e7390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 21/41] fix: SVG moved the drawing by the fractional part of
 the page height

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 11f7b4d..f669780 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -94,7 +94,7 @@ impl<F: Face> Model<F> {
             .set("height", format!("{}mm", height))
             .set("viewBox", (0, 0, width, height));
         let mut group = Group::new()
-            .set("transform", format!("matrix(1 0 0 -1 0 {:.0})", height))
+            .set("transform", format!("matrix(1 0 0 -1 0 {})", height))
             .set("fill", "none")
             .set("stroke", "black")
             .set("stroke-linecap", "round");
-- 
2.43.0


From 43889c6d90b64851ffa6bc6c14a4af49859c1f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 22/41] fix: STEP reader panicked on placements without axis or
 reference direction, and took their directions for orthogonal unit vectors

---
 src/model/step_reader.rs | 50 ++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..48b2919 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -33,22 +33,28 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
-fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
+/// Get unit vector of an optional direction, its ratios may have any length
+fn unit_direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction| reader.get_entity::<Direction>(direction))
+        .map(|direction| vec3(direction.direction_ratios()).normalize())
+}
+
+fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     (location, axis)
 }
 
 fn axis2_placement_3d(
     reader: &Ap214Reader,
     placement_ref: &EntityRef,
-) -> (Point3, Option<Vec3>, Option<Vec3>) {
+) -> (Point3, Vec3, Vec3) {
     let placement = reader
         .get_entity::<Axis2Placement3d>(placement_ref)
         .unwrap();
@@ -56,12 +62,16 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let z_axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    // the reference direction is optional and only approximate
+    let x_axis = unit_direction(reader, placement.ref_direction()).unwrap_or(
+        if z_axis.x.abs() < 1.0 {
+            Vec3::X
+        } else {
+            Vec3::Y
+        },
+    );
+    let x_axis = (x_axis - z_axis * x_axis.dot(z_axis)).normalize();
     (location, z_axis, x_axis)
 }
 
@@ -140,8 +150,8 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         let (center, axis, ref_dir) = axis2_placement_3d(reader, circle.position());
         return Some(Box::new(crate::curve::Circle {
             center,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: circle.radius().0,
         }));
     }
@@ -196,12 +206,8 @@ fn extract_surface(
     let same_sense = face.same_sense();
     if let Some(plane) = reader.get_entity::<Plane>(face.face_geometry()) {
         let (origin, z_axis, x_axis) = axis2_placement_3d(reader, plane.position());
-        let normal = if same_sense {
-            z_axis.unwrap()
-        } else {
-            -z_axis.unwrap()
-        };
-        let u_axis = x_axis.unwrap();
+        let normal = if same_sense { z_axis } else { -z_axis };
+        let u_axis = x_axis;
         let surface = crate::surface::Plane {
             origin,
             normal,
@@ -218,8 +224,8 @@ fn extract_surface(
         let (origin, axis, ref_dir) = axis2_placement_3d(reader, cylinder.position());
         let surface = crate::surface::Cylinder {
             origin,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
@@ -368,7 +374,7 @@ fn extract_surface(
             let (origin, axis) = axis1_placement(reader, revolution.axis_position());
             let surface = crate::surface::SpinSurface {
                 origin,
-                axis: axis.unwrap(),
+                axis,
                 section,
             };
             return Some(SurfacePatch {
-- 
2.43.0


From 65b5184e15452b47f1ba3655557c3f5eb2940f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 23/41] fix: STEP reader ignored the magnitude of line vectors

---
 src/model/step_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 48b2919..7f78150 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -141,8 +141,11 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 45e269680c8094c7f2808086fed75b7f151900bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 24/41] fix: STEP reader left out face outer bounds

---
 src/model/step_reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 7f78150..1fb16b2 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -446,8 +446,16 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
-                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
+                    let face_bound = reader
+                        .get_entity::<FaceBound>(bound)
+                        .map(|face_bound| face_bound.bound())
+                        .or_else(|| {
+                            reader
+                                .get_entity::<FaceOuterBound>(bound)
+                                .map(|face_bound| face_bound.bound())
+                        });
+                    if let Some(bound) = face_bound {
+                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound) {
                             let edges = edge_loop
                                 .edge_list()
                                 .iter()
-- 
2.43.0


From 9d6851c4ffc82ada348f8cbce7047b38d753592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 25/41] fix: STEP reader ignored the orientation of oriented
 edges

---
 src/model/step_reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 1fb16b2..d7af9c8 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -177,6 +177,16 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
     None
 }
 
+impl CurveSegment<Box<dyn Curve>> {
+    fn oriented(mut self, forward: bool) -> Self {
+        if !forward {
+            let (start, end) = self.parameter_range;
+            self.parameter_range = (end, start);
+        }
+        self
+    }
+}
+
 fn extract_edge_curve(
     reader: &Ap214Reader,
     edge_ref: &EntityRef,
@@ -461,7 +471,9 @@ impl ModelReader {
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        extract_edge_curve(&reader, edge.edge_element()).map(
+                                            |segment| segment.oriented(edge.orientation()),
+                                        )
                                     })
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 38ef3f2adfe8c24355f8f0f7984dd645e2b3d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 26/41] fix: STEP reader ignored the orientation of face bounds

---
 src/model/step_reader.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index d7af9c8..cc214d7 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -458,15 +458,15 @@ impl ModelReader {
                 for bound in advanced_face.bounds() {
                     let face_bound = reader
                         .get_entity::<FaceBound>(bound)
-                        .map(|face_bound| face_bound.bound())
+                        .map(|face_bound| (face_bound.bound(), face_bound.orientation()))
                         .or_else(|| {
                             reader
                                 .get_entity::<FaceOuterBound>(bound)
-                                .map(|face_bound| face_bound.bound())
+                                .map(|face_bound| (face_bound.bound(), face_bound.orientation()))
                         });
-                    if let Some(bound) = face_bound {
+                    if let Some((bound, orientation)) = face_bound {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
@@ -477,6 +477,13 @@ impl ModelReader {
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !orientation {
+                                edges = edges
+                                    .into_iter()
+                                    .rev()
+                                    .map(|segment| segment.oriented(false))
+                                    .collect();
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From 0e3244c0e5c7fffde1c4de9aae8aa9abbcddcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 27/41] fix: STEP reader panicked on curves trimmed by points,
 at random where parameters were given too

---
 src/model/step_reader.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index cc214d7..6c7f3bd 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -408,6 +408,25 @@ fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
     }
 }
 
+/// A trim gives a parameter or a point or both in any order
+fn trimming_parameter<'a>(
+    reader: &Ap214Reader,
+    curve: &Box<dyn Curve>,
+    trims: impl IntoIterator<Item = &'a TrimmingSelect>,
+) -> Option<Float> {
+    let mut parameter = None;
+    for trim in trims {
+        if let TrimmingSelect::CartesianPoint(point) = trim {
+            let point = reader.get_entity::<CartesianPoint>(point);
+            let projected = point.map(|point| curve.project(vec3(point.coordinates())));
+            parameter = parameter.or(projected);
+        } else {
+            parameter = get_trimming_parameter_value(trim);
+        }
+    }
+    parameter
+}
+
 fn extract_curve_segment(
     reader: &Ap214Reader,
     segment_ref: &EntityRef,
@@ -415,12 +434,8 @@ fn extract_curve_segment(
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
-                let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                let param1 = trimming_parameter(reader, &basis_curve, trimmed_curve.trim_1())?;
+                let param2 = trimming_parameter(reader, &basis_curve, trimmed_curve.trim_2())?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 return Some(CurveSegment {
-- 
2.43.0


From 8b076773b1329e4655fa71b05205412381b74b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 28/41] fix: STEP reader ignored the sense of composite curve
 segments

---
 src/model/step_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 6c7f3bd..ca0e057 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -438,12 +438,13 @@ fn extract_curve_segment(
                 let param2 = trimming_parameter(reader, &basis_curve, trimmed_curve.trim_2())?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-                return Some(CurveSegment {
+                let trimmed = CurveSegment {
                     curve: basis_curve,
                     parameter_range,
                     tolerance: 0.01,
                     parameter_division: 16,
-                });
+                };
+                return Some(trimmed.oriented(segment.same_sense()));
             }
         }
     }
-- 
2.43.0


From 5a5cb4b69f387d99421c6d8ef5e2b28d093a60d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 29/41] fix: edges around a whole closed B-spline or polyline
 shrank to a point

---
 src/curve.rs          | 20 ++++++++++++++++++++
 src/curve/bspline.rs  | 13 +++++++++++++
 src/curve/polyline.rs | 10 +++++++++-
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/curve.rs b/src/curve.rs
index b239e89..d025de2 100644
--- a/src/curve.rs
+++ b/src/curve.rs
@@ -17,6 +17,26 @@ pub trait Curve: std::fmt::Debug + Downcast {
 
 impl_downcast!(Curve);
 
+/// On a closed curve both ends of the domain are the same point, choose those in line with the sense.
+fn refine_range_of_closed_curve(
+    (mut u0, mut u1): (Float, Float),
+    (start, end): (Float, Float),
+    same_sense: bool,
+) -> (Float, Float) {
+    let (from, to) = if same_sense { (start, end) } else { (end, start) };
+    if same_sense == (u0 < u1) && u0 != u1 {
+        return (u0, u1);
+    }
+    let tolerance = (end - start) * 1e-4;
+    if (u0 - to).abs() < tolerance {
+        u0 = from;
+    }
+    if (u1 - from).abs() < tolerance {
+        u1 = to;
+    }
+    (u0, u1)
+}
+
 impl Curve for Box<dyn Curve> {
     fn get_point(&self, u: Float) -> Point3 {
         self.as_ref().get_point(u)
diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 0aa8ba3..c64b072 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -166,6 +166,19 @@ impl Curve for BSplineCurve<Point3> {
             10,
         )
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        let (start, end) = self.knots.range();
+        let is_closed = self
+            .get_point(start)
+            .distance_squared(self.get_point(end))
+            .near(0.0);
+        if is_closed {
+            super::refine_range_of_closed_curve(range, (start, end), same_sense)
+        } else {
+            range
+        }
+    }
 }
 
 /// Rational BSpline curve, point (x,y,z) with weight w is (wx,wy,wz,w)
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 3c6f262..ddb8075 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -1,5 +1,5 @@
 use super::Curve;
-use crate::{utils, Float, Point3};
+use crate::{utils, utils::Tolerance, Float, Point3};
 
 #[derive(Debug)]
 pub struct Polyline {
@@ -91,4 +91,12 @@ impl Curve for Polyline {
             + self.segment_lengths[index] * ratio;
         (length / self.length).clamp(0.0, 1.0)
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        if self.start().distance_squared(self.end()).near(0.0) {
+            super::refine_range_of_closed_curve(range, (0.0, 1.0), same_sense)
+        } else {
+            range
+        }
+    }
 }
-- 
2.43.0


From 6243bc1e8d5d049d66fb99fa102a61a725bfc39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 30/41] fix: faces with a loop that has no edges could not be
 meshed

---
 src/surface.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..785dbbd 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,11 +83,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
-        {
-            vertices.pop();
+        if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
+            if first.distance_squared(*last).near(0.0) {
+                vertices.pop();
+            }
         }
         vertices
     }
-- 
2.43.0


From e74222aa25ebcbc9e526feef46af9767b10d2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:11 +0000
Subject: [PATCH 31/41] fix: cylinder and B-spline faces with a single loop
 were wound against it, unlike those with several loops

---
 src/surface/bspline.rs  | 6 +++---
 src/surface/cylinder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index a504a7f..6c46587 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -238,8 +238,7 @@ impl Surface for BSplineSurface<Point3> {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                }
-                .reverse_winding_direction();
+                };
             } else {
                 vertices.reverse();
                 points.reverse();
@@ -254,7 +253,8 @@ impl Surface for BSplineSurface<Point3> {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                };
+                }
+                .reverse_winding_direction();
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 33e54a8..d5c6397 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -96,8 +96,7 @@ impl Surface for Cylinder {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                }
-                .reverse_winding_direction();
+                };
             } else {
                 vertices.reverse();
                 points.reverse();
@@ -112,7 +111,8 @@ impl Surface for Cylinder {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                };
+                }
+                .reverse_winding_direction();
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-- 
2.43.0


From 623347ffcc6eb627893a4814b710c86f7ca2029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 32/41] fix: edges around a whole closed B-spline or polyline
 shrank to a point (ends that differ by rounding)

---
 src/curve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve.rs b/src/curve.rs
index d025de2..1ef267f 100644
--- a/src/curve.rs
+++ b/src/curve.rs
@@ -24,10 +24,11 @@ fn refine_range_of_closed_curve(
     same_sense: bool,
 ) -> (Float, Float) {
     let (from, to) = if same_sense { (start, end) } else { (end, start) };
-    if same_sense == (u0 < u1) && u0 != u1 {
+    let tolerance = (end - start) * 1e-6;
+    let length = if same_sense { u1 - u0 } else { u0 - u1 };
+    if length > tolerance {
         return (u0, u1);
     }
-    let tolerance = (end - start) * 1e-4;
     if (u0 - to).abs() < tolerance {
         u0 = from;
     }
-- 
2.43.0


From 41eb7dffb4e9bfe32715b0336c9d5326a6211df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:25 +0000
Subject: [PATCH 33/41] fix: STEP placements along the x axis without reference
 direction got a broken x axis by rounding

---
 src/model/step_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index ca0e057..da58314 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -65,7 +65,8 @@ fn axis2_placement_3d(
     let z_axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     // the reference direction is optional and only approximate
     let x_axis = unit_direction(reader, placement.ref_direction()).unwrap_or(
-        if z_axis.x.abs() < 1.0 {
+        // the axis may miss the x direction by rounding only
+        if z_axis.cross(Vec3::X).length_squared() > 1e-12 {
             Vec3::X
         } else {
             Vec3::Y
-- 
2.43.0


From 8c67f42f1c8909e9ee80d2bea12e23a580f5b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 34/41] fix: STEP trims of polylines by parameter were taken
 for fractions of the length

---
 src/model/step_reader.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index da58314..4a3de8e 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -422,12 +422,25 @@ fn trimming_parameter<'a>(
             let projected = point.map(|point| curve.project(vec3(point.coordinates())));
             parameter = parameter.or(projected);
         } else {
-            parameter = get_trimming_parameter_value(trim);
+            parameter = get_trimming_parameter_value(trim)
+                .map(|value| library_parameter(curve, value));
         }
     }
     parameter
 }
 
+/// STEP counts the vertices of a polyline, here the parameter is the fraction of its length
+fn library_parameter(curve: &Box<dyn Curve>, value: Float) -> Float {
+    if let Some(polyline) = curve.downcast_ref::<crate::curve::Polyline>() {
+        let index = value.max(0.0) as usize;
+        let lengths = &polyline.segment_lengths;
+        let whole = lengths.iter().take(index).sum::<Float>();
+        let part = lengths.get(index).map_or(0.0, |length| length * (value - index as Float));
+        return ((whole + part) / polyline.length).clamp(0.0, 1.0);
+    }
+    value
+}
+
 fn extract_curve_segment(
     reader: &Ap214Reader,
     segment_ref: &EntityRef,
-- 
2.43.0


From 1167567636689766771ce40385b012ebcd23e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 35/41] fix: whole polylines and B-splines in STEP composite
 curves were left out

---
 src/model/step_reader.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 4a3de8e..290d1b4 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -460,6 +460,23 @@ fn extract_curve_segment(
                 };
                 return Some(trimmed.oriented(segment.same_sense()));
             }
+        } else if let Some(curve) = extract_curve(reader, segment.parent_curve()) {
+            // a whole curve, it has to have ends
+            let parameter_range = if curve.is::<crate::curve::Polyline>() {
+                (0.0, 1.0)
+            } else {
+                curve
+                    .downcast_ref::<crate::curve::BSplineCurve<Point3>>()?
+                    .knots
+                    .range()
+            };
+            let whole = CurveSegment {
+                curve,
+                parameter_range,
+                tolerance: 0.01,
+                parameter_division: 16,
+            };
+            return Some(whole.oriented(segment.same_sense()));
         }
     }
     return None;
-- 
2.43.0


From 4c0aadcd5f7966046d5c952a8d58759074e8d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 36/41] fix: advancing front never ended when rounding put a
 node on different sides of one line

---
 src/utils/meshgen.rs | 48 ++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 4c8064c..960f60e 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -138,29 +138,47 @@ pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2)
     {
         return false;
     }
-    let ac = c - a;
-    let bc = c - b;
-    let ad = d - a;
-    let bd = d - b;
-    if ac.perp_dot(ad) * bd.perp_dot(bc) < 0.0 {
+    if orientation(a, c, d) * orientation(b, c, d) > 0.0 {
         return false;
     }
-    if ac.perp_dot(bc) * bd.perp_dot(ad) < 0.0 {
+    if orientation(c, a, b) * orientation(d, a, b) > 0.0 {
         return false;
     }
     return true;
 }
 
-// The tolerance covers rounding only, the node has to be in front of the edge ab.
+// The sign is exact, rounding must not put a node on different sides of the same line.
+fn orientation(a: Point2, b: Point2, c: Point2) -> Float {
+    let (ab, ac) = (b - a, c - a);
+    let area = ab.perp_dot(ac);
+    if area.abs() > 1e-15 * ((ab.x * ac.y).abs() + (ab.y * ac.x).abs()) {
+        return area;
+    }
+    // sum of the exact products as an expansion of non-overlapping terms
+    let mut terms: Vec<Float> = Vec::with_capacity(12);
+    for &(p, q) in &[(a, b), (b, c), (c, a)] {
+        for &(x, y) in &[(p.x, q.y), (-p.y, q.x)] {
+            let product = x * y;
+            for &part in &[x.mul_add(y, -product), product] {
+                let mut sum = part;
+                for term in terms.iter_mut() {
+                    let (s, t) = (sum, *term);
+                    sum = s + t;
+                    let rest = sum - s;
+                    *term = (s - (sum - rest)) + (t - rest);
+                }
+                terms.push(sum);
+            }
+        }
+    }
+    terms.into_iter().rev().find(|t| *t != 0.0).unwrap_or(0.0)
+}
+
+// The node has to be in front of the edge ab.
 fn is_inside_triangle(p: Point2, a: Point2, b: Point2, c: Point2) -> bool {
-    let tolerance = -1e-10
-        * (b - a)
-            .length_squared()
-            .max((c - b).length_squared())
-            .max((a - c).length_squared());
-    (a - p).perp_dot(b - p) > 0.0
-        && (b - p).perp_dot(c - p) >= tolerance
-        && (c - p).perp_dot(a - p) >= tolerance
+    orientation(p, a, b) > 0.0
+        && orientation(p, b, c) >= 0.0
+        && orientation(p, c, a) >= 0.0
 }
 
 fn shape_factor(a: Point2, b: Point2, c: Point2) -> Float {
-- 
2.43.0


From 72dc9fe16e098ae4ac4513495846262a1710fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:13 +0000
Subject: [PATCH 37/41] fix: faces with a loop that runs along a seam edge both
 ways never finished meshing or lost their holes

---
 src/curve.rs            | 13 ++++++++++++-
 src/surface.rs          | 27 ++++++++++++++++++++++++++-
 src/surface/bspline.rs  |  4 ++--
 src/surface/cylinder.rs |  4 ++--
 src/surface/plane.rs    |  4 ++--
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/curve.rs b/src/curve.rs
index 1ef267f..975437a 100644
--- a/src/curve.rs
+++ b/src/curve.rs
@@ -1,4 +1,4 @@
-use crate::{utils, Float, Point3};
+use crate::{utils, utils::Tolerance, Float, Point3};
 use downcast_rs::{impl_downcast, Downcast};
 
 /// Parametric curve
@@ -78,6 +78,17 @@ impl<C: Curve> CurveSegment<C> {
             .map(|u| self.curve.get_point(u))
             .collect()
     }
+
+    /// Whether the other segment runs along the same points backwards
+    pub fn is_reverse_of(&self, other: &Self) -> bool {
+        let point = |segment: &Self, t: Float| {
+            let (start, end) = segment.parameter_range;
+            segment.curve.get_point(start + (end - start) * t)
+        };
+        [0.0, 0.25, 0.5, 0.75, 1.0]
+            .iter()
+            .all(|&t| point(self, t).distance(point(other, 1.0 - t)).near(0.0))
+    }
 }
 
 /// A continuous curve made up of a series of segments.
diff --git a/src/surface.rs b/src/surface.rs
index 785dbbd..da65b62 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -78,8 +78,12 @@ pub struct EdgeLoop {
 impl EdgeLoop {
     /// Approximate the edge loop with a polygon
     pub fn to_polygon(&self) -> Vec<Point3> {
+        Self::edges_to_polygon(&self.edges.iter().collect::<Vec<_>>())
+    }
+
+    fn edges_to_polygon(edges: &[&CurveSegment<Box<dyn Curve>>]) -> Vec<Point3> {
         let mut vertices = Vec::new();
-        for edge in &self.edges {
+        for edge in edges {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
@@ -90,6 +94,27 @@ impl EdgeLoop {
         }
         vertices
     }
+
+    /// Approximate the edge loop with polygons. An edge which the loop runs along in both
+    /// directions is a seam and bounds nothing, so the loop is split there.
+    pub fn to_polygons(&self) -> Vec<Vec<Point3>> {
+        let mut polygons = Vec::new();
+        let mut loops = vec![self.edges.iter().collect::<Vec<_>>()];
+        while let Some(edges) = loops.pop() {
+            let seam = (0..edges.len()).find_map(|i| {
+                (i + 1..edges.len())
+                    .find(|&j| edges[i].is_reverse_of(edges[j]))
+                    .map(|j| (i, j))
+            });
+            if let Some((i, j)) = seam {
+                loops.push(edges[i + 1..j].to_vec());
+                loops.push([&edges[j + 1..], &edges[..i]].concat());
+            } else {
+                polygons.push(Self::edges_to_polygon(&edges));
+            }
+        }
+        polygons
+    }
 }
 
 pub struct TrimmedSurface<S> {
diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 6c46587..f90bbf8 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -212,8 +212,8 @@ impl Surface for BSplineSurface<Point3> {
         let mut end = 0;
         let mut vertices = bounds
             .iter()
-            .map(|bound| {
-                let polygon = bound.to_polygon();
+            .flat_map(|bound| bound.to_polygons())
+            .map(|polygon| {
                 if polygon.len() > 0 {
                     end += polygon.len();
                     polygons.push(end);
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index d5c6397..509929b 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -57,8 +57,8 @@ impl Surface for Cylinder {
         let mut end = 0;
         let mut vertices = bounds
             .iter()
-            .map(|bound| {
-                let polygon = bound.to_polygon();
+            .flat_map(|bound| bound.to_polygons())
+            .map(|polygon| {
                 if polygon.len() > 0 {
                     end += polygon.len();
                     polygons.push(end);
diff --git a/src/surface/plane.rs b/src/surface/plane.rs
index 4ed183c..d37b1e5 100644
--- a/src/surface/plane.rs
+++ b/src/surface/plane.rs
@@ -28,8 +28,8 @@ impl Surface for Plane {
         let mut end = 0;
         let mut vertices = bounds
             .iter()
-            .map(|bound| {
-                let polygon = bound.to_polygon();
+            .flat_map(|bound| bound.to_polygons())
+            .map(|polygon| {
                 if polygon.len() > 0 {
                     end += polygon.len();
                     polygons.push(end);
-- 
2.43.0


From c6b34af75a1663e4fdc266f21c37e373dbf23267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 38/41] fix: ear clipping stalled where corners of different
 loops are nearly in line

---
 src/utils/meshgen.rs |  2 +-
 src/utils/polygon.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 960f60e..4b3e526 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -148,7 +148,7 @@ pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2)
 }
 
 // The sign is exact, rounding must not put a node on different sides of the same line.
-fn orientation(a: Point2, b: Point2, c: Point2) -> Float {
+pub(super) fn orientation(a: Point2, b: Point2, c: Point2) -> Float {
     let (ab, ac) = (b - a, c - a);
     let area = ab.perp_dot(ac);
     if area.abs() > 1e-15 * ((ab.x * ac.y).abs() + (ab.y * ac.x).abs()) {
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index b367bd5..3ac019a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,4 +1,4 @@
-use crate::utils::meshgen::is_segments_intersect;
+use crate::utils::meshgen::{is_segments_intersect, orientation};
 use crate::utils::{Point, Tolerance};
 use crate::{Float, Point2};
 use std::collections::VecDeque;
@@ -141,6 +141,9 @@ pub fn trianglate_polygon(
 
                 // drop ear
                 vertices.remove(i);
+                if !vertices.contains(&curr) {
+                    concave_points.retain(|point| *point != curr);
+                }
                 m -= 1;
             }
             i += 1;
@@ -169,10 +172,7 @@ fn compute_convexity(a: Point2, b: Point2, c: Point2) -> Convexity {
 }
 
 fn is_convex(points: &[Point2], prev: usize, curr: usize, next: usize) -> bool {
-    match compute_convexity(points[prev], points[curr], points[next]) {
-        Convexity::Convex => true,
-        _ => false,
-    }
+    orientation(points[prev], points[curr], points[next]) > 0.0
 }
 
 fn is_ear(
@@ -184,7 +184,11 @@ fn is_ear(
 ) -> bool {
     for &other in concave_points {
         if other != prev && other != curr && other != next {
-            if points[other].is_inside_triangle(points[prev], points[curr], points[next]) {
+            let (a, b, c) = (points[prev], points[curr], points[next]);
+            if orientation(a, b, points[other]) >= 0.0
+                && orientation(b, c, points[other]) >= 0.0
+                && orientation(c, a, points[other]) >= 0.0
+            {
                 return false;
             }
         }
-- 
2.43.0


From fdea69a72aa48cd82e808417f568d2f830e4c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:52 +0000
Subject: [PATCH 39/41] fix: projecting onto a B-spline curve never looked into
 its short spans

---
 src/curve/bspline.rs | 18 +++++++++---------
 src/utils.rs         | 15 ++++++++++++++-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index c64b072..0118e36 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -156,15 +156,15 @@ impl Curve for BSplineCurve<Point3> {
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-        utils::find_nearest_parameter(
-            self,
-            &der1,
-            &der2,
-            point,
-            self.knots.range(),
-            self.control_points.len() * 4,
-            10,
-        )
+        let range = self.knots.range();
+        let mut parameters = utils::uniform_divide(range, self.control_points.len() * 4);
+        // spans may be much shorter than others, look into each of them
+        for i in 1..self.knots.len() {
+            if self.knots[i - 1] < self.knots[i] {
+                parameters.extend(utils::uniform_divide((self.knots[i - 1], self.knots[i]), 4));
+            }
+        }
+        utils::find_nearest_parameter_from(&parameters, self, &der1, &der2, point, range, 10)
     }
 
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
diff --git a/src/utils.rs b/src/utils.rs
index 7a41636..21c79aa 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -143,8 +143,21 @@ pub fn find_nearest_parameter(
     division: usize,
     trials: usize,
 ) -> Float {
-    // compute initial approximate value
     let parameters = uniform_divide(range, division);
+    find_nearest_parameter_from(&parameters, curve, der1, der2, point, range, trials)
+}
+
+/// Same as `find_nearest_parameter`, starts at the nearest of the given parameters
+pub fn find_nearest_parameter_from(
+    parameters: &[Float],
+    curve: &impl Curve,
+    der1: &impl Curve,
+    der2: &impl Curve,
+    point: Point3,
+    range: (Float, Float),
+    trials: usize,
+) -> Float {
+    // compute initial approximate value
     let mut u = parameters[find_nearest_point(
         &parameters
             .iter()
-- 
2.43.0


From 32077a97666848fd02c329131fff7db79697f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:25 +0000
Subject: [PATCH 40/41] fix: advancing front joined an edge to its own end next
 to slivers with rounded sides

---
 src/utils/meshgen.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 4b3e526..0a15f90 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -84,23 +84,23 @@ fn find_intersection_with_front(
                     if e.0 != start && e.1 != start && is_segments_intersect(a, new_point, c, d) {
                         let fc = shape_factor(a, b, c);
                         let fd = shape_factor(a, b, d);
-                        return if e.0 == end {
-                            Some((e.1, fd))
-                        } else if fc > fd {
+                        return if fc > fd && fc > 0.0 {
                             Some((e.0, fc))
-                        } else {
+                        } else if fd > 0.0 {
                             Some((e.1, fd))
+                        } else {
+                            None
                         };
                     } else if e.0 != end && e.1 != end && is_segments_intersect(b, new_point, c, d)
                     {
                         let fc = shape_factor(a, b, c);
                         let fd = shape_factor(a, b, d);
-                        return if e.1 == start {
+                        return if fc > fd && fc > 0.0 {
                             Some((e.0, fc))
-                        } else if fc > fd {
-                            Some((e.0, fc))
-                        } else {
+                        } else if fd > 0.0 {
                             Some((e.1, fd))
+                        } else {
+                            None
                         };
                     }
                 }
@@ -181,11 +181,12 @@ fn is_inside_triangle(p: Point2, a: Point2, b: Point2, c: Point2) -> bool {
         && orientation(p, c, a) >= 0.0
 }
 
+// Positive exactly for nodes in front of the edge ab, no other can be joined to it.
 fn shape_factor(a: Point2, b: Point2, c: Point2) -> Float {
     let ab = b - a;
     let ac = c - a;
     let bc = c - b;
-    ab.perp_dot(ac) / (ab.length_squared() + ac.length_squared() + bc.length_squared())
+    orientation(a, b, c) / (ab.length_squared() + ac.length_squared() + bc.length_squared())
 }
 
 #[test]
-- 
2.43.0


From 4a131828dac774e8cf2ce3315847ba0a9f914d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:44 +0000
Subject: [PATCH 41/41] fix: project points beside a corner of a curve onto the
 side they are on

---
 src/utils.rs | 58 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 21c79aa..7aa1f33 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -158,14 +158,57 @@ pub fn find_nearest_parameter_from(
     trials: usize,
 ) -> Float {
     // compute initial approximate value
-    let mut u = parameters[find_nearest_point(
+    let u = parameters[find_nearest_point(
         &parameters
             .iter()
             .map(|&u| curve.get_point(u))
             .collect::<Vec<_>>(),
         point,
     )];
-    // use Newton iteration to minimize the distance between point and curve
+    let clamp = |_, next| clamp_in_range(next, range);
+    let mut nearest = newton_iteration(curve, der1, der2, point, u, clamp, trials);
+    // from a corner of the curve the iteration may start into the wrong side, try both sides
+    let before = parameters.iter().filter(|v| **v < u && !v.near(u));
+    let after = parameters.iter().filter(|v| **v > u && !v.near(u));
+    let sides = [
+        before.copied().reduce(Float::max),
+        after.copied().reduce(Float::min),
+    ];
+    for &side in sides.iter().flatten() {
+        if nearest.1.near(0.0) {
+            break;
+        }
+        // a step never leaves the side
+        let limit = |current: Float, next: Float| {
+            if next <= u.min(side) {
+                (current + u.min(side)) / 2.0
+            } else if next >= u.max(side) {
+                (current + u.max(side)) / 2.0
+            } else {
+                next
+            }
+        };
+        let start = (u + side) / 2.0;
+        let other = newton_iteration(curve, der1, der2, point, start, limit, trials);
+        if other.1 < nearest.1 {
+            nearest = other;
+        }
+    }
+    nearest.0
+}
+
+/// Use newton iteration to minimize the distance between point and curve, every step
+/// from one parameter to the next is limited, returns the best parameter found and the square of its distance
+fn newton_iteration(
+    curve: &impl Curve,
+    der1: &impl Curve,
+    der2: &impl Curve,
+    point: Point3,
+    start: Float,
+    limit: impl Fn(Float, Float) -> Float,
+    trials: usize,
+) -> (Float, Float) {
+    let mut u = start;
     let mut nearest = (u, Float::MAX);
     for _ in 0..trials {
         let delta = curve.get_point(u) - point;
@@ -173,7 +216,7 @@ pub fn find_nearest_parameter_from(
             nearest = (u, delta.length_squared());
         }
         if delta.length_squared().near(0.0) {
-            return u;
+            return nearest;
         }
         let tangent = der1.get_point(u);
         let f = tangent.dot(delta);
@@ -181,13 +224,14 @@ pub fn find_nearest_parameter_from(
             break;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
-        u = clamp_in_range(u - f / fprime, range);
+        u = limit(u, u - f / fprime);
     }
     // Newton iteration may diverge
-    if (curve.get_point(u) - point).length_squared() < nearest.1 {
-        u
+    let distance_squared = (curve.get_point(u) - point).length_squared();
+    if distance_squared < nearest.1 {
+        (u, distance_squared)
     } else {
-        nearest.0
+        nearest
     }
 }
 
-- 
2.43.0

