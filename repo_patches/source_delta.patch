From 7609588acfdead022a174af215b2b469e4fae3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 01/47] fix: project a point onto a line along the line's
 normal

The perpendicular of a*x + b*y + c = 0 has slope b / a; the code used a / b,
which is only right when |a| == |b|.
---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From 4cf044af5d24090a2dd66de713e3596afb12759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 02/47] fix: arc/circle intersection test panicked

is_segment_2_segment_2_intersected sent (arc, circle) to the arc/arc test,
which asks the circle for its source and panics.
---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From 105e040eaa5706cd68db368a3f6700d1cbb7d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 03/47] fix: a segment from inside to outside a circle
 intersects it

is_line_segment_2_circle_segment_2_intersected only looked at the projection
of the center, which may fall outside the segment.
---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..04090d3 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -24,6 +24,7 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         return false;
     } else if source_relation == Point2Circle2Location::On
         || target_relation == Point2Circle2Location::On
+        || source_relation != target_relation
     {
         return true;
     } else {
-- 
2.43.0


From 52090839c8c343cadfdbbf7c38c58de36f652da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 04/47] fix: locate a point on a segment with a distance
 tolerance

The tolerance was compared with an area, so an intersection point computed
on a segment of length 1000 was not on it, and every point was on a segment
of length zero. The far end of the segment had no tolerance at all.
---
 .../location/point_2_line_segment_2.rs        | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..0b4c452 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -21,15 +21,25 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     let target = segment_2.target();
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
-    let area = vec_ab.cross(&vec_ac);
-    if area > T::default_eps() {
+    let eps = T::default_eps();
+    let length = vec_ab.length();
+    if length < eps {
+        return if point_2.equals(&source) {
+            Point2Segment2Location::On
+        } else {
+            Point2Segment2Location::Collinear
+        };
+    }
+    // Signed distances from the supporting line and along it, so that the
+    // tolerance is a distance whatever the length of the segment.
+    let offset = vec_ab.cross(&vec_ac) / length;
+    if offset > eps {
         Point2Segment2Location::Left
-    } else if area < -T::default_eps() {
+    } else if offset < -eps {
         Point2Segment2Location::Right
     } else {
-        let dot_ab_ac = vec_ab.dot(&vec_ac);
-        let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        let along = vec_ab.dot(&vec_ac) / length;
+        if along <= length + eps && along >= -eps {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 540d911081e2caa044e16ffacc778751012782d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 05/47] fix: disjoint collinear segments do not intersect

The test multiplied the two orientations, which is zero for collinear
segments wherever they lie (and below the tolerance for short ones); the
intersection then was a point with NaN coordinates.
---
 .../line_segment_2_line_segment_2.rs          | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..f78f436 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -1,5 +1,8 @@
 use crate::{
-    algorithm::location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+    algorithm::location::{
+        location_enum::Point2Segment2Location,
+        point_2_line_segment_2::{is_point_2_on_line_segment_2, locate_point_2_line_segment_2},
+    },
     kernel::{number_type::NumberType, point_2::Point2, segment_2::Segment2},
 };
 
@@ -7,14 +10,22 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     line_segment_a: &impl Segment2<T>,
     line_segment_b: &impl Segment2<T>,
 ) -> bool {
-    let ab = line_segment_a.target() - line_segment_a.source();
-    let ac = line_segment_b.source() - line_segment_a.source();
-    let ad = line_segment_b.target() - line_segment_a.source();
-    let cd = line_segment_b.target() - line_segment_b.source();
-    let ca = line_segment_a.source() - line_segment_b.source();
-    let cb = line_segment_a.target() - line_segment_b.source();
-    let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    let locations = [
+        locate_point_2_line_segment_2(&line_segment_b.source(), line_segment_a),
+        locate_point_2_line_segment_2(&line_segment_b.target(), line_segment_a),
+        locate_point_2_line_segment_2(&line_segment_a.source(), line_segment_b),
+        locate_point_2_line_segment_2(&line_segment_a.target(), line_segment_b),
+    ];
+    if locations.contains(&Point2Segment2Location::On) {
+        return true;
+    }
+    // No endpoint touches the other segment: they cross when the endpoints of
+    // each are strictly on the two sides of the other.
+    locations
+        .iter()
+        .all(|location| *location != Point2Segment2Location::Collinear)
+        && locations[0] != locations[1]
+        && locations[2] != locations[3]
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From caf0b35f2a0627add02d283348948945cca3765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 06/47] fix: intersect a segment with a ray anywhere along the
 segment

The crossing was only found when the ray passed through the midpoint of the
segment (the two cross products compared are always equal), and the
predicate depended on the direction of the segment and ignored the origin
of the ray.
---
 .../intersection/line_segment_2_ray_2.rs      | 29 ++++---------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..9d18c2e 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,8 +1,5 @@
 use crate::{
-    algorithm::location::{
-        location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
-    },
+    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
         segment_2::Segment2,
@@ -13,12 +10,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -59,20 +51,9 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                     }
                     _ => {
                         let v1 = target - source;
-                        let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
+                        let v2 = source - ray_segment.origin();
+                        let t = v2.cross(&v1) / ray_segment.direction().cross(&v1);
+                        if t > -T::default_eps() {
                             let point =
                                 ray_segment.origin().get_vector() + ray_segment.direction() * t;
                             result.push(Point2::new(point.x(), point.y()));
-- 
2.43.0


From 082a369bc23dbbc6fa58a24de6a2ae12d00afb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 07/47] fix: project onto a segment with a distance tolerance

A point right above an endpoint of a long segment had no projection because
of rounding, and any projection onto a segment of length zero was NaN.
---
 src/algorithm/projection/point_2_line_segment_2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..0ba84cd 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -4,11 +4,14 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     point: &Point2<T>,
     segment: &impl Segment2<T>,
 ) -> Option<Point2<T>> {
+    if segment.source() == segment.target() {
+        return Some(segment.source());
+    }
     let v = segment.target() - segment.source();
     let w = *point - segment.source();
     let c1 = w.dot(&v);
     let c2 = v.dot(&v);
-    let eps = T::default_eps();
+    let eps = T::default_eps() * v.length();
     if c1 < -eps || c1 > c2 + eps {
         return None;
     }
-- 
2.43.0


From 6c4db04e4e6ce1d24f9972bbcdce40c1d2e73db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 08/47] fix: locate a point on a line with a distance tolerance

The residual of a*x + b*y + c depends on the scale of the coefficients: the
points a steep line was built from were not on it.
---
 src/algorithm/location/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_2.rs b/src/algorithm/location/point_2_line_2.rs
index feaa412..1dcf40f 100644
--- a/src/algorithm/location/point_2_line_2.rs
+++ b/src/algorithm/location/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn locate_point_2_line_2<T: NumberType>(
     let c = line.c();
     let x = point.x();
     let y = point.y();
-    let result = a * x + b * y + c;
+    let result = (a * x + b * y + c) / (a * a + b * b).sqrt();
     if result.equals(T::zero()) {
         Point2Line2Location::On
     } else {
-- 
2.43.0


From d6154332bef90d711059ef97bd42ef8257d692b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 09/47] fix: sort the points of a convex hull by a total order

Comparing with a tolerance is not transitive: with points closer than the
tolerance the sort may panic and the chain may miss hull vertices.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..fa38ede 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -11,7 +11,7 @@ impl<T: NumberType> ConvexHull2<T> {
 
     pub fn convex_hull(&mut self) -> Vec<Point2<T>> {
         self.points.sort_by(|a, b| {
-            if !a.x().equals(b.x()) {
+            if a.x() != b.x() {
                 a.x().partial_cmp(&b.x()).unwrap()
             } else {
                 a.y().partial_cmp(&b.y()).unwrap()
-- 
2.43.0


From 6d3bcbc0601a1f36e79558241a7cdd316c5034ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 10/47] fix: the convex hull of a single point is that point

It was empty, and the hull of a point given several times had it twice.
---
 src/algorithm/convex_hull/convex_hull_2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index fa38ede..f2bcb46 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,6 +17,11 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        if let (Some(first), Some(last)) = (self.points.first(), self.points.last()) {
+            if first.x() == last.x() && first.y() == last.y() {
+                return vec![*first];
+            }
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
         for p in self.points.iter() {
-- 
2.43.0


From e269ad3e5e199e183fa2bfe4ddb6f8d310e79d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 11/47] fix: deleting the last node of the circular list
 empties it

Head and tail kept pointing at the deleted node.
---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From 0c1978bbc152d4290982418fc171001869ace0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 12/47] fix: free the nodes of the circular list

The nodes hold strong references to each other, so every triangulated
polygon leaked its vertices.
---
 src/data_structure/circular_doubly_linked_list.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 545e882..a63c165 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -98,6 +98,8 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
                 }
+                node.borrow_mut().prev = None;
+                node.borrow_mut().next = None;
                 self.length -= 1;
             }
             None => {}
@@ -108,3 +110,15 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
         self.length
     }
 }
+
+impl<T: Clone + Copy> Drop for CircularDoubleLinkedList<T> {
+    /// The nodes of the ring own each other: unlink them, or they are never freed.
+    fn drop(&mut self) {
+        let mut node = self.head.take();
+        self.tail = None;
+        while let Some(current) = node {
+            node = current.borrow_mut().next.take();
+            current.borrow_mut().prev = None;
+        }
+    }
+}
-- 
2.43.0


From 65c370722240520b26bbac7298f5a496d959c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 13/47] fix: do not print from the triangulation

earcut_2 wrote the index of every ear to standard output.
---
 src/algorithm/triangulation/earcut_2.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..d2a2ecb 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -64,7 +64,6 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
         vertices.delete(Some(ear));
-        println!("{:?}", ear_index);
         if vertices.len() > 3 {
             let (prev_vertex_type, index) = get_vertex_type(&ears, &reflexes, prev.clone());
             match prev_vertex_type {
-- 
2.43.0


From 928166ea043c50c4ffeead521f71cd115be2dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 14/47] fix: keep the ear and reflex lists of earcut up to date

A vertex that stopped being an ear, or that stopped being reflex while
blocked, stayed in its list, so ears were cut across the boundary or missed.
A vertex on the diagonal of an ear now blocks it too: cutting it left a
triangle of zero area.
---
 src/algorithm/triangulation/earcut_2.rs | 64 ++++++++++---------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index d2a2ecb..5d423a9 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -196,46 +196,30 @@ fn get_vertex_type<T: NumberType>(
     points.sort_by(|a, b| a.index.cmp(&b.index));
     let triangle = Triangle2::new(points[0].point, points[1].point, points[2].point);
 
-    match triangle.orientation() {
-        Orientation::Clockwise => match vertex.borrow().data.vertex_type {
-            VertexType::Reflex => (VertexType::Reflex, None),
-            VertexType::Ear => {
-                let ear_index = ears
-                    .iter()
-                    .position(|x| x.borrow().data.point == cur.borrow().data.point);
-                (VertexType::Reflex, ear_index)
-            }
-            VertexType::Convex => (VertexType::Reflex, None),
-        },
+    let vertex_type = match triangle.orientation() {
+        Orientation::Clockwise => VertexType::Reflex,
         Orientation::CounterClockwise => {
-            for i in 0..reflexes.len() {
-                let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
-                    continue;
-                }
-                let point = reflex.borrow().data.point;
-                let location = locate_point_2_triangle_2(&point, &triangle);
-                match location {
-                    Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
-                    }
-                    _ => {
-                        continue;
-                    }
-                }
-            }
-            match vertex.borrow().data.vertex_type {
-                VertexType::Reflex => {
-                    let reflex_index = reflexes
-                        .iter()
-                        .position(|x| x.borrow().data.point == cur.borrow().data.point);
-                    (VertexType::Ear, reflex_index)
-                }
-                VertexType::Ear => (VertexType::Ear, None),
-                VertexType::Convex => (VertexType::Ear, None),
+            let blocked = reflexes.iter().any(|reflex| {
+                !Rc::ptr_eq(reflex, &cur)
+                    && !Rc::ptr_eq(reflex, &prev)
+                    && !Rc::ptr_eq(reflex, &next)
+                    && locate_point_2_triangle_2(&reflex.borrow().data.point, &triangle)
+                        != Point2Triangle2Location::Outside
+            });
+            if blocked {
+                VertexType::Convex
+            } else {
+                VertexType::Ear
             }
         }
-    }
+    };
+    // Where the vertex is listed now, for the caller to remove it.
+    let index = match cur.borrow().data.vertex_type {
+        VertexType::Reflex => reflexes.iter().position(|x| Rc::ptr_eq(x, &cur)),
+        VertexType::Ear => ears.iter().position(|x| Rc::ptr_eq(x, &cur)),
+        VertexType::Convex => None,
+    };
+    (vertex_type, index)
 }
 
 fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> VertexType {
@@ -261,11 +245,11 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
-                        return VertexType::Convex;
+                    Point2Triangle2Location::Outside => {
+                        continue;
                     }
                     _ => {
-                        continue;
+                        return VertexType::Convex;
                     }
                 }
             }
-- 
2.43.0


From eacc4d5e8655a6ca46ef7ab5b2059e9775565710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 15/47] fix: triangulate clockwise polygons

Every convex vertex of a clockwise polygon was taken for a reflex one and
no triangle came out.
---
 src/algorithm/triangulation/earcut_2.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index 5d423a9..01c246b 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -33,7 +33,11 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
     let mut vertices = CircularDoubleLinkedList::new();
     let mut ears = Vec::new();
     let mut reflexes = Vec::new();
-    let polygon_vertices = polygon.vertices();
+    let mut polygon_vertices = polygon.vertices();
+    let is_clockwise = polygon.area() < T::zero();
+    if is_clockwise {
+        polygon_vertices.reverse();
+    }
     let mut _vertex = vertices.tail();
     for i in 0..polygon_vertices.len() {
         let vertex_type = init_vertex_type(&polygon_vertices, i);
@@ -181,6 +185,14 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
     }
+    if is_clockwise {
+        for triangle in &mut triangles {
+            for index in triangle.iter_mut() {
+                *index = polygon_vertices.len() - 1 - *index;
+            }
+            triangle.sort();
+        }
+    }
     triangles
 }
 
-- 
2.43.0


From dfe054c260a054e86d05e21d8ad16f4b7794fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 16/47] fix: locate a point in a polygon that is not convex

A point with edges on both sides was outside, which is only true of convex
polygons. Count the edges crossed by a ray instead.
---
 src/algorithm/location/point_2_polygon_2.rs | 47 +++++++++------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..6ca28d3 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -40,36 +42,25 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
     let edges = polygon.edges();
-    let mut location = None;
+    let mut inside = false;
     for edge in &edges {
         let edge_location = locate_point_2_line_segment_2(point, edge);
-        match edge_location {
-            Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
-            _ => {}
+        if edge_location == Point2Segment2Location::On {
+            return Point2Polygon2Location::On;
         }
-    }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
+        // Count the edges crossed by the horizontal ray to the right of the point.
+        let source = edge.source();
+        let target = edge.target();
+        let is_upward = target.y() > source.y();
+        if (source.y() > point.y()) != (target.y() > point.y())
+            && (edge_location == Point2Segment2Location::Left) == is_upward
+        {
+            inside = !inside;
         }
     }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
+    }
 }
-- 
2.43.0


From b677e200ed6b410bd17ef3c98f0dd7a1a01f1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 17/47] fix: a polygon whose boundary touches itself is not
 simple

is_simple compared the number of intersection points with the number of
vertices, which stays equal when a vertex lies on another edge or when edges
overlap.
---
 src/kernel/polygon_2.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..a429840 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,4 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::intersection::segment_2_segment_2::segment_2_segment_2_intersection;
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -45,16 +45,21 @@ impl<T: NumberType> Polygon2<T> {
 
     pub fn is_simple(&self) -> bool {
         let edges = self.edges();
-        let mut sweep = SweepSegment2Intersection::new();
-        for edge in edges.iter() {
-            sweep.push_segment(edge);
-        }
-        let intersections = sweep.intersection();
-        let vertices_size = self.vertices.len();
-        if vertices_size == intersections.len() {
+        let n = edges.len();
+        if n < 3 {
             return true;
         }
-        return false;
+        for i in 0..n {
+            for j in i + 1..n {
+                let points = segment_2_segment_2_intersection(&edges[i], &edges[j]);
+                // Adjacent edges share one vertex, the others nothing.
+                let is_adjacent = j == i + 1 || (i == 0 && j == n - 1);
+                if points.len() != usize::from(is_adjacent) {
+                    return false;
+                }
+            }
+        }
+        true
     }
 
     pub fn is_convex(&self) -> bool {
-- 
2.43.0


From a00859bc2d394317b8ac737f3998e62a7fb3f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 18/47] fix: a star polygon is not convex

A pentagram turns the same way at every vertex; is_convex now also checks
that the boundary goes around once.
---
 src/kernel/polygon_2.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index a429840..a049967 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -85,7 +85,18 @@ impl<T: NumberType> Polygon2<T> {
                 },
             }
         }
-        true
+        // A star only turns one way too, but goes around more than once: a convex
+        // boundary goes once to the right and once to the left.
+        let mut reversals = 0;
+        for i in 0..n {
+            let p = self.vertices[i];
+            let q = self.vertices[(i + 1) % n];
+            let r = self.vertices[(i + 2) % n];
+            if (p < q) != (q < r) {
+                reversals += 1;
+            }
+        }
+        reversals <= 2
     }
 }
 
-- 
2.43.0


From 234b0475f04326e4ae47cbc17e9e630cdf164bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 19/47] fix: split an arc into monotone pieces that make up the
 arc
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

monotone() returned nothing for an arc inside one half of the circle or one
whose source radian is greater than its target, a whole circle more for an
arc starting at 0, and a piece before the source otherwise. is_top() was
wrong for pieces beyond 2π.
---
 src/kernel/arc_segment_2.rs | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..ee8d3bb 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -32,39 +32,48 @@ impl<T: NumberType> ArcSegment2<T> {
         }
     }
 
+    /// The radians of both ends with the source in [0, 2π) and the target in
+    /// (source, source + 2π].
+    fn normalized_radians(&self) -> (T, T) {
+        let two_pi = T::pi() * T::from_f64(2.0);
+        let mut source = self.source_radian;
+        while source < T::zero() && !source.equals(T::zero()) {
+            source = source + two_pi;
+        }
+        while source > two_pi || source.equals(two_pi) {
+            source = source - two_pi;
+        }
+        let mut target = self.target_radian;
+        while target < source || target.equals(source) {
+            target = target + two_pi;
+        }
+        while target > source + two_pi && !target.equals(source + two_pi) {
+            target = target - two_pi;
+        }
+        (source, target)
+    }
+
     pub fn is_top(&self) -> bool {
         let pi = T::pi();
-        self.source_radian < pi && (self.target_radian.equals(pi) || self.target_radian < pi)
+        let (source, target) = self.normalized_radians();
+        source < pi && (target.equals(pi) || target < pi)
     }
 
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = Vec::new();
+        let (source, target) = self.normalized_radians();
+        let mut radians = vec![source];
         let mut end_pi = T::zero();
-        let mut min_flag = false;
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
-                radians.push(end_pi.clone());
+        while !end_pi.equals(target) && end_pi < target {
+            if !end_pi.equals(source) && end_pi > source {
+                radians.push(end_pi);
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
+        radians.push(target);
         for i in 0..radians.len() - 1 {
-            arcs.push(ArcSegment2::new(
-                self.support,
-                radians[i].clone(),
-                radians[i + 1].clone(),
-            ));
+            arcs.push(ArcSegment2::new(self.support, radians[i], radians[i + 1]));
         }
         arcs
     }
-- 
2.43.0


From b68938c3a1d47c9a6b4b1caa0f8850ec9cebd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 20/47] fix: keep the status of the sweep in step with the
 sweep line

Segments were deleted from the status tree with recomputed keys, which
missed and left ended ones behind; crossings behind the sweep line were
queued, and each crossing was queued again every time it was found.
---
 .../sweep_segment_2_intersection.rs           | 108 +++++++-----------
 src/data_structure/avl_tree.rs                |   2 +
 2 files changed, 46 insertions(+), 64 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..fa65d85 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -118,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.event_queue.clear();
         self.status_tree.clear();
         self.intersection_points.clear();
+        self.last_event_point = None;
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -137,6 +138,10 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         while !self.event_queue.is_empty() {
             let event_point = self.event_queue.pop().unwrap();
+            // The crossing of two segments is found each time they become neighbors.
+            if self.last_event_point == Some(event_point) {
+                continue;
+            }
             self.handle_event_point(&event_point);
             self.last_event_point = Some(event_point);
         }
@@ -180,53 +185,21 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
-        for segment in &target_is_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
-        for segment in &contain_p {
-            self.status_tree.delete(StatusNode {
-                value: match self.last_event_point {
-                    Some(point) => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => {
-                            calculate_segment_value(line_segment, &point)
-                        }
-                        StatusNodeSegment::ArcSegment2(arc_segment) => {
-                            calculate_segment_value(arc_segment, &point)
-                        }
-                    },
-                    None => match segment {
-                        StatusNodeSegment::LineSegment2(line_segment) => line_segment.source().y(),
-                        StatusNodeSegment::ArcSegment2(arc_segment) => arc_segment.source().y(),
-                    },
-                },
-                point: event_point.clone(),
-                segment: segment.clone(),
-            })
-        }
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
         for status_node in old_status_nodes {
-            reinserted_segments.push(status_node.segment.clone());
+            // Those that end here leave the status, the others are inserted below.
+            let is_at_p = target_is_p
+                .iter()
+                .chain(&source_is_p)
+                .chain(&contain_p)
+                .any(|segment| is_same_segment(segment, &status_node.segment));
+            if !is_at_p {
+                reinserted_segments.push(status_node.segment.clone());
+            }
         }
         for segment in &source_is_p {
             reinserted_segments.push(segment.clone());
@@ -489,7 +462,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment: &StatusNodeSegment<T>,
         mid_order_traversal: &Vec<StatusNode<T>>,
     ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
+        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {
             let mut status_node_segment = status_node.segment.clone();
             match status_node_segment {
                 StatusNodeSegment::LineSegment2(line_segment) => match segment {
@@ -552,15 +525,38 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             },
         };
         for point in points {
-            if point.x() > event_point.x()
-                || (point.x().equals(event_point.x()) && point.y() > event_point.y())
-            {
+            // Points still ahead of the sweep line, in the order of the queue.
+            if point < *event_point {
                 self.event_queue.push(point);
             }
         }
     }
 }
 
+fn is_same_segment<T: NumberType>(
+    segment_a: &StatusNodeSegment<T>,
+    segment_b: &StatusNodeSegment<T>,
+) -> bool {
+    match segment_a {
+        StatusNodeSegment::LineSegment2(segment) => match segment_b {
+            StatusNodeSegment::LineSegment2(other_segment) => {
+                segment.source().equals(&other_segment.source())
+                    && segment.target().equals(&other_segment.target())
+            }
+            _ => false,
+        },
+        StatusNodeSegment::ArcSegment2(segment) => match segment_b {
+            StatusNodeSegment::ArcSegment2(other_segment) => {
+                segment.center().equals(&other_segment.center())
+                    && segment.radius().equals(other_segment.radius())
+                    && segment.source().equals(&other_segment.source())
+                    && segment.target().equals(&other_segment.target())
+            }
+            _ => false,
+        },
+    }
+}
+
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
@@ -584,7 +580,8 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
         Segment2Type::LineSegment2 => {
             let source = segment.source();
             let target = segment.target();
-            if source.x().equals(target.x()) {
+            // Not computed for a point of the segment: a steep one magnifies rounding.
+            if source.x().equals(target.x()) || is_point_2_on_line_segment_2(point, segment) {
                 return point.y();
             }
             let y = source.y()
@@ -709,24 +706,7 @@ impl<T: NumberType> Eq for StatusNode<T> {}
 
 impl<T: NumberType> PartialEq for StatusNode<T> {
     fn eq(&self, other: &Self) -> bool {
-        match self.segment {
-            StatusNodeSegment::LineSegment2(segment) => match other.segment {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    segment.source().equals(&other_segment.source())
-                        && segment.target().equals(&other_segment.target())
-                }
-                _ => false,
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match other.segment {
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    segment.center().equals(&other_segment.center())
-                        && segment.radius().equals(other_segment.radius())
-                        && segment.source().equals(&other_segment.source())
-                        && segment.target().equals(&other_segment.target())
-                }
-                _ => false,
-            },
-        }
+        is_same_segment(&self.segment, &other.segment)
     }
 }
 
diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..91558ca 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -56,6 +56,7 @@ where
         }
     }
 
+    #[allow(dead_code)]
     pub fn delete(node: OptionNodeRc<T>, value: T) -> OptionNodeRc<T> {
         match node {
             Some(mut node) => {
@@ -205,6 +206,7 @@ where
         self.root = AVLTreeNode::insert(self.root.clone(), value, &self.option);
     }
 
+    #[allow(dead_code)]
     pub fn delete(&mut self, value: T) {
         self.root = AVLTreeNode::delete(self.root.clone(), value);
     }
-- 
2.43.0


From 345fb2bd2690957cc4574d7b8a22fb3b4884bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 21/47] fix: order arcs and circles in the sweep status

The tangent of an arc was taken at the event point instead of on the arc,
a vertical tangent ignored whether the arc turns up or down, and curved
segments meeting at an event were not searched for a second crossing.
---
 .../sweep_segment_2_intersection.rs           | 140 ++++++++++++------
 1 file changed, 94 insertions(+), 46 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index fa65d85..7ab465b 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -274,6 +274,18 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
                 _ => {}
             }
+            // Unlike straight ones, curved segments that meet here can meet again.
+            let is_at_p = |status_node: &StatusNode<T>| {
+                source_is_p
+                    .iter()
+                    .chain(&contain_p)
+                    .any(|segment| is_same_segment(segment, &status_node.segment))
+            };
+            for pair in mid_order_traversal.windows(2) {
+                if is_at_p(&pair[0]) && is_at_p(&pair[1]) {
+                    self.find_intersection_points(&pair[0].segment, &pair[1].segment, event_point);
+                }
+            }
         }
     }
 
@@ -557,6 +569,39 @@ fn is_same_segment<T: NumberType>(
     }
 }
 
+/// The direction in which a segment leaves a point towards its far end.
+enum Slope<T> {
+    Down,
+    Finite(T),
+    Up,
+    Vertical,
+}
+
+impl<T> Slope<T> {
+    fn rank(&self) -> u8 {
+        match self {
+            Slope::Down => 0,
+            Slope::Finite(_) => 1,
+            Slope::Up => 2,
+            Slope::Vertical => 3,
+        }
+    }
+}
+
+fn calculate_slope_at<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> Slope<T> {
+    match segment.segment_type() {
+        Segment2Type::LineSegment2 => match calculate_slope(&segment.source(), &segment.target()) {
+            Some(slope) => Slope::Finite(slope),
+            None => Slope::Vertical,
+        },
+        _ => match calculate_tangent_slope(segment, point) {
+            Some(slope) => Slope::Finite(slope),
+            None if is_top_segment(segment) => Slope::Up,
+            None => Slope::Down,
+        },
+    }
+}
+
 fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Option<T> {
     let x = target.x() - source.x();
     let y = target.y() - source.y();
@@ -566,9 +611,14 @@ fn calculate_slope<T: NumberType>(source: &Point2<T>, target: &Point2<T>) -> Opt
     Some(y / x)
 }
 
-fn calculate_tangent_slope<T: NumberType>(center: &Point2<T>, point: &Point2<T>) -> Option<T> {
+/// The slope of a monotone arc at the point, None where the tangent is vertical.
+fn calculate_tangent_slope<T: NumberType>(
+    segment: &impl Segment2<T>,
+    point: &Point2<T>,
+) -> Option<T> {
+    let center = segment.center();
     let x = point.x() - center.x();
-    let y = point.y() - center.y();
+    let y = calculate_segment_value(segment, point) - center.y();
     if y.equals(T::zero()) {
         return None;
     }
@@ -589,38 +639,44 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             y
         }
         _ => {
+            if is_point_2_on_arc_segment_2(point, segment) {
+                return point.y();
+            }
             let radius = segment.radius();
             let center = segment.center();
-            let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
-            let y_a = center.y() + y;
-            let y_b = center.y() - y;
-            let p_a = Point2::new(point.x(), y_a);
-            let p_b = Point2::new(point.x(), y_b);
-            if is_point_2_on_arc_segment_2(&p_a, segment) {
-                y_a
-            } else if is_point_2_on_arc_segment_2(&p_b, segment) {
-                y_b
+            let x = (point.x() - center.x()).abs();
+            // Where the tangent is vertical the square root magnifies rounding.
+            let y = if x.equals(radius) || x > radius {
+                T::zero()
             } else {
-                point.y()
+                (radius * radius - x * x).sqrt()
+            };
+            if is_top_segment(segment) {
+                center.y() + y
+            } else {
+                center.y() - y
             }
         }
     }
 }
 
+fn is_top_segment<T: NumberType>(segment: &impl Segment2<T>) -> bool {
+    ArcSegment2::new(
+        CircleSegment2::new(segment.center(), segment.radius()),
+        segment.source_radian(),
+        segment.target_radian(),
+    )
+    .is_top()
+}
+
 fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T> {
     match segment.segment_type() {
         Segment2Type::LineSegment2 => segment.target(),
         _ => {
-            let arc_segment = ArcSegment2::new(
-                CircleSegment2::new(segment.center(), segment.radius()),
-                segment.source_radian(),
-                segment.target_radian(),
-            );
-            if arc_segment.is_top() {
-                arc_segment.source()
+            if is_top_segment(segment) {
+                segment.source()
             } else {
-                arc_segment.target()
+                segment.target()
             }
         }
     }
@@ -633,7 +689,8 @@ fn calculate_mid_value<T: NumberType>(
 ) -> (T, T) {
     let target_a = get_target_of_segment(segment_a);
     let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
+    // Both segments reach the end that comes first, which is the greater one.
+    let target = if target_a > target_b {
         target_a
     } else {
         target_b
@@ -669,31 +726,22 @@ fn compare_segments<T: NumberType>(
     let segment_a_value = calculate_segment_value(segment_a, event_point);
     let segment_b_value = calculate_segment_value(segment_b, event_point);
     if segment_a_value.equals(segment_b_value) {
-        let segment_a_slope = match segment_a.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
-        };
-        let segment_b_slope = match segment_b.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
-        };
-        match segment_a_slope {
-            Some(a_slope) => match segment_b_slope {
-                Some(b_slope) => {
-                    if a_slope.equals(b_slope) {
-                        compare_segments_same_slope(segment_a, segment_b, event_point)
-                    } else if a_slope < b_slope {
-                        std::cmp::Ordering::Less
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+        let segment_a_slope = calculate_slope_at(segment_a, event_point);
+        let segment_b_slope = calculate_slope_at(segment_b, event_point);
+        match (segment_a_slope, segment_b_slope) {
+            (Slope::Finite(a_slope), Slope::Finite(b_slope)) => {
+                if a_slope.equals(b_slope) {
+                    compare_segments_same_slope(segment_a, segment_b, event_point)
+                } else if a_slope < b_slope {
+                    std::cmp::Ordering::Less
+                } else {
+                    std::cmp::Ordering::Greater
                 }
-                None => std::cmp::Ordering::Less,
-            },
-            None => match segment_b_slope {
-                Some(_) => std::cmp::Ordering::Greater,
-                None => compare_segments_same_slope(segment_a, segment_b, event_point),
-            },
+            }
+            (a_slope, b_slope) if a_slope.rank() == b_slope.rank() => {
+                compare_segments_same_slope(segment_a, segment_b, event_point)
+            }
+            (a_slope, b_slope) => a_slope.rank().cmp(&b_slope.rank()),
         }
     } else if segment_a_value < segment_b_value {
         std::cmp::Ordering::Less
-- 
2.43.0


From 3e360cf52d91426be3e20b60e77e02016547a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 22/47] hook: open data_structure under cfg(rcgal_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..95eabe9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,11 @@
+#![allow(unexpected_cfgs)]
+
 pub mod algorithm;
+#[cfg(not(rcgal_verif))]
 mod data_structure;
+// Opened to the runtime monitors, which build with --cfg rcgal_verif.
+#[cfg(rcgal_verif)]
+pub mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
-- 
2.43.0


From 4a03f77fd505af84016c97ce1cd43e79aac51ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 23/47] fix: remove an edge from the vertex it leads to

---
 src/kernel/vertex_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/vertex_2.rs b/src/kernel/vertex_2.rs
index 3897545..2275cc2 100644
--- a/src/kernel/vertex_2.rs
+++ b/src/kernel/vertex_2.rs
@@ -35,7 +35,7 @@ impl<T: NumberType> Vertex2<T> {
     }
 
     pub fn remove_edge(&mut self, edge: Rc<RefCell<Edge2<T>>>) {
-        self.edges.retain(|e| e != &edge);
+        self.edges.retain(|e| !Rc::ptr_eq(e, &edge));
     }
 
     pub fn equals(&self, other: &Self) -> bool {
-- 
2.43.0


From 6e3dd567bfa239c24539811ad27854284b51bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 24/47] fix: intersect lines whatever the scale of their
 coefficients

---
 src/algorithm/intersection/line_2_line_2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_2_line_2.rs b/src/algorithm/intersection/line_2_line_2.rs
index f653ca9..359e12a 100644
--- a/src/algorithm/intersection/line_2_line_2.rs
+++ b/src/algorithm/intersection/line_2_line_2.rs
@@ -16,7 +16,9 @@ pub fn line_2_line_2_intersection<T: NumberType>(
     let b_2 = line_b.b();
     let c_2 = line_b.c();
     let det = a_1 * b_2 - a_2 * b_1;
-    if det.equals(T::zero()) {
+    // The sine of the angle between the lines, whatever the scale of their coefficients.
+    let sine = det / ((a_1 * a_1 + b_1 * b_1).sqrt() * (a_2 * a_2 + b_2 * b_2).sqrt());
+    if sine.equals(T::zero()) {
         return None;
     }
     let x = (-b_2 * c_1 + b_1 * c_2) / det;
-- 
2.43.0


From e29b26f4df90d2d231b6128c73c6d5eb83bacf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 25/47] fix: compare lines whatever the scale of their
 coefficients

---
 src/kernel/line_2.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel/line_2.rs b/src/kernel/line_2.rs
index 215e9bf..e6e4da2 100644
--- a/src/kernel/line_2.rs
+++ b/src/kernel/line_2.rs
@@ -54,7 +54,10 @@ impl<T: NumberType> PartialEq for Line2<T> {
         let det = self.a * other.b - self.b * other.a;
         let det_c = self.c * other.b - self.b * other.c;
         let det_a = self.a * other.c - self.c * other.a;
-        let eps = T::default_eps();
+        // The same whatever the scale of the coefficients.
+        let scale = (self.a * self.a + self.b * self.b).sqrt()
+            * (other.a * other.a + other.b * other.b).sqrt();
+        let eps = T::default_eps() * scale;
         return det.abs() < eps && det_c.abs() < eps && det_a.abs() < eps;
     }
 }
-- 
2.43.0


From b165918f78c89e4792b611bc171a62e61f1bd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 26/47] fix: locate points on the edges of a flat triangle

---
 src/algorithm/location/point_2_triangle_2.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_triangle_2.rs b/src/algorithm/location/point_2_triangle_2.rs
index be99406..61fb5de 100644
--- a/src/algorithm/location/point_2_triangle_2.rs
+++ b/src/algorithm/location/point_2_triangle_2.rs
@@ -10,11 +10,14 @@ pub fn locate_point_2_triangle_2<T: NumberType>(
     triangle: &Triangle2<T>,
 ) -> Point2Triangle2Location {
     let edges = triangle.edges();
+    let edge_locations = edges.map(|edge| locate_point_2_line_segment_2(point, &edge));
+    // On a flat triangle, a point beyond the end of one edge may be on another.
+    if edge_locations.contains(&Point2Segment2Location::On) {
+        return Point2Triangle2Location::On;
+    }
     let mut location = None;
-    for edge in &edges {
-        let edge_location = locate_point_2_line_segment_2(point, edge);
+    for edge_location in edge_locations {
         match edge_location {
-            Point2Segment2Location::On => return Point2Triangle2Location::On,
             Point2Segment2Location::Left => match location {
                 Some(Point2Segment2Location::Right) => {
                     return Point2Triangle2Location::Outside;
-- 
2.43.0


From 5bb3a0655695a3d7bb2536615f9598b202e19939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 27/47] fix: a polygon with an edge of no length is not simple

---
 src/kernel/polygon_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index a049967..4449e09 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -50,6 +50,9 @@ impl<T: NumberType> Polygon2<T> {
             return true;
         }
         for i in 0..n {
+            if self.vertices[i] == self.vertices[(i + 1) % n] {
+                return false;
+            }
             for j in i + 1..n {
                 let points = segment_2_segment_2_intersection(&edges[i], &edges[j]);
                 // Adjacent edges share one vertex, the others nothing.
-- 
2.43.0


From bbca9032a4be9bf9799f9ce337e7dd45f0b9057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 28/47] fix: the convex hull visits a point once

---
 src/algorithm/convex_hull/convex_hull_2.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index f2bcb46..47e1d7d 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -42,6 +42,17 @@ impl<T: NumberType> ConvexHull2<T> {
         }
         lower.pop();
         upper.pop();
+        // Points in line up to rounding may be on both chains: keep them once.
+        let mut rest = lower.len();
+        upper.retain(|p| {
+            while rest > 0
+                && (lower[rest - 1].x() > p.x()
+                    || (lower[rest - 1].x() == p.x() && lower[rest - 1].y() > p.y()))
+            {
+                rest -= 1;
+            }
+            rest == 0 || lower[rest - 1].x() != p.x() || lower[rest - 1].y() != p.y()
+        });
         lower.extend(upper);
         lower
     }
-- 
2.43.0


From 61fa4895a020a8487e8e5f13b6caeb96e1acfe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 29/47] fix: deleting one of several equal elements panicked

---
 src/data_structure/avl_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 91558ca..19222f7 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,9 +89,10 @@ where
                         }
                         temp = temp_left.unwrap();
                     }
+                    let value = temp.borrow().value;
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete(right, value);
+                    node.borrow_mut().value = value;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
-- 
2.43.0


From 9079929a6cb834da79db3b7965df8fb0512361a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 30/47] fix: the sweep panicked on nearly coincident segments

---
 .../sweep_segment_2_intersection.rs           | 82 +++++++++++--------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 7ab465b..5cc44bf 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -207,24 +207,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for segment in &contain_p {
             reinserted_segments.push(segment.clone());
         }
-        reinserted_segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
+        sort_segments(&mut reinserted_segments, event_point);
         for segment in reinserted_segments {
             match segment {
                 StatusNodeSegment::LineSegment2(line_segment) => {
@@ -403,24 +386,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for segment in contain_p {
             segments.push(segment.clone());
         }
-        segments.sort_by(|a, b| match a {
-            StatusNodeSegment::LineSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-            StatusNodeSegment::ArcSegment2(segment) => match b {
-                StatusNodeSegment::LineSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-                StatusNodeSegment::ArcSegment2(other_segment) => {
-                    compare_segments(segment, other_segment, &event_point.clone())
-                }
-            },
-        });
+        sort_segments(&mut segments, event_point);
         let left = segments[0].clone();
         let right = segments[segments.len() - 1].clone();
         (left, right)
@@ -750,6 +716,50 @@ fn compare_segments<T: NumberType>(
     }
 }
 
+/// Sorts segments by their order at the event point. Between segments that nearly
+/// coincide it is not a total order, for which the standard sort may panic.
+fn sort_segments<T: NumberType>(
+    segments: &mut Vec<StatusNodeSegment<T>>,
+    event_point: &Point2<T>,
+) {
+    let mut sorted: Vec<StatusNodeSegment<T>> = Vec::with_capacity(segments.len());
+    for segment in segments.iter() {
+        let index = sorted
+            .iter()
+            .rposition(|other| {
+                compare_status_segments(other, segment, event_point) != std::cmp::Ordering::Greater
+            })
+            .map_or(0, |index| index + 1);
+        sorted.insert(index, segment.clone());
+    }
+    *segments = sorted;
+}
+
+fn compare_status_segments<T: NumberType>(
+    segment_a: &StatusNodeSegment<T>,
+    segment_b: &StatusNodeSegment<T>,
+    event_point: &Point2<T>,
+) -> std::cmp::Ordering {
+    match segment_a {
+        StatusNodeSegment::LineSegment2(segment) => match segment_b {
+            StatusNodeSegment::LineSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+            StatusNodeSegment::ArcSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+        },
+        StatusNodeSegment::ArcSegment2(segment) => match segment_b {
+            StatusNodeSegment::LineSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+            StatusNodeSegment::ArcSegment2(other_segment) => {
+                compare_segments(segment, other_segment, event_point)
+            }
+        },
+    }
+}
+
 impl<T: NumberType> Eq for StatusNode<T> {}
 
 impl<T: NumberType> PartialEq for StatusNode<T> {
-- 
2.43.0


From dd5285b6f02a93c222cf7f76e6ced21b870afccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 31/47] fix: project onto a line whatever the scale of its
 coefficients

---
 src/algorithm/projection/point_2_line_2.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 6a52612..1f55c7d 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -1,26 +1,10 @@
-use crate::{
-    algorithm::intersection::line_2_line_2::line_2_line_2_intersection,
-    kernel::{line_2::Line2, number_type::NumberType, point_2::Point2},
-};
+use crate::kernel::{line_2::Line2, number_type::NumberType, point_2::Point2};
 
 pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>) -> Point2<T> {
     let a = line.a();
     let b = line.b();
-    if b.equals(T::zero()) {
-        let c = line.c();
-        let x = -c / a;
-        return Point2::new(x, point.y());
-    } else if a.equals(T::zero()) {
-        let c = line.c();
-        let y = -c / b;
-        return Point2::new(point.x(), y);
-    } else {
-        let t = b / a;
-        let c = point.y() - t * point.x();
-        let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
-        let intersection = line_2_line_2_intersection(line, &line_vertical);
-        return intersection.unwrap();
-    }
+    let t = (a * point.x() + b * point.y() + line.c()) / (a * a + b * b);
+    Point2::new(point.x() - a * t, point.y() - b * t)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2aa92daf81dea9b462183041280d966d8381f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 32/47] fix: the sweep ran forever on nearly coincident
 segments

---
 .../sweep_segment_2_intersection.rs           | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 5cc44bf..72e0c91 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeSet;
+
 use crate::algorithm::location::{
     point_2_arc_segment_2::is_point_2_on_arc_segment_2,
     point_2_line_segment_2::is_point_2_on_line_segment_2,
@@ -26,6 +28,10 @@ struct StatusNode<T: NumberType> {
     segment: StatusNodeSegment<T>,
 }
 
+/// A crossing as it was found, not up to the tolerance.
+#[derive(Clone, Copy)]
+struct QueuedPoint<T: NumberType>(Point2<T>);
+
 pub struct SweepSegment2Intersection<T: NumberType> {
     origin_segments: Vec<StatusNodeSegment<T>>,
     segments: Vec<StatusNodeSegment<T>>,
@@ -33,6 +39,7 @@ pub struct SweepSegment2Intersection<T: NumberType> {
     status_tree: AVLTree<StatusNode<T>>,
     intersection_points: AVLTree<Point2<T>>,
     last_event_point: Option<Point2<T>>,
+    queued_points: BTreeSet<QueuedPoint<T>>,
 }
 
 impl<T: NumberType> SweepSegment2Intersection<T> {
@@ -111,6 +118,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             status_tree: AVLTree::new(AVLTreeOption::SameNodeInsertRight),
             intersection_points: AVLTree::new(AVLTreeOption::DisableSameNode),
             last_event_point: None,
+            queued_points: BTreeSet::new(),
         }
     }
 
@@ -119,6 +127,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.status_tree.clear();
         self.intersection_points.clear();
         self.last_event_point = None;
+        self.queued_points.clear();
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
             match segment {
@@ -503,8 +512,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             },
         };
         for point in points {
-            // Points still ahead of the sweep line, in the order of the queue.
-            if point < *event_point {
+            // Points still ahead of the sweep line, in the order of the queue. Once is
+            // enough, and among points that nearly coincide ahead may go in circles.
+            if point < *event_point && self.queued_points.insert(QueuedPoint(point)) {
                 self.event_queue.push(point);
             }
         }
@@ -760,6 +770,30 @@ fn compare_status_segments<T: NumberType>(
     }
 }
 
+impl<T: NumberType> Eq for QueuedPoint<T> {}
+
+impl<T: NumberType> PartialEq for QueuedPoint<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == std::cmp::Ordering::Equal
+    }
+}
+
+impl<T: NumberType> Ord for QueuedPoint<T> {
+    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
+        let self_xy = (self.0.x(), self.0.y());
+        let other_xy = (other.0.x(), other.0.y());
+        self_xy
+            .partial_cmp(&other_xy)
+            .unwrap_or(std::cmp::Ordering::Equal)
+    }
+}
+
+impl<T: NumberType> PartialOrd for QueuedPoint<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl<T: NumberType> Eq for StatusNode<T> {}
 
 impl<T: NumberType> PartialEq for StatusNode<T> {
-- 
2.43.0


From c209e5e2f3435cb786630001674bccec1425e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 33/47] fix: is_convex denied convex polygons with a very short
 edge

---
 src/kernel/polygon_2.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 4449e09..b97f7d9 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -89,17 +89,24 @@ impl<T: NumberType> Polygon2<T> {
             }
         }
         // A star only turns one way too, but goes around more than once: a convex
-        // boundary goes once to the right and once to the left.
-        let mut reversals = 0;
-        for i in 0..n {
-            let p = self.vertices[i];
-            let q = self.vertices[(i + 1) % n];
-            let r = self.vertices[(i + 2) % n];
-            if (p < q) != (q < r) {
-                reversals += 1;
-            }
-        }
-        reversals <= 2
+        // boundary goes once to the right and once to the left, once up and once down.
+        Self::reversals(self.vertices.iter().map(|p| p.x())) <= 2
+            && Self::reversals(self.vertices.iter().map(|p| p.y())) <= 2
+    }
+
+    /// How often a coordinate changes between growing and shrinking along the boundary.
+    fn reversals(values: impl Iterator<Item = T> + Clone) -> usize {
+        let grows: Vec<bool> = values
+            .clone()
+            .zip(values.cycle().skip(1))
+            .filter(|(p, q)| !p.equals(*q))
+            .map(|(p, q)| p < q)
+            .collect();
+        grows
+            .iter()
+            .zip(grows.iter().cycle().skip(1))
+            .filter(|(p, q)| p != q)
+            .count()
     }
 }
 
-- 
2.43.0


From 68d1dfa1730d8aec082ccc7db455cac7044c54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 34/47] fix: the sweep missed crossings next to the end of an
 arc

---
 .../sweep_segment_2_intersection.rs           | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 72e0c91..9c3a268 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -512,9 +512,18 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             },
         };
         for point in points {
-            // Points still ahead of the sweep line, in the order of the queue. Once is
-            // enough, and among points that nearly coincide ahead may go in circles.
-            if point < *event_point && self.queued_points.insert(QueuedPoint(point)) {
+            // Points still ahead of the sweep line, in the order of the queue, or on it up
+            // to the tolerance and missed so far. Once is enough, and among points that
+            // nearly coincide ahead may go in circles.
+            let is_ahead = point < *event_point
+                || (point.x().equals(event_point.x())
+                    && !self
+                        .intersection_points
+                        .mid_order_traversal()
+                        .contains(&point));
+            if is_ahead && self.queued_points.insert(QueuedPoint(point)) {
+                // By the time of the event one of the two may have ended in its column.
+                self.intersection_points.insert(point);
                 self.event_queue.push(point);
             }
         }
@@ -728,10 +737,7 @@ fn compare_segments<T: NumberType>(
 
 /// Sorts segments by their order at the event point. Between segments that nearly
 /// coincide it is not a total order, for which the standard sort may panic.
-fn sort_segments<T: NumberType>(
-    segments: &mut Vec<StatusNodeSegment<T>>,
-    event_point: &Point2<T>,
-) {
+fn sort_segments<T: NumberType>(segments: &mut Vec<StatusNodeSegment<T>>, event_point: &Point2<T>) {
     let mut sorted: Vec<StatusNodeSegment<T>> = Vec::with_capacity(segments.len());
     for segment in segments.iter() {
         let index = sorted
-- 
2.43.0


From 845ae2ad4110e4a522fa2bcd8e50a8b567a52374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 35/47] fix: a segment that is a single point met a ray or a
 circle twice

---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 2 ++
 src/algorithm/intersection/line_segment_2_ray_2.rs            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index 04090d3..c950fba 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -67,6 +67,8 @@ pub fn line_segment_2_circle_segment_2_intersection<T: NumberType>(
     {
         result.push(source);
         result.push(target);
+        // A segment that is a single point.
+        result.dedup();
         return result;
     } else {
         if source_relation == Point2Circle2Location::Inside
diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 9d18c2e..2000499 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -33,6 +33,8 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
     match target_relation {
         Point2Ray2Location::On => {
             result.push(target);
+            // A segment that is a single point.
+            result.dedup();
             return result;
         }
         Point2Ray2Location::Collinear => {
-- 
2.43.0


From 00e714e51dc54508441de6cc8e5e63f0d6b42d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 36/47] fix: is_convex accepted dents in polygons with edges
 shorter than 1e-5

---
 src/kernel/polygon_2.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index b97f7d9..8eb5262 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -72,7 +72,7 @@ impl<T: NumberType> Polygon2<T> {
             let p = self.vertices[i];
             let q = self.vertices[(i + 1) % n];
             let r = self.vertices[(i + 2) % n];
-            let turn = Point2::turn(&p, &q, &r);
+            let turn = Self::corner(&p, &q, &r);
             match prev_turn {
                 None => match turn {
                     TurnDirection::Collinear => continue,
@@ -94,6 +94,19 @@ impl<T: NumberType> Polygon2<T> {
             && Self::reversals(self.vertices.iter().map(|p| p.y())) <= 2
     }
 
+    /// The turn at q, which is straight when q is within the tolerance of the line
+    /// through p and r, however short the edges are.
+    fn corner(p: &Point2<T>, q: &Point2<T>, r: &Point2<T>) -> TurnDirection {
+        let cross = (*q - *p).cross(&(*r - *q));
+        if cross.abs() <= T::default_eps() * (*r - *p).length() {
+            TurnDirection::Collinear
+        } else if cross > T::zero() {
+            TurnDirection::Left
+        } else {
+            TurnDirection::Right
+        }
+    }
+
     /// How often a coordinate changes between growing and shrinking along the boundary.
     fn reversals(values: impl Iterator<Item = T> + Clone) -> usize {
         let grows: Vec<bool> = values
-- 
2.43.0


From 81ea4fe68594b4897d5f1da9d8d875c8242db58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 37/47] fix: an arc of a very large angle never came about

ArcSegment2::new took whole turns from an angle one at a time, which takes
forever from some size on and changes nothing from about 1e17 (1e8 in single
precision). Take away the largest multiples first.
---
 src/kernel/arc_segment_2.rs | 45 ++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index ee8d3bb..575dab0 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -15,12 +15,8 @@ impl<T: NumberType> ArcSegment2<T> {
         let mut source_radian = source_radian;
         let mut target_radian = target_radian;
         let four_pi = T::pi() * T::from_f64(4.0);
-        while !source_radian.equals(four_pi) && source_radian > four_pi {
-            source_radian = source_radian - four_pi;
-        }
-        while !target_radian.equals(four_pi) && target_radian > four_pi {
-            target_radian = target_radian - four_pi;
-        }
+        source_radian = Self::without_periods(source_radian, four_pi);
+        target_radian = Self::without_periods(target_radian, four_pi);
         if source_radian.equals(target_radian) {
             source_radian = T::zero();
             target_radian = T::pi() * T::from_f64(2.0);
@@ -32,18 +28,45 @@ impl<T: NumberType> ArcSegment2<T> {
         }
     }
 
+    /// The radian less the whole periods that fit into it, down to one period
+    /// at most. It takes away the largest steps first: taking away one period
+    /// at a time is endless when the radian is too large to change by it.
+    fn without_periods(radian: T, period: T) -> T {
+        let exceeds = |radian: T, step: T| !radian.equals(step) && radian > step;
+        let mut radian = radian;
+        let mut step = period;
+        while exceeds(radian, step + step) {
+            step = step + step;
+        }
+        while !(step < period) {
+            if exceeds(radian, step) {
+                radian = radian - step;
+            }
+            step = step / T::from_f64(2.0);
+        }
+        radian
+    }
+
+    /// The radian itself when not negative, else raised by whole turns until
+    /// it is not.
+    fn without_negative_turns(radian: T) -> T {
+        if radian < T::zero() && !radian.equals(T::zero()) {
+            let two_pi = T::pi() * T::from_f64(2.0);
+            two_pi - Self::without_periods(-radian, two_pi)
+        } else {
+            radian
+        }
+    }
+
     /// The radians of both ends with the source in [0, 2π) and the target in
     /// (source, source + 2π].
     fn normalized_radians(&self) -> (T, T) {
         let two_pi = T::pi() * T::from_f64(2.0);
-        let mut source = self.source_radian;
-        while source < T::zero() && !source.equals(T::zero()) {
-            source = source + two_pi;
-        }
+        let mut source = Self::without_negative_turns(self.source_radian);
         while source > two_pi || source.equals(two_pi) {
             source = source - two_pi;
         }
-        let mut target = self.target_radian;
+        let mut target = Self::without_negative_turns(self.target_radian);
         while target < source || target.equals(source) {
             target = target + two_pi;
         }
-- 
2.43.0


From ba27f2b1ea672a70f7014b63f57ba1d488f2459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 38/47] fix: a short arc around a vertical tangent started
 after it ended in the sweep

The ends of an arc with the same x up to the tolerance are ordered by y in
the event queue, so it stayed in the status as a ghost between others.
---
 .../sweep_segment_2_intersection.rs           | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 9c3a268..9ae966d 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -291,9 +291,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    if (arc_segment.is_top() && arc_segment.target().equals(event_point))
-                        || (!arc_segment.is_top() && arc_segment.source().equals(event_point))
-                    {
+                    if get_source_of_arc(arc_segment).equals(event_point) {
                         result.push(segment.clone());
                     }
                 }
@@ -313,9 +311,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    if (arc_segment.is_top() && arc_segment.source().equals(target))
-                        || (!arc_segment.is_top() && arc_segment.target().equals(target))
-                    {
+                    if get_target_of_segment(&arc_segment).equals(target) {
                         result.push(status_node.segment);
                     }
                 }
@@ -654,17 +650,13 @@ fn is_top_segment<T: NumberType>(segment: &impl Segment2<T>) -> bool {
     .is_top()
 }
 
+/// The end of a monotone arc that the sweep comes to first, the greater one.
+fn get_source_of_arc<T: NumberType>(arc: &ArcSegment2<T>) -> Point2<T> {
+    std::cmp::max(arc.source(), arc.target())
+}
+
 fn get_target_of_segment<T: NumberType>(segment: &impl Segment2<T>) -> Point2<T> {
-    match segment.segment_type() {
-        Segment2Type::LineSegment2 => segment.target(),
-        _ => {
-            if is_top_segment(segment) {
-                segment.source()
-            } else {
-                segment.target()
-            }
-        }
-    }
+    std::cmp::min(segment.source(), segment.target())
 }
 
 fn calculate_mid_value<T: NumberType>(
-- 
2.43.0


From a1839e0bd5ffdfd90d6a10762190b691e49dbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 39/47] fix: the sweep missed a segment end on an arc next to
 the arc's own end

In a column of events one of the two may have ended or not started yet, so
the event point was not recorded although the filter would have kept it.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 9ae966d..5bca83f 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -191,9 +191,9 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.is_empty() && target_is_p.is_empty() && contain_p.is_empty() {
             return;
         }
-        if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
-            self.intersection_points.insert(event_point.clone());
-        }
+        // One that touches it may have ended or not started yet in the column of the event,
+        // so all are kept here for the filter.
+        self.intersection_points.insert(event_point.clone());
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
-- 
2.43.0


From 5fbe21a371a87035fc211452ba4f69432352eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 40/47] fix: a segment that is only a point stayed in the
 sweep's status and hid crossings

It ends before it starts, so it was never taken out again. The same holds for
a piece of an arc cut off within the tolerance of a vertical tangent.
---
 .../intersection/sweep_segment_2_intersection.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 5bca83f..18cf941 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -185,15 +185,15 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
     }
 
     fn handle_event_point(&mut self, event_point: &Point2<T>) {
+        // One that touches it may have ended or not started yet in the column of the event,
+        // so all are kept here for the filter.
+        self.intersection_points.insert(event_point.clone());
         let source_is_p = self.get_segment_with_source(event_point);
         let target_is_p = self.get_active_segment_with_target(event_point);
         let contain_p = self.get_active_segment_containing_point(event_point);
         if source_is_p.is_empty() && target_is_p.is_empty() && contain_p.is_empty() {
             return;
         }
-        // One that touches it may have ended or not started yet in the column of the event,
-        // so all are kept here for the filter.
-        self.intersection_points.insert(event_point.clone());
         let source_is_p_empty = source_is_p.is_empty();
         let contain_p_empty = contain_p.is_empty();
         let old_status_nodes = self.status_tree.mid_order_traversal();
@@ -281,17 +281,23 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
     }
 
+    /// The segments that start here, without those that are only a point: they would end
+    /// before they started.
     fn get_segment_with_source(&self, event_point: &Point2<T>) -> Vec<StatusNodeSegment<T>> {
         let mut result = Vec::new();
         for segment in &self.segments {
             match segment {
                 StatusNodeSegment::LineSegment2(line_segment) => {
-                    if line_segment.source().equals(event_point) {
+                    if line_segment.source().equals(event_point)
+                        && !line_segment.target().equals(event_point)
+                    {
                         result.push(segment.clone());
                     }
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    if get_source_of_arc(arc_segment).equals(event_point) {
+                    if get_source_of_arc(arc_segment).equals(event_point)
+                        && !get_target_of_segment(arc_segment).equals(event_point)
+                    {
                         result.push(segment.clone());
                     }
                 }
-- 
2.43.0


From 7a31852325caa1bb51c16174f515b60b89e13e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 41/47] fix: the sweep line went back within a column of events
 and kept a wrong order

Events whose x differ by less than the tolerance come in the order of y, and
the order of the segments was then taken where they had not crossed yet.
---
 .../sweep_segment_2_intersection.rs           | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 18cf941..c78bdc0 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -39,6 +39,7 @@ pub struct SweepSegment2Intersection<T: NumberType> {
     status_tree: AVLTree<StatusNode<T>>,
     intersection_points: AVLTree<Point2<T>>,
     last_event_point: Option<Point2<T>>,
+    last_position: Option<Point2<T>>,
     queued_points: BTreeSet<QueuedPoint<T>>,
 }
 
@@ -118,6 +119,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             status_tree: AVLTree::new(AVLTreeOption::SameNodeInsertRight),
             intersection_points: AVLTree::new(AVLTreeOption::DisableSameNode),
             last_event_point: None,
+            last_position: None,
             queued_points: BTreeSet::new(),
         }
     }
@@ -127,6 +129,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         self.status_tree.clear();
         self.intersection_points.clear();
         self.last_event_point = None;
+        self.last_position = None;
         self.queued_points.clear();
         let mut event_points = AVLTree::new(AVLTreeOption::DisableSameNode);
         for segment in &self.segments {
@@ -216,20 +219,26 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         for segment in &contain_p {
             reinserted_segments.push(segment.clone());
         }
-        sort_segments(&mut reinserted_segments, event_point);
+        // In a column of events, up to the tolerance, the sweep line does not go back.
+        let position = match self.last_position {
+            Some(last) if last.x() > event_point.x() => Point2::new(last.x(), event_point.y()),
+            _ => event_point.clone(),
+        };
+        self.last_position = Some(position);
+        sort_segments(&mut reinserted_segments, &position);
         for segment in reinserted_segments {
             match segment {
                 StatusNodeSegment::LineSegment2(line_segment) => {
                     self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&line_segment, event_point),
-                        point: event_point.clone(),
+                        value: calculate_segment_value(&line_segment, &position),
+                        point: position,
                         segment,
                     })
                 }
                 StatusNodeSegment::ArcSegment2(arc_segment) => {
                     self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&arc_segment, event_point),
-                        point: event_point.clone(),
+                        value: calculate_segment_value(&arc_segment, &position),
+                        point: position,
                         segment,
                     })
                 }
@@ -237,7 +246,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
         let mid_order_traversal = self.status_tree.mid_order_traversal();
         if source_is_p_empty && contain_p_empty {
-            let neighbors = self.get_neighbors_with_point(event_point);
+            let neighbors = self.get_neighbors_with_point(&position);
             match neighbors {
                 Some((segment_left, segment_right)) => {
                     self.find_intersection_points(&segment_left, &segment_right, event_point);
@@ -246,7 +255,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             }
         } else {
             let segment_left = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
+                .get_left_right_in_u_c(&source_is_p, &contain_p, &position)
                 .0;
             let segment_left_left = self.get_left_of_segment(&segment_left, &mid_order_traversal);
             match segment_left_left {
@@ -256,7 +265,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 _ => {}
             }
             let segment_right = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
+                .get_left_right_in_u_c(&source_is_p, &contain_p, &position)
                 .1;
             let segment_right_right =
                 self.get_right_of_segment(&segment_right, &mid_order_traversal);
-- 
2.43.0


From b3bdd024d4fa31bf32d2b2eb6e202d52142110ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 42/47] fix: the sweep lost what a steep segment crosses in the
 column of its end

The segment ended before its crossings in that column were found, so those
that it passes there are looked at as well.
---
 .../sweep_segment_2_intersection.rs           | 58 +++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index c78bdc0..0a0411c 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -202,7 +202,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         let old_status_nodes = self.status_tree.mid_order_traversal();
         self.status_tree.clear();
         let mut reinserted_segments = Vec::new();
-        for status_node in old_status_nodes {
+        for status_node in &old_status_nodes {
             // Those that end here leave the status, the others are inserted below.
             let is_at_p = target_is_p
                 .iter()
@@ -225,25 +225,37 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             _ => event_point.clone(),
         };
         self.last_position = Some(position);
-        sort_segments(&mut reinserted_segments, &position);
-        for segment in reinserted_segments {
-            match segment {
-                StatusNodeSegment::LineSegment2(line_segment) => {
-                    self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&line_segment, &position),
-                        point: position,
-                        segment,
-                    })
-                }
-                StatusNodeSegment::ArcSegment2(arc_segment) => {
-                    self.status_tree.insert(StatusNode {
-                        value: calculate_segment_value(&arc_segment, &position),
-                        point: position,
-                        segment,
-                    })
+        // Those that a segment crosses in the column it ends in are passed by its end.
+        for (index, status_node) in old_status_nodes.iter().enumerate() {
+            let ends_here = |other: &StatusNode<T>| {
+                let is_same = |segment| is_same_segment(segment, &other.segment);
+                target_is_p.iter().any(is_same)
+            };
+            if !ends_here(status_node) {
+                continue;
+            }
+            for (other_index, other) in old_status_nodes.iter().enumerate() {
+                let value = calculate_status_segment_value(&other.segment, &position);
+                let is_passed = !value.equals(position.y())
+                    && (other_index < index) != (value < position.y())
+                    && !ends_here(other);
+                if is_passed {
+                    self.find_intersection_points(
+                        &status_node.segment,
+                        &other.segment,
+                        event_point,
+                    );
                 }
             }
         }
+        sort_segments(&mut reinserted_segments, &position);
+        for segment in reinserted_segments {
+            self.status_tree.insert(StatusNode {
+                value: calculate_status_segment_value(&segment, &position),
+                point: position,
+                segment,
+            });
+        }
         let mid_order_traversal = self.status_tree.mid_order_traversal();
         if source_is_p_empty && contain_p_empty {
             let neighbors = self.get_neighbors_with_point(&position);
@@ -656,6 +668,18 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
     }
 }
 
+fn calculate_status_segment_value<T: NumberType>(
+    segment: &StatusNodeSegment<T>,
+    point: &Point2<T>,
+) -> T {
+    match segment {
+        StatusNodeSegment::LineSegment2(line_segment) => {
+            calculate_segment_value(line_segment, point)
+        }
+        StatusNodeSegment::ArcSegment2(arc_segment) => calculate_segment_value(arc_segment, point),
+    }
+}
+
 fn is_top_segment<T: NumberType>(segment: &impl Segment2<T>) -> bool {
     ArcSegment2::new(
         CircleSegment2::new(segment.center(), segment.radius()),
-- 
2.43.0


From 5335aa899251e74bad48192c7c9ecf8384431cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 43/47] fix: the sweep misordered a segment that starts on an
 arc beside its extreme

A point both share in the column of the event is visited again, as by then
both are in the status.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 0a0411c..21a304b 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -538,12 +538,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             // Points still ahead of the sweep line, in the order of the queue, or on it up
             // to the tolerance and missed so far. Once is enough, and among points that
             // nearly coincide ahead may go in circles.
-            let is_ahead = point < *event_point
-                || (point.x().equals(event_point.x())
-                    && !self
-                        .intersection_points
-                        .mid_order_traversal()
-                        .contains(&point));
+            let is_ahead = point < *event_point || point.x().equals(event_point.x());
             if is_ahead && self.queued_points.insert(QueuedPoint(point)) {
                 // By the time of the event one of the two may have ended in its column.
                 self.intersection_points.insert(point);
-- 
2.43.0


From 39e9902926b67ace38bb54f8e50db6636d25f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 44/47] fix: the sweep misordered a steep segment and an arc it
 touches

Slopes were compared by their difference, which for steep ones is larger than
the tolerance when the directions are the same up to rounding.
---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 21a304b..406edd8 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -741,7 +741,9 @@ fn compare_segments<T: NumberType>(
         let segment_b_slope = calculate_slope_at(segment_b, event_point);
         match (segment_a_slope, segment_b_slope) {
             (Slope::Finite(a_slope), Slope::Finite(b_slope)) => {
-                if a_slope.equals(b_slope) {
+                // The slopes of steep segments are not as exact as their directions.
+                let scale = T::from_f64(1.0) + (a_slope * b_slope).abs();
+                if ((a_slope - b_slope) / scale).equals(T::zero()) {
                     compare_segments_same_slope(segment_a, segment_b, event_point)
                 } else if a_slope < b_slope {
                     std::cmp::Ordering::Less
-- 
2.43.0


From b2219b647e225634741324787aab06e5d4778d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 45/47] fix: a point beyond the end of a nearly level edge was
 located on the wrong side of a polygon

---
 src/algorithm/location/point_2_polygon_2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 6ca28d3..f4424b6 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -51,10 +51,11 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
         // Count the edges crossed by the horizontal ray to the right of the point.
         let source = edge.source();
         let target = edge.target();
+        // The side is exact: beyond its end the point may be within the tolerance
+        // of the edge's line.
         let is_upward = target.y() > source.y();
-        if (source.y() > point.y()) != (target.y() > point.y())
-            && (edge_location == Point2Segment2Location::Left) == is_upward
-        {
+        let is_left = (target - source).cross(&(*point - source)) > T::zero();
+        if (source.y() > point.y()) != (target.y() > point.y()) && is_left == is_upward {
             inside = !inside;
         }
     }
-- 
2.43.0


From 9c906773d4f8b627305fe67acf4933d2327907dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 46/47] fix: a line through the origin of a ray at a small
 angle was said to miss it

---
 src/algorithm/intersection/line_2_ray_2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_2_ray_2.rs b/src/algorithm/intersection/line_2_ray_2.rs
index f1cbfe0..a872a0d 100644
--- a/src/algorithm/intersection/line_2_ray_2.rs
+++ b/src/algorithm/intersection/line_2_ray_2.rs
@@ -1,5 +1,8 @@
 use crate::{
-    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
+    algorithm::location::{
+        location_enum::Point2Ray2Location, point_2_line_2::is_point_2_on_line_2,
+        point_2_ray_2::locate_point_2_ray_2,
+    },
     kernel::{line_2::Line2, number_type::NumberType, point_2::Point2, ray_2::Ray2},
 };
 
@@ -22,6 +25,8 @@ pub fn line_2_ray_2_intersection<T: NumberType>(
     match intersection {
         Some(point) => match locate_point_2_ray_2(&point, ray) {
             Point2Ray2Location::On => Some(point),
+            // At a small angle rounding may put the crossing behind an origin on the line.
+            _ if is_point_2_on_line_2(&origin, line) => Some(origin),
             _ => None,
         },
         None => None,
-- 
2.43.0


From f5f6efee8d4eaf27c9dec1e9911a7d21cd39f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 47/47] fix: a segment passing the origin of a ray at a small
 angle was said to miss it

---
 src/algorithm/intersection/line_segment_2_ray_2.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 2000499..f200a9e 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,5 +1,8 @@
 use crate::{
-    algorithm::location::{location_enum::Point2Ray2Location, point_2_ray_2::locate_point_2_ray_2},
+    algorithm::location::{
+        location_enum::Point2Ray2Location, point_2_line_segment_2::is_point_2_on_line_segment_2,
+        point_2_ray_2::locate_point_2_ray_2,
+    },
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
         segment_2::Segment2,
@@ -38,6 +41,12 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
             return result;
         }
         Point2Ray2Location::Collinear => {
+            // In line with the ray and behind it, but the rest may pass its origin.
+            if result.is_empty()
+                && is_point_2_on_line_segment_2(&ray_segment.origin(), line_segment)
+            {
+                result.push(ray_segment.origin());
+            }
             return result;
         }
         _ => {
@@ -49,6 +58,9 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
                         return result;
                     }
                     Point2Ray2Location::Collinear => {
+                        if is_point_2_on_line_segment_2(&ray_segment.origin(), line_segment) {
+                            result.push(ray_segment.origin());
+                        }
                         return result;
                     }
                     _ => {
-- 
2.43.0

