From bef4afb42bbf53ed7a12a88dd3f095be48461efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 01/27] fix: Orientation::is_ccw returns false for an empty
 ring instead of panicking

---
 src/core/algorithm/orientation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..f2b85a8 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,7 +125,7 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
-        let n_pts = ring.size() - 1;
+        let n_pts = ring.size().saturating_sub(1);
         // return default value if ring is flat
         if n_pts < 3 {
             return false;
-- 
2.43.0


From 34237da6474856bbb3e94e74bc3d3e7ec1a07c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:17 +0000
Subject: [PATCH 02/27] fix: CoordinateArrays::extract returns the requested
 range instead of panicking

---
 src/core/geom/coordinate_arrays.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..5458726 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,5 +1,3 @@
-use crate::core::util::math_util::MathUtil;
-
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
 
@@ -663,31 +661,15 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
         let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
+        if start >= pts.len() || end < start {
             return extract_pts;
         }
 
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+        let last = usize::min(end, pts.len() - 1);
+        for i in start..(last + 1) {
+            extract_pts.push(pts[i]);
         }
         return extract_pts;
     }
-- 
2.43.0


From 4632904e2a2bbffed876083934c23de376e76f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 03/27] fix: CoordinateArrays::has_repeated_or_invalid_points
 checks the first point too

---
 src/core/geom/coordinate_arrays.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 5458726..35722ce 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -400,6 +400,9 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
+        if coord.len() > 0 && !coord[0].is_valid() {
+            return true;
+        }
         for i in 1..coord.len() {
             if !coord[i].is_valid() {
                 return true;
-- 
2.43.0


From 224bfd3ada4d52e00c37e736f1eb88819c05d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 04/27] fix: CoordinateList adds a coordinate list in reverse
 direction without running out of bounds

---
 src/core/geom/coordinate_list.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..b602206 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -95,10 +95,9 @@ impl CoordinateList {
             }
         } else {
             let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
-                self.add_coordinate_repeated(coord_list[i], allow_repeated);
+            while i > 0 {
                 i -= 1;
+                self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         }
         return true;
-- 
2.43.0


From fad5b5d80be3cc8037598e9774968a124a803325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 05/27] fix: CoordinateList adds a descending index range
 without overflow

---
 src/core/geom/coordinate_list.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index b602206..1793627 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,14 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
-
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if start > end {
+                i -= 1;
+            } else {
+                i += 1;
+            }
         }
         return true;
     }
-- 
2.43.0


From a27e661aba3f3b6548756de94716f45d0ed1f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 06/27] fix: MathUtil::shuffle fills its list by pushing and
 accepts n = 0

---
 src/core/util/math_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..c52468c 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,10 +189,10 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
+        let mut i = n.saturating_sub(1);
         while i >= 1 {
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
-- 
2.43.0


From 819f96be0573e6f336c557f6dcd98e9cd51acc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 07/27] fix: Matrix::solve counts its elimination and back
 substitution loops down without underflow

---
 src/core/math/matrix.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..eb4fac0 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,10 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
-                    a[j][k] -= a[i][k] * row_factor;
+                let mut k = n;
+                while k > i {
                     k -= 1;
+                    a[j][k] -= a[i][k] * row_factor;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +86,9 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        let mut j = n;
+        while j > 0 {
+            j -= 1;
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +96,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From 442e02a4908d387ea890705cf81a0a1b3ac6d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 08/27] fix: Quadrant::is_in_half_plane puts NE, not SW, into
 the half plane whose right-hand quadrant is SE

---
 src/core/geom/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/quadrant.rs b/src/core/geom/quadrant.rs
index 48c71c5..370963b 100644
--- a/src/core/geom/quadrant.rs
+++ b/src/core/geom/quadrant.rs
@@ -125,7 +125,7 @@ impl Quadrant {
      */
     pub fn is_in_half_plane(quad: i32, half_plane: i32) -> bool {
         if half_plane == Quadrant::SE {
-            return quad == Quadrant::SE || quad == Quadrant::SW;
+            return quad == Quadrant::SE || quad == Quadrant::NE;
         }
         return quad == half_plane || quad == half_plane + 1;
     }
-- 
2.43.0


From 4ba007d4ffaf74f70cee839bfe7de7c07a2dd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 09/27] fix: PackedCoordinateSequenceDouble packs the ordinates
 of its coordinates instead of panicking

---
 .../packed_coordinate_sequence_double.rs          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..225b17b 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -86,6 +86,7 @@ impl PackedCoordinateSequenceDouble {
             coords: vec![],
         };
 
+        new.coords = vec![f64::NAN; coordinates.len() * dimension as usize];
         for i in 0..coordinates.len() {
             let offset = i * dimension as usize;
             new.coords[offset] = coordinates[i].x;
@@ -95,7 +96,7 @@ impl PackedCoordinateSequenceDouble {
                 // Z or M
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
@@ -121,16 +122,21 @@ impl PackedCoordinateSequenceDouble {
             coords: vec![],
         };
 
+        new.coords = vec![f64::NAN; coordinates.len() * dimension as usize];
         for i in 0..coordinates.len() {
             let offset = i * dimension as usize;
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
             if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
+                new.coords[offset + 2] = if dimension - measures > 2 {
+                    coordinates[i].get_z()
+                } else {
+                    coordinates[i].get_m()
+                };
                 // Z or M
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
@@ -150,6 +156,7 @@ impl PackedCoordinateSequenceDouble {
             coords: vec![],
         };
 
+        new.coords = vec![f64::NAN; coordinates.len() * new.dimension as usize];
         for i in 0..coordinates.len() {
             let offset = i * new.dimension as usize;
             new.coords[offset] = coordinates[i].x;
@@ -159,7 +166,7 @@ impl PackedCoordinateSequenceDouble {
                 // Z or M
             }
             if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
+                new.coords[offset + 3] = coordinates[i].get_m();
                 // M
             }
         }
-- 
2.43.0


From 5aa96e1278d2508594264b6ab64f9299d201db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 10/27] fix: MultiPoint copies and reverses its points instead
 of panicking

---
 src/core/geom/multi_point.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..78c69ac 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,7 +136,7 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
@@ -263,7 +263,7 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
-- 
2.43.0


From 4176a59effb501dadf75d5808a51255dc8ef5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 11/27] fix: MultiLineString copies and reverses its lines
 instead of panicking or losing them

---
 src/core/geom/multi_line_string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..5bdf377 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,8 +130,8 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in 0..self.line_strings.len() {
+            line_strings.push(self.line_strings[i].reverse());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
@@ -139,7 +139,7 @@ impl MultiLineString {
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
-- 
2.43.0


From 19bcb20f96193f7fa332a38e3d4138064892fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:03 +0000
Subject: [PATCH 12/27] fix: MultiPolygon copies and reverses its polygons
 instead of panicking

---
 src/core/geom/multi_polygon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..e85cf96 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,7 +205,7 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
@@ -217,7 +217,7 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
-- 
2.43.0


From ca8a722f8329a03e0477dcb15b1d63d5f9842186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 13/27] fix: Polygon reverses its holes instead of panicking

---
 src/core/geom/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..8d518c6 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -473,7 +473,7 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
         return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
-- 
2.43.0


From 916448733f47be28e7a2eb6be91a3d4b1cbeb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 14/27] fix: MultiPoint::get_point_at_index returns none for an
 index out of range and the point for index 0

---
 src/core/geom/multi_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 78c69ac..1901f4c 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -221,7 +221,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From 0c3b490d1402f629bb1f935393fee6a97af820a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 15/27] fix: MultiPoint counts only the points its components
 hold

---
 src/core/geom/multi_point.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 1901f4c..0ea1480 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,11 +55,20 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        for i in 0..self.points.len() {
+            if !self.points[i].is_empty() {
+                return false;
+            }
+        }
+        return true;
     }
 
     pub fn get_num_points(&self) -> usize {
-        return self.points.len();
+        let mut num_points = 0;
+        for i in 0..self.points.len() {
+            num_points += self.points[i].get_num_points();
+        }
+        return num_points;
     }
 
     pub fn get_precision_model(&self) -> Option<PrecisionModel> {
-- 
2.43.0


From 767829c857b55f5542b74d7f93eb6b56c3e9cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:13 +0000
Subject: [PATCH 16/27] fix: Polygon::normalize stores the normalized ring
 instead of dropping it

---
 src/core/geom/polygon.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 8d518c6..d08a35f 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -428,12 +428,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -452,6 +452,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From f9c73a264153b9c3e733c7d4277f7ad16d07e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 17/27] fix: DD::rint leaves its operand unchanged

---
 src/core/math/dd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..59cfc7d 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -758,8 +758,7 @@ impl DD {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 82ecfa7edbfb8bd2f70ea7ca5d968de9430bf28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 18/27] fix: DD::magnitude handles values below one and above
 the i32 range

---
 src/core/math/dd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 59cfc7d..8267ae9 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1348,8 +1348,8 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10., x_mag);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
         }
 
-- 
2.43.0


From 7aef176cca20fc59642fbfc45e26c0e8f81575d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:13 +0000
Subject: [PATCH 19/27] fix: PrecisionModel rounds to single precision for
 FloatingSingle

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..51558de 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From c6b49aadcb884289b1ed42f87d1a74f9c646a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 20/27] fix: PrecisionModel::equals holds for two floating
 models of one type

---
 src/core/geom/precision_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 51558de..5245397 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -349,7 +349,7 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0


From a6fea868ee595bb0e3697c16fa8f2138e08a7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 21/27] fix: Centroid ignores empty lines and rings instead of
 panicking

---
 src/core/algorithm/centroid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
-- 
2.43.0


From 5cc389c3c0bbe4b5400cd2c48da742460a672928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:20 +0000
Subject: [PATCH 22/27] fix: CGAlgorithms3D::distance_segment_segment tests the
 second segment for zero length

---
 src/core/algorithm/cg_algorithms_3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..ec16d50 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
-- 
2.43.0


From 4f7bebf55fbc7e55bd1f5e1a40087fb2f778b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:23 +0000
Subject: [PATCH 23/27] fix: OctagonalEnvelope is not expanded by a null
 envelope

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..542850e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
-- 
2.43.0


From 793d53da30c0a36c8398b84d5719154d5a14fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:02 +0000
Subject: [PATCH 24/27] fix: CGAlgorithms3D::distance_segment_segment takes the
 nearest end point when the closest points of the lines are outside the
 segments

---
 src/core/algorithm/cg_algorithms_3d.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index ec16d50..83c60a5 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -131,14 +131,17 @@ impl CGAlgorithms3D {
             s = (b * e - c * d) / denom;
             t = (a * e - b * d) / denom;
         }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+        if s < 0. || s > 1. || t < 0. || t > 1. {
+            // the closest points include an end point of one of the segments
+            let ab_cd = f64::min(
+                CGAlgorithms3D::distance_point_segment(ac, cc, dd),
+                CGAlgorithms3D::distance_point_segment(bc, cc, dd),
+            );
+            let cd_ab = f64::min(
+                CGAlgorithms3D::distance_point_segment(cc, ac, bc),
+                CGAlgorithms3D::distance_point_segment(dd, ac, bc),
+            );
+            return f64::min(ab_cd, cd_ab);
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From d8a7bb34719263017afaeb513ae20f51d5bbc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 25/27] fix: PrecisionModel rounds ties upwards on both sides
 of zero, as documented

---
 src/core/geom/precision_model.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 5245397..b21d1e9 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -326,16 +326,25 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
   	return val;
   }
 
+  /**
+   * Rounds to the nearest integer, and to the greater one when both are as near.
+   */
+  fn round(val: f64) -> f64 {
+    let low = f64::floor(val);
+    if val - low >= 0.5 { return low + 1.; }
+    return low;
+  }
+
   /**
    * Rounds a Coordinate to the PrecisionModel grid.
    */
-- 
2.43.0


From 35932ddbd7197e06af6ef3885a0eae81a3da25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 26/27] fix: OctagonalEnvelope::intersects_coordinate is false
 for a null envelope

---
 src/core/geom/octagonal_envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 542850e..fd9117e 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -312,6 +312,9 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From 3b7163cb7b37a3247138bfe35b70b5cecc214d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 27/27] fix: copies and reversed geometries keep their
 precision model

---
 src/core/geom/multi_point.rs   | 8 ++++++--
 src/core/geom/multi_polygon.rs | 8 ++++++--
 src/core/geom/polygon.rs       | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 0ea1480..93e2af5 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -147,7 +147,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -274,7 +276,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index e85cf96..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -207,7 +207,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -219,7 +221,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index d08a35f..76e6424 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut res = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     // TODO: Implement ME!
@@ -477,7 +479,9 @@ impl Polygon {
             holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0

