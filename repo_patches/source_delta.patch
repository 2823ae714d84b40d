From ceac5cb8c0a4226d66d2a23beae5b1b0e7596d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 01/33] fix: write whole lines when saving points

A short or interrupted write was taken for a complete one, so a save could
report success with data missing.
---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..8db6a68 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -43,7 +43,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -54,7 +54,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -68,7 +68,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From 88dc3675cf6045f6213b4dc8ca7901ae76f50762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 02/33] fix: an empty outline has no line element

save_bound_as_obj wrote "l 0 1" for an empty list, which refers to two
vertices that the file does not have.
---
 src/surface/bspline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..456a4bb 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -310,6 +310,8 @@ pub fn save_bound_as_obj<P: AsRef<std::path::Path>>(
     for i in 1..vertices.len() {
         writeln!(writer, "l {} {}", i, i + 1)?;
     }
-    writeln!(writer, "l {} {}", vertices.len(), 1)?;
+    if !vertices.is_empty() {
+        writeln!(writer, "l {} {}", vertices.len(), 1)?;
+    }
     Ok(())
 }
-- 
2.43.0


From 284a83e6517498f917290004f43ea6639d8de612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 03/33] fix: report every failure of save_as_stl as an error

The triangle count was still buffered when save_as_stl returned, so an error
on writing it was lost; short writes were taken for complete ones; and a
target without a file name ("..") panicked instead of failing.
---
 src/model.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..9739ac4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -25,7 +25,7 @@ impl<F: Face> Model<F> {
     pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
         use std::io::{Seek, SeekFrom, Write};
         let path = std::path::Path::new(filename.as_ref());
-        let name = path.file_stem().unwrap().to_string_lossy();
+        let name = path.file_stem().unwrap_or_default().to_string_lossy();
         let file = std::fs::File::create(path)?;
         let mut writer = std::io::BufWriter::new(file);
 
@@ -33,33 +33,34 @@ impl<F: Face> Model<F> {
         let mut header = Vec::with_capacity(header_size);
         writeln!(header, "Binary STL file\nName: {:57}", name)?;
         header.truncate(header_size);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
 
         let mut triangle_count: usize = 0;
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
 
         for face in &self.faces {
             let mesh = face.get_triangle_mesh();
             triangle_count += mesh.triangle_count();
             for triangle in mesh.triangles.chunks(3) {
                 // normal
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
                 // vertices
                 for index in triangle {
                     let point = &mesh.vertices[*index as usize];
-                    writer.write(&(point.x as f32).to_le_bytes())?;
-                    writer.write(&(point.y as f32).to_le_bytes())?;
-                    writer.write(&(point.z as f32).to_le_bytes())?;
+                    writer.write_all(&(point.x as f32).to_le_bytes())?;
+                    writer.write_all(&(point.y as f32).to_le_bytes())?;
+                    writer.write_all(&(point.z as f32).to_le_bytes())?;
                 }
                 // attribute byte count
-                writer.write(&[0u8, 0u8])?;
+                writer.write_all(&[0u8, 0u8])?;
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
         dbg!(triangle_count);
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From a929c3d85fab5764eca6c389a01bbf337efabb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 04/33] fix: do not print the triangle count when saving STL

dbg! panics when standard error is closed, full or a broken pipe.
---
 src/model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 9739ac4..5414a6c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -58,7 +58,6 @@ impl<F: Face> Model<F> {
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
-        dbg!(triangle_count);
         writer.write_all(&(triangle_count as u32).to_le_bytes())?;
         writer.flush()?;
         Ok(())
-- 
2.43.0


From 6760b4b895d52f7dfe482e7e5674daa126c3c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 05/33] fix: SVG draws the trimmed part of a polyline or cubic
 spline

A segment with a partial or reversed parameter range was drawn as the whole
curve in its own direction. Such segments are now sampled like the others.
---
 src/model.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 5414a6c..dc7a818 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -111,17 +111,19 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(polyline) = segment.curve.downcast_ref::<curve::Polyline>() {
-                    for (index, point) in polyline.vertices.iter().enumerate() {
-                        if index == 0 {
-                            data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
-                        } else {
-                            data.push_str(&format!(" L {:.2},{:.2}", point.x, point.y));
+                    if segment.parameter_range == (0.0, 1.0) {
+                        for (index, point) in polyline.vertices.iter().enumerate() {
+                            if index == 0 {
+                                data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
+                            } else {
+                                data.push_str(&format!(" L {:.2},{:.2}", point.x, point.y));
+                            }
                         }
+                        continue;
                     }
-                    continue;
                 }
                 if let Some(bspline) = segment.curve.downcast_ref::<curve::BSplineCurve<Point3>>() {
-                    if bspline.degree == 3 {
+                    if bspline.degree == 3 && segment.parameter_range == bspline.knots.range() {
                         for (index, bezier_curve) in
                             bspline.to_piecewise_bezier().into_iter().enumerate()
                         {
-- 
2.43.0


From f8c8f2095effc09234ab0b49c5d1419d2e352a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:58 +0000
Subject: [PATCH 06/33] fix: a malformed point cloud is an error, not a panic

A damaged or truncated number in a file being loaded took the process down.
---
 src/points.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 8db6a68..797b30e 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -25,14 +25,14 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .as_slice()
         {
             [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_number(x)?,
+                parse_number(y)?,
+                parse_number(z)?,
             )),
             [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_number(x)?,
+                parse_number(y)?,
+                parse_number(z)?,
             )),
             _ => {}
         }
@@ -40,6 +40,11 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
     Ok(points)
 }
 
+fn parse_number(text: &str) -> std::io::Result<Float> {
+    Float::from_str(text)
+        .map_err(|error| std::io::Error::new(std::io::ErrorKind::InvalidData, error))
+}
+
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-- 
2.43.0


From ba80e6178dbcd6836460f0eeb6f0a2946f58124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 07/33] fix: a STEP file that does not parse is an error

StepReader::read prints a parse error and returns Ok, so a truncated or
damaged file was imported as an empty model. Parse it here and report the
error to the caller.
---
 src/model/step_reader.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..45932e1 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -3,10 +3,30 @@ use crate::consts::TAU;
 use crate::curve::{Curve, CurveSegment, Polycurve};
 use crate::surface::{Surface, SurfacePatch, TrimmedSurface};
 use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
-use iso_10303::step::{EntityRef, Real, StepReader};
+use iso_10303::step::{parser::exchange_file, EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
 
+/// Read all entities of a file. Unlike `StepReader::read`, a file that does not parse is an error.
+fn read_entities<P: AsRef<std::path::Path>>(file: P) -> std::io::Result<Ap214Reader> {
+    let bytes = std::fs::read(file)?;
+    let file = exchange_file().parse(&bytes).map_err(|error| {
+        std::io::Error::new(std::io::ErrorKind::InvalidData, error.to_string())
+    })?;
+    let mut reader = Ap214Reader::new();
+    for mut instance in file.data {
+        let entity = if instance.value.len() == 1 {
+            reader.create_simple_entity(instance.value.remove(0), false)
+        } else {
+            reader.create_complex_entity(instance.value)
+        };
+        if let Some((type_id, type_name, entity)) = entity {
+            reader.insert_entity(instance.id, type_id, type_name, entity);
+        }
+    }
+    Ok(reader)
+}
+
 fn vec3(coordinates: &Vec<Real>) -> Vec3 {
     Vec3::new(
         coordinates[0].0 as Float,
@@ -421,8 +441,7 @@ pub type StepModel = Model<TrimmedSurface<Box<dyn Surface>>>;
 
 impl ModelReader {
     pub fn read_model<P: AsRef<std::path::Path>>(file: P) -> std::io::Result<StepModel> {
-        let mut reader = Ap214Reader::new();
-        reader.read(file)?;
+        let reader = read_entities(file)?;
 
         let mut model = Model::new();
         for composite_curve in reader.get_entities::<CompositeCurve>() {
-- 
2.43.0


From 67b05788bcd694312783d66a198604580930d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:00 +0000
Subject: [PATCH 08/33] fix: Polyline::get_point does not panic for parameters
 just below 1

The remaining length can exceed the last segment by rounding, which ended in
unreachable!().
---
 src/curve/polyline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..0a094ff 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -53,7 +53,7 @@ impl Curve for Polyline {
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            self.end()
         }
     }
 
-- 
2.43.0


From 5e60a5bcf11c0f9225ce8f7db28e161413994fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:16 +0000
Subject: [PATCH 09/33] fix: meshing a B-spline face does not write bound.obj

A debugging leftover created bound.obj in the working directory, panicked when
that was not writable, and let concurrent threads write the same file.
---
 src/surface/bspline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 456a4bb..c0a94e8 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -222,7 +222,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-- 
2.43.0


From d7262ed8d34901949f2413cb17525c56bf605bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:16 +0000
Subject: [PATCH 10/33] fix: meshing a B-spline face with holes prints nothing

dbg! panics when standard error is closed, full or a broken pipe.
---
 src/surface/bspline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index c0a94e8..44a5aef 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -258,7 +258,6 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
-- 
2.43.0


From e3c74be1f42c9a649d6e911e1b57531555069da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 11/33] fix: adaptive sampling keeps S-shaped curves within the
 tolerance

A single point near the middle decided whether a piece of a curve is flat, so
an S-shaped curve, which crosses its chord there, could be replaced by the
chord whatever its amplitude. Look at the middle of both halves as well.
---
 src/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9adb3bb..99009e1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -68,11 +68,14 @@ pub fn uniform_divide(range: (Float, Float), division: usize) -> Vec<Float> {
 /// Creates the curve division
 pub fn parameter_division(curve: &dyn Curve, range: (Float, Float), tol: Float) -> Vec<Float> {
     let p = 0.5 + (0.2 * rand::random::<Float>() - 0.1);
-    let t = range_at(range, p);
     let pt0 = curve.get_point(range.0);
     let pt1 = curve.get_point(range.1);
-    let mid = pt0 + (pt1 - pt0) * p;
-    if curve.get_point(t).distance(mid) < tol {
+    // one point is not enough: an S-shaped curve crosses its chord in the middle
+    let is_flat_at = |p: Float| {
+        let on_chord = pt0 + (pt1 - pt0) * p;
+        curve.get_point(range_at(range, p)).distance(on_chord) < tol
+    };
+    if is_flat_at(p) && is_flat_at(p / 2.0) && is_flat_at((1.0 + p) / 2.0) {
         vec![range.0, range.1]
     } else {
         let mid = (range.0 + range.1) / 2.0;
-- 
2.43.0


From 57225a99dc83c3a3ed8b1622ab7e026263fe69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 12/33] fix: connect a hole to a vertex that is visible from it

merge_two_polygons connected a hole to the start of the nearest edge, which can
lie behind other edges, so the merged polygon crossed itself and the face was
meshed with overlaps and gaps.
---
 src/utils/meshgen.rs |  2 +-
 src/utils/polygon.rs | 47 ++++++++++++++++++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 415190c..32b3f98 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -130,7 +130,7 @@ fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     center + displace * ratio
 }
 
-fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+pub fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
     if a.x.min(b.x) > c.x.max(d.x)
         || c.x.min(d.x) > a.x.max(b.x)
         || a.y.min(b.y) > c.y.max(d.y)
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..9963a06 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,4 +1,4 @@
-use crate::utils::{Point, Tolerance};
+use crate::utils::{is_segments_intersect, Tolerance};
 use crate::{Float, Point2};
 use std::collections::VecDeque;
 
@@ -207,27 +207,25 @@ pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize>
     let mut vertices = VecDeque::with_capacity(points.len() + polygons.len() - 1);
     vertices.extend(outer_start..outer_end);
     for (start, end, i_max, _) in sorted_polygons.into_iter().rev() {
-        merge_two_polygons(points, &mut vertices, start..end, i_max);
+        merge_two_polygons(points, polygons, &mut vertices, start..end, i_max);
     }
     vertices
 }
 
 fn merge_two_polygons(
     points: &[Point2],
+    polygons: &[usize],
     outer: &mut VecDeque<usize>,
     inner: std::ops::Range<usize>,
     max_x_index: usize,
 ) {
     let inner_point = points[max_x_index];
-    // find nearest edge to inner point
+    // find nearest vertex that can be connected to inner point without crossing any edge
     let mut min = Float::MAX;
     let mut min_index = 0;
     for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
+        let distance = inner_point.distance(points[outer[i]]);
+        if distance < min && is_visible(points, polygons, outer, i, inner_point) {
             min = distance;
             min_index = i;
         }
@@ -243,6 +241,39 @@ fn merge_two_polygons(
     }
 }
 
+// check if the segment between a point in the region and the i-th outer vertex stays in the region
+fn is_visible(
+    points: &[Point2],
+    polygons: &[usize],
+    outer: &VecDeque<usize>,
+    i: usize,
+    point: Point2,
+) -> bool {
+    let n = outer.len();
+    let vertex = points[outer[i]];
+    let prev = points[outer[(i + n - 1) % n]];
+    let next = points[outer[(i + 1) % n]];
+    let left_of_prev = (vertex - prev).perp_dot(point - vertex) > 0.0;
+    let left_of_next = (next - vertex).perp_dot(point - vertex) > 0.0;
+    let is_inside_corner = if (vertex - prev).perp_dot(next - vertex) > 0.0 {
+        left_of_prev && left_of_next
+    } else {
+        left_of_prev || left_of_next
+    };
+
+    let is_crossed_by = |c: Point2, d: Point2| {
+        let is_end = |p: Point2| p == point || p == vertex;
+        !is_end(c) && !is_end(d) && is_segments_intersect(point, vertex, c, d)
+    };
+    is_inside_corner
+        && !(0..n).any(|j| is_crossed_by(points[outer[j]], points[outer[(j + 1) % n]]))
+        && !polygons.windows(2).any(|pair| {
+            let polygon = &points[pair[0]..pair[1]];
+            let n = polygon.len();
+            (0..n).any(|j| is_crossed_by(polygon[j], polygon[(j + 1) % n]))
+        })
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From 661e82e4fe09b9da750349473224545109915289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 13/33] fix: treat the two visits of a bridge end as separate
 corners

When a hole is merged into its outer polygon the ends of the bridge occur
twice, convex at one place and concave at the other, but were looked up by
vertex index, so ears were cut that are none.
---
 src/surface/plane.rs | 10 ++++++++--
 src/utils/polygon.rs |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/surface/plane.rs b/src/surface/plane.rs
index 4ed183c..deb810c 100644
--- a/src/surface/plane.rs
+++ b/src/surface/plane.rs
@@ -76,9 +76,15 @@ impl Surface for Plane {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            let mut vertex_indices = utils::merge_polygons(&points, &polygons);
+            let merged = utils::merge_polygons(&points, &polygons);
+            // the two visits of a bridge end are separate corners
+            let points: Vec<Point2> = merged.iter().map(|&i| points[i]).collect();
+            let mut vertex_indices = (0..points.len()).collect();
             let concave_points = utils::find_concave_vertices(&points, &mut vertex_indices);
-            let triangles = utils::trianglate_polygon(&points, vertex_indices, concave_points);
+            let triangles = utils::trianglate_polygon(&points, vertex_indices, concave_points)
+                .into_iter()
+                .map(|i| merged[i as usize] as u32)
+                .collect();
 
             TriangleMesh {
                 vertices,
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 9963a06..67d95a4 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -173,8 +173,10 @@ fn is_ear(
     curr: usize,
     next: usize,
 ) -> bool {
+    let corners = [points[prev], points[curr], points[next]];
     for &other in concave_points {
-        if other != prev && other != next {
+        // a merged polygon visits the ends of a bridge twice
+        if !corners.contains(&points[other]) {
             if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
                 return false;
             }
-- 
2.43.0


From 55aa590ad72b2b0cb58a65c46c396bf6f6af7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 14/33] fix: forget a concave vertex that became colinear

It was removed from the polygon but kept blocking ears, so triangulation could
stop with a hole in the mesh.
---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 67d95a4..1990652 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0


From b7e49d4538d1976b282b7330e746b99bf6bc8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 15/33] fix: project cylinder faces from their lowest point and
 map inner points back from the ring

---
 src/surface/cylinder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..cbe7283 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -70,10 +70,15 @@ impl Surface for Cylinder {
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
+        // measure heights from the lowest boundary point, so that none reaches d
+        let cylinder = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            ..*self
+        };
 
         let mut points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| cylinder.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
@@ -83,7 +88,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| cylinder.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -99,7 +104,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| cylinder.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -114,7 +119,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| cylinder.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From 1618b47e0e7bbac55d997642fa842fa8a0abacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 16/33] fix: mesh cylinder faces with holes whose outer loop
 runs clockwise

---
 src/surface/cylinder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index cbe7283..04a7b0f 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -115,17 +115,28 @@ impl Surface for Cylinder {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            let is_clockwise = !utils::is_polygon_counter_clockwise(&points[..polygons[1]]);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
                     .map(|&p| cylinder.generate_point_from_ring(p, d)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
-- 
2.43.0


From b33459774298333448d0840786e719b5447b8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 17/33] fix: mesh B-spline faces with holes whose outer loop
 runs clockwise

---
 src/surface/bspline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 44a5aef..3cd60af 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -258,17 +258,28 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            let is_clockwise = !utils::is_polygon_counter_clockwise(&points[..polygons[1]]);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
                     .map(|p| self.get_point(p.x, p.y)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
-- 
2.43.0


From 9b9f466ee223acc460e6353dc061ff49598e030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 18/33] fix: a point far along the line of a degenerate
 triangle is not inside it

---
 src/utils/point.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/point.rs b/src/utils/point.rs
index 38e8676..8cc0327 100644
--- a/src/utils/point.rs
+++ b/src/utils/point.rs
@@ -1,4 +1,4 @@
-use crate::utils::Tolerance;
+use crate::utils::{Tolerance, TOLERANCE};
 use crate::{Float, Point2};
 
 pub trait Point {
@@ -22,6 +22,13 @@ impl Point for Point2 {
     }
 
     fn is_inside_triangle(&self, a: Point2, b: Point2, c: Point2) -> bool {
+        // a point on the line of a degenerate triangle is not necessarily in it
+        let margin = Point2::splat(TOLERANCE);
+        let (low, high) = (a.min(b).min(c) - margin, a.max(b).max(c) + margin);
+        if self.cmplt(low).any() || self.cmpgt(high).any() {
+            return false;
+        }
+
         let pa = a - *self;
         let pb = b - *self;
         let pc = c - *self;
-- 
2.43.0


From 2e126c709772be1227100ad59a1b2079d9b1a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 19/33] fix: end the search for a front node when candidates
 repeat

---
 src/utils/meshgen.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 32b3f98..2311174 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -23,13 +23,18 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     while let Some(edge) = front.pop_back() {
         let (a, b) = (vertices[edge.0], vertices[edge.1]);
         let mut selected_node = None;
+        let mut tried_nodes = Vec::new();
 
         loop {
             if let Some(node) =
                 find_intersection_with_front(edge.0, edge.1, selected_node, &front, &vertices)
             {
-                selected_node = Some(node);
-                continue;
+                // colinear nodes can all seem to be inside each other's triangles
+                if !tried_nodes.contains(&node) {
+                    tried_nodes.push(node);
+                    selected_node = Some(node);
+                    continue;
+                }
             }
             break;
         }
-- 
2.43.0


From 3fe28ff421d695f8a8effc53df699d32c1db9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 20/33] fix: clamp B-splines whose first knot is not clamped

---
 src/curve/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..4ee762d 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,13 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                // there is no control point before the first one
+                let previous = if i > 0 {
+                    self.control_points[i - 1] * (1.0 - a)
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = previous + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From b8e1f7b2b0cd25130de8222f804adacf3807dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 21/33] fix: project points to strongly bent B-spline surfaces

---
 src/surface/bspline.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 3cd60af..efb4442 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -156,9 +156,23 @@ impl BSplineSurface<Point3> {
 
                     let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
                     let k = Vec2::new(-r.dot(su), -r.dot(sv));
-                    let delta = j.inverse() * k;
-                    u = utils::clamp_in_range(u + delta.x, u_range);
-                    v = utils::clamp_in_range(v + delta.y, v_range);
+                    let newton = j.inverse() * k;
+                    // where the surface bends strongly, a Newton step can lead away from the point
+                    let (e, f, g) = (su.length_squared(), su.dot(sv), sv.length_squared());
+                    let gauss = Mat2::from_cols_array(&[e, f, f, g]).inverse() * k;
+                    let closer = [newton, gauss, gauss / 2.0, gauss / 4.0, gauss / 16.0]
+                        .iter()
+                        .map(|delta| {
+                            (
+                                utils::clamp_in_range(u + delta.x, u_range),
+                                utils::clamp_in_range(v + delta.y, v_range),
+                            )
+                        })
+                        .find(|&(u, v)| self.get_point(u, v).distance(*point) < r.length());
+                    match closer {
+                        Some(next) => (u, v) = next,
+                        None => break,
+                    }
                 }
                 return Point2::new(u, v);
             })
-- 
2.43.0


From 60e6a6df1dbfd7a6cc6704a94f996dd93315fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 22/33] fix: read trims of a STEP curve that are given by
 points

---
 src/model/step_reader.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 45932e1..34a81f7 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -6,6 +6,7 @@ use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{parser::exchange_file, EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
+use std::collections::HashSet;
 
 /// Read all entities of a file. Unlike `StepReader::read`, a file that does not parse is an error.
 fn read_entities<P: AsRef<std::path::Path>>(file: P) -> std::io::Result<Ap214Reader> {
@@ -401,12 +402,24 @@ fn extract_surface(
     return None;
 }
 
-fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
-    if let TrimmingSelect::ParameterValue(value) = measure {
-        Some(value.0)
-    } else {
-        None
-    }
+/// A trim is given by a parameter, by a point on the curve, or by both in any order.
+fn get_trimming_parameter_value(
+    reader: &Ap214Reader,
+    curve: &dyn Curve,
+    trim: &HashSet<TrimmingSelect>,
+) -> Option<f64> {
+    let parameter = trim.iter().find_map(|select| match select {
+        TrimmingSelect::ParameterValue(value) => Some(value.0),
+        _ => None,
+    });
+    parameter.or_else(|| {
+        trim.iter().find_map(|select| match select {
+            TrimmingSelect::CartesianPoint(point) => reader
+                .get_entity::<CartesianPoint>(point)
+                .map(|point| curve.project(vec3(point.coordinates()))),
+            _ => None,
+        })
+    })
 }
 
 fn extract_curve_segment(
@@ -417,10 +430,10 @@ fn extract_curve_segment(
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
                 let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
+                    get_trimming_parameter_value(reader, &*basis_curve, trimmed_curve.trim_1())
                         .unwrap();
                 let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
+                    get_trimming_parameter_value(reader, &*basis_curve, trimmed_curve.trim_2())
                         .unwrap();
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-- 
2.43.0


From 3ce015acd2ae995d10e916ecb04fb3b97684339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 23/33] fix: read outer bounds of STEP faces

---
 src/model/step_reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 34a81f7..47fd161 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -469,8 +469,15 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
-                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
+                    let face_bound = reader
+                        .get_entity::<FaceBound>(bound)
+                        .map(|bound| bound.bound())
+                        .or_else(|| {
+                            let bound = reader.get_entity::<FaceOuterBound>(bound);
+                            bound.map(|bound| bound.bound())
+                        });
+                    if let Some(face_bound) = face_bound {
+                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound) {
                             let edges = edge_loop
                                 .edge_list()
                                 .iter()
-- 
2.43.0


From 72d6f7e1aee610c6fb5c827a490b91abdbf2a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 24/33] fix: respect the magnitude of the direction of a STEP
 line

---
 src/curve/line.rs        | 2 +-
 src/model/step_reader.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 47fd161..2b37c49 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -152,8 +152,11 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 48cff96fc8650a4ddb9df6afafc3e8c13517d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:53 +0000
Subject: [PATCH 25/33] fix: complete the axes of STEP placements

---
 src/model/step_reader.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 2b37c49..465793a 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -54,16 +54,21 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
+fn axis_direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction_ref| reader.get_entity::<Direction>(direction_ref))
+        .map(|direction| vec3(direction.direction_ratios()).normalize())
+}
+
 fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    (location, axis)
+    let axis = axis_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    (location, Some(axis))
 }
 
 fn axis2_placement_3d(
@@ -77,13 +82,16 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    (location, z_axis, x_axis)
+    let z_axis = axis_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    // the x axis is the projection of the reference direction
+    let ref_direction = axis_direction(reader, placement.ref_direction());
+    let ref_direction = ref_direction.unwrap_or(if z_axis.cross(Vec3::X) == Vec3::ZERO {
+        Vec3::Y
+    } else {
+        Vec3::X
+    });
+    let x_axis = (ref_direction - z_axis * ref_direction.dot(z_axis)).normalize();
+    (location, Some(z_axis), Some(x_axis))
 }
 
 fn extract_points(reader: &Ap214Reader, points_list: &Vec<EntityRef>) -> Vec<Point3> {
-- 
2.43.0


From c7e93bfcfdb7a2092dc55aa1bd0eebfd4b9e6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:01 +0000
Subject: [PATCH 26/33] fix: read composite curve segments that run backwards

---
 src/model/step_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 465793a..3569b99 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -446,8 +446,13 @@ fn extract_curve_segment(
                 let param2 =
                     get_trimming_parameter_value(reader, &*basis_curve, trimmed_curve.trim_2())
                         .unwrap();
-                let parameter_range = basis_curve
+                let (start, end) = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
+                let parameter_range = if segment.same_sense() {
+                    (start, end)
+                } else {
+                    (end, start)
+                };
                 return Some(CurveSegment {
                     curve: basis_curve,
                     parameter_range,
-- 
2.43.0


From 393d0651f83aeb0113d6e2d853999d1fb12956a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:01 +0000
Subject: [PATCH 27/33] fix: read STEP files when standard output is broken

---
 src/model/step_reader.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 3569b99..14ea971 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -152,6 +152,14 @@ fn extract_knot_vector(knots: &Vec<Real>, multiplicities: &Vec<i64>) -> KnotVect
     // .normalize()
 }
 
+/// Reading goes on when standard output does not work.
+fn report_unrecognized(reader: &Ap214Reader, entity_ref: &EntityRef) {
+    use std::io::Write;
+    let id = entity_ref.0;
+    let type_name = reader.get_type_name(id);
+    let _ = writeln!(std::io::stdout(), "{}: {} is unrecoginzed", id, type_name);
+}
+
 fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn Curve>> {
     if let Some(line) = reader.get_entity::<Line>(curve_ref) {
         let origin = reader
@@ -191,8 +199,7 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             degree: bspline.degree() as u8,
         }));
     }
-    let id = curve_ref.0;
-    println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+    report_unrecognized(reader, curve_ref);
     None
 }
 
@@ -513,8 +520,7 @@ impl ModelReader {
                 };
                 model.add_face(trimmed_surface);
             } else {
-                let id = advanced_face.face_geometry().0;
-                println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+                report_unrecognized(&reader, advanced_face.face_geometry());
             }
         }
         Ok(model)
-- 
2.43.0


From b4aa255fb7ee8a3c6f483773fe2c278b08921241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:46 +0000
Subject: [PATCH 28/33] fix: project points to strongly bent curves

---
 src/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 99009e1..b050331 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -167,7 +167,22 @@ pub fn find_nearest_parameter(
             return u;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
-        u = clamp_in_range(u - f / fprime, range);
+        // only a positive derivative leads towards a minimum
+        let mut step = if fprime > 0.0 {
+            f / fprime
+        } else {
+            f / tangent.length_squared()
+        };
+        let mut next = clamp_in_range(u - step, range);
+        // a full step can lead away from the point where the curve is strongly bent
+        for _ in 0..trials {
+            if curve.get_point(next).distance_squared(point) <= delta.length_squared() {
+                break;
+            }
+            step /= 2.0;
+            next = clamp_in_range(u - step, range);
+        }
+        u = next;
     }
     u
 }
-- 
2.43.0


From 4f66990aaf4136ac3dead9ce1f3f8b0be1a35b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 29/33] fix: respect the orientation of STEP edges and face
 bounds

---
 src/model/step_reader.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 14ea971..4d4cee6 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -227,6 +227,15 @@ fn extract_edge_curve(
     None
 }
 
+/// The same piece of the curve, from its end to its start.
+fn reverse_segment(segment: CurveSegment<Box<dyn Curve>>) -> CurveSegment<Box<dyn Curve>> {
+    let (start, end) = segment.parameter_range;
+    CurveSegment {
+        parameter_range: (end, start),
+        ..segment
+    }
+}
+
 fn extract_surface(
     reader: &Ap214Reader,
     face: &AdvancedFace,
@@ -494,22 +503,31 @@ impl ModelReader {
                 for bound in advanced_face.bounds() {
                     let face_bound = reader
                         .get_entity::<FaceBound>(bound)
-                        .map(|bound| bound.bound())
+                        .map(|bound| (bound.bound(), bound.orientation()))
                         .or_else(|| {
                             let bound = reader.get_entity::<FaceOuterBound>(bound);
-                            bound.map(|bound| bound.bound())
+                            bound.map(|bound| (bound.bound(), bound.orientation()))
                         });
-                    if let Some(face_bound) = face_bound {
+                    if let Some((face_bound, orientation)) = face_bound {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        let curve =
+                                            extract_edge_curve(&reader, edge.edge_element());
+                                        if edge.orientation() == orientation {
+                                            curve
+                                        } else {
+                                            curve.map(reverse_segment)
+                                        }
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !orientation {
+                                edges.reverse();
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From a249b0f2e450def7762088b282abcbde49d6aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 30/33] fix: read STEP edges that run around a whole circle

---
 src/curve/circle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..70f3c5f 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,11 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        // the same start and end is a whole turn
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From 997551c166405bab51eb193c91f95b548c8ae6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:25 +0000
Subject: [PATCH 31/33] fix: read STEP edges that run around a closed spline or
 polyline

---
 src/curve/bspline.rs  | 10 ++++++++++
 src/curve/polyline.rs | 10 +++++++++-
 src/utils.rs          | 22 ++++++++++++++++++++++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 4ee762d..6b0748c 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -165,6 +165,16 @@ impl Curve for BSplineCurve<Point3> {
             10,
         )
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        let domain = self.knots.range();
+        let (start, end) = (self.get_point(domain.0), self.get_point(domain.1));
+        if start.distance_squared(end).near(0.0) {
+            utils::closed_parameter_range(range, domain, same_sense)
+        } else {
+            range
+        }
+    }
 }
 
 /// Rational BSpline curve, point (x,y,z) with weight w is (wx,wy,wz,w)
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 0a094ff..0af0d39 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -1,5 +1,5 @@
 use super::Curve;
-use crate::{utils, Float, Point3};
+use crate::{utils, utils::Tolerance, Float, Point3};
 
 #[derive(Debug)]
 pub struct Polyline {
@@ -74,4 +74,12 @@ impl Curve for Polyline {
                 .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
         (length / self.length).clamp(0.0, 1.0)
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        if self.start().distance_squared(self.end()).near(0.0) {
+            utils::closed_parameter_range(range, (0.0, 1.0), same_sense)
+        } else {
+            range
+        }
+    }
 }
diff --git a/src/utils.rs b/src/utils.rs
index b050331..92896b6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -90,6 +90,28 @@ pub fn range_at((start, end): (Float, Float), ratio: Float) -> Float {
     start + (end - start) * ratio
 }
 
+/// Directed parameter range between two points of a closed curve, whose first and last parameters are the same point.
+pub fn closed_parameter_range(
+    (start, end): (Float, Float),
+    (first, last): (Float, Float),
+    same_sense: bool,
+) -> (Float, Float) {
+    let (first, last) = if same_sense {
+        (first, last)
+    } else {
+        (last, first)
+    };
+    if (start < end) == same_sense && start != end {
+        (start, end)
+    } else if start.near(last) {
+        (first, end)
+    } else if end.near(first) {
+        (start, last)
+    } else {
+        (start, end)
+    }
+}
+
 pub fn find_nearest_point(points: &[Point3], point: Point3) -> usize {
     let mut min = Float::MAX;
     let mut min_index = 0;
-- 
2.43.0


From e7ad19ba66b71422f2d63724ff00a0ff0a1779ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:51 +0000
Subject: [PATCH 32/33] fix: project points beside strong bends of a curve

---
 src/utils.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 92896b6..011d95e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -170,13 +170,40 @@ pub fn find_nearest_parameter(
 ) -> Float {
     // compute initial approximate value
     let parameters = uniform_divide(range, division);
-    let mut u = parameters[find_nearest_point(
+    let nearest = find_nearest_point(
         &parameters
             .iter()
             .map(|&u| curve.get_point(u))
             .collect::<Vec<_>>(),
         point,
-    )];
+    );
+    // beside a strong bend the nearest of these points can lie beyond the bend
+    let mut result = (Float::MAX, parameters[nearest]);
+    for index in [nearest, nearest.saturating_sub(1), nearest + 1] {
+        if let Some(&start) = parameters.get(index) {
+            let u = refine_nearest_parameter(curve, der1, der2, point, range, start, trials);
+            let distance = curve.get_point(u).distance_squared(point);
+            if distance < result.0 {
+                result = (distance, u);
+            }
+            if distance.near(0.0) {
+                break;
+            }
+        }
+    }
+    result.1
+}
+
+fn refine_nearest_parameter(
+    curve: &impl Curve,
+    der1: &impl Curve,
+    der2: &impl Curve,
+    point: Point3,
+    range: (Float, Float),
+    start: Float,
+    trials: usize,
+) -> Float {
+    let mut u = start;
     // use Newton iteration to minimize the distance between point and curve
     for _ in 0..trials {
         let delta = curve.get_point(u) - point;
-- 
2.43.0


From b1f262350b604c93a045dbcb3561b909c46d6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:48 +0000
Subject: [PATCH 33/33] fix: no triangles without area between collinear
 bridges

---
 src/utils/polygon.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 1990652..5121996 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -140,7 +140,18 @@ pub fn trianglate_polygon(
             i += 1;
         }
     }
+
+    // a corner folded onto its own sides, as between two bridges on one line, covers nothing
+    let covers_area = |triangle: &&[u32]| {
+        let [a, b, c] = [0, 1, 2].map(|i| points[triangle[i] as usize]);
+        !matches!(compute_convexity(a, b, c), Convexity::Colinear)
+    };
     triangles
+        .chunks(3)
+        .filter(covers_area)
+        .flatten()
+        .copied()
+        .collect()
 }
 
 #[derive(Debug)]
-- 
2.43.0

