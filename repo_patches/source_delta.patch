From 064cba899256fac71a4dba0d63e0055a5e35a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 01/14] fix: KDTree::insert ignores a duplicate of a point
 whose node has children

---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..a035968 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -55,18 +55,17 @@ where
     fn insert(&mut self, data: Point<T, N>, depth: usize) -> bool {
         let dimension_to_check = depth % N;
 
-        let (branch_to_use, verify_equals) =
+        let branch_to_use =
             // Note that this is a &mut Option, not an Option<&mut>!
             match data.coords[dimension_to_check].partial_cmp(&self.internal_data.coords[dimension_to_check]).unwrap() {
-                Ordering::Less => (&mut self.left, false),
-                Ordering::Equal => (&mut self.right, true),
-                Ordering::Greater => (&mut self.right, false)
+                Ordering::Less => &mut self.left,
+                // The point already exists in the tree, regardless of whether this node has children
+                Ordering::Equal if self.internal_data == data => return false,
+                Ordering::Equal | Ordering::Greater => &mut self.right,
             };
 
         if let Some(branch_exists) = branch_to_use.as_mut() {
             return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
-            return false;
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From 6803b02c2ef88a85ec18d51794e0379066fdcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 02/14] fix: convex hull determinant is computed in the
 calculation precision, so integer points cannot overflow

---
 crates/mapping-algorithms/src/polygons/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..57c96f5 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -95,10 +95,12 @@ fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitiv
     point_b: &Point2<T>,
     point_c: &Point2<T>,
 ) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+    // Convert before subtracting, as the differences might not be representable in `T`, i.e. for unsigned integers
+    let [a_x, a_y]: [O; 2] = [point_a.x.as_(), point_a.y.as_()];
+    let [b_x, b_y]: [O; 2] = [point_b.x.as_(), point_b.y.as_()];
+    let [c_x, c_y]: [O; 2] = [point_c.x.as_(), point_c.y.as_()];
+
+    ((b_y - a_y) * (c_x - b_x)) - ((b_x - a_x) * (c_y - b_y))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8710eff72a85bc8fad1e2df9f1da289e2d3f1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 03/14] fix: graham_scan sorts the downsampled points even when
 the input is assumed sorted

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..3f67bae 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling does not preserve order, so its result must always be sorted
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 2b9ada5032548edb20aacce4af197b37a5a7db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 04/14] fix: jarvis_march terminates on collinear and NaN
 points

---
 .../src/polygons/jarvis_march.rs              | 47 ++++++++++++++++---
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..d0535d4 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -28,6 +28,18 @@ use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
 use super::calculate_determinant;
 
+/// Checks whether a point lies on the line from `previous` to `current`, in the direction opposite to the march.
+fn is_point_behind<O, T>(previous: &Point2<T>, current: &Point2<T>, point: &Point2<T>) -> bool
+where
+    O: ComplexField + Copy + Real,
+    T: AsPrimitive<O> + NumAssign + PartialOrd + Scalar,
+{
+    let dot = (current.x.as_() - previous.x.as_()) * (point.x.as_() - current.x.as_())
+        + (current.y.as_() - previous.y.as_()) * (point.y.as_() - current.y.as_());
+
+    dot < O::zero() && calculate_determinant::<O, T>(previous, current, point) == O::zero()
+}
+
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
 ///
@@ -64,6 +76,14 @@ where
         points_downsampled_slice = points;
     }
 
+    // NaN coordinates cannot be ordered
+    if points_downsampled_slice
+        .iter()
+        .any(|point| point.coords.iter().any(|a| a.partial_cmp(a).is_none()))
+    {
+        return None;
+    }
+
     // Get leftest, lowest point as a starting point
     let mut current_vertex = points_downsampled_slice.iter().min_by(|a, b| {
         a.coords
@@ -76,21 +96,34 @@ where
 
     let mut hull = Vec::with_capacity(points_downsampled_slice.len());
     loop {
+        let previous_vertex = hull.last().copied();
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+
+        let mut endpoint: Option<&Point2<T>> = None;
         for point in points_downsampled_slice {
-            if endpoint == current_vertex
-                || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
+            // Collinear points that were already passed must not be considered, marching back to them will never end
+            if point == current_vertex
+                || previous_vertex.is_some_and(|previous| {
+                    is_point_behind::<O, T>(&previous, current_vertex, point)
+                })
             {
-                endpoint = point;
+                continue;
             }
-        }
 
-        current_vertex = endpoint;
+            if endpoint.map_or(true, |endpoint| {
+                calculate_determinant::<O, T>(current_vertex, endpoint, point) < O::zero()
+            }) {
+                endpoint = Some(point);
+            }
+        }
 
-        if current_vertex == &hull[0] {
+        // If there is nowhere left to go, all points are either identical or collinear
+        let endpoint = endpoint?;
+        if hull.contains(endpoint) {
             break;
         }
+
+        current_vertex = endpoint;
     }
 
     if hull.len() < 3 {
-- 
2.43.0


From 17853d072b3d1ff5fe3ad8d31984a375550b07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 05/14] fix: haversine distance between antipodal points is
 never NaN

---
 crates/mapping-algorithms/src/geo/haversine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..e60fa5c 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -68,7 +68,8 @@ where
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
             .sqrt()
-            .atan2((T::one() - basic_haversine).sqrt());
+            // Rounding might bring the haversine of antipodal points slightly above one
+            .atan2((T::one() - basic_haversine).max(T::zero()).sqrt());
 
     sphere_radius * inverse_haversine
 }
-- 
2.43.0


From 931671b55a0c893d0a7d4b490240fbc5503835a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 06/14] fix: the convex hull modules compile without the
 pregenerated feature

---
 crates/mapping-algorithms/src/polygons/graham_scan.rs  | 2 ++
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 3f67bae..e17f788 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -169,7 +169,9 @@ macro_rules! impl_graham_scan {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_graham_scan!(f64, doc double);
 
 #[cfg(test)]
diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index d0535d4..aa0eec8 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -169,7 +169,9 @@ macro_rules! impl_jarvis_march {
     };
 }
 
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f32, doc single);
+#[cfg(feature = "pregenerated")]
 impl_jarvis_march!(f64, doc double);
 
 #[cfg(test)]
-- 
2.43.0


From 040c41804e0b264ebd1b7109a79160b3c32f7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 07/14] fix: icp rejects a NaN MSE interval threshold

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..c7a6f11 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From 95f4026b39d320e9faf57eb9908d7535145d5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 08/14] fix: icp_iteration updates the current MSE on the
 converging iteration too

---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index c7a6f11..dd8f7ed 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -106,17 +106,19 @@ where
     let new_mse = calculate_mse(transformed_points, closest_points.as_slice());
     log::trace!("New MSE: {new_mse}");
 
+    let mse_interval = <T as ComplexField>::abs(*current_mse - new_mse);
+    *current_mse = new_mse;
+
     // If the MSE difference is lower than the threshold, then this is as good as it gets
     if config
         .mse_absolute_threshold
         .map(|thres| new_mse < thres)
         .unwrap_or_default()
-        || <T as ComplexField>::abs(*current_mse - new_mse) < config.mse_interval_threshold
+        || mse_interval < config.mse_interval_threshold
     {
         return Ok(new_mse);
     }
 
-    *current_mse = new_mse;
     Err(ICPError::IterationDidNotConverge((mean_a, mean_b)))
 }
 
-- 
2.43.0


From c2db354974827cf9c875055de0450da4aaa437e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 09/14] fix: ICPError implements Display, so it is an Error
 when the std feature is enabled

---
 .../src/point_clouds/icp/types.rs                  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/types.rs b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
index f126994..f2cd0e5 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/types.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/types.rs
@@ -44,20 +44,34 @@ pub struct ICPSuccess<T: Scalar, R: AbstractRotation<T, N>, const N: usize> {
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum ICPError<T: Scalar, const N: usize> {
     /// The source point cloud is empty.
+    #[cfg_attr(feature = "std", error("The source point cloud is empty"))]
     SourcePointCloudEmpty,
     /// The target point cloud is empty.
+    #[cfg_attr(feature = "std", error("The target point cloud is empty"))]
     TargetPointCloudEmpty,
     /// A source point had no nearest neighbour in the target point cloud.
+    #[cfg_attr(
+        feature = "std",
+        error("A source point had no nearest neighbour in the target point cloud")
+    )]
     NoNearestNeighbour,
     /// The amount of iterations was set to zero.
+    #[cfg_attr(feature = "std", error("The amount of iterations is zero"))]
     IterationNumIsZero,
     /// The Mean Squared Error interval threshold was set to zero.
+    #[cfg_attr(feature = "std", error("The MSE interval threshold is too small"))]
     MSEIntervalThreshold,
     /// The Mean Squared Error absolute threshold was set to zero.
+    #[cfg_attr(feature = "std", error("The MSE absolute threshold is too small"))]
     MSEAbsoluteThreshold,
     /// The Current iteration did not converge, returns the current mean points.
+    #[cfg_attr(feature = "std", error("The current iteration did not converge"))]
     IterationDidNotConverge((Point<T, N>, Point<T, N>)),
     /// The algorithm did not converge after the maximum amount of iterations.
+    #[cfg_attr(
+        feature = "std",
+        error("The algorithm did not converge after the maximum amount of iterations")
+    )]
     AlrogithmDidNotConverge,
 }
 
-- 
2.43.0


From 8dfcd7c5b419eb9c549c257842053b54aef2efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 10/14] fix: take the ICP rotation from its matrix directly,
 the iterative extraction stalls on half turns and may never end

---
 .../mapping-algorithms/src/types/isometry.rs  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..424f300 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -67,11 +67,17 @@ where
         rot_mat: &SMatrix<T, 2, 2>,
     ) -> Isometry<T, Self::RotType, 2> {
         let svd = rot_mat.svd(true, true);
-        let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
+        let rotation = Rotation::from_matrix_unchecked(verify_rotation_matrix_determinant(
+            svd.u.unwrap(),
+            svd.v_t.unwrap(),
+        ));
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&rotation),
+        ) * old_transform
     }
 }
 
@@ -92,10 +98,16 @@ where
         rot_mat: &SMatrix<T, 3, 3>,
     ) -> Isometry<T, Self::RotType, 3> {
         let svd = rot_mat.svd(true, true);
-        let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
+        let rotation = Rotation::from_matrix_unchecked(verify_rotation_matrix_determinant(
+            svd.u.unwrap(),
+            svd.v_t.unwrap(),
+        ));
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&rotation),
+        ) * old_transform
     }
 }
-- 
2.43.0


From 78a1d7e078d9af5f3033235a60f76496d5e249d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 11/14] fix: make the point in polygon test independent of the
 direction of a segment

The crossing of the ray was interpolated from the first vertex of a segment, so
the same segment listed the other way round could round to the other side of a
point near it: reversing a polygon changed the answer, and the two pieces of a cut
polygon both contained a point, or neither did.
---
 crates/mapping-algorithms/src/polygons/point_in_polygon.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
index 9994d9f..f73ca73 100644
--- a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
+++ b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
@@ -42,6 +42,13 @@ where
     T: Copy + RealField,
     f32: AsPrimitive<T>,
 {
+    // Always follow the segment upwards, so that the rounding is the same in both directions
+    let (vertex1, vertex2) = if vertex1.y > vertex2.y {
+        (vertex2, vertex1)
+    } else {
+        (vertex1, vertex2)
+    };
+
     if point.y > vertex1.y.min(vertex2.y)
         && point.y <= vertex1.y.max(vertex2.y)
         && point.x <= vertex1.x.max(vertex2.x)
-- 
2.43.0


From f97d873b94ce12087b5b5ebfaf812dbc2c5bd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 12/14] fix: keep the crossing of the point in polygon ray on
 its segment

Rounding could move the crossing to the left of the segment, so a point outside
the bounding box was reported inside by the single test, unlike the batch test.
---
 crates/mapping-algorithms/src/polygons/point_in_polygon.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
index f73ca73..a9bf529 100644
--- a/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
+++ b/crates/mapping-algorithms/src/polygons/point_in_polygon.rs
@@ -55,8 +55,10 @@ where
     {
         let origin_x = (vertex1.y != vertex2.y)
             .then(|| {
-                (point.y - vertex1.y) * (vertex2.x - vertex1.x) / (vertex2.y - vertex1.y)
-                    + vertex1.x
+                // Rounding must not move the intersection off the segment
+                ((point.y - vertex1.y) * (vertex2.x - vertex1.x) / (vertex2.y - vertex1.y)
+                    + vertex1.x)
+                    .max(vertex1.x.min(vertex2.x))
             })
             .unwrap_or(point.x);
 
-- 
2.43.0


From 752d011dc325885ab72d993e046c4ca4d1eae6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 13/14] fix: let the number of plotted cells depend on the end
 points only

The loop compared the stepped coordinate with the end point. With fractional end
points rounding could make the line one cell too long or too short, and beyond the
integers a float can count through it never terminated.
---
 crates/mapping-algorithms/src/lines/bresenham.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/lines/bresenham.rs b/crates/mapping-algorithms/src/lines/bresenham.rs
index e8b737b..2102e5a 100644
--- a/crates/mapping-algorithms/src/lines/bresenham.rs
+++ b/crates/mapping-algorithms/src/lines/bresenham.rs
@@ -75,9 +75,8 @@ where
     let mut points = Vec::with_capacity(<F as AsPrimitive<usize>>::as_(
         deltas[primary_axis] + F::one(),
     ));
-    while <F as ComplexField>::abs(current_point[primary_axis] - end_point[primary_axis])
-        >= F::one()
-    {
+    // Count the cells instead of comparing with the end, which stepping might miss by rounding or never reach
+    for _ in 0..<F as AsPrimitive<usize>>::as_(deltas[primary_axis]) {
         points.push(current_point.map(|element| element.as_()));
 
         for axis in 0..N {
-- 
2.43.0


From 2bf4609999cfd57f9470607932969e2ca0aa8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 14/14] fix: keep the ICP rotation normalised when the SVD
 factors are not orthogonal

---
 .../mapping-algorithms/src/types/isometry.rs  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index 424f300..ed6f2c5 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -71,13 +71,13 @@ where
             svd.u.unwrap(),
             svd.v_t.unwrap(),
         ));
+        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
+        let mut rotation = Self::RotType::from_rotation_matrix(&rotation);
+        // The factors of the SVD are not always orthogonal to full precision
+        rotation.renormalize();
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
-        Isometry::from_parts(
-            translation.into(),
-            Self::RotType::from_rotation_matrix(&rotation),
-        ) * old_transform
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
 
@@ -102,12 +102,12 @@ where
             svd.u.unwrap(),
             svd.v_t.unwrap(),
         ));
+        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
+        let mut rotation = Self::RotType::from_rotation_matrix(&rotation);
+        // The factors of the SVD are not always orthogonal to full precision
+        rotation.renormalize();
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        // The iterative `from_matrix` can stall on half turns, or fail to terminate altogether
-        Isometry::from_parts(
-            translation.into(),
-            Self::RotType::from_rotation_matrix(&rotation),
-        ) * old_transform
+        Isometry::from_parts(translation.into(), rotation) * old_transform
     }
 }
-- 
2.43.0

