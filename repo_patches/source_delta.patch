From d5c38d3f17dec2d54b9c67e4dbcd3b387942cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 01/90] fix: setting the distortion of a camera overwrote its
 focal, aspect ratio and principal point

Focal, AspectRatio, Cx and Cy lie between K1 and S3 in the enumeration, so
they were assigned from past the end of the given distortion vector.
---
 opensfm/src/geometry/python/pybind.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/python/pybind.cc b/opensfm/src/geometry/python/pybind.cc
index 1cc4999..1b0e564 100644
--- a/opensfm/src/geometry/python/pybind.cc
+++ b/opensfm/src/geometry/python/pybind.cc
@@ -173,10 +173,17 @@ PYBIND11_MODULE(pygeometry, m) {
             int count = 0;
             for (int i = 0; i < types.size(); ++i) {
               const int type_int = static_cast<int>(types[i]);
-              if (type_int >=
+              const bool is_radial_or_tangential =
+                  type_int >=
                       static_cast<int>(geometry::Camera::Parameters::K1) &&
                   type_int <=
-                      static_cast<int>(geometry::Camera::Parameters::S3)) {
+                      static_cast<int>(geometry::Camera::Parameters::P2);
+              const bool is_thin_prism =
+                  type_int >=
+                      static_cast<int>(geometry::Camera::Parameters::S0) &&
+                  type_int <=
+                      static_cast<int>(geometry::Camera::Parameters::S3);
+              if (is_radial_or_tangential || is_thin_prism) {
                 p.SetParameterValue(types[i], distortion(count++));
               }
             }
-- 
2.43.0


From 90422ee81ad3489dfc48cb118846f2d0084af29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 02/90] fix: bearing of the image center was NaN for dual
 cameras

---
 opensfm/src/geometry/camera_projections_functions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..7741328 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,12 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    // The ratio below tends to one when theta tends to zero
+    T s{1.0};
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From dbb235fc432fd136dda083963939ca7a9463bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 03/90] fix: undistortion of radially distorted points could be
 off or diverge

The Newton iterations used 1 + 2 k1 r^2 (+ 4 k2 r^4) as the derivative of
r (1 + k1 r^2 + k2 r^4), which is 1 + 3 k1 r^2 + 5 k2 r^4.
pixel_bearing() was off by up to several units for strong distortions.
---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From 45d79f68b6f451be33b05b558b98437244ce72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 04/90] fix: undistortion with thin prism coefficients used a
 transposed Jacobian

ForwardDerivatives() writes a row-major matrix, which is not symmetric for
this model, into a column-major one; Newton iterations converged slowly.
---
 opensfm/src/geometry/camera_distortions_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 253f09d..735d46a 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -687,7 +687,8 @@ struct Disto624 : Functor<2, 12, 2> {
     }
 
     Mat2<T> derivative(const Vec2<T>& point) const {
-      Mat2<T> jacobian;
+      // ForwardDerivatives() writes in row-major order
+      Eigen::Matrix<T, 2, 2, Eigen::RowMajor> jacobian;
       std::array<double, 2> dummy{};
       std::array<double, 12> ks{k1, k2, k3, k4, k5, k6, p1, p2, s0, s1, s2, s3};
       Disto624::ForwardDerivatives<T, false>(point.data(), ks.data(),
-- 
2.43.0


From cbc37d04a40cd27dae166a03e7a3f937b7ebfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 05/90] fix: setting the rotation of a pose left its origin
 unchanged

The world-to-camera translation is kept, so that the origin, and with it the
camera-to-world transform, has to follow the new rotation.
---
 opensfm/src/geometry/pose.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..44fb515 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -86,6 +86,8 @@ class Pose {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
     cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_.block<3, 1>(0, 3) =
+        -R_cw.transpose() * TranslationWorldToCamera();
     UpdateMinRotations();
   }
 
@@ -97,6 +99,8 @@ class Pose {
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
     cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_.block<3, 1>(0, 3) =
+        -R_cw.transpose() * TranslationWorldToCamera();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From 582fdccf5abc2069a1f7b2b70694d8343bdf50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 06/90] fix: roll of cameras rolled by more than 90 degrees

The arc sine maps it back into +-90 degrees; ptr_from_rotation() did not invert
rotation_from_ptr() for upside-down cameras.
---
 opensfm/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/geometry.py b/opensfm/geometry.py
index 8daf507..4f4179f 100644
--- a/opensfm/geometry.py
+++ b/opensfm/geometry.py
@@ -46,7 +46,7 @@ def roll_from_rotation(rotation_matrix: NDArray) -> float:
     a = np.cross(Rt_ez, [0, 0, 1])
     a /= np.linalg.norm(a)
     b = np.cross(Rt_ex, a)
-    return np.arcsin(np.dot(Rt_ez, b))
+    return np.arctan2(np.dot(Rt_ez, b), np.dot(Rt_ex, a))
 
 
 def rotation_from_ptr_v2(pan: float, tilt: float, roll: float) -> NDArray:
-- 
2.43.0


From 3cc23a99507a397779d07dbaff920248fe4e5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 07/90] fix: robust triangulation never tried the last pair of
 views

---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..ffbece5 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -953,7 +953,7 @@ class TrackTriangulator:
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
         for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
-- 
2.43.0


From aacca3e26ff1025f75131b3a402dd4cc972fca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 08/90] fix: early stop of robust triangulation compared
 against a view index

---
 opensfm/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index ffbece5..4e0629e 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -952,7 +952,7 @@ class TrackTriangulator:
 
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
-        for i in range(ransac_tries):
+        for tries in range(ransac_tries):
             random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
@@ -1020,7 +1020,7 @@ class TrackTriangulator:
                     optimal_iter = math.log(1.0 - pout) / math.log(
                         1.0 - inliers_ratio * inliers_ratio
                     )
-                    if optimal_iter <= i:
+                    if optimal_iter <= tries:
                         break
 
         if len(best_inliers) > 1:
-- 
2.43.0


From 207b5810f0209f632df73439fe5475fce7181ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 09/90] fix: DLT triangulation refined points with bearings in
 camera coordinates

---
 opensfm/reconstruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 4e0629e..864424e 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1081,7 +1081,7 @@ class TrackTriangulator:
         iterations: int,
     ) -> None:
         """Triangulate track using DLT and add point to reconstruction."""
-        Rts, bs, os, ids = [], [], [], []
+        Rts, bs, world_bs, os, ids = [], [], [], [], []
         for shot_id, obs in self.tracks_handler.get_observations(track).items():
             shot = self.reconstruction.shots[shot_id]
             os.append(self._shot_origin(shot))
@@ -1089,6 +1089,7 @@ class TrackTriangulator:
             # pyrefly: ignore [bad-argument-type]
             b = shot.camera.pixel_bearing(np.array(obs.point))
             bs.append(b)
+            world_bs.append(self._shot_rotation_inverse(shot).dot(b))
             ids.append(shot_id)
 
         if len(Rts) >= 2:
@@ -1106,7 +1107,7 @@ class TrackTriangulator:
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     np.array(os),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-                    np.array(bs),
+                    np.array(world_bs),
                     # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                     X,
                     iterations,
-- 
2.43.0


From bc250907aefd12053939c9371b29c740784c426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 10/90] fix: rotation between planar point sets was often a
 wrong rotation

---
 opensfm/src/geometry/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/src/geometry/transform.h b/opensfm/src/geometry/transform.h
index a2c4662..529dd8b 100644
--- a/opensfm/src/geometry/transform.h
+++ b/opensfm/src/geometry/transform.h
@@ -30,13 +30,13 @@ Eigen::Matrix3d RotationBetweenPoints(IT begin, IT end) {
 
   Eigen::JacobiSVD<Eigen::Matrix3d> svd(
       M, Eigen::ComputeFullU | Eigen::ComputeFullV);
-  const Eigen::Matrix3d& U = svd.matrixU();
+  Eigen::Matrix3d U = svd.matrixU();
   const Eigen::Matrix3d& V = svd.matrixV();
-  Eigen::Matrix3d rotation = U * V.transpose();
-  if (rotation.determinant() < 0.) {
-    rotation *= -1.0;
+  // Pick the closest rotation: the least significant axis decides the sign
+  if ((U * V.transpose()).determinant() < 0.) {
+    U.col(2) *= -1.0;
   }
-  return rotation;
+  return U * V.transpose();
 }
 
 template <class IT>
-- 
2.43.0


From fbe43d76f089ae3aa3a76d8eaddc6422ff76d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 11/90] fix: plane-based two-view reconstruction always took
 the first motion

---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 864424e..ad01908 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -327,7 +327,7 @@ def two_view_reconstruction_plane_based(
         motion_inliers.append(inliers)
 
     # pyre-fixme[6]: For 1st argument expected `Union[_SupportsArray[dtype[typing.Any...
-    best = np.argmax(map(len, motion_inliers))
+    best = np.argmax([len(inliers) for inliers in motion_inliers])
     R, t, n, d = motions[best]
     inliers = motion_inliers[best]
     return cv2.Rodrigues(R)[0].ravel(), t, inliers
-- 
2.43.0


From aaa8aa3fc9166920ddb7448a2e307a7824b181d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 12/90] fix: decomposition of the essential matrix compared
 scores truncated to integers

---
 opensfm/src/geometry/relative_pose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/relative_pose.h b/opensfm/src/geometry/relative_pose.h
index f5d2736..61df202 100644
--- a/opensfm/src/geometry/relative_pose.h
+++ b/opensfm/src/geometry/relative_pose.h
@@ -33,7 +33,7 @@ Eigen::Matrix<double, 3, 4> RelativePoseFromEssential(
   Eigen::Matrix<double, 2, 3> centers;
   centers.row(0) = Eigen::Vector3d::Zero();
 
-  auto best_decomposition = std::make_pair(0, Eigen::Matrix<double, 3, 4>());
+  auto best_decomposition = std::make_pair(0.0, Eigen::Matrix<double, 3, 4>());
   for (int i = 0; i < 2; ++i) {
     Eigen::Vector3d translation;
     if (i == 0) {
-- 
2.43.0


From 24c6508f2f8df38dda721d48d4607d0b247828ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 13/90] fix: impossible roots became poses with NaN in the
 three-point solver

---
 opensfm/src/geometry/absolute_pose.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/geometry/absolute_pose.h b/opensfm/src/geometry/absolute_pose.h
index 5a75050..157440e 100644
--- a/opensfm/src/geometry/absolute_pose.h
+++ b/opensfm/src/geometry/absolute_pose.h
@@ -94,6 +94,9 @@ std::vector<Eigen::Matrix<double, 3, 4>> AbsolutePoseThreePoints(IT begin,
   RTs.reserve(roots.size());
   for (const auto& root : roots) {
     const auto cos_theta_1 = root;
+    if (!(std::abs(cos_theta_1) <= 1.0)) {
+      continue;
+    }
     const auto sin_theta_1 =
         foundation::Sign(k3_b3) * std::sqrt(1.0 - SQUARE(cos_theta_1));
     const auto t =
-- 
2.43.0


From 2e4f63d77c95c60ecdc570e7cdff8c51db063503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 14/90] fix: local optimization of robust estimation sampled
 from too few inliers

---
 opensfm/src/robust/robust_estimator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/robust/robust_estimator.h b/opensfm/src/robust/robust_estimator.h
index a68ea5e..6c7f842 100644
--- a/opensfm/src/robust/robust_estimator.h
+++ b/opensfm/src/robust/robust_estimator.h
@@ -71,7 +71,10 @@ ScoreInfo<typename MODEL::Type> Estimate(
 
       // Run local optimization (inner non-minimal RANSAC on inliers)
       if (best_found && params.use_local_optimization) {
-        for (int k = 0; k < params.local_optimization_iterations; ++k) {
+        for (int k = 0; k < params.local_optimization_iterations &&
+                        best_score.inliers_indices.size() >=
+                            MODEL::MINIMAL_SAMPLES;
+             ++k) {
           // Gather inliers and use them for getting random sample
           inliers_samples.clear();
           inliers_samples.reserve(best_score.inliers_indices.size());
-- 
2.43.0


From ea8902590b5defa11337893929145ff248c9376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 15/90] fix: matches stored under the second image of a pair
 kept the columns of the first

---
 opensfm/matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..e5f926a 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,8 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            # The columns follow the image that stores the matches
+            matches_per_im1[im2][im1] = np.array(m)[:, [1, 0]] if len(m) else m
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From d50478f2e957592e13046a26676e962d3f5f8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 16/90] fix: combining masks lost pixels whose values share no
 bit

---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..d694f59 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return ((mask1 != 0) & (mask2 != 0)).astype(np.uint8)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From f4701f19ecf47de6f1937e96bdb60791cc76ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 17/90] fix: copies of a map lost point colors, meshes,
 panorama observations and unused rigs

---
 opensfm/src/map/src/map.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..2c07ede 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -15,6 +15,7 @@ void AssignShot(map::Shot& to, const map::Shot& from) {
   to.scale = from.scale;
   to.SetShotMeasurements(from.GetShotMeasurements());
   to.SetCovariance(from.GetCovariance());
+  to.mesh = from.mesh;
 }
 }  // namespace
 namespace map {
@@ -27,6 +28,14 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
     map_copy->CreateCamera(camera);
   }
 
+  for (const auto& [rig_camera_id, rig_camera] : map.GetRigCameras()) {
+    map_copy->CreateRigCamera(rig_camera);
+  }
+
+  for (const auto& [instance_id, instance] : map.GetRigInstances()) {
+    map_copy->CreateRigInstance(instance_id).SetPose(instance.GetPose());
+  }
+
   const auto& shots = map.GetShots();
   for (const auto& [shot_id, shot] : shots) {
     if (map_copy->HasShot(shot_id)) {
@@ -44,7 +53,10 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
+    landmark_copy.SetReprojectionErrors(landmark.GetReprojectionErrors());
   }
 
   if (copy_observations) {
@@ -53,6 +65,12 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
         map_copy->AddObservation(shot_id, landmark->id_, obs);
       }
     }
+    for (const auto& [pano_shot_id, pano_shot] : pano_shots) {
+      for (const auto& [landmark, obs] : pano_shot.GetLandmarkObservations()) {
+        map_copy->AddObservation(&map_copy->GetPanoShot(pano_shot_id),
+                                 &map_copy->GetLandmark(landmark->id_), obs);
+      }
+    }
   }
 
   for (const auto& [cam_id, bias] : map.GetBiases()) {
-- 
2.43.0


From 6bb64836e9728da762b88d5037fe45854b047d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 18/90] fix: angular reprojection error was NaN for exact
 observations

---
 opensfm/src/map/src/map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index 2c07ede..8d9d3a1 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -5,6 +5,7 @@
 #include <map/rig.h>
 #include <map/shot.h>
 
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <stdexcept>
@@ -551,7 +552,7 @@ Map::ComputeReprojectionErrors(const TracksManager& tracks_manager,
             (find_landmark->second.GetGlobalPos() - shot.GetPose()->GetOrigin())
                 .normalized();
         const Vec3d bearing = shot.Bearing(obs.point).normalized();
-        const double angle = std::acos(point.dot(bearing));
+        const double angle = std::acos(std::clamp(point.dot(bearing), -1.0, 1.0));
         per_shot[track_id] = Vec2d::Constant(angle);
       }
     }
-- 
2.43.0


From 9a25238c6087b297d93085e9f69a248d3cab9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 19/90] fix: control points without altitude were split into
 one point per observation

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..99b0743 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -894,7 +894,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # NaN never compares equal: unknown altitudes must not split a point
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From 741afabfc0b62fefbe651443b27c9ea20dfd1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 20/90] fix: writing an image swapped the channels of the
 caller's image

---
 opensfm/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/io.py b/opensfm/io.py
index 99b0743..4f1ac63 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1329,6 +1329,7 @@ def imwrite_from_fileobject(
 ) -> None:
     """Write an image to a file object"""
     if len(image.shape) == 3:
+        image = image.copy()  # The caller's image has to stay RGB
         image[:, :, :3] = image[:, :, [2, 1, 0]]  # Turn RGB to BGR (or RGBA to BGRA)
     _, im_buffer = cv2.imencode(ext, image)
     fwb.write(im_buffer)
-- 
2.43.0


From c560906f7413592fa1e70fbd1703ef01f58ca87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 21/90] fix: PLY files with view counts lacked the counts
 without tracks

---
 opensfm/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index 4f1ac63..aa51590 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -1152,9 +1152,9 @@ def reconstruction_to_ply(
                 p[0], p[1], p[2], int(c[0]), int(c[1]), int(c[2])
             )
 
-            if point_num_views and tracks_manager:
+            if point_num_views:
                 obs_count = point.number_of_observations()
-                if obs_count == 0:
+                if obs_count == 0 and tracks_manager:
                     obs_count = len(tracks_manager.get_track_observations(point.id))
                 s += " {}".format(obs_count)
 
-- 
2.43.0


From bc224a1b1479f47353b460052f7632370d0bd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 22/90] fix: prior deviation of K4-K6 and S0-S3 was zero in the
 bundle adjuster

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..58c5822 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,8 +55,15 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K5)] = k4_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K6)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::S0)] = p1_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::S1)] = p2_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::S2)] = p1_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::S3)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
 
   geometry::Camera sigma_camera = camera;
-- 
2.43.0


From d69960093acca83194e18edc9d57569c20f7398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 23/90] fix: linear motion prior used the wrong rig camera for
 its third shot

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 58c5822..52949c4 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1080,9 +1080,12 @@ void BundleAdjuster::Run() {
         cost_function->AddParameterBlock(6);
         linear_motion->shot2_rig_camera_index = parameter_blocks.size();
         parameter_blocks.push_back(shot2_rig_camera);
-      } else {
+      } else if (shot2_rig_camera == shot0_rig_camera) {
         linear_motion->shot2_rig_camera_index =
             linear_motion->shot0_rig_camera_index;
+      } else {
+        linear_motion->shot2_rig_camera_index =
+            linear_motion->shot1_rig_camera_index;
       }
     }
     problem.AddResidualBlock(cost_function, linear_motion_prior_loss_,
-- 
2.43.0


From f783b17a859ebac8bb11b7027777819b64d0de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 24/90] fix: roll angle prior was wrong for rolls beyond 90
 degrees

---
 opensfm/src/bundle/error/absolute_motion_errors.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/src/bundle/error/absolute_motion_errors.h b/opensfm/src/bundle/error/absolute_motion_errors.h
index 43b2c4b..d8a3e85 100644
--- a/opensfm/src/bundle/error/absolute_motion_errors.h
+++ b/opensfm/src/bundle/error/absolute_motion_errors.h
@@ -117,12 +117,8 @@ struct RollAngleError {
     T b[3];
     ceres::CrossProduct(Rt_ex, a, b);
     const T sin_roll = Rt_ez[0] * b[0] + Rt_ez[1] * b[1] + Rt_ez[2] * b[2];
-    if (sin_roll <= -(1.0 - eps)) {
-      residuals[0] = T(0.0);
-      return true;
-    }
-
-    const T predicted_angle = asin(sin_roll);
+    const T cos_roll = Rt_ex[0] * a[0] + Rt_ex[1] * a[1];
+    const T predicted_angle = atan2(sin_roll, cos_roll);
     residuals[0] = T(scale_) * DiffBetweenAngles(predicted_angle, T(angle_));
 
     return true;
-- 
2.43.0


From 6a2e59d2652d788e044ec95220ac0e205464656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 25/90] fix: alignment constraints held uninitialized rows for
 unusable GCPs

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index e66ba8c..cade6d7 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -861,6 +861,9 @@ void BAHelpers::AlignmentConstraints(
       }
     }
   }
+  // Some GCPs may be unusable
+  Xp.conservativeResize(idx, Eigen::NoChange);
+  X.conservativeResize(idx, Eigen::NoChange);
 }
 
 std::string BAHelpers::DetectAlignmentConstraints(
-- 
2.43.0


From 161782fb3b820bee8ef29983a0e3a160d7095899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 26/90] fix: bundle_shot_poses added rigs and averaged their
 GPS before seeing all their shots

---
 opensfm/src/sfm/src/ba_helpers.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index cade6d7..cf0ee69 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -500,18 +500,18 @@ py::dict BAHelpers::BundleShotPoses(
       } else {
         fix_instance = true;
       }
+    }
 
-      ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
-                        shot_rig_cameras, fix_instance);
+    ba.AddRigInstance(rig_instance_id, instance.GetPose(), shot_cameras,
+                      shot_rig_cameras, fix_instance);
 
-      // only add averaged rig position constraints to moving instances
-      if (!fix_instance && gps_count > 0) {
-        average_position /= gps_count;
-        average_std /= gps_count;
-        ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
-                                       Vec3d::Constant(average_std),
-                                       gps_scale_group);
-      }
+    // only add averaged rig position constraints to moving instances
+    if (!fix_instance && gps_count > 0) {
+      average_position /= gps_count;
+      average_std /= gps_count;
+      ba.AddRigInstancePositionPrior(rig_instance_id, average_position,
+                                     Vec3d::Constant(average_std),
+                                     gps_scale_group);
     }
   }
 
-- 
2.43.0


From 458f88e871754842e674768f6588e6bfd1fd7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 27/90] fix: bundle_local used the GPS accuracy of shots that
 have none

---
 opensfm/src/sfm/src/ba_helpers.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index cf0ee69..72a3ea3 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -192,7 +192,8 @@ py::tuple BAHelpers::BundleLocal(
       if (is_interior) {
         const auto& measurements = shot.GetShotMeasurements();
         if (config["bundle_use_gps"].cast<bool>() &&
-            measurements.gps_position_.HasValue()) {
+            measurements.gps_position_.HasValue() &&
+            measurements.gps_accuracy_.HasValue()) {
           average_position += measurements.gps_position_.Value();
           average_std += measurements.gps_accuracy_.Value();
           ++gps_count;
-- 
2.43.0


From 857be2beea8f86be238f3979ac9bd1894e51e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 28/90] fix: bundle_local failed with GCPs seen outside of the
 neighborhood

---
 opensfm/src/sfm/src/ba_helpers.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/sfm/src/ba_helpers.cc b/opensfm/src/sfm/src/ba_helpers.cc
index 72a3ea3..052dc08 100644
--- a/opensfm/src/sfm/src/ba_helpers.cc
+++ b/opensfm/src/sfm/src/ba_helpers.cc
@@ -353,6 +353,14 @@ size_t BAHelpers::AddGCPToBundle(
   const auto& reference = map.GetTopocentricConverter();
   const auto& shots = map.GetShots();
 
+  // Only some shots of the map may be part of the problem
+  std::unordered_set<map::ShotId> bundled_shots;
+  for (const auto& [_, rig_instance] : ba.GetRigInstances()) {
+    for (const auto& [shot_id, _] : rig_instance.shot_cameras) {
+      bundled_shots.insert(shot_id);
+    }
+  }
+
   const auto dominant_terms = ba.GetRigInstances().size() +
                               ba.GetProjectionsCount() +
                               ba.GetRelativeMotionsCount();
@@ -364,7 +372,7 @@ size_t BAHelpers::AddGCPToBundle(
       ++total_terms;
     }
     for (const auto& obs : point.observations_) {
-      total_terms += (shots.count(obs.shot_id_) > 0);
+      total_terms += bundled_shots.count(obs.shot_id_);
     }
   }
 
@@ -395,7 +403,7 @@ size_t BAHelpers::AddGCPToBundle(
     // Now iterate through the observations
     for (const auto& obs : point.observations_) {
       const auto& shot_id = obs.shot_id_;
-      if (shots.count(shot_id) > 0) {
+      if (bundled_shots.count(shot_id) > 0) {
         constexpr double scale{0.001};
         ba.AddPointProjectionObservation(shot_id, point_id, obs.projection_,
                                          scale / global_weight);
-- 
2.43.0


From 0f65c7b490893c601d5a65ad3722470aa6f977bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 29/90] fix: level a reconstruction whose images are all at one
 place

---
 opensfm/multiview.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index aa2c6b1..1e11344 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -152,7 +152,10 @@ def fit_plane(
     # (x 1) p = 0
     # (v 0) p = 0
     points = np.array(points)
-    s = 1.0 / max(1e-8, points.std())  # Normalize the scale to improve conditioning.
+    # Normalize the scale to improve conditioning. With all the points at one
+    # place only the vectors matter, and these are unit vectors already.
+    std = points.std()
+    s = 1.0 / std if std > 1e-8 else 1.0
     x = homogeneous(s * points)
     if vectors is not None and len(vectors) > 0:
         v = homogeneous_vec(s * np.array(vectors))
-- 
2.43.0


From ef646596897ab0b9078a1c22e97a5edd150a9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 30/90] fix: images without GPS among oriented ones crashed the
 pair selection

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..3887dc6 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -144,7 +144,7 @@ def get_representative_points(
         altitude = find_best_altitude(origin, directions)
         logger.info(f"Altitude for orientation based matching {altitude}")
         directions_scaled = {k: v / DEFAULT_Z * altitude for k, v in directions.items()}
-        points = {k: origin[k] + directions_scaled[k] for k in images}
+        points = {k: origin[k] + directions_scaled[k] for k in origin}
     else:
         points = origin
 
-- 
2.43.0


From b208d4dbd95ebea654694816dba04d37446515d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 31/90] fix: pair selection took the origin for a candidate
 when matching to other images

---
 opensfm/pairs_selection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 3887dc6..fc4d95e 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,9 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
-    for i, point_id in enumerate(images_cand):
-        points[i] = representative_points[point_id]
+    points = np.array([representative_points[im] for im in images_cand])
 
     tree = spatial.cKDTree(points)
 
-- 
2.43.0


From 05572c17d75ea3c48f4f62aa74c400670f11e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:52 +0000
Subject: [PATCH 32/90] fix: pair selection crashed for a constant bounding box
 of viewed points

---
 opensfm/pairs_selection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index fc4d95e..a3d760d 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -96,8 +96,11 @@ def find_best_altitude(
         samples_y.append(current_size)
 
     coeffs = np.polyfit(samples_x, samples_y, 2)
-    extrema = -coeffs[1] / (2 * coeffs[0])
-    if extrema < 0:
+    extrema = -coeffs[1] / (2 * coeffs[0]) if coeffs[0] != 0 else math.inf
+    if not math.isfinite(extrema):
+        # The size is the same at every altitude
+        extrema = DEFAULT_Z
+    elif extrema < 0:
         logger.info(
             f"Altitude is negative ({extrema}) : viewing directions are probably divergent. Using default altitude of {DEFAULT_Z}"
         )
-- 
2.43.0


From 6f00d19408c0c528fc91c4f0d25fd9ac34efd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:00 +0000
Subject: [PATCH 33/90] fix: graph pair selection crashed for images on a line
 or at one place

---
 opensfm/pairs_selection.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index a3d760d..ecd906e 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -259,16 +259,18 @@ def match_candidates_by_graph(
     try:
         triangles = spatial.Delaunay(points).simplices
     except spatial.QhullError:
-        # Initial simplex is flat
-        # Scale the input to fit the unit cube ("QbB")
+        # Initial simplex is flat : points are on a line or at one place
+        # Joggle the centered input ("QJ")
         triangles = spatial.Delaunay(
-            points, qhull_options="Qbb Qc Qz Q12 QbB"
+            points - points.mean(axis=0), qhull_options="Qbb Qc Q12 QJ"
         ).simplices
 
     for (image1, image2), (vertex1, vertex2) in produce_edges(triangles):
         pairs.add((image1, image2))
         edge_distances.append(norm_2d(points[vertex1] - points[vertex2]))
-    scale = np.median(edge_distances)
+    scale = np.median(edge_distances) if edge_distances else 0.0
+    if scale == 0.0:
+        scale = 1.0  # most points are at one place
 
     # further rounds produces edges from jittered version of the original points
     # in order to get 'alternative' delaunay triangulations : a perfect square
-- 
2.43.0


From 6340d5734ca6080c5779d3417d1e2b9e7db5b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 34/90] fix: minutes of a positive time zone offset moved the
 capture time the wrong way

---
 opensfm/exif.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..551ba5e 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -454,9 +454,11 @@ class EXIF:
                 if offset_tag in self.tags:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
+                        offset = datetime.timedelta(
+                            hours=abs(int(offset_time[0:3])),
+                            minutes=int(offset_time[4:6]),
                         )
+                        d += offset if offset_time[0] == "-" else -offset
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From 61e7c43e01d855210409b69a22256b9880e5dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 35/90] fix: time zone offsets and subseconds were looked up
 under names exifread does not use

---
 opensfm/exif.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 551ba5e..dac4110 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -428,11 +428,31 @@ class EXIF:
                 )
 
         time_strings = [
-            ("EXIF DateTimeOriginal", "EXIF SubSecTimeOriginal", "EXIF Tag 0x9011"),
-            ("EXIF DateTimeDigitized", "EXIF SubSecTimeDigitized", "EXIF Tag 0x9012"),
-            ("Image DateTime", "Image SubSecTime", "Image Tag 0x9010"),
+            (
+                "EXIF DateTimeOriginal",
+                ("EXIF SubSecTimeOriginal",),
+                ("EXIF OffsetTimeOriginal", "EXIF Tag 0x9011"),
+            ),
+            (
+                "EXIF DateTimeDigitized",
+                ("EXIF SubSecTimeDigitized",),
+                ("EXIF OffsetTimeDigitized", "EXIF Tag 0x9012"),
+            ),
+            (
+                "Image DateTime",
+                ("EXIF SubSecTime", "Image SubSecTime"),
+                (
+                    "EXIF OffsetTime",
+                    "EXIF Tag 0x9010",
+                    "Image OffsetTime",
+                    "Image Tag 0x9010",
+                ),
+            ),
         ]
-        for datetime_tag, subsec_tag, offset_tag in time_strings:
+        for datetime_tag, subsec_tags, offset_tags in time_strings:
+            # The name of a tag depends on the version of exifread
+            subsec_tag = next((x for x in subsec_tags if x in self.tags), subsec_tags[0])
+            offset_tag = next((x for x in offset_tags if x in self.tags), offset_tags[0])
             if datetime_tag in self.tags:
                 date_time = self.tags[datetime_tag].values
                 if subsec_tag in self.tags:
-- 
2.43.0


From 174a922a144642017d846f3d97c861ca14b6049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 36/90] fix: viewing angles of an image mixed local and
 earth-centered axes

---
 opensfm/exif.py | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index dac4110..ffdac70 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -10,7 +10,6 @@ import numpy as np
 import xmltodict as x2d
 from opensfm import pygeometry
 from opensfm.dataset_base import DataSetBase
-from opensfm.geo import ecef_from_lla
 from opensfm.sensors import camera_calibration, sensor_data
 
 logger: logging.Logger = logging.getLogger(__name__)
@@ -587,36 +586,9 @@ class EXIF:
                 # (Swap X/Y, flip Z)
                 cbb = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
-                delta = 1e-7
-
-                p1 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] + delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                p2 = np.array(
-                    ecef_from_lla(
-                        geo["latitude"] - delta,
-                        geo["longitude"],
-                        geo.get("altitude", 0),
-                    )
-                )
-                xnp = p1 - p2
-                m = np.linalg.norm(xnp)
-
-                if m == 0:
-                    logger.debug("Cannot compute OPK angles, divider = 0")
-                    return opk
-
-                # Unit vector pointing north
-                xnp /= m
-
-                znp = np.array([0, 0, -1]).T
-                ynp = np.cross(znp, xnp)
-
-                cen = np.array([xnp, ynp, znp]).T
+                # Axes of the navigation frame (north, east, down)
+                # in the local frame (east, north, up)
+                cen = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
 
                 # OPK rotation matrix
                 ceb = cen.dot(cnb).dot(cbb)
-- 
2.43.0


From de3219f29a5cf5ca4e868682315c428d2b9043d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 37/90] fix: the projection type of a panorama was missed when
 given as an XMP attribute

---
 opensfm/exif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index ffdac70..53bf975 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -242,7 +242,9 @@ class EXIF:
 
     def extract_projection_type(self) -> str:
         gpano = get_gpano_from_xmp(self.xmp)
-        return gpano.get("GPano:ProjectionType", "perspective")
+        return gpano.get(
+            "GPano:ProjectionType", gpano.get("@GPano:ProjectionType", "perspective")
+        )
 
     def extract_focal(self) -> Tuple[float, float]:
         make, model = self.extract_make(), self.extract_model()
-- 
2.43.0


From ebc3275f9a25bf743b4f04f209063ab73c1d4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 38/90] fix: DJI coordinates without a plus sign were misread

---
 opensfm/exif.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 53bf975..c2b0cfa 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -324,11 +324,7 @@ class EXIF:
     def extract_dji_lon_lat(self) -> Tuple[float, float]:
         lon = self.xmp[0]["@drone-dji:Longitude"]
         lat = self.xmp[0]["@drone-dji:Latitude"]
-        lon_number = float(lon[1:])
-        lat_number = float(lat[1:])
-        lon_number = lon_number if lon[0] == "+" else -lon_number
-        lat_number = lat_number if lat[0] == "+" else -lat_number
-        return lon_number, lat_number
+        return float(lon), float(lat)
 
     def extract_dji_altitude(self) -> float:
         return float(self.xmp[0]["@drone-dji:AbsoluteAltitude"])
-- 
2.43.0


From 82b6f6fd81fd16aead54d781bbed197544ca2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 39/90] fix: reading an image with a GPS latitude but no
 longitude crashed

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index c2b0cfa..3bc5c31 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -345,7 +345,7 @@ class EXIF:
     def extract_lon_lat(self) -> Tuple[Optional[float], Optional[float]]:
         if self.has_dji_latlon():
             lon, lat = self.extract_dji_lon_lat()
-        elif "GPS GPSLatitude" in self.tags:
+        elif "GPS GPSLatitude" in self.tags and "GPS GPSLongitude" in self.tags:
             reflon, reflat = self.extract_ref_lon_lat()
             lat = gps_to_decimal(self.tags["GPS GPSLatitude"].values, reflat)
             lon = gps_to_decimal(self.tags["GPS GPSLongitude"].values, reflon)
-- 
2.43.0


From 0564d90306641462f5534ca36500415694f85d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 40/90] fix: reading an image with empty XMP elements crashed

---
 opensfm/exif.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 3bc5c31..5b348b2 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -152,11 +152,11 @@ def get_xmp(fileobj: BinaryIO) -> List[Dict[str, Any]]:
         xdict = parse_xmp_string(xmp_str)
         if xdict is None:
             return []
-        xdict = xdict.get("x:xmpmeta", {})
-        xdict = xdict.get("rdf:RDF", {})
-        xdict = xdict.get("rdf:Description", {})
+        xdict = xdict.get("x:xmpmeta") or {}
+        xdict = xdict.get("rdf:RDF") or {}
+        xdict = xdict.get("rdf:Description") or {}
         if isinstance(xdict, list):
-            return xdict
+            return [x or {} for x in xdict]
         else:
             return [xdict]
     else:
-- 
2.43.0


From 83ab6c6bce3e4199a3b27ede528c39299080be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 41/90] fix: calibrations listed by focal length were hidden by
 those listed by model

---
 opensfm/exif.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 5b348b2..8a90d47 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -636,13 +636,9 @@ def hard_coded_calibration(exif: Dict[str, Any]) -> Optional[Dict[str, Any]]:
     models = raw_calibrations[make]
     if "ALL" in models:
         return models["ALL"]
-    if "MODEL" in models:
-        if model not in models["MODEL"]:
-            return None
+    if "MODEL" in models and model in models["MODEL"]:
         return models["MODEL"][model]
-    if "FOCAL" in models:
-        if fmm35 not in models["FOCAL"]:
-            return None
+    if "FOCAL" in models and fmm35 in models["FOCAL"]:
         return models["FOCAL"][fmm35]
     return None
 
-- 
2.43.0


From fe3a6c2759269a84792815c8ef76b3bd6275661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 42/90] fix: the projection type of one camera stuck to the
 calibration of its make

---
 opensfm/exif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 8a90d47..986032a 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -725,7 +725,7 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        calib = {**calib, "projection_type": pt}
     return calib
 
 
-- 
2.43.0


From 6108cd0dd8e0d8559e9929c6dc3af6243ecb6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:23 +0000
Subject: [PATCH 43/90] fix: brown and similar projections crashed for cameras
 of a known focal calibration

---
 opensfm/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 986032a..d46054a 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -713,8 +713,11 @@ def calibration_from_metadata(
         or pt == "fisheye62"
         or pt == "fisheye624"
     ):
+        hard_coded = hard_coded_calibration(metadata)
+        if hard_coded and "focal_x" not in hard_coded:
+            hard_coded = None  # not enough for these projections
         calib = (
-            hard_coded_calibration(metadata)
+            hard_coded
             or focal_xy_calibration(metadata)
             or default_calibration(data)
         )
-- 
2.43.0


From bd14cbd07095a2ebe61d55f7c1c9ccd1070551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 44/90] fix: extending a reconstruction failed when an image
 has no tracks

---
 opensfm/actions/extend_reconstruction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/extend_reconstruction.py b/opensfm/actions/extend_reconstruction.py
index d2ba4c0..943a172 100644
--- a/opensfm/actions/extend_reconstruction.py
+++ b/opensfm/actions/extend_reconstruction.py
@@ -16,6 +16,8 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
 
     images = data.images()
     remaining_images = set(images) - set(rec_base.shots)
+    # images without any track can not be added
+    candidate_images = remaining_images & set(tracks_manager.get_shot_ids())
     gcp = data.load_ground_control_points()
     report = {}
     rec_report = {}
@@ -24,9 +26,10 @@ def run_dataset(data: DataSetBase, input: Optional[str], output: Optional[str])
         data,
         tracks_manager,
         rec_base,
-        remaining_images,
+        candidate_images,
         gcp,
     )
+    remaining_images -= set(rec.shots)
     rec_report["num_remaining_images"] = len(remaining_images)
     # pyrefly: ignore [no-matching-overload, unsupported-operation]
     report["not_reconstructed_images"] = list(remaining_images)
-- 
2.43.0


From da123b1d295f9b1fcee5b6f33dcef3a279540520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 45/90] fix: outliers of spherical cameras along their optical
 axis were kept

---
 opensfm/reconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index ad01908..fa07831 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1271,7 +1271,8 @@ def remove_outliers(
         for shot_id, error in reconstruction.points[
             point_id
         ].reprojection_errors.items():
-            error_sqr = error[0] ** 2 + error[1] ** 2
+            # spherical cameras have errors of three components
+            error_sqr = float(np.dot(error, error))
             if error_sqr > threshold_sqr:
                 outliers.append((point_id, shot_id))
 
-- 
2.43.0


From f016d7f41f5b8ad524140bafda6d813fd01a341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 46/90] fix: automatic outlier threshold failed with both
 planar and spherical cameras

---
 opensfm/reconstruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index fa07831..859a60c 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1231,6 +1231,9 @@ def get_error_distribution(points: Dict[str, pymap.Landmark]) -> Tuple[float, fl
     all_errors = []
     for track in points.values():
         all_errors += track.reprojection_errors.values()
+    # spherical cameras have errors of three components, others of two
+    size = max((len(e) for e in all_errors), default=0)
+    all_errors = [np.pad(e, (0, size - len(e))) for e in all_errors]
     robust_mean = np.median(all_errors, axis=0)
     robust_std = 1.486 * np.median(
         np.linalg.norm(np.array(all_errors) - robust_mean, axis=1)
-- 
2.43.0


From a6232facc99fff02cd53bef05b0b78a4107feadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 47/90] fix: automatic outlier threshold failed for a
 reconstruction without points

---
 opensfm/reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 859a60c..c545dc7 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1231,6 +1231,8 @@ def get_error_distribution(points: Dict[str, pymap.Landmark]) -> Tuple[float, fl
     all_errors = []
     for track in points.values():
         all_errors += track.reprojection_errors.values()
+    if not all_errors:
+        return 0.0, 0.0
     # spherical cameras have errors of three components, others of two
     size = max((len(e) for e in all_errors), default=0)
     all_errors = [np.pad(e, (0, size - len(e))) for e in all_errors]
-- 
2.43.0


From 5dfd3540fd37cbca5c70599851824f28dc9ffaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:48 +0000
Subject: [PATCH 48/90] fix: undistorted tracks kept the distorted image
 positions

---
 opensfm/undistort.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 91384b3..6130d90 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -417,6 +417,11 @@ def add_subshot_tracks(
         add_pano_subshot_tracks(tracks_manager, utracks_manager, shot, subshot)
     else:
         for track_id, obs in tracks_manager.get_shot_observations(shot.id).items():
+            # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
+            bearing = shot.camera.pixel_bearing(obs.point)
+            if bearing[2] <= 0:
+                continue
+            obs.point = subshot.camera.project(bearing)
             utracks_manager.add_observation(subshot.id, track_id, obs)
 
 
-- 
2.43.0


From d3fd8b00b85a258ec0356be0027afab25557fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:48 +0000
Subject: [PATCH 49/90] fix: left and right views of a panorama were swapped

---
 opensfm/undistort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/undistort.py b/opensfm/undistort.py
index 6130d90..546fd0a 100644
--- a/opensfm/undistort.py
+++ b/opensfm/undistort.py
@@ -321,7 +321,7 @@ def perspective_views_of_a_panorama(
     camera.height = width
     reconstruction.add_camera(camera)
 
-    names = ["front", "left", "back", "right", "top", "bottom"]
+    names = ["front", "right", "back", "left", "top", "bottom"]
     rotations = [
         tf.rotation_matrix(-0 * np.pi / 2, np.array([0, 1, 0])),
         tf.rotation_matrix(-1 * np.pi / 2, np.array([0, 1, 0])),
-- 
2.43.0


From f8f57a3ba5f6b0c142fe4f7b816d89b639f2828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 50/90] fix: brute force depthmaps ignored masks and the
 minimum patch deviation

---
 opensfm/src/dense/src/depthmap.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index fbca39b..aef0624 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -201,6 +201,8 @@ void DepthmapEstimator::ComputeBruteForce(DepthmapEstimatorResult* result) {
       }
     }
   }
+
+  ComputeIgnoreMask(result);
 }
 
 void DepthmapEstimator::ComputePatchMatch(DepthmapEstimatorResult* result) {
-- 
2.43.0


From 46494c12b0cfd682bd4226adcd438e9707041975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 51/90] fix: variance of depthmap patches of even size counted
 pixels that are not there

---
 opensfm/src/dense/src/depthmap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index aef0624..8cb87ea 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -284,7 +284,7 @@ float DepthmapEstimator::PatchVariance(int i, int j) {
       patch[counter++] = image0.at<unsigned char>(i + u, j + v);
     }
   }
-  return Variance(patch, patch_size_ * patch_size_);
+  return Variance(patch, counter);
 }
 
 void DepthmapEstimator::PatchMatchForwardPass(DepthmapEstimatorResult* result,
-- 
2.43.0


From 18b20d032936bd6ad85ad2c0ff9f19f18e889657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 52/90] fix: pruning depthmaps took pixels just outside of
 other views for their border

---
 opensfm/src/dense/src/depthmap.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opensfm/src/dense/src/depthmap.cc b/opensfm/src/dense/src/depthmap.cc
index 8cb87ea..3865745 100644
--- a/opensfm/src/dense/src/depthmap.cc
+++ b/opensfm/src/dense/src/depthmap.cc
@@ -1,5 +1,6 @@
 #include "../depthmap.h"
 
+#include <cmath>
 #include <cstdint>
 #include <random>
 
@@ -585,10 +586,10 @@ void DepthmapPruner::Prune(std::vector<float>* merged_points,
         if (reprojection(2) < z_epsilon || isnan(reprojection(2))) {
           continue;
         }
-        std::int64_t iu =
-            static_cast<std::int64_t>(reprojection(0) / reprojection(2) + 0.5);
-        std::int64_t iv =
-            static_cast<std::int64_t>(reprojection(1) / reprojection(2) + 0.5);
+        std::int64_t iu = static_cast<std::int64_t>(
+            std::floor(reprojection(0) / reprojection(2) + 0.5));
+        std::int64_t iv = static_cast<std::int64_t>(
+            std::floor(reprojection(1) / reprojection(2) + 0.5));
         double depth_of_point = reprojection(2);
         if (!IsInsideImage(depths_[other], iv, iu)) {
           continue;
-- 
2.43.0


From 465dc53d4d525a38eab0bdcf5df505a9acabf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 53/90] fix: debug point clouds of pruned depthmaps overwrote
 each other

---
 opensfm/dense.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 19a107a..22b31c5 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -237,7 +237,9 @@ def prune_depthmap(
     data.save_pruned_depthmap(shot.id, points, normals, colors, labels)
 
     if data.config["depthmap_save_debug_files"]:
-        data.save_point_cloud(points, normals, colors, labels, "pruned.npz.ply")
+        data.save_point_cloud(
+            points, normals, colors, labels, f"{shot.id}.pruned.npz.ply"
+        )
 
 
 def aggregate_depthmaps(
-- 
2.43.0


From edffada28232dceee7158238c51630b82ac92560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 54/90] fix: cleaning and pruning crashed for images whose
 depthmap failed

---
 opensfm/dense.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opensfm/dense.py b/opensfm/dense.py
index 22b31c5..62dd0a2 100644
--- a/opensfm/dense.py
+++ b/opensfm/dense.py
@@ -180,6 +180,9 @@ def clean_depthmap(
     if data.clean_depthmap_exists(shot.id):
         logger.info("Using precomputed clean depthmap {}".format(shot.id))
         return
+    if not data.raw_depthmap_exists(shot.id):
+        logger.warning("No raw depthmap to clean for image {}".format(shot.id))
+        return
     logger.info("Cleaning depthmap for image {}".format(shot.id))
 
     dc = pydense.DepthmapCleaner()
@@ -226,6 +229,9 @@ def prune_depthmap(
     if data.pruned_depthmap_exists(shot.id):
         logger.info("Using precomputed pruned depthmap {}".format(shot.id))
         return
+    if not data.clean_depthmap_exists(shot.id):
+        logger.warning("No clean depthmap to prune for image {}".format(shot.id))
+        return
     logger.info("Pruning depthmap for image {}".format(shot.id))
 
     dp = pydense.DepthmapPruner()
-- 
2.43.0


From 05c472c2681f3c0f7d5c15b79c90ea59b9ce3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 55/90] fix: exporting an undistorted reconstruction to bundler
 crashed

The keys of the shots are an iterator: they have no length and can only be
gone through once.
---
 opensfm/actions/export_bundler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index c54eb77..bbe173b 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -28,7 +28,7 @@ def run_dataset(
     if undistorted:
         reconstructions = udata.load_undistorted_reconstruction()
         track_manager = udata.load_undistorted_tracks_manager()
-        images = reconstructions[0].shots.keys()
+        images = list(reconstructions[0].shots.keys())
     else:
         reconstructions = data.load_reconstruction()
         track_manager = data.load_tracks_manager()
-- 
2.43.0


From 8d1576977f4c00ba4db0aa16997bcbdf5cfe54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 56/90] fix: exporting brown cameras to bundler crashed

Cameras have no focal_x: it is called focal.
---
 opensfm/actions/export_bundler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/opensfm/actions/export_bundler.py b/opensfm/actions/export_bundler.py
index bbe173b..4d4c096 100644
--- a/opensfm/actions/export_bundler.py
+++ b/opensfm/actions/export_bundler.py
@@ -73,12 +73,8 @@ def export_bundler(
             if shot_id in shots:
                 shot = shots[shot_id]
                 camera = shot.camera
-                if shot.camera.projection_type == "brown":
-                    # Will approximate Brown model, not optimal
-                    # pyrefly: ignore [missing-attribute]
-                    focal_normalized = camera.focal_x
-                else:
-                    focal_normalized = camera.focal
+                # Will approximate Brown model, not optimal
+                focal_normalized = camera.focal
                 scale = max(camera.width, camera.height)
                 focal = focal_normalized * scale
                 k1 = camera.k1
-- 
2.43.0


From 6285f80ea63e5f5ba19b631c27c738d97b2d1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 57/90] fix: positions of points exported to NVM were scaled
 along the shorter side

Image coordinates are normalized by the larger of width and height.
---
 opensfm/actions/export_visualsfm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_visualsfm.py b/opensfm/actions/export_visualsfm.py
index 2f7defb..ebe4ea2 100644
--- a/opensfm/actions/export_visualsfm.py
+++ b/opensfm/actions/export_visualsfm.py
@@ -99,8 +99,9 @@ def export(
 
                 if shot_key in shots.keys():
                     v = obs.point
-                    x = (0.5 + v[0]) * shot_size_cache[shot_key][1]
-                    y = (0.5 + v[1]) * shot_size_cache[shot_key][0]
+                    h, w = shot_size_cache[shot_key]
+                    x = 0.5 * w + v[0] * max(w, h)
+                    y = 0.5 * h + v[1] * max(w, h)
                     view_line.append(
                         " ".join(map(str, [shot_index[shot_key], obs.id, x, y]))
                     )
-- 
2.43.0


From 715f2c8f8e91d14fa76064769fda6adc3ae98ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 58/90] fix: images without mask got the working directory as
 their mask in OpenMVS

The absolute path of an empty path is the working directory.
---
 opensfm/actions/export_openmvs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_openmvs.py b/opensfm/actions/export_openmvs.py
index 1ef4231..9cd4d2d 100644
--- a/opensfm/actions/export_openmvs.py
+++ b/opensfm/actions/export_openmvs.py
@@ -52,12 +52,14 @@ def export(
         if shot.camera.projection_type == "perspective":
             image_path = udata._undistorted_image_file(shot.id)
             mask_path = udata._undistorted_mask_file(shot.id)
-            if not os.path.isfile(mask_path):
+            if os.path.isfile(mask_path):
+                mask_path = os.path.abspath(mask_path)
+            else:
                 mask_path = ""
 
             exporter.add_shot(
                 str(os.path.abspath(image_path)),
-                str(os.path.abspath(mask_path)),
+                str(mask_path),
                 str(shot.id),
                 str(shot.camera.id),
                 shot.pose.get_rotation_matrix(),
-- 
2.43.0


From 84d38f5b410b61edbf1e87b4f95f9f3a40c67e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 59/90] fix: principal point of OpenCV fisheye cameras exported
 to COLMAP was not in pixels

---
 opensfm/actions/export_colmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index 1d71461..db7adb9 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -393,8 +393,8 @@ def camera_to_colmap_params(camera: pygeometry.Camera) -> Tuple[float, ...]:
         return f, fy, c_x, c_y, k1, k2, p1, p2, k3, 0.0, 0.0, 0.0
     elif camera.projection_type == "fisheye_opencv":
         fy = f * camera.aspect_ratio
-        cx = w * 0.5 + camera.principal_point[0]
-        cy = h * 0.5 + camera.principal_point[1]
+        cx = w * 0.5 + normalizer * camera.principal_point[0]
+        cy = h * 0.5 + normalizer * camera.principal_point[1]
         k1 = camera.k1
         k2 = camera.k2
         k3 = camera.k3
-- 
2.43.0


From 62da9fd5dd404b4651f194da0a5f4a9e7ee792b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 60/90] fix: images with identity rotation were exported to
 COLMAP as NaN

---
 opensfm/actions/export_colmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index db7adb9..ba48cc6 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -667,6 +667,8 @@ def export_points_reconstruction(
 
 def angle_axis_to_quaternion(angle_axis: NDArray) -> List[float]:
     angle = np.linalg.norm(angle_axis)
+    if angle == 0.0:
+        return [1.0, 0.0, 0.0, 0.0]
 
     x = angle_axis[0] / angle
     y = angle_axis[1] / angle
-- 
2.43.0


From e0d1510361368541ad65b47c458c5229ae4a6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 61/90] fix: exporting images with non-ASCII names to binary
 COLMAP crashed

---
 opensfm/actions/export_colmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index ba48cc6..debaadc 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -558,8 +558,7 @@ def export_images_reconstruction(
                 fout_bin.write(pack("<I", colmap_shot_id))
                 fout_bin.write(pack("<7d", *(list(q) + list(t))))
                 fout_bin.write(pack("<I", colmap_camera_id))
-                for char in shot_id:
-                    fout_bin.write(pack("<c", char.encode("utf-8")))
+                fout_bin.write(shot_id.encode("utf-8"))
                 fout_bin.write(pack("<c", b"\x00"))
             format_line = "%d %f %f %f %f %f %f %f %d %s\n"
             format_tuple = [
-- 
2.43.0


From 529e6c09a3657a9dc319779ae3ec171bdf22f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 62/90] fix: tracks exported to COLMAP referred to the wrong
 features

The tracks of the points refer to features by their index among all features
of the image, but the images only listed the features that have a point.
---
 opensfm/actions/export_colmap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index debaadc..c7d058a 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -587,10 +587,10 @@ def export_images_reconstruction(
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
-                if colmap_point_id != -1:
-                    x, y = features_map[shot_id][feature_id]
-                    format_line += "%f %f %d "
-                    points_tuple += [x, y, colmap_point_id]
+                # Tracks refer to features by their index in this list: it needs all
+                x, y = features_map[shot_id][feature_id]
+                format_line += "%f %f %d "
+                points_tuple += [x, y, colmap_point_id]
             format_line += "\n"
 
             if binary:
@@ -598,7 +598,7 @@ def export_images_reconstruction(
                 for i in range(0, len(points_tuple), 3):
                     x, y, colmap_point_id = points_tuple[i : i + 3]
                     fout_bin.write(pack("<2d", x, y))
-                    fout_bin.write(pack("<Q", colmap_point_id))
+                    fout_bin.write(pack("<q", colmap_point_id))
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + points_tuple))
-- 
2.43.0


From 58135c732c9befa8259f29065d85e285046499b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 63/90] fix: geometry of image pairs whose order is swapped in
 the COLMAP database

Matches were swapped, but not the matrices relating them.
---
 opensfm/actions/export_colmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index c7d058a..dedb9ae 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -341,6 +341,7 @@ class COLMAPDatabase(sqlite3.Connection):
 
         if image_id1 > image_id2:
             matches = matches[:, ::-1]
+            F, E, H = F.T, E.T, np.linalg.inv(H)
 
         pair_id = image_ids_to_pair_id(image_id1, image_id2)
         matches = np.asarray(matches, np.uint32)
-- 
2.43.0


From b7bc09f4a51e8a92150dfb1ccf8e6c9d1d0258ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 64/90] fix: tracks in several reconstructions were mixed up
 when exported to COLMAP

A track that is a point of several reconstructions is exported as several
points: each image has to refer to that of its own reconstruction.
---
 opensfm/actions/export_colmap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opensfm/actions/export_colmap.py b/opensfm/actions/export_colmap.py
index dedb9ae..349f9bf 100644
--- a/opensfm/actions/export_colmap.py
+++ b/opensfm/actions/export_colmap.py
@@ -532,7 +532,7 @@ def export_images_reconstruction(
     camera_map: Dict[str, int],
     images_map: Dict[str, int],
     features_map: Dict[str, NDArray],
-    points_map: Dict[str, int],
+    points_map: Dict[Tuple[int, str], int],
     binary: bool = False,
 ) -> None:
     reconstructions = data.load_reconstruction()
@@ -547,7 +547,7 @@ def export_images_reconstruction(
     else:
         fout_txt = data.io_handler.open_wt(os.path.join(path, "images.txt"))
 
-    for reconstruction in reconstructions:
+    for reconstruction_id, reconstruction in enumerate(reconstructions):
         for shot_id, shot in reconstruction.shots.items():
             colmap_camera_id = camera_map[shot.camera.id]
             colmap_shot_id = images_map[shot_id]
@@ -584,7 +584,7 @@ def export_images_reconstruction(
             for feature_id in range(len(features_map[shot_id])):
                 colmap_point_id = -1
                 if feature_id in point_per_feat:
-                    point_id = point_per_feat[feature_id]
+                    point_id = (reconstruction_id, point_per_feat[feature_id])
                     if point_id in points_map:
                         colmap_point_id = points_map[point_id]
 
@@ -607,7 +607,7 @@ def export_images_reconstruction(
 
 def export_points_reconstruction(
     data: DataSet, path: str, images_map: Dict[str, int], binary: bool = False
-) -> Dict[str, int]:
+) -> Dict[Tuple[int, str], int]:
     reconstructions = data.load_reconstruction()
     tracks_manager = data.load_tracks_manager()
 
@@ -623,7 +623,7 @@ def export_points_reconstruction(
         fout_txt = data.io_handler.open_wt(os.path.join(path, "points3D.txt"))
 
     i = 0
-    for reconstruction in reconstructions:
+    for reconstruction_id, reconstruction in enumerate(reconstructions):
         for point in reconstruction.points.values():
             c = point.coordinates
             cl = point.color
@@ -660,7 +660,7 @@ def export_points_reconstruction(
             else:
                 # pyrefly: ignore [unbound-name]
                 fout_txt.write(format_line % tuple(format_tuple + track_tuple))
-            points_map[point.id] = i
+            points_map[reconstruction_id, point.id] = i
             i += 1
     return points_map
 
-- 
2.43.0


From 69de36c13e3beb94598b0e93c7b3ba323b1a7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 65/90] fix: exporting images without tracks to PMVS crashed

---
 opensfm/actions/export_pmvs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index a690fba..cb0e289 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -105,9 +105,10 @@ def export(
         # vis.dat for this image
         if image_graph:
             adj_indices = []
-            for adj_image in image_graph[image]:
+            neighbors = image_graph[image] if image in image_graph else {}
+            for adj_image in neighbors:
                 # pyrefly: ignore [bad-argument-type]
-                weight = float(image_graph[image][adj_image]["weight"])
+                weight = float(neighbors[adj_image]["weight"])
                 if weight > 0 and adj_image in shot_index:
                     adj_indices.append(shot_index[adj_image])
 
-- 
2.43.0


From d7b6577f25f00fc44d2398e290cc7812575278ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 66/90] fix: the image list was ignored when exporting to PMVS

---
 opensfm/actions/export_pmvs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index cb0e289..e255bd9 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -91,7 +91,12 @@ def export(
     io.mkdir_p(os.path.join(output_path, "txt"))
     io.mkdir_p(os.path.join(output_path, "models"))
 
-    shot_index = {image: i for i, image in enumerate(reconstruction.shots)}
+    images = [
+        image
+        for image in reconstruction.shots
+        if export_only is None or image in export_only
+    ]
+    shot_index = {image: i for i, image in enumerate(images)}
 
     fvis = open(os.path.join(output_path, "vis.dat"), "w")
     fvis.write("VISDATA\n")
-- 
2.43.0


From 150c751541018ec1841942fdd6bec26e4deee738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:53 +0000
Subject: [PATCH 67/90] fix: red and blue of undistorted images exported to
 PMVS were swapped

---
 opensfm/actions/export_pmvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/actions/export_pmvs.py b/opensfm/actions/export_pmvs.py
index e255bd9..945960d 100644
--- a/opensfm/actions/export_pmvs.py
+++ b/opensfm/actions/export_pmvs.py
@@ -127,7 +127,7 @@ def export(
         # radially undistort the original image
         camera = shot.camera
         if undistorted:
-            undistorted_image = udata.load_undistorted_image(image)
+            undistorted_image = udata.load_undistorted_image(image)[:, :, ::-1]
         else:
             original_image = data.load_image(image)[:, :, ::-1]
             original_h, original_w = original_image.shape[:2]
-- 
2.43.0


From c13ce567b452d9ac9a4081fff87cb1dcec6ea794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 68/90] fix: origins of images exported in geographic
 coordinates were rotated twice

Setting the rotation of a pose keeps its translation and so moves its origin.
---
 opensfm/actions/export_geocoords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 966ef14..94d0347 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -130,8 +130,9 @@ def _transform_reconstruction(
 
     for shot in reconstruction.shots.values():
         R = shot.pose.get_rotation_matrix()
+        origin = shot.pose.get_origin()
         shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, shot.pose.get_origin()) + b)
+        shot.pose.set_origin(np.dot(A, origin) + b)
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From 5c83724ebcd7e5f5acc3c1f9a5b9c3f0116b7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 69/90] fix: images of rigs were not exported in geographic
 coordinates

The pose of an image of a rig is a copy: rigs have to be transformed instead.
---
 opensfm/actions/export_geocoords.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index 94d0347..b2de103 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -128,11 +128,16 @@ def _transform_reconstruction(
     A, b = transformation[:3, :3], transformation[:3, 3]
     A1 = np.linalg.inv(A)
 
-    for shot in reconstruction.shots.values():
-        R = shot.pose.get_rotation_matrix()
-        origin = shot.pose.get_origin()
-        shot.pose.set_rotation_matrix(np.dot(R, A1))
-        shot.pose.set_origin(np.dot(A, origin) + b)
+    for rig_instance in reconstruction.rig_instances.values():
+        pose = rig_instance.pose
+        R = pose.get_rotation_matrix()
+        origin = pose.get_origin()
+        pose.set_rotation_matrix(np.dot(R, A1))
+        pose.set_origin(np.dot(A, origin) + b)
+
+    scale = np.cbrt(np.linalg.det(A))
+    for rig_camera in reconstruction.rig_cameras.values():
+        rig_camera.pose.translation = scale * rig_camera.pose.translation
 
     for point in reconstruction.points.values():
         point.coordinates = list(np.dot(A, point.coordinates) + b)
-- 
2.43.0


From 34c6b5dda265e1f61fad18dbec6115199ddd596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 70/90] fix: exporting point clouds in geographic coordinates
 crashed

Headers have one line more, points have one field more and map() is no list
in Python 3.
---
 opensfm/actions/export_geocoords.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index b2de103..a6b9593 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -151,17 +151,17 @@ def _transform_dense_point_cloud(
     input_path = udata.point_cloud_file()
     with io.open_rt(input_path) as fin:
         with io.open_wt(output_path) as fout:
-            for i, line in enumerate(fin):
-                if i < 13:
+            in_header = True
+            for line in fin:
+                if in_header:
                     fout.write(line)
+                    in_header = line.strip() != "end_header"
                 else:
-                    x, y, z, nx, ny, nz, red, green, blue = line.split()
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    x, y, z = np.dot(A, map(float, [x, y, z])) + b
-                    # pyre-fixme[6]: For 2nd argument expected `Union[Sequence[Sequen...
-                    nx, ny, nz = np.dot(A, map(float, [nx, ny, nz]))
+                    x, y, z, nx, ny, nz, *attributes = line.split()
+                    x, y, z = np.dot(A, [float(x), float(y), float(z)]) + b
+                    nx, ny, nz = np.dot(A, [float(nx), float(ny), float(nz)])
                     fout.write(
-                        "{} {} {} {} {} {} {} {} {}\n".format(
-                            x, y, z, nx, ny, nz, red, green, blue
+                        "{} {} {} {} {} {} {}\n".format(
+                            x, y, z, nx, ny, nz, " ".join(attributes)
                         )
                     )
-- 
2.43.0


From 3fe9b91462b1f5b8479e205ddd433679db8fa2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:50 +0000
Subject: [PATCH 71/90] fix: images exported in geographic coordinates were
 kilometers away

The transformation has a scale that is not one. Rotations that are scaled
with it place the images elsewhere when they are read back, as that is not
kept in files.
---
 opensfm/actions/export_geocoords.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opensfm/actions/export_geocoords.py b/opensfm/actions/export_geocoords.py
index a6b9593..d3da7ca 100644
--- a/opensfm/actions/export_geocoords.py
+++ b/opensfm/actions/export_geocoords.py
@@ -126,7 +126,10 @@ def _transform_reconstruction(
 ) -> None:
     """Apply a transformation to a reconstruction in-place."""
     A, b = transformation[:3, :3], transformation[:3, 3]
-    A1 = np.linalg.inv(A)
+
+    # The rotation closest to the transformation
+    U, _, Vt = np.linalg.svd(A)
+    A1 = np.dot(U, Vt).T
 
     for rig_instance in reconstruction.rig_instances.values():
         pose = rig_instance.pose
-- 
2.43.0


From 219bc063e56197fa85198566eef56d252b056266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 72/90] fix: a dataset with a single located image could not be
 split into submodels

---
 opensfm/large/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/large/tools.py b/opensfm/large/tools.py
index 5dc3f2b..86b780f 100644
--- a/opensfm/large/tools.py
+++ b/opensfm/large/tools.py
@@ -39,6 +39,9 @@ def kmeans(
 ) -> Tuple[NDArray, NDArray]:
     criteria = (cv2.TERM_CRITERIA_MAX_ITER, max_iter, 1.0)
     flags = cv2.KMEANS_PP_CENTERS
+    if len(samples) == 1:
+        # A single row would be read as a list of one dimensional samples
+        samples = samples[:, np.newaxis, :]
 
     if context.OPENCV3:
         return cv2.kmeans(samples, nclusters, None, criteria, attempts, flags)
-- 
2.43.0


From 84a3649f3e2dc937cebfa5066e970afd0713ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 73/90] fix: a group of images without positions stopped the
 split into submodels

---
 opensfm/actions/create_submodels.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/opensfm/actions/create_submodels.py b/opensfm/actions/create_submodels.py
index 001cc5f..1ad42c5 100644
--- a/opensfm/actions/create_submodels.py
+++ b/opensfm/actions/create_submodels.py
@@ -1,6 +1,5 @@
 # pyre-strict
 import logging
-from collections import defaultdict
 from typing import cast, Tuple
 
 import numpy as np
@@ -55,19 +54,21 @@ def _create_image_list(data: DataSet, meta_data: MetaDataSet) -> None:
 
 def _read_image_groups(meta_data: MetaDataSet) -> None:
     image_cluster = {}
-    cluster_images = defaultdict(list)
     for image, cluster in meta_data.load_image_groups():
         image_cluster[image] = cluster
-        cluster_images[cluster].append(image)
-    K = len(cluster_images)
-    cluster_index = dict(zip(sorted(cluster_images.keys()), range(K)))
+
+    images_with_gps = list(meta_data.images_with_gps())
+    # Groups without any located image do not make a submodel
+    clusters = {image_cluster[image] for image, _, _ in images_with_gps}
+    K = len(clusters)
+    cluster_index = dict(zip(sorted(clusters), range(K)))
 
     images = []
     positions = []
     labels = []
     centers = np.zeros((K, 2))
     centers_count = np.zeros((K, 1))
-    for image, lat, lon in meta_data.images_with_gps():
+    for image, lat, lon in images_with_gps:
         images.append(image)
         positions.append([lat, lon])
         cluster = image_cluster[image]
-- 
2.43.0


From 1aed960c658fd3a0e125ca3c3b0024719d70dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 74/90] fix: a subset of a dataset could not be created, as it
 had no images yet

---
 opensfm/dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index a0b5248..61bd6f3 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -663,7 +663,6 @@ class DataSet(DataSetBase):
         folders = ["images", "segmentations", "masks"]
         for folder in folders:
             self.io_handler.mkdir_p(os.path.join(subset_dataset_path, folder))
-        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
 
         files = []
         for method in [
@@ -672,10 +671,13 @@ class DataSet(DataSetBase):
             "_camera_models_overrides_file",
             "_exif_overrides_file",
         ]:
+            src = getattr(self, method)()
             files.append(
                 (
-                    getattr(self, method)(),
-                    getattr(subset_dataset, method)(),
+                    src,
+                    os.path.join(
+                        subset_dataset_path, os.path.relpath(src, self.data_path)
+                    ),
                 )
             )
         for image in images_subset:
-- 
2.43.0


From 1af94d5eb589609ef1bb3e98d8c0507f3907fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 75/90] fix: links of a subset were broken when the path of the
 dataset was relative

---
 opensfm/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index 61bd6f3..e95e2ad 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -705,7 +705,7 @@ class DataSet(DataSetBase):
             if not self.io_handler.exists(src):
                 continue
             self.io_handler.rm_if_exist(dst)
-            self.io_handler.symlink(src, dst)
+            self.io_handler.symlink(os.path.abspath(src), dst)
 
         return DataSet(subset_dataset_path, self.io_handler)
 
-- 
2.43.0


From 167073b4f3d3ad748b26c0f571393c41ca33fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 76/90] fix: processing a subset overwrote the camera models of
 the dataset

---
 opensfm/dataset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/dataset.py b/opensfm/dataset.py
index e95e2ad..cf3b93b 100644
--- a/opensfm/dataset.py
+++ b/opensfm/dataset.py
@@ -666,7 +666,6 @@ class DataSet(DataSetBase):
 
         files = []
         for method in [
-            "_camera_models_file",
             "_config_file",
             "_camera_models_overrides_file",
             "_exif_overrides_file",
@@ -707,7 +706,11 @@ class DataSet(DataSetBase):
             self.io_handler.rm_if_exist(dst)
             self.io_handler.symlink(os.path.abspath(src), dst)
 
-        return DataSet(subset_dataset_path, self.io_handler)
+        subset_dataset = DataSet(subset_dataset_path, self.io_handler)
+        if self.io_handler.exists(self._camera_models_file()):
+            # Not a link, as processing the subset writes this file
+            subset_dataset.save_camera_models(self.load_camera_models())
+        return subset_dataset
 
     def undistorted_dataset(self) -> "UndistortedDataSet":
         return UndistortedDataSet(
-- 
2.43.0


From 47daca5584ed7357315335ac1346799f3ffc909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 77/90] fix: the last rig instance was never used for
 calibration

---
 opensfm/rig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..30c09f4 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -195,7 +195,7 @@ def propose_subset_dataset_from_instances(
             random_index = random.randint(0, len(instances_sorted) - 1)
             instances_calibrate = instances_sorted[
                 max([0, random_index - int(subset_size / 2)]) : min(
-                    [random_index + int(subset_size / 2), len(instances_sorted) - 1]
+                    [random_index + int(subset_size / 2), len(instances_sorted)]
                 )
             ]
 
-- 
2.43.0


From 9e7dc9346b9099a07c272bdfaae2426b1a8347ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 78/90] fix: a rig with a single instance was not calibrated

---
 opensfm/rig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 30c09f4..f22bf93 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -159,6 +159,7 @@ def propose_subset_dataset_from_instances(
         nn = 6
         instances_graph = nx.Graph()
         for i, gps in gpses:
+            instances_graph.add_node(i)
             distances, neighbors = tree.query(gps, k=nn)
             for d, n in zip(distances, neighbors):
                 if i == n or n >= len(gpses):
-- 
2.43.0


From b7ca3d87395352faaba3ba469b91086cc7751584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:47 +0000
Subject: [PATCH 79/90] fix: rig cameras were calibrated in frames that did not
 follow the rig

---
 opensfm/rig.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index f22bf93..8d471a9 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -213,16 +213,16 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
+    # Put all poses instances into some canonical frame taken as the rotation of
+    # their first RigCamera and the mean of their origins. A mean of the rotation
+    # vectors would depend on the orientation of the instance.
     centered_pose_instances = []
     for instance in pose_instances:
         origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
         for shot, _ in instance:
-            rotation_center += shot.pose.rotation
             origin_center += shot.pose.get_origin()
         origin_center /= len(instance)
-        rotation_center /= len(instance)
+        rotation_center = min(instance, key=lambda x: x[1])[0].pose.rotation
 
         centered_pose_instance = []
         for shot, rig_camera_id in instance:
@@ -239,15 +239,15 @@ def compute_relative_pose(
         centered_pose_instances.append(centered_pose_instance)
 
     # Average canonical poses per RigCamera ID
-    average_origin, average_rotation, count_poses, camera_ids = {}, {}, {}, {}
+    average_origin, rotations, count_poses, camera_ids = {}, {}, {}, {}
     for centered_pose_instance in centered_pose_instances:
         for pose, rig_camera_id, camera_id in centered_pose_instance:
             if rig_camera_id not in average_origin:
                 average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
+                rotations[rig_camera_id] = []
                 count_poses[rig_camera_id] = 0
             average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
+            rotations[rig_camera_id].append(pose.get_rotation_matrix())
             camera_ids[rig_camera_id] = camera_id
             count_poses[rig_camera_id] += 1
 
@@ -255,8 +255,8 @@ def compute_relative_pose(
     rig_cameras: Dict[str, pymap.RigCamera] = {}
     for rig_camera_id, count in count_poses.items():
         o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
-        pose = pygeometry.Pose(r)
+        r = spatial.transform.Rotation.from_matrix(rotations[rig_camera_id]).mean()
+        pose = pygeometry.Pose(r.as_rotvec())
         pose.set_origin(o)
         rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
     return rig_cameras
-- 
2.43.0


From 0a68285c2d1c6cfa5f6b19a3042a779d90b1c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:15 +0000
Subject: [PATCH 80/90] fix: the debug output of create_rig had one image per
 rig instance

---
 opensfm/actions/create_rig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opensfm/actions/create_rig.py b/opensfm/actions/create_rig.py
index 98e6352..d605d45 100644
--- a/opensfm/actions/create_rig.py
+++ b/opensfm/actions/create_rig.py
@@ -49,9 +49,9 @@ def _reconstruction_from_rigs_and_assignments(
                 pymap.RigCamera(rig_camera.pose, rig_camera_id)
             )
 
-            instance_obj = reconstruction.add_rig_instance(
-                pymap.RigInstance(rig_instance_id)
-            )
+            if rig_instance_id not in reconstruction.rig_instances:
+                reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+            instance_obj = reconstruction.rig_instances[rig_instance_id]
             instance_obj.pose.set_origin(
                 # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                 helpers.get_image_metadata(data, image).gps_position.value
-- 
2.43.0


From 8c9dbfd55da232b4adeb1fba184b3f183066970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:25 +0000
Subject: [PATCH 81/90] fix: area covered by cameras that are all on one side
 of the origin

The box of the cameras always reached the origin or beyond it.
---
 opensfm/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index c2695d2..f46e9d9 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -326,7 +326,7 @@ def processing_statistics(
         stats["date"] = "unknown"
 
     default_max = 1e30
-    min_x, min_y, max_x, max_y = default_max, default_max, 0, 0
+    min_x, min_y, max_x, max_y = default_max, default_max, -default_max, -default_max
     for rec in reconstructions:
         for shot in rec.shots.values():
             o = shot.pose.get_origin()
-- 
2.43.0


From c8474d1beacf3d48d91028d0f7e7238e60871fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:54 +0000
Subject: [PATCH 82/90] fix: average length of the tracks over two when none
 has length two

The shortest length was left out, whatever it was.
---
 opensfm/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index f46e9d9..770ba0e 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -237,7 +237,8 @@ def reconstruction_statistics(
     )
 
     points_count = stats["reconstructed_points_count"]
-    points_count_over_two = sum(counts[1:])
+    over_two = lengths > 2
+    points_count_over_two = sum(counts[over_two])
     stats["observations_count"] = int(sum(lengths * counts))
     stats["average_track_length"] = (
         # pyrefly: ignore [unsupported-operation]
@@ -245,7 +246,7 @@ def reconstruction_statistics(
     )
     stats["average_track_length_over_two"] = (
         # pyrefly: ignore [unsupported-operation]
-        (int(sum(lengths[1:] * counts[1:])) / points_count_over_two)
+        (int(sum(lengths[over_two] * counts[over_two])) / points_count_over_two)
         if points_count_over_two > 0
         else -1
     )
-- 
2.43.0


From 1cfae3d2d7b9cbea53a7c520d6989d91b8147982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:54 +0000
Subject: [PATCH 83/90] fix: features heatmaps of all the cameras

Only the one of the last camera was written.
---
 opensfm/stats.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 770ba0e..8119c77 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -877,16 +877,16 @@ def save_heatmap(
             fontsize="x-small",
         )
 
-    with io_handler.open_wb(
-        os.path.join(
-            output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
-        )
-    ) as fwb:
-        plt.savefig(
-            fwb,
-            dpi=300,
-            bbox_inches="tight",
-        )
+        with io_handler.open_wb(
+            os.path.join(
+                output_path, "heatmap_" + str(camera_id.replace("/", "_")) + ".png"
+            )
+        ) as fwb:
+            plt.savefig(
+                fwb,
+                dpi=300,
+                bbox_inches="tight",
+            )
 
 
 def save_residual_grids(
-- 
2.43.0


From d945665e4c86938c6ba180ebef64f3cc3acad9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:55 +0000
Subject: [PATCH 84/90] fix: pictures of the cameras that the last
 reconstruction does not have

The statistics failed on them.
---
 opensfm/stats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opensfm/stats.py b/opensfm/stats.py
index 8119c77..d1629f0 100644
--- a/opensfm/stats.py
+++ b/opensfm/stats.py
@@ -834,7 +834,7 @@ def save_heatmap(
             all_projections[shot.camera.id] += shots_projections
 
     for camera_id, projections in all_projections.items():
-        buckets_x, buckets_y = _heatmap_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _heatmap_buckets(all_cameras[camera_id])
         camera_heatmap = np.zeros((buckets_y, buckets_x))
         for x, y in projections:
             k_low_x, k_low_y = -min(x - splatting, 0), -min(y - splatting, 0)
@@ -897,11 +897,13 @@ def save_residual_grids(
     io_handler: io.IoFilesystemBase,
 ) -> None:
     all_errors = {}
+    all_cameras = {}
 
     scaling = 4
     for rec in reconstructions:
-        for camera_id in rec.cameras:
+        for camera_id, camera in rec.cameras.items():
             all_errors[camera_id] = []
+            all_cameras[camera_id] = camera
 
     for i in range(len(reconstructions)):
         valid_observations = _get_valid_observations(reconstructions, tracks_manager)(i)
@@ -942,14 +944,14 @@ def save_residual_grids(
     for camera_id, errors in all_errors.items():
         if not errors:
             continue
-        buckets_x, buckets_y = _grid_buckets(rec.cameras[camera_id])
+        buckets_x, buckets_y = _grid_buckets(all_cameras[camera_id])
         camera_array_res = np.zeros((buckets_y, buckets_x, 2))
         camera_array_count = np.full((buckets_y, buckets_x, 1), 1)
         for x, y, e in errors:
             camera_array_res[y, x] += e
             camera_array_count[y, x, 0] += 1
         camera_array_res = np.divide(camera_array_res, camera_array_count)
-        camera = rec.get_camera(camera_id)
+        camera = all_cameras[camera_id]
         w, h = camera.width, camera.height
         normalizer = max(w, h)
 
-- 
2.43.0


From 8fede205ca0520f47934e087175d5f47e808c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:35 +0000
Subject: [PATCH 85/90] fix: residuals of a camera in the report when its name
 starts that of another one

---
 opensfm/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/report.py b/opensfm/report.py
index 8cc9789..3bf1f2c 100644
--- a/opensfm/report.py
+++ b/opensfm/report.py
@@ -383,7 +383,7 @@ class Report:
             residual_grids = [
                 f
                 for f in self.io_handler.ls(self.output_path)
-                if f.startswith("residuals_" + str(camera.replace("/", "_")))
+                if os.path.splitext(f)[0] == "residuals_" + camera.replace("/", "_")
             ]
             if not residual_grids:
                 continue
-- 
2.43.0


From 899939e03b828d81c8ed6826fa6fbed08d8160c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 86/90] fix: GPX tracks with points without elevation can be
 sampled and interpolated

---
 opensfm/geotag_from_gpx.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index b68fd1d..19daf18 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -154,7 +154,7 @@ def interpolate_lat_lon(
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
-    if before[3] is not None:
+    if before[3] is not None and after[3] is not None:
         ele = (before[3] * dt_after + after[3] * dt_before) / (dt_before + dt_after)
     else:
         ele = None
@@ -190,7 +190,10 @@ def gpx_lerp(
     t = a[0] + datetime.timedelta(seconds=dt)
     lat = (1 - alpha) * a[1] + alpha * b[1]
     lon = (1 - alpha) * a[2] + alpha * b[2]
-    alt = (1 - alpha) * a[3] + alpha * b[3]
+    if a[3] is not None and b[3] is not None:
+        alt = (1 - alpha) * a[3] + alpha * b[3]
+    else:
+        alt = None
     return t, lat, lon, alt
 
 
-- 
2.43.0


From 2ac99c44f9116a0d0a52d6f3830173d4ea640464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 87/90] fix: GPX tracks that cross the antimeridian are
 interpolated the short way

---
 opensfm/geotag_from_gpx.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index 19daf18..fcd5582 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -119,6 +119,17 @@ def compute_bearing(
     return bearing
 
 
+def interpolate_longitude(alpha: float, start_lon: float, end_lon: float) -> float:
+    """Interpolate longitudes in degrees along the shortest way between them."""
+    dlon = end_lon - start_lon
+    if dlon > 180.0:
+        start_lon += 360.0
+    elif dlon < -180.0:
+        end_lon += 360.0
+    lon = (1 - alpha) * start_lon + alpha * end_lon
+    return lon - 360.0 if lon > 180.0 else lon
+
+
 def interpolate_lat_lon(
     points: list[tuple[datetime.datetime, float, float, float]],
     t: datetime.datetime,
@@ -150,7 +161,9 @@ def interpolate_lat_lon(
 
     # simple linear interpolation
     lat = (before[1] * dt_after + after[1] * dt_before) / (dt_before + dt_after)
-    lon = (before[2] * dt_after + after[2] * dt_before) / (dt_before + dt_after)
+    lon = interpolate_longitude(
+        dt_before / (dt_before + dt_after), before[2], after[2]
+    )
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
@@ -189,7 +202,7 @@ def gpx_lerp(
     dt = alpha * (b[0] - a[0]).total_seconds()
     t = a[0] + datetime.timedelta(seconds=dt)
     lat = (1 - alpha) * a[1] + alpha * b[1]
-    lon = (1 - alpha) * a[2] + alpha * b[2]
+    lon = interpolate_longitude(alpha, a[2], b[2])
     if a[3] is not None and b[3] is not None:
         alt = (1 - alpha) * a[3] + alpha * b[3]
     else:
-- 
2.43.0


From 5fc860a0f58be2c497f1283c887ee5505fea7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:28 +0000
Subject: [PATCH 88/90] fix: parallel_map restores the OpenCV threads when a
 task fails

---
 opensfm/context.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/opensfm/context.py b/opensfm/context.py
index 4cf7558..b4d6814 100644
--- a/opensfm/context.py
+++ b/opensfm/context.py
@@ -52,18 +52,19 @@ def parallel_map(
     threads_used = cv2.getNumThreads()
     cv2.setNumThreads(0)
 
-    num_proc = min(num_proc, len(args))
-    if num_proc <= 1:
-        res = list(map(func, args))
-    else:
-        with parallel_backend("threading", n_jobs=num_proc):
-            batch_size = max(1, int(len(args) / (num_proc * 2)))
-            batch_size = (
-                min(batch_size, max_batch_size) if max_batch_size else batch_size
-            )
-            res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
-
-    cv2.setNumThreads(threads_used)
+    try:
+        num_proc = min(num_proc, len(args))
+        if num_proc <= 1:
+            res = list(map(func, args))
+        else:
+            with parallel_backend("threading", n_jobs=num_proc):
+                batch_size = max(1, int(len(args) / (num_proc * 2)))
+                batch_size = (
+                    min(batch_size, max_batch_size) if max_batch_size else batch_size
+                )
+                res = Parallel(batch_size=batch_size)(delayed(func)(arg) for arg in args)
+    finally:
+        cv2.setNumThreads(threads_used)
     return res
 
 
-- 
2.43.0


From 7de2b0438432641b9ae19fa906b079c042a1b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:28 +0000
Subject: [PATCH 89/90] fix: the viewer's server serves files of the dataset
 only

---
 viewer/server.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/viewer/server.py b/viewer/server.py
index c863bec..c9c1d60 100644
--- a/viewer/server.py
+++ b/viewer/server.py
@@ -4,6 +4,7 @@ import os
 from typing import List
 
 from flask import abort, Flask, jsonify, Response, send_file
+from werkzeug.utils import safe_join
 
 
 app = Flask(__name__, static_folder="./", static_url_path="")
@@ -43,16 +44,12 @@ def get_recs() -> Response:
 
 @app.route("/data/<path:subpath>")
 def get_data(subpath) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, subpath)
-    return verified_send(path)
+    return verified_send(subpath)
 
 
 @app.route("/image/<shot_id>")
 def get_image(shot_id) -> Response:
-    # pyrefly: ignore [no-matching-overload]
-    path = os.path.join(datapath, IMAGES, shot_id)
-    return verified_send(path)
+    return verified_send(os.path.join(IMAGES, shot_id))
 
 
 def json_files(path) -> List[str]:
@@ -81,8 +78,10 @@ def reconstruction_files(path) -> List[str]:
     return sorted(filter(probably_reconstruction, files))
 
 
-def verified_send(file) -> Response:
-    if os.path.isfile(file):
+def verified_send(subpath) -> Response:
+    """Send a file of the dataset, refusing paths that lead out of it."""
+    file = safe_join(datapath, subpath) if datapath is not None else None
+    if file is not None and os.path.isfile(file):
         return send_file(file)
     else:
         abort(404)
-- 
2.43.0


From 6810d52b2415016a98eda7ce500dec2f8ee083f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:07 +0000
Subject: [PATCH 90/90] fix: the expected position of a control point is
 topocentric

gcp_geopositional_error converted the geographic position of a control
point with to_lla instead of to_topocentric, and so compared nonsense
with the triangulated position.
---
 annotation_gui_gcp/run_ba.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/annotation_gui_gcp/run_ba.py b/annotation_gui_gcp/run_ba.py
index a53a25a..f3db0cf 100644
--- a/annotation_gui_gcp/run_ba.py
+++ b/annotation_gui_gcp/run_ba.py
@@ -94,7 +94,11 @@ def gcp_geopositional_error(
     coords_reconstruction = triangulate_gcps(gcps, reconstruction)
     out = {}
     for ix, gcp in enumerate(gcps):
-        expected = reconstruction.reference.to_lla(*gcp.lla_vec) if gcp.lla else None
+        expected = (
+            np.array(reconstruction.reference.to_topocentric(*gcp.lla_vec))
+            if gcp.lla
+            else None
+        )
         triangulated = (
             coords_reconstruction[ix] if coords_reconstruction[ix] is not None else None
         )
-- 
2.43.0

