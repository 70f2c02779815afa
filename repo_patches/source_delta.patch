From 8e447ed80be24c7af2394d72f2e65dcf054e8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 01/52] fix: cartesian_to_polar divides by the distance in the
 xy plane, not its square

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..8069702 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From 318076176bce03a16eef7c0a50a20486375947dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 02/52] fix: change_twist_reference_frame returned nothing

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 8069702..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 328d10bd2eb1328f37fb32034287e340ce161544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 03/52] fix: from_skew_symmetric throws for every matrix that
 is not skew-symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..f8e07a2 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if ((matrix + matrix.transpose()).norm() > Eigen::NumTraits<Scalar>::dummy_precision() * matrix.norm()) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From eee49707892850c8d7540415c84e8c2a8a5f6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 04/52] fix: PrecomputedTransformComponents of a zero rotation
 vector was NaN

---
 .../include/eigen_ext/precomputed_transform_components.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..8e7b70f 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,7 +48,7 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
+    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_.normalized()};
     R_ = angleaxis.toRotationMatrix();
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
-- 
2.43.0


From cfc815f952873d7e8106803ba561cf4f76440776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 05/52] fix: reorder_covariance accepts matrices of dynamic
 size

---
 eigen_ext/include/eigen_ext/covariance.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..83f131d 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -68,6 +68,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
     Derived reordered_covariance;
+    reordered_covariance.resize(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From dc1102256fa5f2281933da5aa68250eb2e2dd586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 06/52] fix: precomputed_transform_components.hpp had no
 include guard

---
 .../include/eigen_ext/precomputed_transform_components.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index 8e7b70f..376065b 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -1,3 +1,6 @@
+#ifndef EIGEN_EXT_PRECOMPUTED_TRANSFORM_COMPONENTS_HPP
+#define EIGEN_EXT_PRECOMPUTED_TRANSFORM_COMPONENTS_HPP
+
 #include <Eigen/Core>
 #include <Eigen/Geometry>
 
@@ -91,3 +94,5 @@ inline const Scalar PrecomputedTransformComponents<Scalar>::cosa() const {
 }
 
 }
+
+#endif
-- 
2.43.0


From 74e2682898f64ee4da4517969332f1867b016c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 07/52] fix: PointAngleAxis built from a pose left data[3] and
 data_r[3] uninitialised

---
 pointcloud_tools/src/point_types.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/point_types.cpp b/pointcloud_tools/src/point_types.cpp
index 22d2999..fb93e96 100644
--- a/pointcloud_tools/src/point_types.cpp
+++ b/pointcloud_tools/src/point_types.cpp
@@ -123,23 +123,23 @@ PointAngleAxis::PointAngleAxis(const _PointAngleAxis& p) {
     data_r[3] = 0.0f;
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) {
+PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) : PointAngleAxis() {
     setPose(pose);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) : PointAngleAxis() {
     setPose(position, angle_axis);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) : PointAngleAxis() {
     setPose(position, quaternion);
 }
 
-PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) {
+PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) : PointAngleAxis() {
     setPose(position, rotation_matrix);
 }
 
-- 
2.43.0


From 89f005b3ca1dc68a5eb2ef22b7e2c15916607bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 08/52] fix: correspondences of a registration restricted to
 indices name the source point, not its position in the indices

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..50c3339 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -41,7 +41,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*registration.getIndices())[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From c1df3d760770e8cb98a64531a3cbddfdba9dfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 09/52] fix: nonlinear ICP models gave NaN or meaningless
 Hessians for rotations at and near zero

---
 .../lidar/registration_covariance-inl.hpp     | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
index 64d6f83..382d88b 100644
--- a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
@@ -5,6 +5,16 @@
 
 namespace serpent {
 
+// The closed-form derivatives of the nonlinear models are singular at a rotation of zero and lose all precision close to
+// it. They vary smoothly with the rotation, so they are evaluated at the nearest rotation with at least this angle.
+constexpr double MIN_NONLINEAR_MODEL_ANGLE{1.0e-5};
+
+inline eigen_ext::PrecomputedTransformComponents<double> with_min_rotation_angle(
+        const eigen_ext::PrecomputedTransformComponents<double>& tf) {
+    const Eigen::Vector3d axis = tf.a() > 0.0 ? Eigen::Vector3d{tf.r().normalized()} : Eigen::Vector3d::UnitX();
+    return eigen_ext::PrecomputedTransformComponents<double>{Eigen::Vector3d{MIN_NONLINEAR_MODEL_ANGLE * axis}, tf.t()};
+}
+
 template<typename Model, typename Scalar>
 Eigen::Matrix<double, 6, 6> censi_iid_covariance(
         typename pcl::Registration<typename Model::PointSource, typename Model::PointTarget, Scalar>& registration,
@@ -279,6 +289,10 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < MIN_NONLINEAR_MODEL_ANGLE) {
+        return compute_half_d2F_dx2(with_min_rotation_angle(tf), p, q);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1356,6 +1370,10 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < MIN_NONLINEAR_MODEL_ANGLE) {
+        return compute_half_d2F_dzdx(with_min_rotation_angle(tf), p, q);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1910,6 +1928,10 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < MIN_NONLINEAR_MODEL_ANGLE) {
+        return compute_half_d2F_dx2(with_min_rotation_angle(tf), p, q, n);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -3335,6 +3357,10 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < MIN_NONLINEAR_MODEL_ANGLE) {
+        return compute_half_d2F_dzdx(with_min_rotation_angle(tf), p, q, n);
+    }
+
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
-- 
2.43.0


From 83dc59dd4e9862388f30d79850ed037bd0b0281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 10/52] fix: window_sum and window_sum_squares added to
 uninitialised values

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From ee1c5348551c128ada38c425b8692c2e5fc85aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 11/52] fix: stereo_project read past the end of the point
 instead of its depth

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From 98619276de7fbe9d61e73397e83d8e6f29f0a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 12/52] fix: StereoDistanceFilter setters multiplied by an
 uninitialised focal length or baseline

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From 1a7d44b8c9ebd1196df5be6275ea1d50fac05736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 13/52] fix: keypoint_in_other_image left matched and cost
 unset for a keypoint whose window leaves the image

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..e9cceeb 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -49,6 +49,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
+        matched = false;
         return cv::KeyPoint{};
     }
 
-- 
2.43.0


From 841b2a393de9285fd3c2b821537d30bc83da3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 14/52] fix: the stereo ratio test missed a second-best
 candidate found after the best one

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index e9cceeb..6890b9b 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -71,6 +71,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -155,6 +157,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From 6951c31415eeb77d8ac9a1c39cd024c11d319e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:07 +0000
Subject: [PATCH 15/52] fix: the reverse stereo scan used the window mean of
 the keypoint for every other window

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 6890b9b..758ec83 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -83,7 +83,7 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const double window_cost = generate_cost_function(reference_image, reverse_reference_image_top_left)(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 949331d0628ee49f1a32e179e882b9b9a18ca5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:00 +0000
Subject: [PATCH 16/52] fix: set every stereo tracker statistic on every frame

The tracked and filtered keypoint counts were left uninitialised on the first
frame, and match ids accumulated when a Statistics object was reused.
---
 .../front_end/stereo/stereo_feature_tracker.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..95f9316 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -101,10 +101,6 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
         LRF2FMatches f2f_matches;
         new_track_hypotheses = track_previous_keypoints(images, all_sof_keypoints, f2f_matches);
         ROS_DEBUG_STREAM("Tracked previous keypoints");
-        if (stats) {
-            stats->get().tracked_kp_count[0] = new_track_hypotheses.keypoints[0].size();
-            stats->get().tracked_kp_count[1] = new_track_hypotheses.keypoints[1].size();
-        }
         if (intermediate_images) {
             for (std::size_t lr = 0; lr < 2; ++lr) {
                 cv::drawMatches(previous_images[lr], previous_track_data.keypoints[lr], images[lr],
@@ -119,9 +115,12 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
             new_keypoints[lr] = remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);
             ROS_DEBUG_STREAM("Removed keypoints close to already tracked keypoints in the "
                              << (lr == 0 ? "left" : "right") << " frame");
-            if (stats) {
-                stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
-            }
+        }
+    }
+    if (stats) {
+        for (std::size_t lr = 0; lr < 2; ++lr) {
+            stats->get().tracked_kp_count[lr] = new_track_hypotheses.keypoints[lr].size();
+            stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
         }
     }
 
@@ -207,6 +206,7 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
     if (stats) {
         stats->get().max_match_id = next_match_id - 1;
         stats->get().total_match_count = previous_track_data.matches.size();
+        stats->get().match_ids.clear();
         for (const int match_id : previous_track_data.match_ids) {
             stats->get().match_ids.push_back(match_id);
         }
-- 
2.43.0


From bf67887eacf9bc50263546d4007886dd88dc4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:00 +0000
Subject: [PATCH 17/52] fix: preintegrate up to an IMU measurement stamped
 exactly at the end

Such a measurement was integrated for zero time, which gtsam refuses with an
exception, losing the whole interval.
---
 serpent/src/utils/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..866d1e3 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -35,8 +35,8 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
 
     ros::Time integration_time = start;
     for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
-        // Ignore imu messages past end
-        if (it->timestamp > end) {
+        // Ignore imu messages at or past end (a message at end would be integrated for zero time, which gtsam refuses)
+        if (it->timestamp >= end) {
             break;
         }
         // If the next timestamp is after start time, we integrate
-- 
2.43.0


From b3600c627daa31325e351c274254d747eeb33279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:00 +0000
Subject: [PATCH 18/52] fix: Float64MultiArray conversion of reused and
 truncated messages

Writing a matrix into a message that had been written before appended two more
dimensions; reading a message with too little data read out of bounds.
---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..5fad88e 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -27,6 +27,12 @@ void from_ros(const std_msgs::Float64MultiArray& msg, Eigen::MatrixBase<Derived>
         throw std::runtime_error("Float64MultiArray msg dimensions did not match that of the matrix (" +
                                  std::to_string(matrix.rows()) + ", " + std::to_string(matrix.cols()));
     }
+    if (matrix.size() > 0 && msg.data.size() < static_cast<std::size_t>(msg.layout.data_offset) +
+                                                     static_cast<std::size_t>(msg.layout.dim[1].stride) *
+                                                             (matrix.rows() - 1) +
+                                                     matrix.cols()) {
+        throw std::runtime_error("Float64MultiArray msg data did not contain all of the elements of the matrix");
+    }
     for (int r = 0; r < msg.layout.dim[0].size; ++r) {
         for (int c = 0; c < msg.layout.dim[1].size; ++c) {
             matrix(r, c) = msg.data[msg.layout.data_offset + msg.layout.dim[1].stride * r + c];
@@ -46,6 +52,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 38b0bcc01de4ff445b95955e0b5ba2081cda728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 19/52] fix: do not publish dynamic body frames as static
 transforms

A dynamic frame moves and is provided through TF by another node; a static
transform for it froze it at its pose at start-up (or failed the node when no
transform was available yet).
---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From c5516cb9d6cbac109c0dd756cca5c891c8249b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 20/52] fix: conflicting declarations of the PointCloud2
 utilities

Default template arguments were given a second time in the definitions, which
is ill-formed, and polar_coordinates was declared with another return type than
it is defined with, so that every call was ambiguous.
---
 .../impl/pclpointcloud2_utilities.hpp         | 24 +++++++++----------
 .../pclpointcloud2_utilities.hpp              |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index a82ea62..c12ec40 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -603,13 +603,13 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return max<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return mean<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -648,7 +648,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& na
     return scale_and_cast_field<type>(pointcloud, name, scale);
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud) {
     auto get_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto get_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -669,22 +669,22 @@ void set_field_data(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& f
     return create_set_field_data_function<InT>(field)(pointcloud, i, value);
 }
 
-template<typename T = double>
+template<typename T>
 T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     return static_cast<T>(std::sqrt(variance<double>(pointcloud, field, mean)));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return standard_deviation<T>(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -705,7 +705,7 @@ inline T sum(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return sum<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& pointcloud) {
     auto convert_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto convert_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -720,7 +720,7 @@ Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& poin
     return unit_vectors;
 }
 
-template<typename T = double>
+template<typename T>
 T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     double square_residuals_sum_{0.0};
     auto get_field_data = create_get_field_data_function<double>(field);
@@ -732,17 +732,17 @@ T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& fiel
     return static_cast<T>(square_residuals_sum_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return variance(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name));
 }
diff --git a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
index 4d0875c..631e455 100644
--- a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
@@ -269,7 +269,7 @@ void resize(pcl::PCLPointCloud2& pointcloud, const std::uint32_t width, const st
 std::uint32_t row_step(const pcl::PCLPointCloud2& pointcloud);
 
 template<typename T = float>
-std::vector<Eigen::Matrix<T, 3, 1>> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
+Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
 
 void scale_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double scale);
 
-- 
2.43.0


From 16eb5d86c7fc76343f0b84ce40b0e594b0fccdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 21/52] fix: add_fields on clouds with padding or unordered
 fields

The new fields were placed after the last listed field, so a source with
trailing padding (or whose last listed field is not last in memory) got
a point step smaller than the source's and the copy wrote out of bounds.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 68aa608..d9c14a7 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -21,14 +21,14 @@ pcl::PCLPointCloud2 add_fields(const pcl::PCLPointCloud2& src, const std::vector
     dest.height = src.height;
     dest.width = src.width;
     dest.fields = src.fields;
+    // New fields go after the whole of the source point, including any padding or out-of-order fields
+    dest.point_step = src.point_step;
     for (const auto& name : names) {
-        dest.fields.emplace_back(pcl::PCLPointField{.name = name,
-                .offset = dest.fields.empty() ? 0 : point_step(dest.fields.back()),
-                .datatype = datatype,
-                .count = count});
+        dest.fields.emplace_back(
+                pcl::PCLPointField{.name = name, .offset = dest.point_step, .datatype = datatype, .count = count});
+        dest.point_step = point_step(dest.fields.back());
     }
     dest.is_bigendian = src.is_bigendian;
-    dest.point_step = point_step(dest.fields.back());
     dest.row_step = row_step(dest);
     dest.data.resize(size_bytes(dest));
     dest.is_dense = src.is_dense;
-- 
2.43.0


From 4cebdba649d91a6e58de23c0f582c2dcf60017e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 22/52] fix: deskew to a time before the pointcloud stamp

The unsigned difference wrapped around to a huge time fraction.
---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index d9c14a7..eee16ec 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -129,7 +129,8 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
         const Eigen::Quaterniond skew_quaternion = Eigen::Quaterniond(skew.rotation());
 
         // Compute required quantities
-        const double new_time_seconds = static_cast<double>(new_time - src.header.stamp) / 1.0e6;  // us to s
+        const double new_time_seconds =
+                static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;  // us to s
         const double new_time_fraction = new_time_seconds / dt;
         const Eigen::Vector3d new_time_translation = new_time_fraction * skew_translation;
         const Eigen::Quaterniond new_time_quaternion =
-- 
2.43.0


From d36eb973d968378f1e772cf37a3325f68512a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 23/52] fix: stereo factor of the previous frame when keys were
 missed

The previous frame's measurement was attached to the state before the
current one even when the previous stereo frame was at an earlier key.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..55bcab5 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From 848d8d4e7415dfbbb1df8887ce2a9816d5230818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 24/52] fix: values in a key range

Landmarks were left out unless the first key of the range had some, and
the end of the values was dereferenced.
---
 serpent/src/back_end/graph_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 55bcab5..724b091 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key >= first && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From b1f450bf095dd1ae6ffb02beb17917bd8d16df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 25/52] fix: refuse reacquired stereo features as documented

A feature reacquired under an old id registered its landmark twice,
which made a later optimisation fail on a missing value.
---
 serpent/src/back_end/graph_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 724b091..b202890 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -166,6 +166,11 @@ void GraphManager::create_stereo_factors_and_values(
                 // Add feature and previous state factor if feature is tracked for the first time (not in i-2, in i-1)
                 if (features_im2 == stereo_features.rend() ||
                         features_im2->second.find(id) == features_im2->second.end()) {
+                    if (has_stereo_landmark(id)) {
+                        throw std::runtime_error("Failed to create stereo factors and values. Stereo feature " +
+                                                 std::to_string(id) + " was reacquired.");
+                    }
+
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
                             features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
-- 
2.43.0


From eb698075edb397eb349afff09f552c5f01c3a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 26/52] fix: inverted check of the registration covariance

Valid covariances were refused and invalid ones (asymmetric, not
positive definite, not finite) were accepted. Registration covariances
are computed, so allow for rounding in the symmetry test.
---
 serpent/src/back_end/optimisation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..8730f9a 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -273,8 +273,9 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
     const gtsam::Pose3 registration_pose_gtsam =
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
-    // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    // Check if valid covariance matrix (symmetric up to numerical precision)
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance,
+                1.0e-6 * registration_pose.data.covariance.cwiseAbs().maxCoeff())) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From 137ab5f4eea5c4c377bd695cdaf470cfcba9b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 27/52] fix: graph mutex left locked when a back end callback
 ends early

On shutdown (and on any exception) the callback returned with the mutex
locked, so the other callbacks, and with them the node, never ended.
---
 serpent/src/back_end/optimisation.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 8730f9a..7f56c64 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -338,7 +338,7 @@ void Optimisation::add_stereo_factors(const serpent::StereoFeatures::ConstPtr& f
 
 void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pressure) {
     // Wait for the state at the barometer time to be set before adding factors.
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     int next_barometer_key = gm->key("barometer");
     if (!protected_sleep(graph_mutex, 0.01, true, true, [this, pressure]() {
             while (gm->has_pose("barometer") && gm->timestamp("barometer") < pressure->header.stamp) {
@@ -386,7 +386,6 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
 
     // Increment the barometer key
     gm->increment("barometer");
-    graph_mutex.unlock();
 }
 
 void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
@@ -398,7 +397,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
     }
 
     // Wait for imu bias to be optimised (when optimisation has run)
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     ROS_WARN_STREAM_COND(gm->opt_key() != gm->key("imu"),
             "Waiting for optimisation (key = " << gm->opt_key() << ", t = " << gm->timestamp(gm->opt_key())
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
@@ -468,8 +467,6 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
             optimise_and_publish(imu_key);
         }
     }
-
-    graph_mutex.unlock();
 }
 
 void Optimisation::initial_odometry_callback(const nav_msgs::Odometry::ConstPtr& msg) {
@@ -715,7 +712,7 @@ void Optimisation::registration_callback(const geometry_msgs::PoseWithCovariance
 }
 
 void Optimisation::stereo_features_callback(const serpent::StereoFeatures::ConstPtr& features) {
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     // Repeat while feature timestamp is ahead of the graph optimisation
     bool features_in_future;
     do {
@@ -753,7 +750,6 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
             }
         }
     } while (features_in_future);
-    graph_mutex.unlock();
 }
 
 void Optimisation::update_velocity_from_transforms(const std::string& named_key) {
-- 
2.43.0


From d5d30bb36958ce4ac062797198ae98d10be1a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 28/52] fix: IMU measurements received before the initial
 odometry

The warning looked up the timestamp of key -1, which threw instead of
waiting for the first optimisation.
---
 serpent/src/back_end/optimisation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 7f56c64..fb81fe6 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -398,7 +398,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
 
     // Wait for imu bias to be optimised (when optimisation has run)
     std::lock_guard<std::mutex> guard{graph_mutex};
-    ROS_WARN_STREAM_COND(gm->opt_key() != gm->key("imu"),
+    ROS_WARN_STREAM_COND(gm->opt_key() >= 0 && gm->opt_key() != gm->key("imu"),
             "Waiting for optimisation (key = " << gm->opt_key() << ", t = " << gm->timestamp(gm->opt_key())
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
                                                << gm->timestamp("imu") << "). SERPENT may be running slow.");
-- 
2.43.0


From aeef72a1936027b650993de3ab34f743ca97bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 29/52] fix: refuse unrecognised robust noise model types

They left the noise model null, which is dereferenced by the first
stereo factor.
---
 serpent/src/back_end/optimisation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index fb81fe6..dde8d67 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -230,6 +230,8 @@ Optimisation::Optimisation() : nh("serpent"), body_frames("serpent") {
                 const gtsam::noiseModel::mEstimator::Base::ReweightScheme reweight_scheme = to_reweight_scheme(
                         nh.param<std::string>("stereo_factors/robust/welsch/reweight_scheme", "BLOCK"));
                 robust_noise_model = gtsam::noiseModel::mEstimator::Welsch::Create(c, reweight_scheme);
+            } else {
+                throw std::runtime_error("Unrecognised robust noise model type \'" + robust_noise_type + "\'.");
             }
             stereo_noise_model = gtsam::noiseModel::Robust::Create(robust_noise_model, stereo_measurement_covariance);
             ROS_INFO_STREAM("Created robust stereo noise model of type \'" << robust_noise_type << "\'");
-- 
2.43.0


From 941e95d0aa2427c75feed35b0227c222a4a2c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:24 +0000
Subject: [PATCH 30/52] fix: publish the updated velocity after stereo
 optimisation

Without IMU factors the odometry carried the velocity predicted before
the update (registrations already publish after updating).
---
 serpent/src/back_end/optimisation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index dde8d67..079b197 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -743,12 +743,15 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
 
             // Optimise and publish
             if (gm->minimum_key(0) == gm->key("stereo") && gm->key("stereo") > 0) {
-                optimise_and_publish(gm->key("stereo"));
+                const auto optimisation_result = optimise(gm->key("stereo"));
 
                 // Update velocity if no IMU factors
                 if (!imu_factors_enabled) {
                     update_velocity_from_transforms("stereo");
                 }
+
+                // Publish
+                publish(gm->key("stereo"), optimisation_result);
             }
         }
     } while (features_in_future);
-- 
2.43.0


From 607c32c70d7b2b301185e178a566ec43f0ebd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 31/52] fix: front end does not compile with Eigen 3.4

The operands of the conditional expressions have unrelated expression types.
---
 serpent/src/front_end/frontend.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..bd8d665 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -500,8 +500,8 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-                (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d::Identity()));
+                (deskew_translation ? Eigen::Vector3d(skew_transform.translation()) : Eigen::Vector3d{0.0, 0.0, 0.0}),
+                (deskew_rotation ? Eigen::Matrix3d(skew_transform.rotation()) : Eigen::Matrix3d::Identity()));
 
         // Deskew pointcloud
         pcl::PCLPointCloud2::Ptr deskewed_pointcloud = boost::make_shared<pcl::PCLPointCloud2>();
-- 
2.43.0


From 3f1925103ac50f8fe3486ff763b66bbfce804b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 32/52] fix: skew transform was moved to the lidar frame with
 the inverse extrinsics

The motion from A to B needs T_B^A, which for body to lidar is the transform from
lidar to body.
---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index bd8d665..141fd03 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -496,7 +496,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From aa40bd860ad72306f087d82174812b36a7a0cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 33/52] fix: output pose was that of the body frame, not
 base_link

The README promises map to base_link transforms and poses.
---
 serpent/src/front_end/frontend.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 141fd03..03d6d7b 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -291,8 +291,7 @@ void Frontend::optimised_odometry_callback(const serpent::ImuBiases::ConstPtr& i
         tf_broadcaster.sendTransform(map_to_base_link_tf);
 
         // Publish T_W^{BL} pose with covariance
-        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(
-                world_odometry.pose_stamped());  // map_to_base_link);
+        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
         map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
         pose_publisher.publish(map_to_base_link_pose);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 6901470f96f66eac5870e3d09f5a3dba020ee6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 34/52] fix: gyroscope bias was added to the angular velocity
 of the output odometry

Biases are subtracted from measurements, as the preintegration does.
---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 03d6d7b..733ce99 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -236,7 +236,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From 6a22a1b03d40e61f87663295b09fcb118b6d3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 35/52] fix: barometer interpolation without barometer data or
 with several states waiting

The front of an empty buffer was read when a state preceded all barometer data, and only
one of several waiting states was published per call.
---
 serpent/src/front_end/frontend.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 733ce99..d9aab96 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    while (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
@@ -181,6 +181,8 @@ void Frontend::barometer_try_publish() {
             barometer_publisher.publish(interpolate_pressure(
                     *barometer_buffer.front(), *barometer_buffer.at(1), barometer_timestamp_buffer.front()));
             barometer_timestamp_buffer.pop_front();
+        } else {
+            break;
         }
     }
 }
-- 
2.43.0


From f1a31c34e3df0575df8f1f7310ec53d4a0d061cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 36/52] fix: front end mutexes left locked on shutdown and
 exceptions

---
 serpent/src/front_end/frontend.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index d9aab96..eab5d00 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -359,6 +359,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                     }
                     return stereo_buffer.empty();
                 })) {
+                stereo_data_mutex.unlock();
                 return;
             };
 
@@ -463,7 +464,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         gtsam::PreintegratedCombinedMeasurements preintegrated_imu_skew{preintegration_params, imu_biases};
 
         // Compute previous pointcloud start state (state at previous_pointcloud_start) from world_state (in body frame)
-        imu_data_mutex.lock();
+        std::unique_lock<std::mutex> imu_data_lock{imu_data_mutex};
         gtsam::NavState previous_pointcloud_start_state;
         if (!initialised) {
             ROS_WARN_ONCE("TODO FIX: The state for the first pointcloud is approximated as the initial state. This is "
@@ -486,7 +487,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
 
         // Integrate over pointcloud sweep
         integrate_imu(preintegrated_imu_skew, imu_buffer, previous_pointcloud_start, previous_pointcloud_end);
-        imu_data_mutex.unlock();
+        imu_data_lock.unlock();
 
         // Generate transform from preintegration, which is in the body frame.
         // T_{B_{i,s}}^{B_{i,e}} = T_{B_{i,s}}^{W} * T_{W}^{B_{i,e}}
-- 
2.43.0


From de13a979fdd7e99f892947d05d8987610ae8630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:02 +0000
Subject: [PATCH 37/52] fix: IMU measurements between states were incomplete
 when the IMU lags the point clouds

The buffer was read without waiting for measurements up to the new state, so measurements
were missing, or the end of the buffer was dereferenced.
---
 serpent/src/front_end/frontend.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index eab5d00..15c9bcd 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -378,6 +378,12 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
+        // Wait for IMU message after deskew timestamp (for safety, as should already be received).
+        if (!protected_sleep(preintegration_mutex, 0.01, false, false,
+                    [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
+            return;
+        };
+
         // Initialised: publish the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
         if (initialised) {
@@ -404,12 +410,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             ROS_DEBUG_STREAM(
                     "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
-            // Wait for IMU message after deskew timestamp (for safety, as should already be received).
-            if (!protected_sleep(preintegration_mutex, 0.01, false, false,
-                        [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
-                return;
-            };
-
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
 
-- 
2.43.0


From 4f2e60be2a6c56bde1cfca78e5b9c7240f6da0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 38/52] fix: null pose cloud dereferenced when a map with PAST
 frame extraction is corrected

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..5424024 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From f3aff87fbf44beca9f422fd7dca579a981eb5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 39/52] fix: global map was filtered according to the local map
 option

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 5424024..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From 284f1ae5e2b21da33f5e1f80a4cdac1a359e7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 40/52] fix: past frame extraction ran off the map when every
 frame was newer than the cloud

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index caf4709..10c086f 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -135,9 +135,12 @@ typename Mapping<PointT>::PointCloudPtr Mapping<PointT>::extract_past_frames(
         const std::size_t n, const eigen_ros::PoseStamped& lidar_frame) {
     // Starting from the end, find the first pointcloud to merge
     auto it = map.rbegin();
-    while (it->first > lidar_frame.timestamp) {
+    while (it != map.rend() && it->first > lidar_frame.timestamp) {
         ++it;
     }
+    if (it == map.rend()) {
+        throw std::runtime_error("No map frames at or before the point cloud timestamp. Something went wrong.");
+    }
     auto pointcloud = boost::make_shared<PointCloud>();
     pointcloud->header.stamp = pcl_conversions::toPCL(lidar_frame.timestamp);
     pointcloud->header.frame_id = body_frames.frame_id("lidar");
-- 
2.43.0


From 743ca2a4ff40973fae0ee33e27512c42eab69a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 41/52] fix: to_frame_extraction_method was defined in a header
 without inline

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 10c086f..fc6bbde 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -13,7 +13,7 @@
 
 namespace serpent {
 
-FrameExtractionMethod to_frame_extraction_method(const std::string& method) {
+inline FrameExtractionMethod to_frame_extraction_method(const std::string& method) {
     if (method == "NEARBY") {
         return FrameExtractionMethod::NEARBY;
     } else if (method == "PAST") {
-- 
2.43.0


From 7b6cd6e762f9fffbf2cfbc89ed7ba02ba6c82cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 42/52] fix: statistical outlier removal reads the parameters
 of its documented group

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..045c821 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -70,8 +70,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From 4c300369a9cb838135f1d111906d15048a125312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 43/52] fix: body filter removes the points within the body
 region instead of keeping only them

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 045c821..7801bf2 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove the points inside the region
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From 068f43bb26ebcebe5f2c3843dec209dff10d6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:30 +0000
Subject: [PATCH 44/52] fix: statistical outlier removal does not search
 organised lidar pointclouds by projection

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 7801bf2..5d62e67 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -127,7 +127,12 @@ void PointcloudFilter::range_filter_callback(const pcl::PCLPointCloud2::ConstPtr
 }
 
 void PointcloudFilter::statistical_outlier_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
-    statistical_outlier_pointcloud_publisher.publish(filter(msg, sor_filter));
+    // PCL searches organised pointclouds by projection, which is not valid for a lidar, so the organisation is dropped.
+    auto pointcloud = boost::make_shared<pcl::PCLPointCloud2>(*msg);
+    pointcloud->width *= pointcloud->height;
+    pointcloud->height = 1;
+    pointcloud->row_step = pointcloud->width * pointcloud->point_step;
+    statistical_outlier_pointcloud_publisher.publish(filter(pointcloud, sor_filter));
 }
 
 void PointcloudFilter::voxel_grid_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
-- 
2.43.0


From 5c986fea088a69a432d1b5b92da1694dea1fc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:19 +0000
Subject: [PATCH 45/52] fix: scan to map callback returns at shutdown without
 leaving its mutex locked

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index cae8cbf..fd24f76 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -319,6 +319,7 @@ void Registration<PointT>::s2m_callback(const PointCloudConstPtr& map) {
     // Wait for S2S transform and pointcloud
     if (!protected_sleep(s2s_mutex, 0.01, false, true,
                 [this]() { return s2s_registrations.empty() || s2m_pointclouds.empty(); })) {
+        s2s_mutex.unlock();
         return;
     };
 
-- 
2.43.0


From 5761398ac19ff8a288265ab57860ca1b2043b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 46/52] fix: split_image rotation of 0 degrees is accepted and
 of a non-multiple of 90 degrees refused

---
 .../include/camera_tools/image_operations.hpp    |  4 +++-
 camera_tools/src/image_operations.cpp            | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/camera_tools/include/camera_tools/image_operations.hpp b/camera_tools/include/camera_tools/image_operations.hpp
index e394fe8..3acf21e 100644
--- a/camera_tools/include/camera_tools/image_operations.hpp
+++ b/camera_tools/include/camera_tools/image_operations.hpp
@@ -5,6 +5,7 @@
 #include <sensor_msgs/Image.h>
 
 #include <opencv2/opencv.hpp>
+#include <optional>
 
 namespace camera_tools {
 
@@ -34,7 +35,8 @@ public:
     sensor_msgs::CameraInfo apply(const sensor_msgs::CameraInfo& info) override;
 
 private:
-    cv::RotateFlags option;
+    // No value for a rotation of 0 degrees
+    std::optional<cv::RotateFlags> option;
 };
 
 /**
diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..1259dc7 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -9,8 +9,8 @@ Rotate::Rotate(const cv::RotateFlags option)
 
 Rotate::Rotate(int degrees_clockwise) {
     degrees_clockwise = degrees_clockwise % 360;
-    if (degrees_clockwise <= 0) {
-        throw std::runtime_error("Rotate degrees_clockwise must be > 0");
+    if (degrees_clockwise < 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be >= 0");
     }
     if (degrees_clockwise == 90) {
         option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
@@ -18,18 +18,26 @@ Rotate::Rotate(int degrees_clockwise) {
         option = cv::RotateFlags::ROTATE_180;
     } else if (degrees_clockwise == 270) {
         option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
+    } else if (degrees_clockwise != 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be a multiple of 90");
     }
 }
 
 cv::Mat Rotate::apply(const cv::Mat& in) {
+    if (!option) {
+        return in;
+    }
     cv::Mat out;
-    cv::rotate(in, out, option);
+    cv::rotate(in, out, *option);
     return out;
 }
 
 sensor_msgs::CameraInfo Rotate::apply(const sensor_msgs::CameraInfo& in) {
     sensor_msgs::CameraInfo out = in;
-    switch (option) {
+    if (!option) {
+        return out;
+    }
+    switch (*option) {
         case cv::RotateFlags::ROTATE_90_CLOCKWISE:
             // Swap width/height, fx/fy
             out.height = in.width;
-- 
2.43.0


From 4f359990d76c8daff915877f415831101e06a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 47/52] fix: publish_info.hpp has its own include guard

---
 camera_tools/include/camera_tools/publish_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/camera_tools/include/camera_tools/publish_info.hpp b/camera_tools/include/camera_tools/publish_info.hpp
index d057a71..089306a 100644
--- a/camera_tools/include/camera_tools/publish_info.hpp
+++ b/camera_tools/include/camera_tools/publish_info.hpp
@@ -1,5 +1,5 @@
-#ifndef CAMERA_TOOLS_SPLIT_IMAGE_HPP
-#define CAMERA_TOOLS_SPLIT_IMAGE_HPP
+#ifndef CAMERA_TOOLS_PUBLISH_INFO_HPP
+#define CAMERA_TOOLS_PUBLISH_INFO_HPP
 
 #include <ros/ros.h>
 #include <sensor_msgs/CameraInfo.h>
-- 
2.43.0


From f1902c18af618abb6481d78822eb0576f411514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 48/52] fix: split_image distortion and intrinsics may be
 integers or fractions

---
 camera_tools/src/split_image.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/camera_tools/src/split_image.cpp b/camera_tools/src/split_image.cpp
index 33fbef4..8475ffa 100644
--- a/camera_tools/src/split_image.cpp
+++ b/camera_tools/src/split_image.cpp
@@ -4,6 +4,11 @@
 
 namespace camera_tools {
 
+static double to_double(const XmlRpc::XmlRpcValue& value) {
+    return value.getType() == XmlRpc::XmlRpcValue::TypeInt ? static_cast<const int&>(value)
+                                                           : static_cast<const double&>(value);
+}
+
 ImageSplitter::ImageSplitter()
     : nh("~"),
       it(nh) {
@@ -34,19 +39,19 @@ void ImageSplitter::parse_configuration() {
         XmlRpc::XmlRpcValue distortion = image["distortion"];
         camera_info.distortion_model = std::string(distortion["model"]);
         camera_info.D.resize(5);
-        camera_info.D[0] = distortion["k1"];
-        camera_info.D[1] = distortion["k2"];
-        camera_info.D[2] = distortion["t1"];
-        camera_info.D[3] = distortion["t2"];
-        camera_info.D[4] = distortion["k3"];
+        camera_info.D[0] = to_double(distortion["k1"]);
+        camera_info.D[1] = to_double(distortion["k2"]);
+        camera_info.D[2] = to_double(distortion["t1"]);
+        camera_info.D[3] = to_double(distortion["t2"]);
+        camera_info.D[4] = to_double(distortion["k3"]);
         XmlRpc::XmlRpcValue intrinsic = image["intrinsic"];
-        camera_info.K[0] = intrinsic["fx"];
+        camera_info.K[0] = to_double(intrinsic["fx"]);
         camera_info.P[0] = camera_info.K[0];
-        camera_info.K[2] = (int)intrinsic["cx"];
+        camera_info.K[2] = to_double(intrinsic["cx"]);
         camera_info.P[2] = camera_info.K[2];
-        camera_info.K[4] = intrinsic["fy"];
+        camera_info.K[4] = to_double(intrinsic["fy"]);
         camera_info.P[5] = camera_info.K[4];
-        camera_info.K[5] = (int)intrinsic["cy"];
+        camera_info.K[5] = to_double(intrinsic["cy"]);
         camera_info.P[6] = camera_info.K[5];
         camera_info.K[8] = 1.0;
         camera_info.P[10] = camera_info.K[8];
-- 
2.43.0


From 22b17658bdc468022879e99e09e23ee4fa16b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:28 +0000
Subject: [PATCH 49/52] fix: combine_transforms refuses an unknown transform
 type instead of never combining

---
 navigation_tools/src/combine_transforms.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigation_tools/src/combine_transforms.cpp b/navigation_tools/src/combine_transforms.cpp
index 773a745..cce60c1 100644
--- a/navigation_tools/src/combine_transforms.cpp
+++ b/navigation_tools/src/combine_transforms.cpp
@@ -25,6 +25,8 @@ CombineTransforms::CombineTransforms()
     } else if (transform_type == "PoseWithCovarianceStamped") {
         subscriber = nh.subscribe<geometry_msgs::PoseWithCovarianceStamped>(input, queue_size,
                 &CombineTransforms::combine_callback<geometry_msgs::PoseWithCovarianceStamped>, this);
+    } else {
+        throw std::runtime_error("transform_type \'" + transform_type + "\' not recognised");
     }
 
     // Path
-- 
2.43.0


From a611591f8be2f5daa5bf9875b3b816ab1899fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 50/52] fix: optical flow uses the configured parameters (read
 from their documented group)

---
 .../src/front_end/stereo/stereo_factor_finder.cpp  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 005b2dc..bb10cc9 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -241,16 +241,16 @@ StereoFactorFinder::StereoFactorFinder() : nh("serpent"), it(nh), stereo_sync(10
             nh.param<std::string>("stereo_tracking/sparse_optical_flow/type", "PyrLK");
     if (sparse_optical_flow_type == "PyrLK") {
         const std::vector<int> win_size_vec =
-                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/win_size", {{21, 21}});
+                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/pyrlk/win_size", {{21, 21}});
         const cv::Size win_size = cv::Size{win_size_vec.at(0), win_size_vec.at(1)};
-        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/max_level", 3);
+        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/max_level", 3);
         const cv::TermCriteria term_criteria = cv::TermCriteria{
                 to_term_criteria_type(
-                        nh.param<std::string>("stereo_tracking/sparse_optical_flow/term_criteria/type", "COUNT+EPS")),
-                nh.param<int>("stereo_tracking/sparse_optical_flow/term_criteria/max_count", 30),
-                nh.param<double>("stereo_tracking/sparse_optical_flow/term_criteria/epsilon", 0.01)};
-        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/flags", 0);
-        const double min_eig_threshold = nh.param<double>("stereo_tracking/sparse_optical_flow/min_eig_threshold", 0);
+                        nh.param<std::string>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", "COUNT+EPS")),
+                nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", 30),
+                nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", 0.01)};
+        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/flags", 0);
+        const double min_eig_threshold = nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", 0);
         sparse_optical_flow =
                 cv::SparsePyrLKOpticalFlow::create(win_size, max_level, term_criteria, flags, min_eig_threshold);
     } else if (sparse_optical_flow_type == "RLOF") {
-- 
2.43.0


From 08ba7e394c926455fac29edf7eeae001e8f60f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 51/52] fix: SIFT detector uses the configured contrast
 threshold (misspelled parameter)

---
 serpent/src/front_end/stereo/stereo_factor_finder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index bb10cc9..9119565 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -108,7 +108,7 @@ template<>
 cv::Ptr<cv::SIFT> create_from_params<cv::SIFT>(const ros::NodeHandle& nh) {
     const int num_features = nh.param<int>("stereo_tracking/detector/sift/num_features", 10);
     const int num_octave_layers = nh.param<int>("stereo_tracking/detector/sift/num_octave_layers", 3);
-    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/constrast_threshold", 0.04);
+    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/contrast_threshold", 0.04);
     const double edge_threshold = nh.param<double>("stereo_tracking/detector/sift/edge_threshold", 10.0);
     const double sigma = nh.param<double>("stereo_tracking/detector/sift/sigma", 1.6);
     return cv::SIFT::create(num_features, num_octave_layers, constrast_threshold, edge_threshold, sigma);
-- 
2.43.0


From f2dc2df2abd71f475e4b3d83dffc5cc17fcf93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:40 +0000
Subject: [PATCH 52/52] fix: compute_distances reports no distance for invalid
 points instead of failing on them

---
 .../include/pointcloud_tools/impl/compute_distances.hpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp b/pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp
index 1acc4dd..65d3571 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/compute_distances.hpp
@@ -1,12 +1,14 @@
 #ifndef POINTCLOUD_TOOLS_IMPL_COMPUTE_DISTANCE_HPP
 #define POINTCLOUD_TOOLS_IMPL_COMPUTE_DISTANCE_HPP
 
+#include <pcl/common/point_tests.h>
 #include <pcl/common/transforms.h>
 #include <pcl/kdtree/kdtree_flann.h>
 #include <pcl_conversions/pcl_conversions.h>
 #include <pcl_ros/point_cloud.h>
 
 #include <eigen_ros/eigen_ros.hpp>
+#include <limits>
 
 #include "pointcloud_tools/compute_distances.hpp"
 #include "pointcloud_tools/pclpointcloud2_utilities.hpp"
@@ -64,7 +66,10 @@ pcl::PCLPointCloud2::ConstPtr ComputePointToPointDistances<PointSource, PointTar
         set_x_field_data(*output, i, static_cast<float>(source[i].x));
         set_y_field_data(*output, i, static_cast<float>(source[i].y));
         set_z_field_data(*output, i, static_cast<float>(source[i].z));
-        if (kdtree.nearestKSearch(source[i], k, knn_indices, knn_square_distances) == k) {
+        if (!pcl::isFinite(source[i])) {
+            // A nearest neighbour only exists for valid points
+            set_d_field_data(*output, i, std::numeric_limits<float>::quiet_NaN());
+        } else if (kdtree.nearestKSearch(source[i], k, knn_indices, knn_square_distances) == k) {
             set_d_field_data(*output, i, std::sqrt(knn_square_distances[0]));
         } else {
             throw std::runtime_error("Failed to find nearest neighbour.");
-- 
2.43.0

