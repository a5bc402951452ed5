From 8e8fa50d8c562ab9f4785cf819c73c5ae6a0262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:35 +0000
Subject: [PATCH 01/29] fix: report an observation refused for its invalid
 covariance as a tracking failure

Plane::track returned false (score 0.0, a perfect match) when the covariance
of the detection was invalid, and MapPlane::update_with_match ignored the score.
---
 src/map_management/map_features/map_primitive.cpp | 3 +--
 src/tracking/plane_with_tracking.cpp              | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..37abefb 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -241,8 +241,7 @@ bool MapPlane::update_with_match(const DetectedPlaneType& matchedFeature,
                 matchedFeatureParams.to_world_coordinates(planeCameraToWorld);
 
         // update this plane with the other one's parameters
-        track(cameraToWorld, matchedFeature, projectedPlaneCoordinates, worldCovariance);
-        return true;
+        return track(cameraToWorld, matchedFeature, projectedPlaneCoordinates, worldCovariance) >= 0.0;
     }
     catch (...)
     {
diff --git a/src/tracking/plane_with_tracking.cpp b/src/tracking/plane_with_tracking.cpp
index 122997f..56fc623 100644
--- a/src/tracking/plane_with_tracking.cpp
+++ b/src/tracking/plane_with_tracking.cpp
@@ -22,7 +22,7 @@ double Plane::track(const CameraToWorldMatrix& cameraToWorld,
     if (not utils::is_covariance_valid(newDetectionCovariance))
     {
         outputs::log_error("newDetectionCovariance is an invalid covariance matrix");
-        return false;
+        return -1;
     }
     if (not utils::is_covariance_valid(_covariance))
     {
-- 
2.43.0


From 0ede5424fb634fcf2ead3148179d49df629ca2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:39 +0000
Subject: [PATCH 02/29] fix: bound the inverse depth away from zero from below
 when estimating the depth interval

The closest and furthest estimations took the smaller of the inverse depth and 1e-9, so both ends of the interval were
(almost always) the same point at 1e9 mm.
---
 src/coordinates/inverse_depth_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index d957b3c..46f771f 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -143,14 +143,14 @@ WorldCoordinate InverseDepthWorldPoint::get_furthest_estimation(const double inv
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm - depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm - depthVariation, 1e-9));
 }
 
 WorldCoordinate InverseDepthWorldPoint::get_closest_estimation(const double inverseDepthStandardDev) const
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm + depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm + depthVariation, 1e-9));
 }
 
 bool InverseDepthWorldPoint::to_screen_coordinates(const WorldToCameraMatrix& w2c,
-- 
2.43.0


From 9c124fbb017f19acd95f2ff8b59dfe9e7dda05e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 03/29] fix: propagate the plane distance variance with the
 derivative of the distance

The reduced plane form is normal * d, so d is the norm of the vector; the last row of the Jacobian was the derivative of
the inverse of the norm, which dropped the variance of d.
---
 src/utils/covariances.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..d1c6915 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -126,13 +126,13 @@ matrix44 compute_plane_covariance(const PlaneCoordinates& planeParameters, const
     const double divider = pow(aSquared + bSquared + cSquared, 3.0 / 2.0);
     const double common = 1.0 / sqrt(aSquared + bSquared + cSquared);
 
-    // compute the jacobian of the 3 parameter plane to 4 parameters plane transformation -> (vect, 1) / norm(vect)
-    // with vect = normal * d
+    // compute the jacobian of the 3 parameter plane to 4 parameters plane transformation
+    // -> (vect / norm(vect), norm(vect)) with vect = normal * d
     const matrix43 jacobian({
             {common - aSquared / divider, -(a * b) / divider, -(a * c) / divider},
             {-(a * b) / divider, common - bSquared / divider, -(b * c) / divider},
             {-(a * c) / divider, -(b * c) / divider, common - cSquared / divider},
-            {-a / divider, -b / divider, -c / divider},
+            {a * common, b * common, c * common},
     });
 
     const matrix44& planeParameterCovariance =
-- 
2.43.0


From dedc065af09bde6cc665ab762b3d188cc52b7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:16 +0000
Subject: [PATCH 04/29] fix: predict the rotation by applying the angular
 velocity in the frame it is measured in

---
 src/tracking/motion_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracking/motion_model.cpp b/src/tracking/motion_model.cpp
index 02df3f6..6b29593 100644
--- a/src/tracking/motion_model.cpp
+++ b/src/tracking/motion_model.cpp
@@ -65,7 +65,8 @@ utils::Pose Motion_Model::predict_next_pose(const utils::Pose& currentPose, cons
 
     // Integrate to compute predictions
     const vector3 integralPos = _lastPosition + _linearVelocity;
-    const quaternion& integralQ = (currentRotation * newAngularVelocity).normalized();
+    // (the angular velocity is measured in the world frame: it applies on the left of the current rotation)
+    const quaternion& integralQ = (newAngularVelocity * currentRotation).normalized();
 
     return utils::Pose(integralPos, integralQ, currentPose.get_pose_variance() + poseError);
 }
-- 
2.43.0


From 1eca2ebfa32c64ad3571334b782901dbc52cbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:16 +0000
Subject: [PATCH 05/29] fix: keep the orientation of a pose of unit length when
 it is updated

---
 src/utils/pose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/pose.cpp b/src/utils/pose.cpp
index 493d76f..16e74d9 100644
--- a/src/utils/pose.cpp
+++ b/src/utils/pose.cpp
@@ -23,7 +23,7 @@ void PoseBase::set_parameters(const vector3& position, const quaternion& orienta
 
 void PoseBase::update(const vector3& position, const quaternion& orientation) noexcept
 {
-    _orientation *= orientation;
+    _orientation = (_orientation * orientation).normalized();
     _position += position;
 }
 
-- 
2.43.0


From e48dd16a17a8efad095a92e335179317dfb68110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:16 +0000
Subject: [PATCH 06/29] fix: keep a unit direction when the direction of a line
 is set

---
 src/utils/line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/line.hpp b/src/utils/line.hpp
index ab74c09..4a4c2a7 100644
--- a/src/utils/line.hpp
+++ b/src/utils/line.hpp
@@ -158,7 +158,7 @@ template<int Dim> class Line : public ILine<Dim>
     [[nodiscard]] Eigen::Vector<double, Dim> compute_normal() const noexcept override { return _normal; }
 
     [[nodiscard]] Eigen::Vector<double, Dim> get_normal() const noexcept { return _normal; };
-    void set_normal(const Eigen::Vector<double, Dim>& normal) noexcept { _normal = normal; };
+    void set_normal(const Eigen::Vector<double, Dim>& normal) noexcept { _normal = normal.normalized(); };
     void set_point_and_normal(const Eigen::Vector<double, Dim>& startPoint,
                               const Eigen::Vector<double, Dim>& normal) noexcept
     {
-- 
2.43.0


From c6eb3dd4f082bfce76b8c9daaf452dc05d9fc9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:16 +0000
Subject: [PATCH 07/29] fix: report disjoint segments as not intersecting
 instead of reading an empty list

---
 src/utils/line.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1801c1..4aea23a 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -102,7 +102,8 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
                  point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    // no intersection is not a failure: the output can be empty
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
@@ -126,7 +127,8 @@ bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen
              point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    // no intersection is not a failure: the output can be empty
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
-- 
2.43.0


From 20a87559fadefa337604598c426db5ebb3fc0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:16 +0000
Subject: [PATCH 08/29] fix: clamp a segment that leaves the screen to its part
 in the screen

---
 src/utils/line.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index 4aea23a..dde5eeb 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -41,17 +41,12 @@ namespace rgbd_slam::utils {
                 }
             case 1:
                 {
-                    // find the point in the screen boundary
-                    const ScreenCoordinate2D startPoint(output[0].x(), output[0].y());
-                    const ScreenCoordinate2D endPoint(output[0].x(), output[0].y());
-                    if (startPoint.is_in_screen_boundaries())
-                    {
-                        out.set_points(startPoint, vector2(output[0].x(), output[0].y()));
-                    }
-                    else
-                    {
-                        out.set_points(vector2(output[0].x(), output[0].y()), endPoint);
-                    }
+                    // keep the part of the line that is in the screen boundary
+                    const vector2 intersection(output[0].x(), output[0].y());
+                    const ScreenCoordinate2D startPoint(line.get_start_point());
+                    const ScreenCoordinate2D endPoint(line.get_end_point());
+                    out.set_points(startPoint.is_in_screen_boundaries() ? line.get_start_point() : intersection,
+                                   endPoint.is_in_screen_boundaries() ? line.get_end_point() : intersection);
                     break;
                 }
             case 2:
-- 
2.43.0


From aaf8b7ed20f40a6e075046cf9a2ec562ce10291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 09/29] fix: flag a tracked point as moving whichever the
 direction it moved in

---
 src/tracking/inverse_depth_with_tracking.cpp | 2 +-
 src/tracking/point_with_tracking.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 73981c5..19c7a9f 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -140,7 +140,7 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array() > covariance.diagonal().cwiseSqrt().array())
+        _isMoving = ((_coordinates.to_world_coordinates() - point).array().abs() > covariance.diagonal().cwiseSqrt().array())
                             .any();
 
         // put back in inverse depth coordinates
diff --git a/src/tracking/point_with_tracking.cpp b/src/tracking/point_with_tracking.cpp
index a49b53c..c850ce7 100644
--- a/src/tracking/point_with_tracking.cpp
+++ b/src/tracking/point_with_tracking.cpp
@@ -49,7 +49,7 @@ double Point::track(const WorldCoordinate& newDetectionCoordinates, const matrix
                 _coordinates, _covariance, newDetectionCoordinates, newDetectionCovariance);
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates - newDetectionCoordinates).array() >
+        _isMoving = ((_coordinates - newDetectionCoordinates).array().abs() >
                      newDetectionCovariance.diagonal().cwiseSqrt().array())
                             .any();
 
-- 
2.43.0


From 77863156057d651c56efa78e3bbefd84a5ce39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 10/29] fix: a refused inverse depth update leaves the point
 unchanged

---
 src/tracking/inverse_depth_with_tracking.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 19c7a9f..7c21b7f 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -140,20 +140,26 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array().abs() > covariance.diagonal().cwiseSqrt().array())
-                            .any();
+        const bool isMoving =
+                ((_coordinates.to_world_coordinates() - point).array().abs() > covariance.diagonal().cwiseSqrt().array())
+                        .any();
 
         // put back in inverse depth coordinates
         Eigen::Matrix<double, 6, 3> fromCartesianJacobian;
-        _coordinates = InverseDepthWorldPoint::from_cartesian(
+        const InverseDepthWorldPoint newCoordinates = InverseDepthWorldPoint::from_cartesian(
                 WorldCoordinate(newState), _coordinates.get_first_observation(), fromCartesianJacobian);
-        _covariance = compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
-                                                       _covariance.get_first_pose_covariance(),
-                                                       fromCartesianJacobian);
+        const Covariance newInverseDepthCovariance =
+                compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
+                                                 _covariance.get_first_pose_covariance(),
+                                                 fromCartesianJacobian);
 
-        if (not utils::is_covariance_valid(_covariance))
+        if (not utils::is_covariance_valid(newInverseDepthCovariance))
             throw std::invalid_argument("Inverse depth point covariance is invalid after merge");
 
+        // nothing can fail anymore: update this point
+        _isMoving = isMoving;
+        _coordinates = newCoordinates;
+        _covariance = newInverseDepthCovariance;
         if (not descriptor.empty())
             _descriptor = descriptor;
 
-- 
2.43.0


From d6124dafb661b29fff08e8720a5ad893022bfff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 11/29] fix: a failed Kalman update restores the system
 dynamics

---
 src/tracking/kalman_filter.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tracking/kalman_filter.hpp b/src/tracking/kalman_filter.hpp
index 3d6f052..852306d 100644
--- a/src/tracking/kalman_filter.hpp
+++ b/src/tracking/kalman_filter.hpp
@@ -178,8 +178,18 @@ template<int N, int M> class KalmanFilter : public SharedKalmanFilter<N, M>
                 const Eigen::Matrix<double, N, N>& measurementNoiseCovariance,
                 const Eigen::Matrix<double, N, N>& systemDynamics)
     {
+        const Eigen::Matrix<double, N, N> previousDynamics = this->_systemDynamics;
         this->_systemDynamics = systemDynamics;
-        this->update(newMeasurement, measurementNoiseCovariance);
+        try
+        {
+            this->update(newMeasurement, measurementNoiseCovariance);
+        }
+        catch (...)
+        {
+            // a failed update should not change the filter
+            this->_systemDynamics = previousDynamics;
+            throw;
+        }
     }
 
     [[nodiscard]] Eigen::Vector<double, N> get_state() const noexcept { return _stateEstimate; };
-- 
2.43.0


From 73beb1b0cfc8bdc5523f3c7b201c2c37c449256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 12/29] fix: camera 2 rotation offsets were applied about the
 wrong axes

---
 src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..b6cd2ea 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -44,7 +44,7 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     const float camera2RotationY = configFile["camera_2_rotation_offset_y"];
     const float camera2RotationZ = configFile["camera_2_rotation_offset_z"];
     const quaternion& cam2tocam1Rotation =
-            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
+            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationZ, camera2RotationY, camera2RotationX));
 
     _camera2toCamera1transformation = utils::get_transformation_matrix(cam2tocam1Rotation, cam2tocam1Translation);
 
-- 
2.43.0


From 9eb84485eb939b047bed3507f8bf2ab09f89cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 13/29] fix: the default configuration was never marked as
 valid

---
 src/parameters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index b6cd2ea..703a5e2 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -71,6 +71,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From 583dae9e0bd58a2e48aa7da82a1d7bf436d96367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 14/29] fix: refuse negative image sizes instead of wrapping
 them

---
 src/parameters.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 703a5e2..1f4b1de 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -3,6 +3,7 @@
 #include "camera_transformation.hpp"
 #include "outputs/logger.hpp"
 #include "types.hpp"
+#include <algorithm>
 #include <opencv2/core/core.hpp>
 
 namespace rgbd_slam {
@@ -19,16 +20,16 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     }
 
     // Load camera 1 parameters
-    _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
-    _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
+    _camera1ImageSize.x() = std::max(0, int(configFile["camera_1_size_x"]));
+    _camera1ImageSize.y() = std::max(0, int(configFile["camera_1_size_y"]));
     _camera1Focal.x() = configFile["camera_1_focal_x"];
     _camera1Focal.y() = configFile["camera_1_focal_y"];
     _camera1Center.x() = configFile["camera_1_center_x"];
     _camera1Center.y() = configFile["camera_1_center_y"];
 
     // Load camera 2 parameters
-    _camera2ImageSize.x() = int(configFile["camera_2_size_x"]);
-    _camera2ImageSize.y() = int(configFile["camera_2_size_y"]);
+    _camera2ImageSize.x() = std::max(0, int(configFile["camera_2_size_x"]));
+    _camera2ImageSize.y() = std::max(0, int(configFile["camera_2_size_y"]));
     _camera2Focal.x() = configFile["camera_2_focal_x"];
     _camera2Focal.y() = configFile["camera_2_focal_y"];
     _camera2Center.x() = configFile["camera_2_center_x"];
-- 
2.43.0


From ae3e08bcc55a2ac843b8319a807e1c8d0c83efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 15/29] fix: refuse a configuration without positive focal
 lengths

---
 src/parameters.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 1f4b1de..b396028 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -89,6 +89,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera1Focal.x() > 0))
+    {
+        outputs::log_error("Camera 1 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera1Focal.y() > 0))
+    {
+        outputs::log_error("Camera 1 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
@@ -110,6 +120,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera2Focal.x() > 0))
+    {
+        outputs::log_error("Camera 2 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera2Focal.y() > 0))
+    {
+        outputs::log_error("Camera 2 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
-- 
2.43.0


From 51fdac1c7292e674f8be880ff6ac34fac1945236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:42 +0000
Subject: [PATCH 16/29] fix: OBJ points referred to the vertex after the one
 written

---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From 4d77bc2d56f512806a911c78a8736df32782cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:42 +0000
Subject: [PATCH 17/29] fix: depth pixels that cannot be projected ended the
 process

---
 src/features/primitives/depth_map_transformation.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..165d63e 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -56,8 +56,9 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
 
                     // distord to align with camera1 image
+                    // (depths that are not a number, and points behind camera1, are not visible)
                     ScreenCoordinate2D screenCoordinates;
-                    if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
+                    if (projected.z() > 0 and CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
                     {
                         const uint projCoordColumn = static_cast<uint>(floor(screenCoordinates.x()));
                         const uint projCoordRow = static_cast<uint>(floor(screenCoordinates.y()));
@@ -72,11 +73,6 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                                     static_cast<float>(projected.z());
                         }
                     }
-                    else
-                    {
-                        // impossible: we checked that z > 0 before
-                        exit(-1);
-                    }
                 }
             }
 #ifndef MAKE_DETERMINISTIC
-- 
2.43.0


From 6912467c96f05353adb438df42c83da2cfbd2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:43 +0000
Subject: [PATCH 18/29] fix: a point removed from the histogram was put in bin
 1

---
 src/features/primitives/histogram.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..7459815 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,11 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
-        if (_histogram[_bins[pointId]] != 0)
-            _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        const int bin = _bins[pointId];
+        if (bin >= 0 and _histogram[bin] != 0)
+            _histogram[bin] -= 1;
+        // this point is not in a bin anymore
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From c888d8c17225afa84891f80ff40af11a0b05f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:07 +0000
Subject: [PATCH 19/29] fix: copy every member of a cylinder segment in its
 copy constructor

The copy constructor dropped the points of the axis, inliers, errors, the map of
the cells and the segment count: a copied cylinder segment (as stored by the
primitive detection) had no segment, and the cylinder made of it a NaN radius.
---
 src/features/primitives/cylinder_segment.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/features/primitives/cylinder_segment.cpp b/src/features/primitives/cylinder_segment.cpp
index fcc202e..a2c1ed1 100644
--- a/src/features/primitives/cylinder_segment.cpp
+++ b/src/features/primitives/cylinder_segment.cpp
@@ -23,13 +23,16 @@ Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg, const uint subRe
 Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) :
     _axis(seg._axis),
     _centers(seg._centers),
+    _pointsAxis1(seg._pointsAxis1),
+    _pointsAxis2(seg._pointsAxis2),
+    _normalsAxis1Axis2(seg._normalsAxis1Axis2),
+    _inliers(seg._inliers),
+    _MSE(seg._MSE),
     _radius(seg._radius),
-    _cellActivatedCount(0),
-    _segmentCount(0)
+    _cellActivatedCount(seg._cellActivatedCount),
+    _segmentCount(seg._segmentCount),
+    _local2globalMap(seg._local2globalMap)
 {
-    //_pointsAxis1 = seg.pointsAxis1;
-    //_pointsAxis2 = seg.pointsAxis2;
-    //_normalsAxis1Axis2 = seg._normalsAxis1Axis2;
 }
 
 Cylinder_Segment::Cylinder_Segment(const std::vector<Plane_Segment>& planeGrid,
-- 
2.43.0


From ffb1953975b215908d717473b7ac01dc99d25509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:13 +0000
Subject: [PATCH 20/29] fix: keep the moving flag when an inverse depth point
 is copied

---
 src/tracking/inverse_depth_with_tracking.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 7c21b7f..801d730 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -52,7 +52,8 @@ PointInverseDepth::PointInverseDepth(const ScreenCoordinate2D& observation,
 PointInverseDepth::PointInverseDepth(const PointInverseDepth& other) :
     _coordinates(other._coordinates),
     _covariance(other._covariance),
-    _descriptor(other._descriptor)
+    _descriptor(other._descriptor),
+    _isMoving(other._isMoving)
 {
     if (not utils::is_covariance_valid(_covariance))
         throw std::invalid_argument("PointInverseDepth constructor: the given covariance is invalid");
-- 
2.43.0


From 967cab7bb37e602bf4465459b2d89ffefccd023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:46 +0000
Subject: [PATCH 21/29] fix: go to the next staged feature when a promotion to
 the local map throws

The iterator was not advanced in the catch block: update_staged_map never ended.
---
 src/map_management/feature_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index a11bb15..4e1ea2d 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -816,6 +816,8 @@ class Feature_Map
                     outputs::log_error(get_display_name() +
                                        ": Caught exeption while creating a map feature from a staged feature: " +
                                        std::string(ex.what()));
+                    // keep it staged, go to the next one
+                    ++stagedFeatureIterator;
                 }
             }
             else if (stagedFeature.should_remove_from_staged())
-- 
2.43.0


From 5594b2bf2f0842a282baeed2db4c44c7211e86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:40 +0000
Subject: [PATCH 22/29] fix: RANSAC compares and replaces the best pose under a
 single lock

The score and inliers were compared outside the lock that guards their
replacement, so a worse candidate could replace a better one, and the
statistics were updated concurrently.
---
 src/pose_optimization/pose_optimization.cpp | 3 ++-
 src/pose_optimization/pose_optimization.hpp | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..3449244 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,14 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // the best result is compared and replaced under a single lock
+                std::scoped_lock<std::mutex> lock(mut);
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
diff --git a/src/pose_optimization/pose_optimization.hpp b/src/pose_optimization/pose_optimization.hpp
index 217873c..483f3cd 100644
--- a/src/pose_optimization/pose_optimization.hpp
+++ b/src/pose_optimization/pose_optimization.hpp
@@ -4,6 +4,8 @@
 #include "matches_containers.hpp"
 #include "utils/pose.hpp"
 
+#include <atomic>
+
 namespace rgbd_slam::pose_optimization {
 
 /**
@@ -97,9 +99,9 @@ class Pose_Optimization
     inline static double _meanPoseRANSACDuration = 0.0;
     inline static double _meanComputePoseVarianceDuration = 0.0;
 
-    inline static double _meanGetRandomSubsetDuration = 0.0;
-    inline static double _meanRANSACPoseOptimizationDuration = 0.0;
-    inline static double _meanRANSACGetInliersDuration = 0.0;
+    inline static std::atomic<double> _meanGetRandomSubsetDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACPoseOptimizationDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACGetInliersDuration = 0.0;
 };
 
 } // namespace rgbd_slam::pose_optimization
-- 
2.43.0


From 5a0eef5471edae9be49c156a78bada45f34243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:40 +0000
Subject: [PATCH 23/29] fix: sign of the quaternion Jacobian in the pose
 parameters

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7c4b732..02a1b8c 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -49,7 +49,7 @@ Eigen::Matrix<double, 4, 3> get_quaternion_from_optimization_coefficients_jacobi
     const double theta3 = -(4.0 * optCoeff.x() * optCoeff.z()) / SQR(theta5);
     const double theta4 = -(4.0 * optCoeff.x() * optCoeff.y()) / SQR(theta5);
 
-    const double multiplierDiag = -4.0 / SQR(theta5);
+    const double multiplierDiag = 4.0 / SQR(theta5);
 
     jacobian(0, 0) = 2.0 / theta5 - SQR(optCoeff.x()) * multiplierDiag;
     jacobian(0, 1) = theta4;
-- 
2.43.0


From 6c428e52f2f9b3ac91b95bbbe47b7786d378fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:53 +0000
Subject: [PATCH 24/29] fix: a 2D point is an inlier only when its distance is
 small in both directions

The signed distance was compared with the maximum: any distance that is
negative in both components made the match an inlier.
---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..7c8c911 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From 291ae64e47975e526163897eda5aca36c9dbbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:52 +0000
Subject: [PATCH 25/29] fix: the variance of a pose needs at least two poses

With one iteration, no success was required: the covariance was the
constant added on the diagonal.
---
 src/pose_optimization/pose_optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 3449244..2bf0453 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -406,7 +406,8 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
     );
 #endif
 
-    if (poses.size() < iterations / 2)
+    // the covariance of a sample needs at least two poses
+    if (poses.size() < 2 or poses.size() < iterations / 2)
     {
         outputs::log_error("Could not compute covariance: too many faileds iterations");
         _meanComputePoseVarianceDuration +=
-- 
2.43.0


From 96362f0be65bcb4fda0aaa99c14c5773346cc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:15 +0000
Subject: [PATCH 26/29] fix: the search space of keypoints is stored row by
 row, a row has as many cells as columns

---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From ac1a0dcdebd0bc8f7085410f98cb4e5c6d520b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:15 +0000
Subject: [PATCH 27/29] fix: points near the top or left border of the image
 can be matched (unsigned underflow of the search zone)

---
 src/features/keypoints/keypoint_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..e8e0a63 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From 56fe05089bc4e7526c4ee7954521b166c1aa77bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:00 +0000
Subject: [PATCH 28/29] fix: a map plane can be matched with the first detected
 plane

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 37abefb..d524793 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From 05a8c40bc038ecab426fdd5296d12e84ddb3a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:00 +0000
Subject: [PATCH 29/29] fix: matches of a 2D map point are returned when
 tracked, and handed to the optimization when found by descriptor

---
 .../map_features/map_point2d.cpp               | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 7c8c911..f95bfa5 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -99,7 +99,7 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
     const double searchRadius = useAdvancedSearch ? advancedSearchSpaceRadius : searchSpaceRadius;
 
     // try to match with tracking
-    int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
+    const int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
     if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
     {
         // No match: try to find match in a window around the point
@@ -111,19 +111,11 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
                     screenCoordinates, _descriptor, isDetectedFeatureMatched, searchRadius);
         }
     }
-
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
-    {
-        // unmatched point
-        return matchIndexRes;
-    }
-
-    assert(matchIndex >= 0);
-    assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
-    if (isDetectedFeatureMatched[matchIndex])
+    else
     {
-        // point was already matched
-        outputs::log_error("The requested point unique index is already matched");
+        assert(matchIndex >= 0);
+        assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
+        matchIndexRes.emplace(matchIndex);
     }
 
     if (shouldAddToMatches)
-- 
2.43.0

