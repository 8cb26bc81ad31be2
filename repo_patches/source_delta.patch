From 1e80146a216c99a9e3c4cc5555a5f10ac838c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 01/15] fix: hold the IMU buffer lock while old readings are
 erased from the propagator

---
 ov_msckf/src/state/Propagator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 26b4af3..73fc760 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -65,8 +65,10 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
-    std::lock_guard<std::mutex> lck(imu_data_mtx);
-    imu_data.emplace_back(message);
+    {
+      std::lock_guard<std::mutex> lck(imu_data_mtx);
+      imu_data.emplace_back(message);
+    }
 
     // Clean old measurements
     // std::cout << "PROP: imu_data.size() " << imu_data.size() << std::endl;
@@ -80,6 +82,7 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
       if (it0->timestamp < oldest_time) {
-- 
2.43.0


From ee27845162330656e489a1442b40f2a5979f52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 02/15] fix: guard the zero-velocity IMU buffer shared by the
 IMU and camera threads

---
 ov_msckf/src/update/UpdaterZeroVelocity.cpp | 15 +++++++++++----
 ov_msckf/src/update/UpdaterZeroVelocity.h   |  8 +++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.cpp b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
index 3c55846..03a5572 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.cpp
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
@@ -65,9 +65,12 @@ UpdaterZeroVelocity::UpdaterZeroVelocity(UpdaterOptions &options, NoiseManager &
 bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timestamp) {
 
   // Return if we don't have any imu data yet
-  if (imu_data.empty()) {
-    last_zupt_state_timestamp = 0.0;
-    return false;
+  {
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
+    if (imu_data.empty()) {
+      last_zupt_state_timestamp = 0.0;
+      return false;
+    }
   }
 
   // Return if the state is already at the desired time
@@ -94,7 +97,11 @@ bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timest
   double time1 = timestamp + t_off_new;
 
   // Select bounding inertial measurements
-  std::vector<ov_core::ImuData> imu_recent = Propagator::select_imu_readings(imu_data, time0, time1);
+  std::vector<ov_core::ImuData> imu_recent;
+  {
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
+    imu_recent = Propagator::select_imu_readings(imu_data, time0, time1);
+  }
 
   // Move forward in time
   last_prop_time_offset = t_off_new;
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.h b/ov_msckf/src/update/UpdaterZeroVelocity.h
index 4b7f5f6..373cd2a 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.h
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.h
@@ -23,6 +23,7 @@
 #define OV_MSCKF_UPDATER_ZEROVELOCITY_H
 
 #include <memory>
+#include <mutex>
 
 #include "utils/sensor_data.h"
 
@@ -77,7 +78,10 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
-    imu_data.emplace_back(message);
+    {
+      std::lock_guard<std::mutex> lck(imu_data_mtx);
+      imu_data.emplace_back(message);
+    }
 
     // Sort our imu data (handles any out of order measurements)
     // std::sort(imu_data.begin(), imu_data.end(), [](const IMUDATA i, const IMUDATA j) {
@@ -96,6 +100,7 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
       if (it0->timestamp < oldest_time) {
@@ -144,6 +149,7 @@ protected:
 
   /// Our history of IMU messages (time, angular, linear)
   std::vector<ov_core::ImuData> imu_data;
+  std::mutex imu_data_mtx;
 
   /// Estimate for time offset at last propagation time
   double last_prop_time_offset = 0.0;
-- 
2.43.0


From 5332c9dff771166f315ebf032ff147cc13b3a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 03/15] fix: gyroscope scale is part of the orientation /
 accelerometer-intrinsics block of the discrete transition

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 47879ec..cf026f8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -925,7 +925,7 @@ void Propagator::compute_F_and_G_discrete(std::shared_ptr<State> state, double d
   // begin to add the state transition matrix for the acc intrinsics Da part
   if (Da_id != -1) {
     Eigen::MatrixXd H_Da = compute_H_Da(state, a_uncorrected);
-    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Tg * R_atoI * H_Da;
+    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * H_Da;
     F.block(p_id, Da_id, 3, state->_calib_imu_da->size()) = 0.5 * R_k.transpose() * dt * dt * R_atoI * H_Da;
     F.block(v_id, Da_id, 3, state->_calib_imu_da->size()) = R_k.transpose() * dt * R_atoI * H_Da;
     F.block(Da_id, Da_id, state->_calib_imu_da->size(), state->_calib_imu_da->size()).setIdentity();
-- 
2.43.0


From ffcffc16364606c1bbe8b571e8c6c632ddaa6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 04/15] fix: every fiducial corner id is treated as a fiducial
 in the SLAM update

---
 ov_msckf/src/update/UpdaterSLAM.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterSLAM.cpp b/ov_msckf/src/update/UpdaterSLAM.cpp
index a769d01..c67290a 100644
--- a/ov_msckf/src/update/UpdaterSLAM.cpp
+++ b/ov_msckf/src/update/UpdaterSLAM.cpp
@@ -158,7 +158,7 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // If we are using single inverse depth, then it is equivalent to using the msckf inverse depth
     auto feat_rep =
-        ((int)feat.featid < state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
     feat.feat_representation = feat_rep;
     if (feat_rep == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
       feat.feat_representation = LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH;
@@ -224,12 +224,12 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // Measurement noise matrix
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     Eigen::MatrixXd R = sigma_pix_sq * Eigen::MatrixXd::Identity(res.rows(), res.rows());
 
     // Try to initialize, delete new pointer if we failed
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (StateHelper::initialize(state, landmark, Hx_order, H_x, H_f, R, res, chi2_multipler)) {
       state->_features_SLAM.insert({(*it2)->featid, landmark});
       (*it2)->to_delete = true;
@@ -390,7 +390,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     Eigen::MatrixXd P_marg = StateHelper::get_marginal_covariance(state, Hxf_order);
     Eigen::MatrixXd S = H_xf * P_marg * H_xf.transpose();
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     S.diagonal() += sigma_pix_sq * Eigen::VectorXd::Ones(S.rows());
     double chi2 = res.dot(S.llt().solve(res));
 
@@ -406,9 +406,9 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
 
     // Check if we should delete or not
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (chi2 > chi2_multipler * chi2_check) {
-      if ((int)feat.featid < state->_options.max_aruco_features) {
+      if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
         PRINT_WARNING(YELLOW "[SLAM-UP]: rejecting aruco tag %d for chi2 thresh (%.3f > %.3f)\n" RESET, (int)feat.featid, chi2,
                       chi2_multipler * chi2_check);
       } else {
@@ -420,7 +420,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     }
 
     // Debug print when we are going to update the aruco tags
-    if ((int)feat.featid < state->_options.max_aruco_features) {
+    if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
       PRINT_DEBUG("[SLAM-UP]: accepted aruco tag %d for chi2 thresh (%.3f < %.3f)\n", (int)feat.featid, chi2, chi2_multipler * chi2_check);
     }
 
-- 
2.43.0


From 0d92f9ef5116882d28ceb992d07426d8c320e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 05/15] fix: landmark first estimate is returned for every
 anchored inverse depth representation

---
 ov_core/src/types/Landmark.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/types/Landmark.cpp b/ov_core/src/types/Landmark.cpp
index 4d20e4e..6eea84d 100644
--- a/ov_core/src/types/Landmark.cpp
+++ b/ov_core/src/types/Landmark.cpp
@@ -46,14 +46,15 @@ Eigen::Matrix<double, 3, 1> Landmark::get_xyz(bool getfej) const {
   // CASE: Anchored MSCKF inverse depth feature representation
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH) {
     Eigen::Matrix<double, 3, 1> p_FinA;
-    Eigen::Matrix<double, 3, 1> p_invFinA = value();
+    Eigen::Matrix<double, 3, 1> p_invFinA = (getfej) ? fej() : value();
     p_FinA << (1 / p_invFinA(2)) * p_invFinA(0), (1 / p_invFinA(2)) * p_invFinA(1), 1 / p_invFinA(2);
     return p_FinA;
   }
 
   // CASE: Estimate single depth of the feature using the initial bearing
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
-    // if(getfej) return 1.0/fej()(0)*uv_norm_zero_fej;
+    if (getfej)
+      return 1.0 / fej()(0) * uv_norm_zero_fej;
     return 1.0 / value()(0) * uv_norm_zero;
   }
 
-- 
2.43.0


From b5b068c5764cf8fde0ef0d810dc5acde3a919378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 06/15] fix: disparity without enough common features is
 reported as such instead of NaN

---
 ov_core/src/feat/FeatureHelper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ov_core/src/feat/FeatureHelper.h b/ov_core/src/feat/FeatureHelper.h
index db35c55..b038383 100644
--- a/ov_core/src/feat/FeatureHelper.h
+++ b/ov_core/src/feat/FeatureHelper.h
@@ -91,6 +91,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
@@ -164,6 +165,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
-- 
2.43.0


From c8514f38a16e9c55706c1e2113b8ea22359d785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 07/15] fix: extraction in the right stereo image uses the
 right mask

---
 ov_core/src/track/TrackKLT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index d2fe388..e07e949 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -718,7 +718,7 @@ void TrackKLT::perform_detection_stereo(const std::vector<cv::Mat> &img0pyr, con
   float size_y1 = (float)img1pyr.at(0).rows / (float)grid_y;
   cv::Size size_grid1(grid_x, grid_y); // width x height
   cv::Mat grid_2d_grid1 = cv::Mat::zeros(size_grid1, CV_8UC1);
-  cv::Mat mask1_updated = mask0.clone();
+  cv::Mat mask1_updated = mask1.clone();
   it0 = pts1.begin();
   it1 = ids1.begin();
   while (it0 != pts1.end()) {
-- 
2.43.0


From 76b8703043a238043c21016f10ad3345a0285c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 08/15] fix: points on the first row or column beyond the image
 are outside of it

---
 ov_core/src/track/Grider_FAST.h       | 2 +-
 ov_core/src/track/Grider_GRID.h       | 2 +-
 ov_core/src/track/TrackDescriptor.cpp | 4 ++--
 ov_core/src/track/TrackKLT.cpp        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ov_core/src/track/Grider_FAST.h b/ov_core/src/track/Grider_FAST.h
index 00680ca..8cfad9d 100644
--- a/ov_core/src/track/Grider_FAST.h
+++ b/ov_core/src/track/Grider_FAST.h
@@ -132,7 +132,7 @@ public:
                         pt_cor.pt.y += (float)y;
 
                         // Reject if out of bounds (shouldn't be possible...)
-                        if ((int)pt_cor.pt.x < 0 || (int)pt_cor.pt.x > img.cols || (int)pt_cor.pt.y < 0 || (int)pt_cor.pt.y > img.rows)
+                        if ((int)pt_cor.pt.x < 0 || (int)pt_cor.pt.x >= img.cols || (int)pt_cor.pt.y < 0 || (int)pt_cor.pt.y >= img.rows)
                           continue;
 
                         // Check if it is in the mask region
diff --git a/ov_core/src/track/Grider_GRID.h b/ov_core/src/track/Grider_GRID.h
index 59cede9..54fe4e4 100644
--- a/ov_core/src/track/Grider_GRID.h
+++ b/ov_core/src/track/Grider_GRID.h
@@ -138,7 +138,7 @@ public:
                         pt_cor.pt.y += (float)y;
 
                         // Reject if out of bounds (shouldn't be possible...)
-                        if ((int)pt_cor.pt.x < 0 || (int)pt_cor.pt.x > img.cols || (int)pt_cor.pt.y < 0 || (int)pt_cor.pt.y > img.rows)
+                        if ((int)pt_cor.pt.x < 0 || (int)pt_cor.pt.x >= img.cols || (int)pt_cor.pt.y < 0 || (int)pt_cor.pt.y >= img.rows)
                           continue;
 
                         // Check if it is in the mask region
diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index 915873d..1420c0f 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -455,8 +455,8 @@ void TrackDescriptor::perform_detection_stereo(const cv::Mat &img0, const cv::Ma
     int y1 = (int)kpt1.pt.y;
     int x1_grid = (int)(kpt1.pt.x / (float)min_px_dist);
     int y1_grid = (int)(kpt1.pt.y / (float)min_px_dist);
-    if (x1_grid < 0 || x1_grid >= size1.width || y1_grid < 0 || y1_grid >= size1.height || x1 < 0 || x1 >= img0.cols || y1 < 0 ||
-        y1 >= img0.rows) {
+    if (x1_grid < 0 || x1_grid >= size1.width || y1_grid < 0 || y1_grid >= size1.height || x1 < 0 || x1 >= img1.cols || y1 < 0 ||
+        y1 >= img1.rows) {
       continue;
     }
 
diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index e07e949..535b547 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -305,8 +305,8 @@ void TrackKLT::feed_stereo(const CameraData &message, size_t msg_id_left, size_t
   // Loop through all left points
   for (size_t i = 0; i < pts_left_new.size(); i++) {
     // Ensure we do not have any bad KLT tracks (i.e., points are negative)
-    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x > img_left.cols ||
-        (int)pts_left_new.at(i).pt.y > img_left.rows)
+    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x >= img_left.cols ||
+        (int)pts_left_new.at(i).pt.y >= img_left.rows)
       continue;
     // See if we have the same feature in the right
     bool found_right = false;
-- 
2.43.0


From b84de0c3d6ba565e9e8c431d9074cb185b1b30d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 09/15] fix: a tag with id equal to the number of tags would
 collide with corners of other tags

---
 ov_core/src/track/TrackAruco.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 953eaa3..cebdeb8 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -132,7 +132,7 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
   // Append to our feature database this new information
   for (size_t i = 0; i < ids_aruco[cam_id].size(); i++) {
     // Skip if ID is greater then our max
-    if (ids_aruco[cam_id].at(i) > max_tag_id)
+    if (ids_aruco[cam_id].at(i) >= max_tag_id)
       continue;
     // Assert we have 4 points (we will only use one of them)
     assert(corners[cam_id].at(i).size() == 4);
-- 
2.43.0


From 25d948966fb4137bfe240cd92868af8b52cfd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 10/15] fix: alignment uses only the requested number of poses

---
 ov_eval/src/alignment/AlignTrajectory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ov_eval/src/alignment/AlignTrajectory.cpp b/ov_eval/src/alignment/AlignTrajectory.cpp
index 0cfdd1f..8760779 100644
--- a/ov_eval/src/alignment/AlignTrajectory.cpp
+++ b/ov_eval/src/alignment/AlignTrajectory.cpp
@@ -93,7 +93,7 @@ void AlignTrajectory::align_posyaw(const std::vector<Eigen::Matrix<double, 7, 1>
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned == -1 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -135,7 +135,7 @@ void AlignTrajectory::align_se3(const std::vector<Eigen::Matrix<double, 7, 1>> &
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned == -1 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -156,7 +156,7 @@ void AlignTrajectory::align_sim3(const std::vector<Eigen::Matrix<double, 7, 1>>
   // Get just position vectors
   assert(!traj_es.empty());
   std::vector<Eigen::Vector3d> pos_est, pos_gt;
-  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned == -1 || (int)i < n_aligned); i++) {
     pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
     pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
   }
-- 
2.43.0


From 8cba73e2f24723b8adc303d2062eb7fb16279794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 11/15] fix: recalculated statistics do not accumulate into the
 previous rmse

---
 ov_eval/src/utils/Statistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_eval/src/utils/Statistics.h b/ov_eval/src/utils/Statistics.h
index bd4fe90..6f0ce59 100644
--- a/ov_eval/src/utils/Statistics.h
+++ b/ov_eval/src/utils/Statistics.h
@@ -99,6 +99,7 @@ public:
 
     // Compute mean and rmse
     mean = 0;
+    rmse = 0;
     for (size_t i = 0; i < values_sorted.size(); i++) {
       assert(!std::isnan(values_sorted.at(i)));
       mean += values_sorted.at(i);
-- 
2.43.0


From 62b58bfecec571945b890a35204d73c1cb3c5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 12/15] fix: lock the last tracked ids while a feature id is
 changed

---
 ov_core/src/track/TrackBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index e214c23..9052ddb 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -238,6 +238,7 @@ void TrackBase::change_feat_id(size_t id_old, size_t id_new) {
   }
 
   // Update current track IDs
+  std::lock_guard<std::mutex> lckv(mtx_last_vars);
   for (auto &cam_ids_pair : ids_last) {
     for (size_t i = 0; i < cam_ids_pair.second.size(); i++) {
       if (cam_ids_pair.second.at(i) == id_old) {
-- 
2.43.0


From 3e29a12a177e4fe69ec90374838b12707913748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 13/15] fix: printed messages have one argument of the right
 type per conversion

---
 ov_core/src/track/TrackKLT.cpp                |  2 +-
 ov_eval/src/error_comparison.cpp              |  6 +++---
 ov_eval/src/error_dataset.cpp                 |  4 ++--
 ov_init/src/dynamic/DynamicInitializer.cpp    |  6 +++---
 ov_init/src/init/InertialInitializerOptions.h |  4 ++--
 ov_msckf/src/core/VioManagerOptions.h         | 12 ++++++------
 6 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index 535b547..2736fcf 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -191,7 +191,7 @@ void TrackKLT::feed_monocular(const CameraData &message, size_t msg_id) {
 
   // Timing information
   PRINT_ALL("[TIME-KLT]: %.4f seconds for pyramid\n", (rT2 - rT1).total_microseconds() * 1e-6);
-  PRINT_ALL("[TIME-KLT]: %.4f seconds for detection (%zu detected)\n", (rT3 - rT2).total_microseconds() * 1e-6,
+  PRINT_ALL("[TIME-KLT]: %.4f seconds for detection (%d detected)\n", (rT3 - rT2).total_microseconds() * 1e-6,
             (int)pts_last[cam_id].size() - pts_before_detect);
   PRINT_ALL("[TIME-KLT]: %.4f seconds for temporal klt\n", (rT4 - rT3).total_microseconds() * 1e-6);
   PRINT_ALL("[TIME-KLT]: %.4f seconds for feature DB update (%d features)\n", (rT5 - rT4).total_microseconds() * 1e-6,
diff --git a/ov_eval/src/error_comparison.cpp b/ov_eval/src/error_comparison.cpp
index 9cda762..60eb708 100644
--- a/ov_eval/src/error_comparison.cpp
+++ b/ov_eval/src/error_comparison.cpp
@@ -267,7 +267,7 @@ int main(int argc, char **argv) {
   for (auto &algo : algo_ate) {
     std::string algoname = algo.first;
     boost::replace_all(algoname, "_", "\\_");
-    PRINT_INFO(algoname.c_str());
+    PRINT_INFO("%s", algoname.c_str());
     double sum_ori = 0.0;
     double sum_pos = 0.0;
     int sum_ct = 0;
@@ -300,7 +300,7 @@ int main(int argc, char **argv) {
   for (auto &algo : algo_ate_2d) {
     std::string algoname = algo.first;
     boost::replace_all(algoname, "_", "\\_");
-    PRINT_INFO(algoname.c_str());
+    PRINT_INFO("%s", algoname.c_str());
     double sum_ori = 0.0;
     double sum_pos = 0.0;
     int sum_ct = 0;
@@ -331,7 +331,7 @@ int main(int argc, char **argv) {
   for (auto &algo : algo_rpe) {
     std::string algoname = algo.first;
     boost::replace_all(algoname, "_", "\\_");
-    PRINT_INFO(algoname.c_str());
+    PRINT_INFO("%s", algoname.c_str());
     for (auto &seg : algo.second) {
       seg.second.first.calculate();
       seg.second.second.calculate();
diff --git a/ov_eval/src/error_dataset.cpp b/ov_eval/src/error_dataset.cpp
index 379b358..3ac99f8 100644
--- a/ov_eval/src/error_dataset.cpp
+++ b/ov_eval/src/error_dataset.cpp
@@ -369,7 +369,7 @@ int main(int argc, char **argv) {
   for (auto &algo : algo_ate) {
     std::string algoname = algo.first;
     boost::replace_all(algoname, "_", "\\_");
-    PRINT_INFO(algoname.c_str());
+    PRINT_INFO("%s", algoname.c_str());
     // ate
     auto ate_oripos = algo.second;
     if (ate_oripos.first.values.empty() || ate_oripos.second.values.empty()) {
@@ -403,7 +403,7 @@ int main(int argc, char **argv) {
   for (auto &algo : algo_rpe) {
     std::string algoname = algo.first;
     boost::replace_all(algoname, "_", "\\_");
-    PRINT_INFO(algoname.c_str());
+    PRINT_INFO("%s", algoname.c_str());
     for (auto &seg : algo.second) {
       seg.second.first.calculate();
       seg.second.second.calculate();
diff --git a/ov_init/src/dynamic/DynamicInitializer.cpp b/ov_init/src/dynamic/DynamicInitializer.cpp
index dc48a11..7b88755 100644
--- a/ov_init/src/dynamic/DynamicInitializer.cpp
+++ b/ov_init/src/dynamic/DynamicInitializer.cpp
@@ -159,7 +159,7 @@ bool DynamicInitializer::initialize(double &timestamp, Eigen::MatrixXd &covarian
     return false;
   }
   if (count_valid_features < min_valid_features) {
-    PRINT_WARNING(RED "[init-d]: only %zu valid features of required %d!!\n" RESET, count_valid_features, min_valid_features);
+    PRINT_WARNING(RED "[init-d]: only %d valid features of required %d!!\n" RESET, count_valid_features, min_valid_features);
     return false;
   }
 
@@ -544,7 +544,7 @@ bool DynamicInitializer::initialize(double &timestamp, Eigen::MatrixXd &covarian
     }
   }
   if (count_valid_features < min_valid_features) {
-    PRINT_ERROR(YELLOW "[init-d]: not enough features for our mle (%zu < %d)!\n" RESET, count_valid_features, min_valid_features);
+    PRINT_ERROR(YELLOW "[init-d]: not enough features for our mle (%d < %d)!\n" RESET, count_valid_features, min_valid_features);
     return false;
   }
 
@@ -892,7 +892,7 @@ bool DynamicInitializer::initialize(double &timestamp, Eigen::MatrixXd &covarian
   // Optimize the ceres graph
   ceres::Solver::Summary summary;
   ceres::Solve(options, &problem, &summary);
-  PRINT_INFO("[init-d]: %d iterations | %zu states, %zu feats (%zu valid) | %d param and %d res | cost %.4e => %.4e\n",
+  PRINT_INFO("[init-d]: %d iterations | %zu states, %zu feats (%d valid) | %d param and %d res | cost %.4e => %.4e\n",
              (int)summary.iterations.size(), map_states.size(), map_features.size(), count_valid_features, summary.num_parameters,
              summary.num_residuals, summary.initial_cost, summary.final_cost);
   auto rT6 = boost::posix_time::microsec_clock::local_time();
diff --git a/ov_init/src/init/InertialInitializerOptions.h b/ov_init/src/init/InertialInitializerOptions.h
index 47d1c3b..8793ba3 100644
--- a/ov_init/src/init/InertialInitializerOptions.h
+++ b/ov_init/src/init/InertialInitializerOptions.h
@@ -150,7 +150,7 @@ struct InertialInitializerOptions {
     PRINT_DEBUG("  - init_window_time: %.2f\n", init_window_time);
     PRINT_DEBUG("  - init_imu_thresh: %.2f\n", init_imu_thresh);
     PRINT_DEBUG("  - init_max_disparity: %.2f\n", init_max_disparity);
-    PRINT_DEBUG("  - init_max_features: %.2f\n", init_max_features);
+    PRINT_DEBUG("  - init_max_features: %d\n", init_max_features);
     if (init_max_features < 15) {
       PRINT_ERROR(RED "number of requested feature tracks to init not enough!!\n" RESET);
       PRINT_ERROR(RED "  init_max_features = %d\n" RESET, init_max_features);
@@ -341,7 +341,7 @@ struct InertialInitializerOptions {
       T_CtoI.block(0, 0, 3, 3) = ov_core::quat_2_Rot(camera_extrinsics.at(n).block(0, 0, 4, 1)).transpose();
       T_CtoI.block(0, 3, 3, 1) = -T_CtoI.block(0, 0, 3, 3) * camera_extrinsics.at(n).block(4, 0, 3, 1);
       ss << "T_C" << n << "toI:" << std::endl << T_CtoI << std::endl << std::endl;
-      PRINT_DEBUG(ss.str().c_str());
+      PRINT_DEBUG("%s", ss.str().c_str());
     }
   }
 
diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index 0df7d15..eccdb30 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -295,8 +295,8 @@ struct VioManagerOptions {
           if (mask.cols != camera_intrinsics.at(i)->w() || mask.rows != camera_intrinsics.at(i)->h()) {
             PRINT_ERROR(RED "VioManager(): mask size does not match camera!\n" RESET);
             PRINT_ERROR(RED "\t- mask%d - %s\n" RESET, i, total_mask_path.c_str());
-            PRINT_ERROR(RED "\t- mask%d - %d x %d\n" RESET, mask.cols, mask.rows);
-            PRINT_ERROR(RED "\t- cam%d - %d x %d\n" RESET, camera_intrinsics.at(i)->w(), camera_intrinsics.at(i)->h());
+            PRINT_ERROR(RED "\t- mask%d - %d x %d\n" RESET, i, mask.cols, mask.rows);
+            PRINT_ERROR(RED "\t- cam%d - %d x %d\n" RESET, i, camera_intrinsics.at(i)->w(), camera_intrinsics.at(i)->h());
             std::exit(EXIT_FAILURE);
           }
         }
@@ -325,7 +325,7 @@ struct VioManagerOptions {
         ss << "gyroscope has bad intrinsic values!" << std::endl;
         ss << "Tw - " << std::endl << Tw << std::endl << std::endl;
         ss << "Dw - " << std::endl << Dw << std::endl << std::endl;
-        PRINT_DEBUG(RED "" RESET, ss.str().c_str());
+        PRINT_DEBUG(RED "%s" RESET, ss.str().c_str());
         std::exit(EXIT_FAILURE);
       }
       if (std::isnan(Ta.norm()) || std::isnan(Da.norm())) {
@@ -333,7 +333,7 @@ struct VioManagerOptions {
         ss << "accelerometer has bad intrinsic values!" << std::endl;
         ss << "Ta - " << std::endl << Ta << std::endl << std::endl;
         ss << "Da - " << std::endl << Da << std::endl << std::endl;
-        PRINT_DEBUG(RED "" RESET, ss.str().c_str());
+        PRINT_DEBUG(RED "%s" RESET, ss.str().c_str());
         std::exit(EXIT_FAILURE);
       }
 
@@ -378,7 +378,7 @@ struct VioManagerOptions {
       T_CtoI.block(0, 0, 3, 3) = ov_core::quat_2_Rot(camera_extrinsics.at(n).block(0, 0, 4, 1)).transpose();
       T_CtoI.block(0, 3, 3, 1) = -T_CtoI.block(0, 0, 3, 3) * camera_extrinsics.at(n).block(4, 0, 3, 1);
       ss << "T_C" << n << "toI:" << std::endl << T_CtoI << std::endl << std::endl;
-      PRINT_DEBUG(ss.str().c_str());
+      PRINT_DEBUG("%s", ss.str().c_str());
     }
     PRINT_DEBUG("IMU PARAMETERS:\n");
     std::stringstream ss;
@@ -388,7 +388,7 @@ struct VioManagerOptions {
     ss << "Tg (columnwise):" << vec_tg.transpose() << std::endl;
     ss << "q_GYROtoI: " << q_GYROtoIMU.transpose() << std::endl;
     ss << "q_ACCtoI: " << q_ACCtoIMU.transpose() << std::endl;
-    PRINT_DEBUG(ss.str().c_str());
+    PRINT_DEBUG("%s", ss.str().c_str());
   }
 
   // TRACKERS ===============================
-- 
2.43.0


From 041a6a2ace894af16a7b2c9fb2fff183e9381566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 14/15] fix: invalidate the propagated pose cache after the
 delayed SLAM initialization, which also updates the state

---
 ov_msckf/src/core/VioManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 6a0d7b9..ce542cd 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -545,6 +545,7 @@ void VioManager::do_feature_propagate_update(const ov_core::CameraData &message)
   feats_slam_UPDATE = feats_slam_UPDATE_TEMP;
   rT5 = boost::posix_time::microsec_clock::local_time();
   updaterSLAM->delayed_init(state, feats_slam_DELAYED);
+  propagator->invalidate_cache();
   rT6 = boost::posix_time::microsec_clock::local_time();
 
   //===================================================================================
-- 
2.43.0


From 0de8a94f49b48ee8f694286697341d77add94c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:45 +0000
Subject: [PATCH 15/15] fix: TrackBase::change_feat_id re-keys the feature
 database itself, not a copy of it

---
 ov_core/src/feat/FeatureDatabase.cpp | 11 +++++++++++
 ov_core/src/feat/FeatureDatabase.h   |  7 +++++++
 ov_core/src/track/TrackBase.cpp      |  7 +------
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ov_core/src/feat/FeatureDatabase.cpp b/ov_core/src/feat/FeatureDatabase.cpp
index 0e18b24..ff22d34 100644
--- a/ov_core/src/feat/FeatureDatabase.cpp
+++ b/ov_core/src/feat/FeatureDatabase.cpp
@@ -262,6 +262,17 @@ void FeatureDatabase::cleanup_measurements_exact(double timestamp) {
   }
 }
 
+void FeatureDatabase::change_feat_id(size_t id_old, size_t id_new) {
+  std::lock_guard<std::mutex> lck(mtx);
+  auto it = features_idlookup.find(id_old);
+  if (it == features_idlookup.end())
+    return;
+  std::shared_ptr<Feature> feat = it->second;
+  features_idlookup.erase(it);
+  feat->featid = id_new;
+  features_idlookup.insert({id_new, feat});
+}
+
 double FeatureDatabase::get_oldest_timestamp() {
   std::lock_guard<std::mutex> lck(mtx);
   double oldest_time = -1;
diff --git a/ov_core/src/feat/FeatureDatabase.h b/ov_core/src/feat/FeatureDatabase.h
index df48622..737cf4d 100644
--- a/ov_core/src/feat/FeatureDatabase.h
+++ b/ov_core/src/feat/FeatureDatabase.h
@@ -148,6 +148,13 @@ public:
     return features_idlookup;
   }
 
+  /**
+   * @brief Changes the id of a feature, if we have it
+   * @param id_old Id the feature has right now
+   * @param id_new Id the feature should have
+   */
+  void change_feat_id(size_t id_old, size_t id_new);
+
   /**
    * @brief Gets the oldest time in the database
    */
diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index 9052ddb..d46b5c7 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -230,12 +230,7 @@ void TrackBase::display_history(cv::Mat &img_out, int r1, int g1, int b1, int r2
 void TrackBase::change_feat_id(size_t id_old, size_t id_new) {
 
   // If found in db then replace
-  if (database->get_internal_data().find(id_old) != database->get_internal_data().end()) {
-    std::shared_ptr<Feature> feat = database->get_internal_data().at(id_old);
-    database->get_internal_data().erase(id_old);
-    feat->featid = id_new;
-    database->get_internal_data().insert({id_new, feat});
-  }
+  database->change_feat_id(id_old, id_new);
 
   // Update current track IDs
   std::lock_guard<std::mutex> lckv(mtx_last_vars);
-- 
2.43.0

