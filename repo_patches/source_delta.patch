From b1590d918b18259128a199a9af846db743086974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 01/14] fix: keep the data loader streams ordered per instance

The newest time stamp was a function static: shared by all loaders, not reset
by Clear() and moved back by rejected messages, so later stale messages were
accepted and messages of a second loader were dropped.
---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..ab934a0 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 已接收的最新数据的时间戳，尚未接收过数据时为 NAN
+        fp64 lastFeatTimeStamp = NAN;
+        fp64 lastImuTimeStamp = NAN;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..3c0f8ea 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = static_cast<fp64>(-1);
+        this->lastFeatTimeStamp = NAN;
+        this->lastImuTimeStamp = NAN;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (std::isnan(this->lastFeatTimeStamp) || newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (std::isnan(this->lastImuTimeStamp) || newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 8136b62394edb15ced46e83d2855cd891fa7094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 02/14] fix: do not read a popped deque element in
 PopOneMessage

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 3c0f8ea..a16c911 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -58,8 +58,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            auto imu = this->imuMeas.front();
+            auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0


From a14686feb74b7250f60a5eb3b3137e79e9c1eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 03/14] fix: exact initial attitude for level and strongly
 tilted IMUs

The cross product of parallel vectors was normalised (0/0 gives a NaN attitude
for a level IMU) and the small angle quaternion was used for any tilt.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..efb2fc4 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -18,13 +18,8 @@ namespace ESKF_VIO_BACKEND {
                     " is not equal to gravity, attitude estimator init failed.");
                 return false;
             }
-            // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            // 计算将 imu 系重力加速度向量旋转到 w 系的姿态
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From f64cdb9b1b7d8db52c5a42cc82c17ce6e2b6b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 04/14] fix: stop cleaning attitude items when none is left

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index efb2fc4..61be4e1 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -116,7 +116,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From cfc80f4c41d008dbb67ddefb71a58caca4ad3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 05/14] fix: GetAttitude finds a single later item within the
 threshold

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 61be4e1..4c1feb7 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -73,7 +73,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From ed6f15f0e2afa0d4104a06c1bd196701f61d2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 06/14] fix: integrate the attitude in the sense of the angular
 rate

The increment was applied with the opposite sign (compare
PropagateMotionNominalState), which also drove the gravity correction away from
the measured direction.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 4c1feb7..4714b9f 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From 721b21aaad2251cda069a2c2edf77f47e0097ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 07/14] fix: skip the gravity correction when the measured
 acceleration is zero

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 4714b9f..5adc7b3 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,9 +41,12 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
-            Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
-            Vector3 err = acc_b_measure.cross(acc_b_target);
+            Vector3 err = Vector3::Zero();
+            if (accel.norm() > ZERO) {
+                Vector3 acc_b_measure = accel / accel.norm();
+                Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
+                err = acc_b_measure.cross(acc_b_target);
+            }
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
-- 
2.43.0


From 0be767ea7b3cc572a31d556896c0dcbbbbce2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 08/14] fix: keep raw IMU samples in the attitude items

They are fed to the propagator, which subtracts its own biases, so the biases
were subtracted twice after a re-initialisation.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 5adc7b3..5151e72 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,8 +36,8 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
@@ -47,7 +47,7 @@ namespace ESKF_VIO_BACKEND {
                 Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
                 err = acc_b_measure.cross(acc_b_target);
             }
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From 7f5ae5a4ed0b8d0b5b72f681f1a1514c373c7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 09/14] fix: drop stale propagator items on re-initialisation

After a failed update the old items (old state, old covariance dimension) were
continued instead of restarting from the initial state.
---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..a001ebc 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -134,6 +134,7 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.initState.v_wb = initState.v_wb;
         this->propagator.initState.q_wb = initState.q_wb;
         // 从 attitude estimator 提取出从首帧时刻点开始，到最新时刻的 imu 量测，依次输入到 propagator 让他递推到最新时刻
+        this->propagator.items.clear();
         this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);
         for (auto it = this->attitudeEstimator.items.begin(); it != this->attitudeEstimator.items.end(); ++it) {
             this->propagator.Propagate((*it)->accel, (*it)->gyro, (*it)->timeStamp);
-- 
2.43.0


From 0fcb53abf5e06e47ce0ff64aa467ca6be132e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 10/14] fix: EstimatePoseRANSAC refuses fewer than three points

Sampling three distinct indices never terminated.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..18c6089 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,7 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
-- 
2.43.0


From 8a8181a2e0a37ec027b4097e3fc2b0b956146090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 11/14] fix: EstimatePoseRANSAC returns the best scoring pose

The pose of the last sample was returned.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 18c6089..56cdcce 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -140,6 +140,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 返回得分最高的模型参数
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From fb65abd5196cd932478300cc241e6c29418743bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 12/14] fix: recompute every inlier flag

resize() keeps the flags of an earlier call, and a NaN residual counted as an
inlier.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 56cdcce..822cd42 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -155,12 +155,12 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), false);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-            if (r.squaredNorm() >= this->ransacParam.inlierThres) {
-                isInlier[i] = false;
+            if (r.squaredNorm() < this->ransacParam.inlierThres) {
+                isInlier[i] = true;
             }
         }
         return true;
-- 
2.43.0


From d4207c012fa3986b6f7d22e57d2bc487504d8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 13/14] fix: LoadMatrix refuses incomplete files and ignores
 surplus rows

Surplus rows were written outside the matrix; missing or malformed entries left
the matrix uninitialised while success was reported.
---
 eskf_vio_backend/src/config/config.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..5c0f953 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,15 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                if (!(matData >> mat(row, col))) {
+                    return false;
+                }
             }
             ++row;
         }
-        return true;
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 920d4a90b60c1f5fe6bfef10d034aadf27f69bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 14/14] fix: attribute observations to the frame that made them

A feature that was lost and found again, reported twice in a message or without
measurements got its observations attributed to other frames (or read out of
range). Frames without an observation are now filled with empty observations.
---
 .../vision_data/feature_manager.cpp             | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..66e372d 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,9 +56,20 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何量测的观测不予添加
+            if (newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
-                // 对应特征点已经存在时，直接添加观测
+                // 此特征点在当前帧中已有观测时，忽略重复的观测
+                if (it->second->FinalFrameID() >= frameID) {
+                    continue;
+                }
+                // 对应特征点已经存在时，以空观测补齐没有观测到它的帧，再添加观测
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(new FeatureObserve());
+                }
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
             } else {
@@ -90,7 +101,7 @@ namespace ESKF_VIO_BACKEND {
                 auto &feature = item.second;
                 if (feature->firstFrameID <= frameID && frameID <= feature->FinalFrameID()) {
                     // 如果此特征点只有这一个观测，则准备删除
-                    if (feature->observes.size()  == 1) {
+                    if (feature->observes[frameID - feature->firstFrameID]->norms.size() == feature->observeNum) {
                         feature->observes.clear();
                         needDelete.emplace_back(feature->id);
                         continue;
@@ -113,7 +124,7 @@ namespace ESKF_VIO_BACKEND {
                 auto &feature = item.second;
                 if (feature->firstFrameID == frameID) {
                     // 如果此特征点只有这一个观测，则准备删除
-                    if (feature->observes.size()  == 1) {
+                    if (feature->observes[0]->norms.size() == feature->observeNum) {
                         feature->observes.clear();
                         needDelete.emplace_back(feature->id);
                         continue;
-- 
2.43.0

