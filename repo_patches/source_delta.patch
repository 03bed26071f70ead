From 810d7e6d0edf8240e2d3335fb340a03a33ed8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 01/40] fix: small-angle series of axisAngle2quat has the wrong
 sign (sin(x/2)/x = 1/2 - x^2/48)

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..7c10e1b 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From e4cce8a3bf90345831995ffcea8c7e2ee10254de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 02/40] fix: arcSinXOverX dropped its second-order term
 (integer division 1/6)

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 7c10e1b..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 6c7647cc27a4c56db129aa956d55bc3fce34f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 03/40] fix: propagate the covariance of sums and differences
 of homogeneous points with their Jacobians

---
 .../sm_kinematics/src/HomogeneousPoint.cpp          | 11 +++++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp | 13 ++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..ee48916 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,4 +1,5 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm_common/serialization_macros.hpp>
@@ -51,7 +52,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +68,11 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // d(lhs - rhs)/d(rhs)
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+      PL.topLeftCorner<3,3>() *= -1.0;
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..7f484fb 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -160,8 +160,10 @@ namespace sm {
       const Eigen::Vector4d & pr = rhs.toHomogeneous();
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
+
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
       
-      return UncertainHomogeneousPoint(rval, U4());
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -174,8 +176,10 @@ namespace sm {
 	const Eigen::Vector4d & pr = rhs.toHomogeneous();
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
+
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,8 +207,11 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// d(lhs - rhs)/d(rhs)
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.topLeftCorner<3,3>() *= -1.0;
+	// d(lhs - rhs)/d(lhs)
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 684bc42b6dd91227676e0234754be4a5ac51cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:46 +0000
Subject: [PATCH 04/40] fix: PinholeProjection::homogeneousToKeypoint with
 Jacobian ignores the sign of the scale

---
 .../cameras/implementation/PinholeProjection.hpp              | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..379beda 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -179,10 +179,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.derived().resize(KeypointDimension, 4);
   J.setZero();
 
-  // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
-
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
         -ph.derived().template head<3>(), outKeypoint,
-- 
2.43.0


From 584a2d372e97ff144718e3ea27d41286691569b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 05/40] fix: PinholeProjection::keypointToEuclidean Jacobian
 scales rows instead of columns

---
 .../cameras/implementation/PinholeProjection.hpp          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 379beda..b4783f5 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -257,10 +257,10 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  J.derived()(0, 0) = Jd(0, 0) * _recip_fu;
+  J.derived()(0, 1) = Jd(0, 1) * _recip_fv;
+  J.derived()(1, 0) = Jd(1, 0) * _recip_fu;
+  J.derived()(1, 1) = Jd(1, 1) * _recip_fv;
 
   return isValid(keypoint);
 
-- 
2.43.0


From 4c3408595a8bceb288784f68c782f100d4304343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 06/40] fix: ExtendedUnifiedProjection intrinsics Jacobian uses
 the wrong focal length in the second row

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..32ff534 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -432,7 +432,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From 7478e8766a0325ab478cf62637e9ff8a308dc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 07/40] fix: chained SM_CHECKMEMBERSSAME/SM_CHECKSAME only
 compared the first member (missing parentheses)

---
 .../sm_common/include/sm_common/serialization_macros.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index 814afca..dc8043a 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
         SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 6dd6fe1236dd9966fbb7c138c77c89c5264a4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 08/40] fix: EquidistantDistortion returns NaN on the optical
 axis (undistortion and all Jacobians)

---
 .../implementation/EquidistantDistortion.hpp       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
index c7bda6b..4cdaa8f 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp
@@ -50,6 +50,13 @@ void EquidistantDistortion::distort(
 
   double r, theta, theta2, theta4, theta6, theta8, thetad, scaling;
 
+  // on the optical axis the expressions below are 0/0, their limit is the identity
+  r = sqrt(y[0] * y[0] + y[1] * y[1]);
+  if (r <= 1e-8) {
+    J.setIdentity();
+    return;
+  }
+
   //MATLAB generated Jacobian
   J(0, 0) = atan(sqrt(y[0] * y[0] + y[1] * y[1])) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1])
@@ -204,7 +211,7 @@ void EquidistantDistortion::undistort(
     theta = thetad
         / (1 + _k1 * theta2 + _k2 * theta4 + _k3 * theta6 + _k4 * theta8);
   }
-  scaling = tan(theta) / thetad;
+  scaling = (thetad > 1e-8) ? tan(theta) / thetad : 1.0;
 
   y[0] *= scaling;
   y[1] *= scaling;
@@ -255,6 +262,11 @@ void EquidistantDistortion::distortParameterJacobian(
   J.derived().resize(2, 4);
   J.setZero();
 
+  // on the optical axis the expressions below are 0/0, their limit is zero
+  if (sqrt(y[0] * y[0] + y[1] * y[1]) <= 1e-8) {
+    return;
+  }
+
   J(0, 0) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 3.0) * 1.0
       / sqrt(y[0] * y[0] + y[1] * y[1]);
   J(0, 1) = y[0] * pow(atan(sqrt(y[0] * y[0] + y[1] * y[1])), 5.0) * 1.0
-- 
2.43.0


From 77850363395cc8422250ae64ac1573a9283ae651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 09/40] fix: FovDistortion parameter Jacobian close to the
 optical axis ignored the coordinates

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..f72a4a2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J << u, v;
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From a5b562ff202a292400fd73668a41c6a1e6566312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 10/40] fix: Duration normalisation leaves nsec == 1e9 when it
 should carry into seconds

---
 aslam_cv/aslam_time/src/duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/duration.cpp b/aslam_cv/aslam_time/src/duration.cpp
index 92cfa63..0bb8e31 100644
--- a/aslam_cv/aslam_time/src/duration.cpp
+++ b/aslam_cv/aslam_time/src/duration.cpp
@@ -7,7 +7,7 @@ void normalizeSecNSecSigned(int64_t& sec, int64_t& nsec) {
   int64_t nsec_part = nsec;
   int64_t sec_part = sec;
 
-  while (nsec_part > 1000000000L) {
+  while (nsec_part >= 1000000000L) {
     nsec_part -= 1000000000L;
     ++sec_part;
   }
-- 
2.43.0


From 0eb01bc3e61ea58ea8e7ed7839fe0d20473848a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 11/40] fix: Time arithmetic rejects results in the upper half
 of its 32-bit unsigned range

---
 aslam_cv/aslam_time/src/time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_time/src/time.cpp b/aslam_cv/aslam_time/src/time.cpp
index 42a5527..fb15cba 100644
--- a/aslam_cv/aslam_time/src/time.cpp
+++ b/aslam_cv/aslam_time/src/time.cpp
@@ -379,7 +379,7 @@ void normalizeSecNSecUnsigned(int64_t& sec, int64_t& nsec) {
     --sec_part;
   }
 
-  if (sec_part < 0 || sec_part > INT_MAX)
+  if (sec_part < 0 || sec_part > UINT_MAX)
     throw std::runtime_error("Time is out of dual 32-bit range");
 
   sec = sec_part;
-- 
2.43.0


From 01b0f66539f33e70c16a8d5a2e28069494959319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 12/40] fix: Duration::fromSec leaves a negative nanosecond
 field for negative durations

---
 .../aslam_time/include/aslam_time/implementation/Duration.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
index 5cd6611..cb40dda 100644
--- a/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/implementation/Duration.hpp
@@ -62,6 +62,7 @@ T& DurationBase<T>::fromSec(double d) {
     sec = (int32_t) floor(d) + 1;
 #endif
   nsec = (int32_t)((d - (double) sec) * 1000000000);
+  normalizeSecNSecSigned(sec, nsec);
   return *static_cast<T*>(this);
 }
 
-- 
2.43.0


From af70f315d1efd690fde5d11b2966c7fc3f677c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 13/40] fix: Time::fromSec can round the nanoseconds up to a
 full second without carrying

---
 aslam_cv/aslam_time/include/aslam_time/Time.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv/aslam_time/include/aslam_time/Time.hpp b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
index 647a676..79ddfb1 100644
--- a/aslam_cv/aslam_time/include/aslam_time/Time.hpp
+++ b/aslam_cv/aslam_time/include/aslam_time/Time.hpp
@@ -155,6 +155,7 @@ class TimeBase {
   T& fromSec(double t) {
     sec = (uint32_t) floor(t);
     nsec = (uint32_t) boost::math::round((t - sec) * 1e9);
+    normalizeSecNSec(sec, nsec);
     return *static_cast<T*>(this);
   }
 
-- 
2.43.0


From 543bf7b0e871a88f63d47cef6438539fbee8007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 14/40] fix: ErrorTermEuclidean overrides the const Jacobian
 hook, so it can be instantiated

---
 .../include/aslam_backend_expressions/ErrorTermEuclidean.hpp    | 2 +-
 .../aslam_backend_expressions/src/ErrorTermEuclidean.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
index 8b6fd3f..6306802 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/ErrorTermEuclidean.hpp
@@ -41,7 +41,7 @@ namespace aslam {
       virtual double evaluateErrorImplementation();
 
       /// \brief evaluate the jacobian
-      virtual void evaluateJacobiansImplementation(JacobianContainer & J);
+      virtual void evaluateJacobiansImplementation(JacobianContainer & J) const;
 
     private:
       aslam::backend::EuclideanExpression _t;
diff --git a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
index c476aa5..ce2d32d 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/ErrorTermEuclidean.cpp
@@ -59,7 +59,7 @@ namespace aslam {
 
 
   /// \brief evaluate the jacobians
-  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians)
+  void ErrorTermEuclidean::evaluateJacobiansImplementation(JacobianContainer & _jacobians) const
   {
      _t.evaluateJacobians(_jacobians);
   }
-- 
2.43.0


From e6eab3a65fb59408446578245eb7c948a861860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 15/40] fix: Jacobian of the minimal difference of quaternion
 design variables is NaN at zero difference

---
 .../aslam_backend_expressions/src/HomogeneousPoint.cpp          | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedRotationQuaternion.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
index a716dae..419eae3 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/HomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..fc2b30c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -85,7 +85,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
   } // namespace backend
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..e7420ac 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -83,7 +83,7 @@ namespace aslam {
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
      Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
-     outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
+     outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
   } // namespace backend
-- 
2.43.0


From 8ac195e1f11b8e4d5ff402a946d88c99824f5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 16/40] fix: mapped design variables compute their minimal
 difference from the current value

---
 .../implementation/DesignVariableMappedVector.hpp             | 2 +-
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp  | 4 ++--
 .../src/MappedRotationQuaternion.cpp                          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index fc2b30c..122eb1c 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,7 +84,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index e7420ac..6794b7a 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,7 +82,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian2(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
-- 
2.43.0


From 1b0b1e0f8c95d64c6b5e7d54e58530d651396dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 17/40] fix: verify the whole new knot sequence of a B-spline,
 not as many knots as the old one had

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..55b7802 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 8ce830e16003aedcba7c872d823d9f89809d7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 18/40] fix: evaluate a B-spline with a repeated last knot at
 its end time on the last nonempty segment (returned zero)

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 55b7802..5841415 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -251,6 +251,9 @@ namespace aslam_bsplines {
 	  // interval. This is not stricly correct but it will be useful when we start doing
 	  // estimation and defining knots at our measurement times.
 	  i = knots_.end() - splineOrder_;
+	  // Skip empty segments caused by repeated knots: the value is the limit from the left.
+	  while(i - knots_.begin() > splineOrder_ && *(i-1) == *i)
+	    --i;
 	}
       else
 	{
-- 
2.43.0


From 0555d4088f76919df347c40ba1c9531d5ada46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 19/40] fix: removing the first B-spline segment must drop its
 basis matrix too

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 5841415..db9f87d 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -746,6 +746,8 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
 	{
 	  knots_.erase(knots_.begin());
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
+	  if(!basisMatrices_.empty())
+	    basisMatrices_.erase(basisMatrices_.begin());
 	}
     }
 
-- 
2.43.0


From 7fe63e39739ca632a903753dd7fb71ecd7f8076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 20/40] fix: angularVelocityAndJacobian of the pose spline has
 the sign of angularVelocity (and so has its Jacobian)

---
 .../aslam_bsplines/src/BSplinePose.cpp                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..2f5a2a8 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,12 +273,12 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
 	{
-	  *J = Jo * Jpdot;
+	  *J = -Jo * Jpdot;
 	}
 
       return omega;
-- 
2.43.0


From d9fad4d16a9b61582eb66e427bc2dd08fd7354af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 21/40] fix: angularAccelerationAndJacobian of the pose spline
 has the sign of the body frame version rotated into the world

---
 .../aslam_bsplines/src/BSplinePose.cpp                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index 2f5a2a8..bd7b2b6 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -349,10 +349,10 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
     	if(J)
     	{
-    		*J = Jo * Jpdot;
+    		*J = -Jo * Jpdot;
     	}
 
     	return omega;
-- 
2.43.0


From 26a70318e18c41c2dfe84d55d5fb598b960094ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 22/40] fix: address the local Jacobian block by coefficient,
 not by buffer position, in the time offset transformation

---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..84efa43 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -479,7 +479,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From a373c8da32414329206a6f4251edd8fb1b7ece13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 23/40] fix: Jacobian of the body frame acceleration of the
 pose spline follows its value (rotation kept as is, derivative of the
 rotation with respect to the parameters)

---
 .../include/aslam_bsplines/BSplinePose.hpp        |  1 +
 .../aslam_bsplines/src/BSplinePose.cpp            | 15 +++++++++++++++
 .../aslam_splines/src/BSplineExpressions.cpp      |  8 ++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSplinePose.hpp b/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSplinePose.hpp
index 975fcf5..5c3bfe8 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSplinePose.hpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSplinePose.hpp
@@ -69,6 +69,7 @@ namespace aslam_bsplines {
 
       Eigen::Vector3d linearAcceleration(double tk) const;
       Eigen::Vector3d linearAccelerationBodyFrame(double tk) const;
+      Eigen::Vector3d linearAccelerationBodyFrameAndJacobian(double tk, Eigen::MatrixXd * J, Eigen::VectorXi * coefficientIndices) const;
       Eigen::Vector3d linearAccelerationAndJacobian(double tk, Eigen::MatrixXd * J, Eigen::VectorXi * coefficientIndices) const;      
 
       Eigen::Vector3d angularVelocity(double tk) const;
diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index bd7b2b6..bd9d9f4 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -179,6 +179,21 @@ namespace aslam_bsplines {
       return C_wb.transpose() * evalD(tk, 2).head<3>();
     }
 
+    Eigen::Vector3d BSplinePose::linearAccelerationBodyFrameAndJacobian(double tk, Eigen::MatrixXd * J, Eigen::VectorXi * coefficientIndices) const
+    {
+      Eigen::MatrixXd Ja;
+      Eigen::Vector3d a_w = linearAccelerationAndJacobian(tk, &Ja, coefficientIndices);
+      Eigen::MatrixXd Jr;
+      Eigen::Matrix3d C_b_w = inverseOrientationAndJacobian(tk, &Jr, NULL);
+      Eigen::Vector3d a_b = C_b_w * a_w;
+      if(J)
+	{
+	  // The acceleration and the orientation both depend on the coefficients.
+	  *J = C_b_w * Ja + sm::kinematics::crossMx(a_b) * Jr;
+	}
+      return a_b;
+    }
+
     Eigen::Vector3d BSplinePose::linearAccelerationAndJacobian(double tk, Eigen::MatrixXd * J, Eigen::VectorXi * coefficientIndices) const
     {
       
diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 84efa43..79a8e7e 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -313,8 +313,8 @@ namespace aslam {
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
       Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      _spline->linearAccelerationBodyFrameAndJacobian(_time, &J, NULL);
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -327,8 +327,8 @@ namespace aslam {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
       Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      _spline->linearAccelerationBodyFrameAndJacobian(_time, &J, NULL);
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From 29d825683a6c200f8c7612f8bce471b9a7a0d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 24/40] fix: the motion error terms of a spline measure the
 current coefficients (the offset had the wrong sign)

---
 .../aslam_splines/implementation/BSplineMotionErrorFactory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
index 317650a..27d8863 100644
--- a/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
+++ b/aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineMotionErrorFactory.hpp
@@ -17,8 +17,9 @@ void addMotionErrorTerms(OptimizationProblemBase& problem, SplineDv& splineDv, c
     for(unsigned i = 0; i < idxs.size(); ++i) {
       dvs.push_back(splineDv.designVariable(idxs[i]));
     }
+    // The error of the prior is -(d - R * dc), which is R * (c + dc) when d is -R * c.
     MarginalizationPriorErrorTerm::Ptr err( 
-        new MarginalizationPriorErrorTerm( dvs, R*c, R ));
+        new MarginalizationPriorErrorTerm( dvs, -(R*c), R ));
     problem.addErrorTerm(err);
             
   }
-- 
2.43.0


From a08c8494d7995105465829453116cc889614ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 25/40] fix: the timestamp corrector forgets its midpoint
 segment when the hull shrinks back to two points

---
 .../include/sm_timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
index a795242..420f245 100755
--- a/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
+++ b/Schweizer-Messer/sm_timing/include/sm_timing/implementation/TimestampCorrector.hpp
@@ -57,6 +57,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
   }
   else
   {
+    // The hull may have shrunk back to a single segment.
+    _midpointSegmentIndex = 0;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From 2e4802f0f30260f34af23931578b79088244d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 26/40] fix: getPointDataPointer refuses indices outside the
 grid instead of the ones inside

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..2e36d3e 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!")
   return &_points(i, 0);
 }
 
-- 
2.43.0


From a2f0d9d78bb5f9c5afc1ab65cc85e8a992e3d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 27/40] fix: stack the euclidean intrinsics Jacobians of a
 camera by columns

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..fe8e3c9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From d58fb94e7dd96caff4adac79264f235cf13b8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 28/40] fix: the virtual visibility tests of a camera ignored
 its mask

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index fe8e3c9..7aed6c8 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -121,13 +121,13 @@ namespace aslam {
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsEuclideanVisible(
         const Eigen::Vector3d & p) const {
-      return _projection.isEuclideanVisible(p);
+      return isEuclideanVisible(p);
     }
 
     template<typename P, typename S, typename M>
     bool CameraGeometry<P, S, M>::vsIsHomogeneousVisible(
         const Eigen::Vector4d & ph) const {
-      return _projection.isHomogeneousVisible(ph);
+      return isHomogeneousVisible(ph);
     }
 
     // The amount of time elapsed between the start of the image and the
-- 
2.43.0


From 2783fc11e820ea638825c52344b6527263b152fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 29/40] fix: time Jacobian of a global shutter has one row,
 resizing its block aborted

---
 .../include/aslam_cameras/cameras/GlobalShutter.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
index 425cea6..556ea16 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GlobalShutter.hpp
@@ -38,7 +38,7 @@ class GlobalShutter {
       const DERIVED_J & outJ) const {
       DERIVED_J & J =
         const_cast<DERIVED_J &>(outJ);
-      J.resize(0, 0);
+      J.resize(1, 0);
 
   }
 
-- 
2.43.0


From 7b328cdb1ec68695e518dd24491f0c856e47949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 30/40] fix: look a keypoint up in the mask only when it lies
 in the image

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 7aed6c8..ac6a641 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -444,7 +444,7 @@ namespace aslam {
     template<typename DERIVED_K>
     bool CameraGeometry<P, S, M>::isValid(
         const DERIVED_K & keypoint) const {
-      return _mask.isValid(keypoint) && _projection.isValid(keypoint);
+      return _projection.isValid(keypoint) && _mask.isValid(keypoint);
     }
 
     template<typename P, typename S, typename M>
-- 
2.43.0


From f7035b0a6fdfec13946880b19d618ca6cc5471ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 31/40] fix: remove exactly the conditioner that was added to
 the block Hessian

solveSystem() and computeCovarianceBlocks() add the square of the conditioner
to the diagonal but subtracted the conditioner itself afterwards, so that every
further solve without a rebuild used a corrupted Hessian.
---
 .../aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..828ea25 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -92,7 +92,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows()).cwiseAbs2();
           rowBase += block.rows();
         }
       }
@@ -141,7 +141,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows()).cwiseAbs2();
           rowBase += block.rows();
         }
       }
-- 
2.43.0


From daf214106988298bbb31fe6f4f169b5d0f42ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 32/40] fix: use the whole Hessian in
 BlockCholeskyLinearSystemSolver::rhsJtJrhs

Only the upper block triangle is stored, so the product left out the lower one
and the dog leg policy scaled its steepest descent step wrongly.
---
 .../src/BlockCholeskyLinearSystemSolver.cpp          | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 828ea25..5f10407 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -170,9 +170,19 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
+        // Only the upper block triangle of the symmetric Hessian is stored.
         Eigen::VectorXd JtJrhs;
         _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        double result = 2.0 * _rhs.dot(JtJrhs);
+        int rowBase = 0;
+        for (int i = 0; i < _H._M.bRows(); ++i) {
+          const int n = _H._M.rowsOfBlock(i);
+          const Eigen::MatrixXd* block = _H._M.block(i, i);
+          if (block)
+            result -= _rhs.segment(rowBase, n).dot(*block * _rhs.segment(rowBase, n));
+          rowBase += n;
+        }
+        return result;
     }
       
 
-- 
2.43.0


From 24097040dabde3111a017c7ca7f9f4ecedd1fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 33/40] fix: make the dense QR solver honour the conditioner
 and its own system

The request for a diagonal conditioner was ignored, leaving the flag
uninitialised, and the right-hand side followed later error evaluations
although the Jacobian did not, so a retried step solved a mixed system.
---
 .../backend/DenseQrLinearSystemSolver.hpp           |  3 ++-
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
index d57f106..c7028cb 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DenseQrLinearSystemSolver.hpp
@@ -54,7 +54,8 @@ namespace aslam {
       /// \brief the dense Jacobian matrix
       DenseMatrix _J;
 
-      Eigen::VectorXd _truncated_e;
+      /// \brief the error vector the system was built with
+      Eigen::VectorXd _built_e;
 
       /// Options
       DenseQRLinearSolverOptions _options;
diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..8a67dfa 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
@@ -35,6 +36,8 @@ namespace aslam {
       _J._M.setZero();
       setupThreadedJob(boost::bind(&DenseQrLinearSystemSolver::evaluateJacobians, this, _1, _2, _3, _4), nThreads, useMEstimator);
       _rhs = _J._M.transpose() * _e;
+      // The error may be evaluated at another state before this system is solved again.
+      _built_e = _e;
     }
 
 
@@ -45,14 +48,14 @@ namespace aslam {
         _J._M.conservativeResize(_JRows + _JCols, Eigen::NoChange);
         _J._M.bottomRows(_JCols) = _diagonalConditioner.asDiagonal();
         // Append zeros to make the sizes match.
-        _e.conservativeResize(_JRows + _JCols);
-        _e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
+        _built_e.conservativeResize(_JRows + _JCols);
+        _built_e.tail(_JCols) = Eigen::VectorXd::Zero(_JCols);
       }
-      outDx = _J._M.colPivHouseholderQr().solve(_e);
+      outDx = _J._M.colPivHouseholderQr().solve(_built_e);
       if (_useDiagonalConditioner) {
         // Remove the diagonal
         _J._M.conservativeResize(_JRows, Eigen::NoChange);
-        _e.conservativeResize(_JRows);
+        _built_e.conservativeResize(_JRows);
       }
       return true;
     }
-- 
2.43.0


From cd5cff2e83926d582478641c2eadcb942c415ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 34/40] fix: keep compressed column matrices consistent when
 refilled

clear() sized the column pointers by the number of rows, and filling a matrix
from dense or CHOLMOD data kept the mark of a diagonal block of the old content.
---
 .../backend/implementation/CompressedColumnMatrix.hpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..00e3f5f 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -133,7 +133,7 @@ namespace aslam {
     {
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      _col_ptr.assign(_cols + 1, (index_t)0);
     }
 
 
@@ -418,6 +418,7 @@ namespace aslam {
       _cols = M.cols();
       _values.clear();
       _row_ind.clear();
+      _hasDiagonalAppended = false;
       _col_ptr.resize(1);
       _col_ptr[0] = 0;
       tolerance = fabs(tolerance);
@@ -462,6 +463,7 @@ namespace aslam {
         return;
       _rows = cs->nrow;
       _cols = cs->ncol;
+      _hasDiagonalAppended = false;
       const I* row_ind = reinterpret_cast<const I*>(cs->i);
       const I* col_ptr = reinterpret_cast<const I*>(cs->p);
       const double* values = reinterpret_cast<const double*>(cs->x);
-- 
2.43.0


From 550dde80c71d7ad28adddb5b967dab66966f24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 35/40] fix: report a failed QR factorisation with column
 scaling

The missing solution was dereferenced to undo the scaling.
---
 .../aslam_backend/backend/implementation/Cholmod.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
index 6c7186a..b1f66c9 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
@@ -430,10 +430,12 @@ namespace aslam {
       if (norm) {
         const double* svalues =
           reinterpret_cast<const double*>(scaling->x);
-        double* rvalues =
-          reinterpret_cast<double*>(res->x);
-        for (size_t i = 0; i < qrJ->ncol; ++i)
-          rvalues[i] = svalues[i] * rvalues[i];
+        if (res) {
+          double* rvalues =
+            reinterpret_cast<double*>(res->x);
+          for (size_t i = 0; i < qrJ->ncol; ++i)
+            rvalues[i] = svalues[i] * rvalues[i];
+        }
         CholmodIndexTraits<index_t>::free_dense(&scaling, &_cholmod);
       }
       CholmodIndexTraits<index_t>::free_sparse(&qrJ, &_cholmod);
-- 
2.43.0


From ae69e070741ed85559aeded104840b49e7537b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 36/40] fix: do not lose the steepest descent part of the dog
 leg gain

1/2 is an integer division, so the predicted decrease of a dog leg step was
too small, and zero at the Cauchy point.
---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..1d714ca 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -131,7 +131,7 @@ namespace aslam {
                     }
 
                     _dx = _dx_sd + _beta * ( dgnsd );
-                    _L0 = 1/2 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
+                    _L0 = 0.5 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
                     _stepType = "DL";
                 }
             }
-- 
2.43.0


From 7a23461e7c39e6b73f05372185f83a3264973fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 37/40] fix: measure a failed step against the last accepted
 cost

After a failed step the decrease was computed from the cost before the last
accepted step, so the dog leg policy could take the failure for a success and
repeat the same step until the iteration limit.
---
 aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
index 3e7b135..30368fc 100644
--- a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
@@ -39,6 +39,7 @@ namespace aslam {
         bool TrustRegionPolicy::solveSystem(double J, bool previousIterationFailed, int nThreads, Eigen::VectorXd& outDx)
         {
             if(previousIterationFailed) {
+                _p_J = _last_successful_J;
                 _J = J;
             } else {
                 _p_J = _last_successful_J;
-- 
2.43.0


From f1910b69b10f8451c1d679f03d689b19cc8ce2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 38/40] fix: compute the Gauss-Newton step again after a solver
 failure

When the linear solver failed, the next call of the dog leg policy used the
Gauss-Newton step of an older system, or an empty vector.
---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp     | 1 +
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp         | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..8bfd7a9 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -38,6 +38,7 @@ namespace aslam {
             double _L0;
             double _sd_scale;
             double _beta;
+            bool _gnComputed; // is _dx_gn the step of the current system?
             double _delta;
             double _p_delta;
             std::string _stepType;
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 1d714ca..f93ff62 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -18,6 +18,7 @@ namespace aslam {
             std::string _stepType;
             _delta  = 0;
             _p_delta = 0;
+            _gnComputed = false;
 
         }
 
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -75,7 +75,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -89,14 +89,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From 0cc03a1a81c6a591a3980ce27ebcc99b48748e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 39/40] fix: let the optimizer recover from a linear solver
 failure

One failure kept the flag set for good: later successful steps never
converged and the result was reported as a failure.
---
 aslam_optimizer/aslam_backend/src/Optimizer2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..e109d68 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -228,6 +228,7 @@ namespace aslam {
                     linearSolverFailure = true;
                     srv.failedIterations++;
                 } else {
+                    linearSolverFailure = false;
                     /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
                     timeBackSub.start();
                     deltaX = applyStateUpdate();
-- 
2.43.0


From 15e35c3e40b9bc226852b94093cc4dae97916691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 40/40] fix: do not keep an error term that the problem refused

addErrorTerm() stored the term before it checked that its design variables
are part of the problem.
---
 aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
index 6c0e392..73c4978 100644
--- a/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
+++ b/aslam_optimizer/aslam_backend/src/OptimizationProblem.cpp
@@ -58,11 +58,14 @@ namespace aslam {
     /// \brief Add an error term to the problem
     void OptimizationProblem::addErrorTerm(const boost::shared_ptr<ErrorTerm> & et)
     {
+      for (size_t i = 0; i < et->numDesignVariables(); ++i) {
+        DesignVariable* dv = et->designVariable(i);
+        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
+      }
       _errorTerms.push_back(et);
       // add this error term to the multi-map
       for (size_t i = 0; i < et->numDesignVariables(); ++i) {
         DesignVariable* dv = et->designVariable(i);
-        SM_ASSERT_TRUE_DBG(aslam::InvalidArgumentException, isDesignVariableInProblem(dv), "It is illegal to add an error term that contains a missing design variable. Add the design variables to the problem before adding the error terms.");
         _errorTermMap.insert(std::make_pair(dv, et.get()));
       }
     }
-- 
2.43.0

