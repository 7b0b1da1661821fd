From 9582c0755b48f0671f2f782e880714929631a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 01/35] fix: sign of the second-order term of the small-angle
 series in axisAngle2quat

sin(theta/2)/theta = 1/2 - theta^2/48 + ...
---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..4fe67c4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 33db3f44db0112e55f8b9eca8ac36f7eac3f4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 02/35] fix: arcSinXOverX lost the second-order term to an
 integer division (1/6)

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 4fe67c4..a0c1929 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 74cc78662ad1fb6e9fc46bf371d1cc9b12c9f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 03/35] fix: axisAngle2R(angle, axis) returned the identity for
 every negative angle

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From cfbd8df5f6f24eb36ab6906db2e4b4b40694587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 04/35] fix: quatLogJacobian was NaN or inaccurate near the
 identity quaternion

---
 sm_kinematics/src/quaternion_algebra.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index a0c1929..50bef42 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -431,13 +431,18 @@ namespace sm { namespace kinematics {
 
           double n = qeps(p).norm();
 
+          if(n < 1e-50 && p(3) > 0){
+            // Limit at the identity.
+            J.leftCols<3>() = 2.0 * Eigen::Matrix3d::Identity();
+            return J;
+          }
 
           double de = n*n*n;//pow(n, 3);
           double u12 = p(1)*p(1) + p(2)*p(2);//pow(p(1), 2) + pow(p(2), 2);
           double u02 = p(0)*p(0) + p(2)*p(2);//pow(p(0), 2) + pow(p(2), 2);
           double u01 = p(0)*p(0) + p(1)*p(1);//pow(p(0), 2) + pow(p(1), 2);
-          double a = acos(p(3));
-          double uw = sqrt(-(p(3)*p(3) - 1)*n*n);
+          double a = atan2(n, p(3)); // == acos(p(3)), but accurate close to the identity, too
+          double uw = n*n;           // == sqrt(1 - p(3)*p(3))*n
 
           J(0,0) = 2*a*u12 / de;
           J(0,1) = -2*a*p(1)*p(0) / de;
-- 
2.43.0


From 07fe14f4daaa888a0c2c57a1cdda4783db00a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 05/35] fix: RotationVector angular velocity Jacobian was NaN
 at the zero rotation vector

---
 sm_kinematics/src/RotationVector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..1cab015 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -134,6 +134,14 @@ namespace sm { namespace kinematics {
                 double t6 = t2*t2;
                 double t7 = t3*t3;
                 double t8 = t5+t6+t7;
+                if(t8 < 1e-8)
+                {
+                    // The closed form below is singular at zero and loses all digits close to it.
+                    // S = I - 1/2 [p]x + 1/6 [p]x [p]x + O(|p|^3)
+                    J.block<3,3>(0,0) = 0.5 * crossMx(pdot)
+                        + (1.0/6.0) * (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose());
+                    return omega;
+                }
                 double t9 = pow(t8,3.0/2.0);
                 double t10 = sqrt(t8);
                 double t11 = sin(t10);
-- 
2.43.0


From e95e3c6456a3ff1120deccb169c3a31be00d6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 06/35] fix: RotationVector::parametersToInverseSMatrix
 returned garbage for small rotation vectors

---
 sm_kinematics/src/RotationVector.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index 1cab015..bd1d3aa 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -201,8 +201,13 @@ namespace sm { namespace kinematics {
             }
             else
             {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
+                // 1/phi^2 * (1 - phi/2 cot(phi/2)) with its series for small angles
+                double a1 = 1.0/12.0;
+                if(phi > 1e-4)
+                {
+                    double cot = std::cos(0.5*phi)/std::sin(0.5*phi);
+                    a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
+                }
                 invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
             }
             return invS;
-- 
2.43.0


From d874b797ddbe1af1f42d877bf311675e50d0d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 07/35] fix: covariance of sums and differences of uncertain
 homogeneous points

The difference used the Jacobians of the sum, and the operations with one
certain operand returned the covariance of the other one unscaled, which is
only right when the certain point has scale one and the fourth row of the
covariance is zero. Use J*U*J^T with the derivative of the operation.
---
 sm_kinematics/src/HomogeneousPoint.cpp          | 11 +++++++++--
 sm_kinematics/src/UncertainHomogeneousPoint.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..962b7a8 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
@@ -51,7 +52,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +68,11 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // [-p3 * 1, p; 0, p3] is the derivative with respect to the right hand side.
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+      PL.topLeftCorner<3,3>() *= -1.0;
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..73e6241 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -160,8 +160,10 @@ namespace sm {
       const Eigen::Vector4d & pr = rhs.toHomogeneous();
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
+
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
       
-      return UncertainHomogeneousPoint(rval, U4());
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -174,8 +176,10 @@ namespace sm {
 	const Eigen::Vector4d & pr = rhs.toHomogeneous();
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
+
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,8 +207,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// [-p3 * 1, p; 0, p3] is the derivative with respect to the right hand side.
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.topLeftCorner<3,3>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 5f25afd67c45b8e416cecc52047679c9fff20e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 08/35] fix: SM_DEG2RAD has full double precision

The constant had 14 significant digits, so half a turn in degrees was
5e-14 away from pi and degree/radian conversions were not inverse up to
rounding.
---
 sm_kinematics/include/sm/kinematics/rotations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/include/sm/kinematics/rotations.hpp b/sm_kinematics/include/sm/kinematics/rotations.hpp
index 7774493..df7ce9e 100755
--- a/sm_kinematics/include/sm/kinematics/rotations.hpp
+++ b/sm_kinematics/include/sm/kinematics/rotations.hpp
@@ -16,7 +16,7 @@
 #define SM_PI_2 		1.5707963267948966 // pi/2
 #define SM_PI_4 		0.7853981633974483 // pi/4
 #define SM_2PI 		6.283185307179586  // 2*pi
-#define SM_DEG2RAD	0.017453292519943  // pi/180
+#define SM_DEG2RAD	0.017453292519943295  // pi/180
 #define SM_RAD2DEG	57.295779513082323 // 180/pi
 
 #define SM_1_PI_F 	0.3183098861837907f
-- 
2.43.0


From 4fcf2e8cdcd136ccd7e696a289d1643a37930626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 09/35] fix: isValid(NsecTime) was inverted and
 getInvalidTime() unusable

isValid returned true exactly for the invalid time. getInvalidTime is
constexpr, so it has to be defined in the header to be callable.
---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,12 +35,8 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From 0b39e661ddd7f202d1610856235a00bb42c7d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 10/35] fix: parenthesise the SM_CHECKSAME and
 SM_CHECKMEMBERSSAME macros

The conditional operator was not enclosed in parentheses, so in
"SM_CHECKMEMBERSSAME(rhs, a) && SM_CHECKMEMBERSSAME(rhs, b)" the second
comparison was skipped whenever the first one succeeded; e.g.
Transformation::isBinaryEqual ignored the translation.
---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..aa1e56d 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 359b9bc7a604317694d45e81ecf3f323c8744a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 11/35] fix: sm::round and sm::lrint return the nearest integer

Adding 0.5 before truncating rounds in the addition: 0.49999999999999994
became 1 and odd integers above 2^52 became even. lrint(double) went
through int and overflowed for values outside its range.
---
 sm_common/include/sm/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..abcaad3 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
@@ -25,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From f15e667812340091435113123bdd0e64495a8132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 12/35] fix: solveQuadratic returned NaN for a*x^2 = 0

---
 sm_common/include/sm/maths.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..0256418 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,12 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    if(n == 0.0)
+      {
+	// b == 0 and c == 0: zero is a double root
+	return std::make_pair(0.0, 0.0);
+      }
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From 8e67d3fb0f1e9b99a98366a017385fd9ad7508b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 13/35] fix: HashId::fromHexString rejects text that is not
 hexadecimal

Text with other characters threw std::invalid_argument after having
changed a part of the identifier, or was accepted (" 1", "+f", "-1").
---
 sm_common/include/sm/hash_id.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..c65499f 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -77,6 +77,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 40f6f20481c4217e97af4b3612b97254340b77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 14/35] fix: PrefixedValueStore: adding the prefix is always
 possible (hasKey and getChild read an uninitialised flag)

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 02df708eba65b1aa64620474255147f6da2f3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 15/35] fix: alternatives lookup took the message of an absent
 deprecated path for a path

---
 sm_value_store/src/ValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..581d045 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -128,8 +128,8 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // the next entry is the deprecation message and not a path candidate
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From 39ff1e4168f50c429d16100acb229996764257bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 16/35] fix: replace and replace_reverse did not terminate when
 the replacement is the target, replace_reverse wrapped around at the first
 position

---
 sm_common/include/sm/string_routines.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..3c7e6c6 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -15,12 +15,11 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            // Never look at the same position again: the replacement may be the target.
+            pos++;
         }
         return str;
     }
@@ -33,12 +32,14 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            // Never look at the same position again: the replacement may be the target.
+            // Nothing precedes the first position.
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From ce2d39547c04d7073f58e28c0513d57be85132b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 17/35] fix: clearing one name of a matrix archive kept a
 string of that name

---
 sm_matrix_archive/src/MatrixArchive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..8c2cd19 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -31,8 +31,9 @@ namespace sm
   // clears a specific value from the archive.
   void MatrixArchive::clear(std::string const & entryName)
   {
-    m_values.erase(entryName);
-    m_values.erase(entryName);
+    // entryName may be the name within the entry itself
+    if(m_values.erase(entryName) == 0)
+      m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 89e1afc40f3b554e689509eea9664b865036d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 18/35] fix: a scalar, vector, created or loaded matrix did not
 replace the string of the same name in a matrix archive

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..64c2ad4 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -134,6 +134,7 @@ namespace sm {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
       m_values[vectorName] = vector;
+      m_strings.erase(vectorName);
     }
 
   } // end namespace sm
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 8c2cd19..68ce877 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -42,6 +42,7 @@ namespace sm
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
+    m_strings.erase(scalarName);
   }
   
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
@@ -76,6 +77,7 @@ namespace sm
 
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
+    m_strings.erase(matrixName);
     return val;
   }
 
@@ -426,9 +428,11 @@ namespace sm
         switch(blockType){
           case MATRIX:
             m_values[name] = matrix;
+            m_strings.erase(name);
             break;
           case STRING:
             m_strings[name] = valueString;
+            m_values.erase(name);
             break;
         }
       }
-- 
2.43.0


From c3f2f44a3f8290a1890042a67bf63e6315dd4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 19/35] fix: setMatrix and setString used the name of the entry
 they had erased when given a name from the archive itself

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 5 ++---
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index 64c2ad4..71c084f 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -121,11 +121,10 @@ namespace sm {
     template<typename Derived>
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
-      if(m_strings.count(matrixName) > 0){
-        m_strings.erase(matrixName);
-      }
       validateName(matrixName, SM_SOURCE_FILE_POS);
       m_values[matrixName] = matrix;
+      // last: matrixName may be the name within the entry that is erased
+      m_strings.erase(matrixName);
     }
   
     template<typename Derived>
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 68ce877..3199342 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -48,10 +48,9 @@ namespace sm
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
   {
     validateName(stringName, SM_SOURCE_FILE_POS);
-    if(m_values.count(stringName) > 0){
-      m_values.erase(stringName);
-    }
     m_strings[stringName] = value;
+    // last: stringName may be the name within the entry that is erased
+    m_values.erase(stringName);
   }
 
   const MatrixArchive::string_map_t & MatrixArchive::getStrings() const
-- 
2.43.0


From a999850481d20e2e36947c0501e54607b5d87d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 20/35] fix: MatrixArchive::createMatrix accepted invalid names

---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 3199342..cc59baf 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -66,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
-- 
2.43.0


From ca42202b6e86eb5f977c635eacb17046a1c91e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 21/35] fix: loading a matrix archive that is cut off read
 uninitialised sizes and end characters; sizes of large matrices overflowed

---
 sm_matrix_archive/src/MatrixArchive.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index cc59baf..72bd51a 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -221,7 +221,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = static_cast<std::streamsize>(rows) * cols * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -243,11 +243,12 @@ namespace sm
     // 4 byte columns
     boost::uint32_t cols;
     fin.read(reinterpret_cast<char *>(&cols),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The archive ended within the size of a matrix");
     
     // data
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = static_cast<std::streamsize>(rows) * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
   }
@@ -274,6 +275,7 @@ namespace sm
     // 4 byte rows
     boost::uint32_t stringSize;
     fin.read(reinterpret_cast<char *>(&stringSize),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The archive ended within the size of a string");
 
     // data
     stringValue.resize(stringSize);
@@ -312,6 +314,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The archive ended within a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 71ff6f335817dfdac56e7048c7ddf430ac8c3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 22/35] fix: MatrixArchive::append wrote nothing

---
 sm_matrix_archive/src/MatrixArchive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 72bd51a..80c168c 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -444,10 +444,15 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 5863db738d7fe7be1b323c2d1f178ad3f2ff3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:11 +0000
Subject: [PATCH 23/35] fix: MatrixArchive::save did not notice when the last
 bytes could not be written

---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 80c168c..02212e7 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -372,6 +372,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
-- 
2.43.0


From b95c0561ab35130c667c505fa8eeb9b66f84d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 24/35] fix: loading a matrix archive cut off within a name
 used uninitialised characters of it

---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 02212e7..2642c7d 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -300,6 +300,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The archive ended within a name");
     name = nameBuffer;
     boost::trim(name);
 
-- 
2.43.0


From 68e8616c8cfc3bccf512cded1d3bc256c7f9128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 25/35] fix: TimestampCorrector kept the index of a segment
 that was gone when its envelope shrank to two points

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..76b8d3b 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From f2238ba464636a8290a0d879e960326d7b26c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:37 +0000
Subject: [PATCH 26/35] fix: TimestampCorrector overflowed and lost precision
 for integer times (nanoseconds)

---
 .../sm/timing/implementation/TimestampCorrector.hpp   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 76b8d3b..5d67923 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    T midpoint = _convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2;
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
@@ -140,8 +140,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::getLocalTime(
 
   // Look up the local timestamp.
   const double helper = static_cast<double>(l2.y - l1.y) / static_cast<double>(l2.x - l1.x);
-  const time_t local_time = static_cast<time_t>(
-          static_cast<double>(l1.y) + helper * static_cast<double>(remoteTime - l1.x));
+  const time_t local_time = l1.y + static_cast<time_t>(helper * static_cast<double>(remoteTime - l1.x));
   return local_time;
 }
 
@@ -161,9 +160,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // The products of integer times (e.g. in nanoseconds) overflow T.
+  typedef typename std::common_type<T, double>::type real_t;
+  const real_t determinant = static_cast<real_t>(v1.x) * static_cast<real_t>(v2.y) - static_cast<real_t>(v1.y) * static_cast<real_t>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= static_cast<real_t>(0.0);
 }
 
 } // namespace timing
-- 
2.43.0


From 17a1ade1bc714d8e5bafd665f7ae0239c4f09498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 27/35] fix: a timer running over a change of the local time
 (summer time) recorded an hour too much or too little

---
 sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..008631b 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -121,7 +121,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -134,7 +134,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From bef84675ffe2593b64293b58922e1a719dadbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 28/35] fix: loading a matrix with zero columns and fixed rows
 read its element (0,0)

---
 sm_eigen/include/sm/eigen/serialization.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..c1ad6a1 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,7 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
 
     }
 
-- 
2.43.0


From 0390f3658eedb6a2b3e2d76a8106317930258d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 29/35] fix: JobQueue::stop() could be missed by a worker about
 to wait, and woke nobody

---
 sm_boost/src/JobQueue.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..6f7bf6b 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -30,13 +30,15 @@ namespace sm {
     }
 
     void JobQueue::stop() {
-        killWorkers_ = true;
+        // with the lock held: a worker must not miss this between checking the flag and waiting
+        boost::mutex::scoped_lock lck(mutex_);
+        killWorkers_ = true; // flag to tell threads to die
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
         work_->join_all();
     }
 
-- 
2.43.0


From 35e4d5e0b7530ae0354c709c6b6083c63ea149f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 30/35] fix: JobQueue::join() dereferenced a null pointer on a
 queue that was never started

---
 sm_boost/src/JobQueue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 6f7bf6b..881661c 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -39,7 +39,10 @@ namespace sm {
     void JobQueue::join()
     {
         stop();
-        work_->join_all();
+        if(work_)
+        {
+            work_->join_all();
+        }
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From d740005682aed3b8b3866df827c18638848c0295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 31/35] fix: a JobQueue could be destroyed while its threads
 were still starting or leaving

---
 sm_boost/src/JobQueue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 881661c..88e2950 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,8 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        // all threads must exit, also those that have not entered exec_loop() yet
+        join();
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
-- 
2.43.0


From 645958798fd82068bd43db897b487ca55ca20ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 32/35] fix: doesKeyExist() looked at a key only up to its
 first zero byte

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..51f60fe 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -95,7 +95,7 @@ namespace sm {
   bool BoostPropertyTreeImplementation::doesKeyExist(const std::string & key) const
   {
     std::string keyNoLeadingSlash = (key.empty() || key[0] != '/') ? key : key.substr(1); // Note: _ptree.get_optional does not seem to like leading slashes
-    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(keyNoLeadingSlash.c_str(),'/'));
+    boost::optional<std::string> val = _ptree.get_optional<std::string>(boost::property_tree::ptree::path_type(keyNoLeadingSlash,'/'));
 
     return (bool)val;
   }
-- 
2.43.0


From b4eadbf992c52b1026a3c844a0f9e8ae2d135530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 33/35] fix: merging property trees split the names of entries
 at their dots

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 51f60fe..e7ca68e 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -289,7 +289,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -309,7 +309,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From 9d2800090a788b166a4a9bbf6d7e0e3077fbbc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 34/35] fix: the children of a property tree entry with a dot
 in its name were not found

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index e7ca68e..a21dc6b 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(boost::property_tree::ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 112a04de76864f8d3666414524318c8ea6942120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 35/35] fix: listing the children of the root "/" of a property
 tree read before an empty string

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index a21dc6b..f8fe1b1 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -263,7 +263,7 @@ namespace sm {
     std::string k;
     if(!key.empty()){
       k = key[0] == '/' ? key.substr(1) : key;
-      if (k.back() == '/'){
+      if (!k.empty() && k.back() == '/'){
         k.resize(k.size() - 1);
       }
     }
-- 
2.43.0

