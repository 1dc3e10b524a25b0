From a665aeb541961d91165e8f63553b6c32b7a2298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 01/14] fix: isTransform/isRotation reject matrices with NaN
 entries

---
 src/types/alrotation.cpp  | 2 +-
 src/types/altransform.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/alrotation.cpp b/src/types/alrotation.cpp
index ef0a0d7..8b9bbb2 100644
--- a/src/types/alrotation.cpp
+++ b/src/types/alrotation.cpp
@@ -192,7 +192,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon))
       {
         return false;
       }
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 4e6608f..bac82af 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -235,7 +235,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon))
       {
         return false;
       }
-- 
2.43.0


From c2daf3ae7112d509c2256726a2099fb03d0807f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 02/14] fix: angleAndAxisRotationFromQuaternion uses the
 normalized quaternion

---
 src/types/alquaternion.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..e7651fb 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -242,8 +242,7 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
+      const Quaternion copy = pQuaternion.normalize();
       pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
       float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
 
-- 
2.43.0


From 28fcb4f136311a03d3106bea9712172f42225877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 03/14] fix: quaternionFromTransform returns no NaN when the
 trace exceeds 3 by rounding

---
 src/tools/altransformhelpers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..7418144 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1220,6 +1220,10 @@ namespace AL {
         {
           trace = 0.0f;
         }
+        else if (trace > 4.0f)
+        {
+          trace = 4.0f;
+        }
 
         const float qs = 0.5f*std::sqrt(trace);
         const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
-- 
2.43.0


From 9785b678de09fd17b6f618e1e31f45b7a41cc497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 04/14] fix: modulo2PI maps -PI to PI, the interval is ]-PI,
 PI]

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..0729b15 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From eb994cf808dc16964437500b57f97fa8dda89132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 05/14] fix: transformLogarithm halves small rotations

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 7418144..6f4c105 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,7 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          coeff = 0.5f; // limit of angle/(2*sin(angle))
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From 778a1f0640d03285fc9f1416e9f628a68e7209dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 06/14] fix: transformLogarithm of a half turn about any axis

---
 src/tools/altransformhelpers.cpp | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 6f4c105..0b968a2 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -130,7 +130,39 @@ namespace AL {
           }
           else
           {
-            //std::cout << "transformLogarithmInPlace : co cas non traite" << std::endl;
+            // half turn about the unit axis u: the rotation is 2*u*u^t - 1,
+            // u is read in the column of the greatest diagonal term
+            float ux, uy, uz;
+            if (pH.r1_c1 >= pH.r2_c2 && pH.r1_c1 >= pH.r3_c3)
+            {
+              ux = pH.r1_c1 + 1.0f;
+              uy = pH.r2_c1;
+              uz = pH.r3_c1;
+            }
+            else if (pH.r2_c2 >= pH.r3_c3)
+            {
+              ux = pH.r1_c2;
+              uy = pH.r2_c2 + 1.0f;
+              uz = pH.r3_c2;
+            }
+            else
+            {
+              ux = pH.r1_c3;
+              uy = pH.r2_c3;
+              uz = pH.r3_c3 + 1.0f;
+            }
+            const float norm = std::sqrt(ux*ux + uy*uy + uz*uz);
+            ux /= norm;
+            uy /= norm;
+            uz /= norm;
+            const float dot = ux*pH.r1_c4 + uy*pH.r2_c4 + uz*pH.r3_c4;
+            pVOut.wxd = angle*ux;
+            pVOut.wyd = angle*uy;
+            pVOut.wzd = angle*uz;
+            pVOut.xd  = ux*dot - 0.5f*angle*(uy*pH.r3_c4 - uz*pH.r2_c4);
+            pVOut.yd  = uy*dot - 0.5f*angle*(uz*pH.r1_c4 - ux*pH.r3_c4);
+            pVOut.zd  = uz*dot - 0.5f*angle*(ux*pH.r2_c4 - uy*pH.r1_c4);
+            return;
           }
         }
         else
-- 
2.43.0


From c56a2d33789c5f047af932579bfb8db88ac5c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 07/14] fix: PIDController::computeFeedback uses the period it
 is given

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 2a97778d21952f25b53816d706489883234df026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 08/14] fix: a DigitalFilter that is not configured reads past
 its input buffer

---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From e90ecab49d79b724eb486a3fe6dc4d5158cc0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 09/14] fix: squashInertial rotates the second inertia into the
 frame of the result

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..16ff378 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
-- 
2.43.0


From 047799a6679f763bf67410984ca7612ed2fbe4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 10/14] fix: urdfInertialToEigen rotates the inertia into the
 body frame

---
 almath/scenegraph/urdfeigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 16ff378..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From 600e76d1ad6233ca1c87be33ffd4a8d40b29b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 11/14] fix: squashJointMass keeps a stale origin when the new
 one is null

---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..d9f33c7 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -840,6 +840,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0


From d2bd2abbf31554c23c5d4e08b3c0ad1f94e8af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 12/14] fix: urdf mimic loop check refuses joints mimicked
 through a chain

---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index d9f33c7..60644fd 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From a6a23ec08925eaedaa6c3bd97f4ebd9f9a3308cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 13/14] fix: urdf tree check accepts a loop of links not
 connected to the root

---
 src/scenegraph/urdf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 60644fd..4f973a7 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -445,6 +445,16 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
         joints.get<ChildLink>().end())
       throw std::runtime_error("cannot add joint \"" + name +
                                "\": there is a loop in the kinematic tree");
+    // the new joint closes a loop if its child link is an ancestor of its
+    // parent link.
+    for (std::string ancestor = parent_link;;) {
+      if (ancestor == child_link)
+        throw std::runtime_error("cannot add joint \"" + name +
+                                 "\": there is a loop in the kinematic tree");
+      auto parent_joint = joints.get<ChildLink>().find(ancestor);
+      if (parent_joint == joints.get<ChildLink>().end()) break;
+      ancestor = ::parent_link_it(*parent_joint);
+    }
     if (boost::optional<std::string> source_name = ::mimic_it(it)) {
       // joint_kv mimics source_name, let check that adding it won't
       // create a "mimicking loop":
-- 
2.43.0


From 8c3610fa03d8b6fc12d1d0f565ca348f707b5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 14/14] fix: transport_root_link_frame aborts when an origin
 becomes the identity up to a full turn

---
 src/scenegraph/urdf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 4f973a7..567de70 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -542,7 +542,11 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
+  // note: the product may be the identity even when rhs differs from ilhs
+  // (for instance by a full turn), in which case there is nothing to write.
+  boost::optional<ptree> new_origin;
+  if (rhs != ilhs) new_origin = (lhs * rhs).to_ptree();
+  if (!new_origin) {
     if (noprune) {
       // instead of removing the element, empty it.
       // Wrt to URDF, this has the same meaning (identity transform)
@@ -555,8 +559,6 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
       rhs_parent->erase("origin");
     }
   } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
     rhs_parent->put_child("origin", *new_origin);
   }
 }
-- 
2.43.0

