From 2e97e664b26dde63aa5381374ca7bd6ad2b8f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 01/21] fix: modulo2PI returns an angle in ]-PI, PI], not -PI

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..0729b15 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From 2fe09e5765112164b6aab6ee2907cca116f7d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 02/21] fix: angleAndAxisRotationFromQuaternion uses the
 normalized quaternion

---
 src/types/alquaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..2518304 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -243,7 +243,7 @@ namespace AL {
       float& pAxisZ)
     {
       Quaternion copy = pQuaternion;
-      copy.normalize();
+      copy = copy.normalize();
       pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
       float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
 
-- 
2.43.0


From aed4f5a96099cd042b8d5e23123a1c4842508a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 03/21] fix: Quaternion built from a vector of wrong size is
 the default quaternion

---
 src/types/alquaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2518304..322cadd 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -41,7 +41,7 @@ namespace AL {
                   << "Size expected: 4. Size given: " << pFloats.size() << ". "
                   << "Quaternion is set to default value." << std::endl;
 
-        w = 0.0f;
+        w = 1.0f;
         x = 0.0f;
         y = 0.0f;
         z = 0.0f;
-- 
2.43.0


From d7fdbfc58f5d7c196b140bde627ca229e6edb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 04/21] fix: transformLogarithm of a small rotation returns its
 rotation vector

The angular part was scaled by angle/(2*sin(angle) + 0.001), an error of up to
a factor two for rotations of less than 0.001 rad.
---
 src/tools/altransformhelpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..91158f0 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,8 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          // angle/(2*sin(angle)) tends to 1/2 when angle tends to 0
+          coeff = (si > 0.0f) ? angle/(2.0f*si) : 0.5f;
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From 44e5c27397517d68d1687789ab801bf4fcb7476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 05/21] fix: transformLogarithm handles half turns around any
 axis

For a rotation of PI around an axis other than x, y or z the angular part of
the output was left unwritten.
---
 src/tools/altransformhelpers.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 91158f0..a0054cd 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -131,7 +131,32 @@ namespace AL {
           }
           else
           {
-            //std::cout << "transformLogarithmInPlace : co cas non traite" << std::endl;
+            // half turn around any other axis u: (R + I)/2 = u*u^T
+            Position3D u;
+            if (pH.r1_c1 >= pH.r2_c2 && pH.r1_c1 >= pH.r3_c3)
+            {
+              u.x = std::sqrt(0.5f*(pH.r1_c1 + 1.0f));
+              u.y = 0.25f*(pH.r1_c2 + pH.r2_c1)/u.x;
+              u.z = 0.25f*(pH.r1_c3 + pH.r3_c1)/u.x;
+            }
+            else if (pH.r2_c2 >= pH.r3_c3)
+            {
+              u.y = std::sqrt(0.5f*(pH.r2_c2 + 1.0f));
+              u.x = 0.25f*(pH.r1_c2 + pH.r2_c1)/u.y;
+              u.z = 0.25f*(pH.r2_c3 + pH.r3_c2)/u.y;
+            }
+            else
+            {
+              u.z = std::sqrt(0.5f*(pH.r3_c3 + 1.0f));
+              u.x = 0.25f*(pH.r1_c3 + pH.r3_c1)/u.z;
+              u.y = 0.25f*(pH.r2_c3 + pH.r3_c2)/u.z;
+            }
+            const Position3D t(pH.r1_c4, pH.r2_c4, pH.r3_c4);
+            const Position3D v = u*(u.x*t.x + u.y*t.y + u.z*t.z) -
+                                 crossProduct(u, t)*(0.5f*angle);
+            pVOut = Velocity6D(v.x, v.y, v.z,
+                               angle*u.x, angle*u.y, angle*u.z);
+            return;
           }
         }
         else
-- 
2.43.0


From 9b80cd8ea781aee82dd95edd2ffa570200c2d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 06/21] fix: PIDController::computeFeedback uses the given
 period

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 8c4a34d72c5c7d3aa8172e9f4ad8e2cbaa53996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 07/21] fix: a default constructed DigitalFilter has room for
 its input sample

processFilter read the first element of an empty circular buffer.
---
 src/dsp/digitalfilter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..c48cfeb 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -16,6 +16,7 @@ namespace DSP
 DigitalFilter::DigitalFilter(void)
   :fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
+  ,fFilterBufferIn(1u)
 {}
 
 DigitalFilter::~DigitalFilter(void){}
-- 
2.43.0


From 4f6baf52f4e11919af27102ff178684d7a9134a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 08/21] fix: RobotTree accepts chains of mimic joints whatever
 the joints order

---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..2530d96 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From 105acaaee4c6fd8ee73a8f922505a6bb9c26a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 09/21] fix: RobotTree refuses loops which are disconnected
 from the root link

---
 src/scenegraph/urdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2530d96..79a775d 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -484,6 +484,17 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
     }
   }
   root_link = *root_links.begin();
+  // Each link has at most one parent joint, but some of them may still form
+  // a loop which is not connected to the root link.
+  std::vector<std::string> connected_links(1, root_link);
+  for (size_t i = 0; i < connected_links.size(); ++i) {
+    const auto range =
+        joints.get<ParentLink>().equal_range(connected_links[i]);
+    for (auto it = range.first; it != range.second; ++it)
+      connected_links.push_back(::child_link_it(*it));
+  }
+  if (connected_links.size() != links.size())
+    throw std::runtime_error("there is a loop in the kinematic tree");
 }
 
 void RobotTreeP::rm_root_joint() {
-- 
2.43.0


From 4b5f1afa1b1f4cb433385d6189e344f79ba62f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 10/21] fix: moving a frame accepts origins which become the
 identity

---
 src/scenegraph/urdf.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 79a775d..513c60d 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -543,22 +543,24 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
-    if (noprune) {
-      // instead of removing the element, empty it.
-      // Wrt to URDF, this has the same meaning (identity transform)
-      // Keeping the element around is more verbose (bad), but enables to
-      // keeps its position in the tree it we want to modify it again
-      // (otherwise we would create a new element which would be the last
-      // among simblings)
-      rhs_parent->put_child("origin", ptree());
-    } else {
-      rhs_parent->erase("origin");
-    }
-  } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
+  // the product may be the identity although rhs differs from ilhs: angles
+  // which differ by a full turn, or round-off. Then, there is no new origin.
+  boost::optional<ptree> new_origin;
+  if (rhs != ilhs) {
+    new_origin = (lhs * rhs).to_ptree();
+  }
+  if (new_origin) {
     rhs_parent->put_child("origin", *new_origin);
+  } else if (noprune) {
+    // instead of removing the element, empty it.
+    // Wrt to URDF, this has the same meaning (identity transform)
+    // Keeping the element around is more verbose (bad), but enables to
+    // keeps its position in the tree it we want to modify it again
+    // (otherwise we would create a new element which would be the last
+    // among simblings)
+    rhs_parent->put_child("origin", ptree());
+  } else {
+    rhs_parent->erase("origin");
   }
 }
 
-- 
2.43.0


From b6dbf81022ed74862d1edd175d0863c9bd41272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 11/21] fix: rotate inertias from the inertial frame to the
 target one

---
 almath/scenegraph/urdfeigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From 3b5fadd0eba502bc1f1c6abd9daddadcfd624f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 12/21] fix: squashJointMass does not keep the origin of the
 child inertial

---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 513c60d..a2882ce 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -853,6 +853,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0


From fda4550c4702d88e9a946aa1ac82e6b146bcac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 13/21] fix: transform_filenames transforms the collision
 meshes too

---
 src/scenegraph/urdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index a2882ce..a4db788 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -1023,6 +1023,17 @@ void transform_filenames(
           apply_op(*texture);
       }
     }
+    auto collisions = link.equal_range("collision");
+    for (ptree &collision: boost::adaptors::values(collisions)) {
+      boost::optional<ptree &> geometry =
+          collision.get_child_optional("geometry");
+      if (!geometry)
+        continue;
+      auto meshes = geometry->equal_range("mesh");
+      for (ptree &mesh: boost::adaptors::values(meshes)) {
+        apply_op(mesh);
+      }
+    }
   }
 }
 }
-- 
2.43.0


From 4a3dceec29fab29f8eb3c09bc7e8fad6ece794d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 14/21] fix: SceneBuilder refuses meshes with texture
 coordinates given with a Transform too

---
 src/scenegraph/scenebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/scenebuilder.cpp b/src/scenegraph/scenebuilder.cpp
index d9070f4..b60365c 100644
--- a/src/scenegraph/scenebuilder.cpp
+++ b/src/scenegraph/scenebuilder.cpp
@@ -44,7 +44,7 @@ void SceneBuilder::add(const Mesh &mesh, const Eigen::Affine3f &tf) {
 
 void SceneBuilder::add(const Mesh &mesh, const Math::Transform &tf) {
   Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor> > m(&tf.r1_c1);
-  xAddMesh(mesh, Eigen::Affine3f(m));
+  add(mesh, Eigen::Affine3f(m));
 }
 
 void SceneBuilder::add(const Math::Sphere &shape, const Math::Transform &tf) {
-- 
2.43.0


From 80733d0e39f8a7cc77c237295a6991a13ab3b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 15/21] fix: write the mesh indices of a COLLADA document as
 integers

---
 src/scenegraph/colladabuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 7ca42b2..b37e083 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,7 +12,7 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
-  std::copy(data.begin(), data.end(), std::ostream_iterator<float>(ss, " "));
+  std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
 }
-- 
2.43.0


From 6d7d89503c5c1b7abe436b4476ea9cc31c2f97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 16/21] fix: close the seam of rounded box meshes with the
 value of pi

---
 src/scenegraph/meshfactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/meshfactory.cpp b/src/scenegraph/meshfactory.cpp
index 5b50e99..725f787 100644
--- a/src/scenegraph/meshfactory.cpp
+++ b/src/scenegraph/meshfactory.cpp
@@ -107,7 +107,7 @@ static Vert xAddMeridian(float pHalfExtentZ, float pRadius, int pNbVertices,
                          Mesh &data) {
   Vert vert(data.positionsNb(), data.normalsNb());
   const int nphi = 2 * (pNbVertices + 1);
-  const float dphi = 3.14f / nphi;
+  const float dphi = boost::math::constants::pi<float>() / nphi;
   float z = pHalfExtentZ;
   for (int iphi = 1; iphi < nphi; ++iphi) {
     float phi = iphi * dphi;  // polar angle
-- 
2.43.0


From 7a0640d264e3568f31b66f4ade5ee31d39eade7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 17/21] fix: find keys and labels of animations with other
 children in between

---
 src/scenegraph/qianim.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 23f3697..9bb8e88 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -169,22 +169,33 @@ bool key_comp(const ptree::value_type &key, int frame) {
   return (key.first != "Key") || (Key::get_frame(key.second) < frame);
 }
 
+// private
+// Return an iterator to the first Key whose frame is not less than the given
+// one. The other children (attributes, comments...) can be anywhere between the
+// Key elements, hence the children are not partitioned by key_comp.
+template <typename Iterator>
+Iterator key_lower_bound(Iterator first, Iterator last, int frame) {
+  return std::find_if(first, last, [frame](const ptree::value_type &key) {
+    return !key_comp(key, frame);
+  });
+}
+
 optional<ptree &> get_key_optional(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = key_lower_bound(pt.begin(), pt.end(), frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<ptree &>();
 }
 
 optional<const ptree &> get_key_optional(const ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = key_lower_bound(pt.begin(), pt.end(), frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<const ptree &>();
 }
 
 ptree &require_key(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = key_lower_bound(pt.begin(), pt.end(), frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
@@ -217,7 +228,12 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
-  auto it = std::upper_bound(pt.begin(), pt.end(), frame, Label::label_comp);
+  // the other children can be anywhere between the Label elements, hence the
+  // children are not partitioned by label_comp.
+  auto it = std::find_if(pt.begin(), pt.end(),
+                         [frame](const ptree::value_type &label) {
+                           return Label::label_comp(frame, label);
+                         });
   ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
   Key::put_frame(newkey, frame);
   return newkey;
-- 
2.43.0


From 415bafa8c2b8bab2b10b255fbc831bfeed1dca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 18/21] fix: leave the animation unchanged when a new key or
 label has a negative frame

---
 src/scenegraph/qianim.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 9bb8e88..21a48c3 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -198,9 +198,9 @@ ptree &require_key(ptree &pt, int frame) {
   auto it = key_lower_bound(pt.begin(), pt.end(), frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
-  ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
+  ptree newkey;
   Key::put_frame(newkey, frame);
-  return newkey;
+  return pt.insert(it, std::make_pair("Key", newkey))->second;
 }
 } // namespace ActuatorCurve
 
@@ -234,9 +234,9 @@ ptree &add_label(ptree &pt, int frame, const std::string value) {
                          [frame](const ptree::value_type &label) {
                            return Label::label_comp(frame, label);
                          });
-  ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  ptree newlabel{value};
+  Key::put_frame(newlabel, frame);
+  return pt.insert(it, std::make_pair("Label", newlabel))->second;
 }
 } // namespace Labels
 
-- 
2.43.0


From c7af77fa99676224d4259b56c410dcee15cfde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 19/21] fix: stop building a rigid body system at a massless
 root link

---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 70a673a..5543cf8 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -88,10 +88,9 @@ bool UrdfRigidBodySystemTraverser::discover(const urdf::ptree &joint_el) {
       break;
     }
   }
-  _discover(joint.parent_link(), joint.child_link(),
-            Math::toEigenTransform(joint.origin()), type,
-            parser.link(joint.child_link()), joint.name());
-  return true;
+  return _discover(joint.parent_link(), joint.child_link(),
+                   Math::toEigenTransform(joint.origin()), type,
+                   parser.link(joint.child_link()), joint.name());
 }
 
 void buildRigidBodySystemFromUrdf(
@@ -102,10 +101,11 @@ void buildRigidBodySystemFromUrdf(
   if (make_continuous_joints_fixed) makeContinuousJointsFixed(parser);
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
-  visitor._discover("", parser.root_link(), Pose::Identity(),
-                    Builder::JointType::FreeFlyer,
-                    parser.link(parser.root_link()));
-  parser.traverse_joints(visitor);
+  // a massless root link has no branch to explore
+  if (visitor._discover("", parser.root_link(), Pose::Identity(),
+                        Builder::JointType::FreeFlyer,
+                        parser.link(parser.root_link())))
+    parser.traverse_joints(visitor);
 }
 
 void buildRigidBodySystemFromUrdf(
-- 
2.43.0


From 7591718586ed9eaa14b668d264c2193db965e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 20/21] fix: close the bracket of the text of Velocity6D in
 Python

---
 almath.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/almath.i b/almath.i
index 073fd05..ac45fa2 100644
--- a/almath.i
+++ b/almath.i
@@ -379,7 +379,7 @@ namespace std {
 %extend AL::Math::Velocity6D {
    char *__repr__() {
        static char tmp[1024];
-       sprintf(tmp, "Velocity6D(xd=%g, yd=%g, zd=%g, wxd=%g, wyd=%g, wzd=%g",
+       sprintf(tmp, "Velocity6D(xd=%g, yd=%g, zd=%g, wxd=%g, wyd=%g, wzd=%g)",
                $self->xd,  $self->yd,  $self->zd,
                $self->wxd, $self->wyd, $self->wzd);
        return tmp;
-- 
2.43.0


From 04c1934e770570ef6a58cc898b8eadd0f21ab50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 21/21] fix: no root of a negative number in
 quaternionFromTransform near the identity

---
 src/tools/altransformhelpers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index a0054cd..0f892a6 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -4,6 +4,7 @@
  * found in the COPYING file.
  */
 
+#include <algorithm>
 #include <cmath>
 
 #include <almath/tools/altransformhelpers.h>
@@ -1248,7 +1249,8 @@ namespace AL {
         }
 
         const float qs = 0.5f*std::sqrt(trace);
-        const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
+        // qs may exceed 1 by rounding
+        const float s = std::sqrt(std::max<double>(0.0, 1.0 - std::pow(qs, 2))) / nm;
         return Quaternion(qs, s*kx, s*ky, s*kz);
       }
     } // end quaternionFromTransform
-- 
2.43.0

