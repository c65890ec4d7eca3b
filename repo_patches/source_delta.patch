From c72ce9879300ed1b209ade8995b6eab93219eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 01/38] fix: second-order geometries are not affine

Geometry::isAffine() defaults to true; SegmentO2, TriaO2 and QuadO2 inherited
this default although their Jacobians are not constant.
---
 lib/lf/geometry/quad_o2.h    | 3 +++
 lib/lf/geometry/segment_o2.h | 3 +++
 lib/lf/geometry/tria_o2.h    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/lf/geometry/quad_o2.h b/lib/lf/geometry/quad_o2.h
index 5708e13..fe4df16 100644
--- a/lib/lf/geometry/quad_o2.h
+++ b/lib/lf/geometry/quad_o2.h
@@ -41,6 +41,9 @@ class QuadO2 : public Geometry {
     return base::RefEl::kQuad();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/segment_o2.h b/lib/lf/geometry/segment_o2.h
index 9b78605..a1e09ef 100644
--- a/lib/lf/geometry/segment_o2.h
+++ b/lib/lf/geometry/segment_o2.h
@@ -37,6 +37,9 @@ class SegmentO2 : public Geometry {
     return base::RefEl::kSegment();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd& local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/tria_o2.h b/lib/lf/geometry/tria_o2.h
index 8711771..71ae3c8 100644
--- a/lib/lf/geometry/tria_o2.h
+++ b/lib/lf/geometry/tria_o2.h
@@ -44,6 +44,9 @@ class TriaO2 : public Geometry {
     return base::RefEl::kTria();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
-- 
2.43.0


From 4175efcb36d7cff40014dd064d2599f6f2aadf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:11 +0000
Subject: [PATCH 02/38] fix: make hierarchic finite elements usable with
 complex scalars

NodalValuesToDofs multiplied SCALAR values with an unsigned integer, which
does not compile for SCALAR = std::complex<double>.
---
 lib/lf/fe/hierarchic_fe.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..444bf63 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -383,7 +383,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
            nodevals.tail(qr_dual_->NumPoints()).array())
               .sum();
       // Compute the basis function coefficient
-      dofs[i] = (P1 * nodevals[1] - P0 * nodevals[0] - integ) * (2 * i - 1);
+      dofs[i] = (P1 * nodevals[1] - P0 * nodevals[0] - integ) * (2. * i - 1);
     }
     return dofs;
   }
@@ -966,10 +966,10 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
                                 .sum();
       if (rel_orient_[0] == lf::mesh::Orientation::positive) {
         dofs[1 + i - 3] =
-            (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2 * i - 1);
+            (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2. * i - 1);
       } else {
         dofs[4 - i + (edge_degrees_[0] - 1) - 3] =
-            (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2 * i - 1);
+            (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2. * i - 1);
       }
     }
 
@@ -987,10 +987,10 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
               .sum();
       if (rel_orient_[1] == lf::mesh::Orientation::positive) {
         dofs[1 + i + (edge_degrees_[0] - 1) - 3] =
-            (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2 * i - 1);
+            (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2. * i - 1);
       } else {
         dofs[4 - i + (edge_degrees_[0] + edge_degrees_[1] - 2) - 3] =
-            (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2 * i - 1);
+            (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2. * i - 1);
       }
     }
 
@@ -1008,11 +1008,11 @@ class FeHierarchicTria final : public ScalarReferenceFiniteElement<SCALAR> {
               .sum();
       if (rel_orient_[2] == lf::mesh::Orientation::positive) {
         dofs[1 + i + (edge_degrees_[0] + edge_degrees_[1] - 2) - 3] =
-            (P1 * nodevals[0] - P0 * nodevals[2] - integ3) * (2 * i - 1);
+            (P1 * nodevals[0] - P0 * nodevals[2] - integ3) * (2. * i - 1);
       } else {
         dofs[4 - i +
              (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3) - 3] =
-            (P1 * nodevals[2] - P0 * nodevals[0] - integ3) * (2 * i - 1);
+            (P1 * nodevals[2] - P0 * nodevals[0] - integ3) * (2. * i - 1);
       }
     }
 
@@ -1575,10 +1575,10 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                                   .sum();
         if (rel_orient_[0] == lf::mesh::Orientation::positive) {
           dofs[2 + i] =
-              (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2 * i - 1);
+              (P1 * nodevals[1] - P0 * nodevals[0] - integ1) * (2. * i - 1);
         } else {
           dofs[5 - i + (edge_degrees_[0] - 1)] =
-              (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2 * i - 1);
+              (P1 * nodevals[0] - P0 * nodevals[1] - integ1) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[1]) {
@@ -1592,10 +1592,10 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                 .sum();
         if (rel_orient_[1] == lf::mesh::Orientation::positive) {
           dofs[2 + i + (edge_degrees_[0] - 1)] =
-              (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2 * i - 1);
+              (P1 * nodevals[2] - P0 * nodevals[1] - integ2) * (2. * i - 1);
         } else {
           dofs[5 - i + (edge_degrees_[0] + edge_degrees_[1] - 2)] =
-              (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2 * i - 1);
+              (P1 * nodevals[1] - P0 * nodevals[2] - integ2) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[2]) {
@@ -1609,11 +1609,11 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
                 .sum();
         if (rel_orient_[2] == lf::mesh::Orientation::positive) {
           dofs[2 + i + (edge_degrees_[0] + edge_degrees_[1] - 2)] =
-              (P1 * nodevals[3] - P0 * nodevals[2] - integ3) * (2 * i - 1);
+              (P1 * nodevals[3] - P0 * nodevals[2] - integ3) * (2. * i - 1);
         } else {
           dofs[5 - i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3)] =
-              (P1 * nodevals[2] - P0 * nodevals[3] - integ3) * (2 * i - 1);
+              (P1 * nodevals[2] - P0 * nodevals[3] - integ3) * (2. * i - 1);
         }
       }
       if (i <= edge_degrees_[3]) {
@@ -1628,12 +1628,12 @@ class FeHierarchicQuad final : public ScalarReferenceFiniteElement<SCALAR> {
         if (rel_orient_[3] == lf::mesh::Orientation::positive) {
           dofs[2 + i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] - 3)] =
-              (P1 * nodevals[0] - P0 * nodevals[3] - integ4) * (2 * i - 1);
+              (P1 * nodevals[0] - P0 * nodevals[3] - integ4) * (2. * i - 1);
         } else {
           dofs[5 - i +
                (edge_degrees_[0] + edge_degrees_[1] + edge_degrees_[2] +
                 edge_degrees_[3] - 4)] =
-              (P1 * nodevals[3] - P0 * nodevals[0] - integ4) * (2 * i - 1);
+              (P1 * nodevals[3] - P0 * nodevals[0] - integ4) * (2. * i - 1);
         }
       }
     }
-- 
2.43.0


From ade40930eeaf61f08848f3ecd9d865883616ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 03/38] fix: add the missing include guard to make_quad_rule.h

A translation unit that included the header directly and through quad.h did
not compile (redefinition of the inline rules).
---
 lib/lf/quad/make_quad_rule.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lf/quad/make_quad_rule.h b/lib/lf/quad/make_quad_rule.h
index dbb5309..6e511cc 100644
--- a/lib/lf/quad/make_quad_rule.h
+++ b/lib/lf/quad/make_quad_rule.h
@@ -6,6 +6,9 @@
  * @copyright MIT License
  */
 
+#ifndef INCG2b1c5d7e9f304a6b8c1d2e3f4a5b6c7d
+#define INCG2b1c5d7e9f304a6b8c1d2e3f4a5b6c7d
+
 #include <lf/base/base.h>
 
 #include "quad_rule.h"
@@ -102,3 +105,5 @@ inline QuadRule make_QuadQR_P4O4() {
 
 /** @} */
 }  // namespace lf::quad
+
+#endif  // INCG2b1c5d7e9f304a6b8c1d2e3f4a5b6c7d
-- 
2.43.0


From 0ce8d263bcea0e37067a3deeaf45263d6d218906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:30 +0000
Subject: [PATCH 04/38] fix: define the static node coordinates of
 RefEl::NodeCoords<>()

---
 lib/lf/base/ref_el.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..496dbec 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,19 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_{
+    Eigen::Matrix<double, 0, 1>()};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_{
+    Eigen::Matrix<double, 1, 1>(0.0), Eigen::Matrix<double, 1, 1>(1.0)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1),
+    Eigen::Vector2d(0, 1)};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From ba79b752ca0422c2b80be40701a99d008b5b53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 05/38] fix: pass the stream to PrintInfo in operator<< of
 COOMatrix

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..bc1b464 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
-- 
2.43.0


From 36b38b3fea2f6499e019400904cce612784a5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 06/38] fix: COOMatrix::MatVecMult for scalars other than
 double

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index bc1b464..89407cc 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
-- 
2.43.0


From d89fffacd1333371d11662c287a9ed80eb904c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 07/38] fix: FixSolutionComponentsLse for scalars other than
 double

---
 lib/lf/assemble/fix_dof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..3e8efed 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,7 +271,7 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
         return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
-- 
2.43.0


From c3f747e35c2d39586b6dd8061e8d13c855c88a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 08/38] fix: IntegrateMeshFunction must not integrate over a
 first entity that is not selected

---
 lib/lf/fe/fe_tools.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..5027066 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -19,6 +19,9 @@
 #include <lf/mesh/utils/utils.h>
 #include <lf/quad/quad.h>
 
+#include <optional>
+#include <utility>
+
 #include "scalar_fe_space.h"
 
 namespace lf::fe {
@@ -113,15 +116,24 @@ auto IntegrateMeshFunction(
     int codim = 0) -> mesh::utils::MeshFunctionReturnType<MF> {
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
-  auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
-    if (!ep(**i)) {
+  std::optional<MfType> result;
+  for (const mesh::Entity *e : mesh.Entities(codim)) {
+    if (!ep(*e)) {
       continue;
     }
-    result = result + internal::LocalIntegral(**i, qr_selector, mf);
+    MfType local = internal::LocalIntegral(*e, qr_selector, mf);
+    result = result ? MfType(*result + local) : std::move(local);
+  }
+  if (result) {
+    return *std::move(result);
+  }
+  // No entity has been selected
+  if constexpr (base::EigenMatrix<MfType>) {  // NOLINT
+    if constexpr (MfType::SizeAtCompileTime != Eigen::Dynamic) {
+      return MfType::Zero();
+    }
   }
-  return result;
+  return MfType{};
 }
 
 /**
-- 
2.43.0


From 5f5290ca9c24a852f824990552bf46b2c2dd4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 09/38] fix: UniformScalarFESpace::NumRefShapeFunctions must
 not require shape functions for quads

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 964e8e2..37810fd 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -173,7 +173,7 @@ class UniformScalarFESpace : public lf::fe::ScalarFESpace<SCALAR> {
   /** Checks whether some pointer are not valid */
   [[nodiscard]] bool check_ptr() const {
     LF_VERIFY_MSG(Mesh() != nullptr, "No valid FE space object: no mesh");
-    LF_VERIFY_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+    LF_VERIFY_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                   "No valid FE space object: no rsfs for cells");
     return true;
   }
@@ -393,7 +393,7 @@ size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
 template <typename SCALAR>
 size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
     lf::base::RefEl ref_el_type) const {
-  LF_ASSERT_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+  LF_ASSERT_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                 "No valid FE space object: no rsfs");
   // Retrieve number of interior shape functions from rsf layouts
   switch (ref_el_type) {
-- 
2.43.0


From accbdc27359f9884e88df11fba9643bca89550c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 10/38] fix: HierarchicScalarFESpace::NumRefShapeFunctions
 returns the number of interior shape functions

---
 lib/lf/fe/hierarchic_scalar_fe_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_scalar_fe_space.h b/lib/lf/fe/hierarchic_scalar_fe_space.h
index 03f7ba8..f2a4e22 100644
--- a/lib/lf/fe/hierarchic_scalar_fe_space.h
+++ b/lib/lf/fe/hierarchic_scalar_fe_space.h
@@ -157,7 +157,7 @@ class HierarchicScalarFESpace : public ScalarFESpace<SCALAR> {
    */
   [[nodiscard]] size_type NumRefShapeFunctions(
       const lf::mesh::Entity &entity) const override {
-    return ShapeFunctionLayout(entity)->NumRefShapeFunctions();
+    return ShapeFunctionLayout(entity)->NumRefShapeFunctions(0);
   }
 
   ~HierarchicScalarFESpace() override = default;
-- 
2.43.0


From b9d91e263c6d78420617003bb562e84b957f6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 11/38] fix: output operators of finite element spaces did not
 compile

---
 lib/lf/fe/scalar_fe_space.h              | 2 +-
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/lf/fe/scalar_fe_space.h b/lib/lf/fe/scalar_fe_space.h
index af19487..a4091b6 100644
--- a/lib/lf/fe/scalar_fe_space.h
+++ b/lib/lf/fe/scalar_fe_space.h
@@ -118,7 +118,7 @@ class ScalarFESpace {
 /** @brief output operator for scalar parametric finite element space */
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o, const ScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  o << "Scalar FE space, dim = " << fes.LocGlobMap().NumDofs() << std::endl;
   return o;
 }
 
diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 37810fd..29c4b95 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -16,6 +16,7 @@
 
 #include <lf/assemble/assemble.h>
 #include <lf/fe/scalar_fe_space.h>
+#include <lf/mesh/utils/print_info.h>
 
 #include "lagr_fe.h"
 
@@ -423,7 +424,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
     << std::endl;
 
   if ((ctrl & kUniformScalarFESpaceOutMesh) != 0) {
-    o << *fes.Mesh() << std::endl;
+    mesh::utils::PrintInfo(o, *fes.Mesh());
   }
   if ((ctrl & kUniformScalarFESpaceOutDofh) != 0) {
     o << fes.LocGlobMap() << std::endl;
@@ -444,7 +445,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o,
                          const UniformScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  PrintInfo(o, fes, 0);
   return o;
 }
 
-- 
2.43.0


From 9df33e10136562d304cbdeea04364929b4be7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 12/38] fix: FePoint::NumRefShapeFunctions(codim) aborted

---
 lib/lf/fe/fe_point.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/lf/fe/fe_point.h b/lib/lf/fe/fe_point.h
index a498c51..3325ea3 100644
--- a/lib/lf/fe/fe_point.h
+++ b/lib/lf/fe/fe_point.h
@@ -35,6 +35,10 @@ class FePoint : public ScalarReferenceFiniteElement<SCALAR> {
     return base::RefEl::kPoint();
   }
   [[nodiscard]] unsigned Degree() const override { return degree_; }
+  [[nodiscard]] size_type NumRefShapeFunctions(dim_t codim) const override {
+    LF_ASSERT_MSG(codim == 0, "Codim out of bounds");
+    return 1;
+  }
   [[nodiscard]] size_type NumRefShapeFunctions(
       dim_t codim, sub_idx_t subidx) const override {
     LF_ASSERT_MSG(codim == 0, "Codim out of bounds");
-- 
2.43.0


From 39c79244e9cd691df73f8ea35cd024a4438d0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 13/38] fix: edges added to the mesh factory without geometry
 aborted Build()

MeshFactory::AddEntity documents that the geometry may be omitted; the
edge then inherits it from an adjacent cell.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..70c0d2f 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -258,9 +258,8 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     }
 
     // Store provided geometry information; information on adjacent cells
-    // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
+    // not yet available. The geometry may be missing, in which case it will be
+    // inherited from an adjacent cell.
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From f76a84661fb4019ba793aee5fbfe8b3c83b33e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 14/38] fix: guessed shapes of edges and cells were restricted
 to planar meshes

Straight edges, triangles and quadrilaterals built for entities without
geometry used two world coordinates even if DimWorld() is 3.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 70c0d2f..c13cfcb 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -539,11 +539,10 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     GeometryPtr edge_geo_ptr(std::move(edge.second.geo_uptr));
     if (!edge_geo_ptr) {
       // If the edge does not have a geometry build a straight edge
-      Eigen::Matrix<double, 2, 2> straight_edge_coords;
-      straight_edge_coords.block<2, 1>(0, 0) =
-          p0_ptr->Geometry()->Global(zero_point);
-      straight_edge_coords.block<2, 1>(0, 1) =
-          p1_ptr->Geometry()->Global(zero_point);
+      Eigen::Matrix<double, Eigen::Dynamic, 2> straight_edge_coords(dim_world_,
+                                                                    2);
+      straight_edge_coords.col(0) = p0_ptr->Geometry()->Global(zero_point);
+      straight_edge_coords.col(1) = p1_ptr->Geometry()->Global(zero_point);
       edge_geo_ptr =
           std::make_unique<geometry::SegmentO1>(straight_edge_coords);
     }
@@ -683,13 +682,11 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // At this point only the latter policy is implemented
         // and we build an affine triangle.
         // First assemble corner coordinates into matrix
-        Eigen::Matrix<double, 2, 3> triag_corner_coords;
-        triag_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 3> triag_corner_coords(dim_world_,
+                                                                     3);
+        triag_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        triag_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        triag_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
 
         // Diagnostics
         SPDLOG_LOGGER_TRACE(Logger(), "Creating triangle with geometry \n{}",
@@ -732,15 +729,12 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // with straight edges ("bilinear quadrilateral")
         // First assemble corner coordinates into matrix
 
-        Eigen::Matrix<double, 2, 4> quad_corner_coords;
-        quad_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 3) =
-            corner3->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 4> quad_corner_coords(dim_world_,
+                                                                    4);
+        quad_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        quad_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        quad_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
+        quad_corner_coords.col(3) = corner3->Geometry()->Global(zero_point);
         // Then create geometry of an affine triangle
 
         // Diagnostics
-- 
2.43.0


From 678be2013ed317995e266fe2a3040c121c505eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 15/38] fix: GenerateMeshHierarchyByUniformRefinemnt aborted
 for meshes embedded in 3D

The mesh factory must create meshes with the world dimension of the
coarsest mesh.
---
 lib/lf/refinement/mesh_hierarchy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index f3f69af..0fbd608 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -1921,7 +1921,7 @@ std::shared_ptr<MeshHierarchy> GenerateMeshHierarchyByUniformRefinemnt(
   // Set up the builder object for mesh entities, here suitable for a 2D
   // hybrid mesh comprising triangles and quadrilaterals
   std::unique_ptr<lf::mesh::hybrid2d::MeshFactory> mesh_factory_ptr =
-      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
+      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(mesh_p->DimWorld());
   // Create a mesh hierarchy with a single level
   std::shared_ptr<MeshHierarchy> multi_mesh_p =
       std::make_shared<MeshHierarchy>(mesh_p, std::move(mesh_factory_ptr));
-- 
2.43.0


From 13cffeadc257f56ab1d606539c31092836beb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 16/38] fix: MeshFunctionTransfer::getMesh returns the mesh the
 function is defined on

The transferred mesh function is defined on the mesh on level_fine, not on
level_coarse+1.
---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 530c1954a96e5e4ce2861f4e48d2f09370556841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 17/38] fix: sum and difference of scalar mesh functions of
 different scalar types

The values of the second operand were mapped with the scalar type of the first
one, which does not compile e.g. for a complex plus a real valued function.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..8ba72b8 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -107,7 +107,7 @@ struct OperatorAddition {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
@@ -275,7 +275,7 @@ struct OperatorSubtraction {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
-- 
2.43.0


From 9715b2287805d0bcaa013137538f2a41ccc25a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 18/38] fix: product of mesh functions with user-defined value
 types

The generic overload looped over the empty result vector and returned no
values at all.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 8ba72b8..ea1fc1b 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (int i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From 19f86f8039874df0d86c29a6373b17b5314f5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:43 +0000
Subject: [PATCH 19/38] fix: arithmetic of mesh functions with row-major matrix
 or array values

The results have the default storage order, but the coefficients of fixed-size
operands were combined in the order in which they are stored, so that e.g. the
sum of two row-major matrices was returned transposed.
---
 lib/lf/mesh/utils/mesh_function_binary.h | 50 ++++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index ea1fc1b..964eb4a 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -80,6 +80,16 @@ class MeshFunctionBinary {
  */
 namespace internal {
 
+/**
+ * @brief Do all given (fixed size) `Eigen::Matrix`/`Eigen::Array` types store
+ * their coefficients in the same order? If so, coefficient-wise operations can
+ * be carried out on the underlying data directly.
+ */
+template <class M, class... MS>
+constexpr bool kSameStorageOrder =
+    ((static_cast<int>(M::IsRowMajor) == static_cast<int>(MS::IsRowMajor)) &&
+     ...);
+
 /**
  * @brief Used together with MeshFunctionBinary (`OP` template type) to
  * represent the pointwise addition of two mesh functions.
@@ -127,7 +137,11 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>,
+                                    Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>,
+                                    Eigen::Matrix<S2, R2, C2, O2, MR2,
+                                                  MC2>>) {  // NOLINT
       // add two static size eigen matrices to each other
       static_assert(R1 == R2, "cannot add matrices with different #rows.");
       static_assert(C1 == C2, "cannot add matrices with different #cols.");
@@ -185,7 +199,11 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1, MR1, MC1>,
+                                    Eigen::Array<S2, R2, C2, O2, MR2,
+                                                 MC2>>) {  // NOLINT
       // add two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot add arrays with different #rows.");
       static_assert(C1 == C2, "cannot add arrays with different #cols.");
@@ -295,7 +313,11 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));  // NOLINT
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>,
+                                    Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>,
+                                    Eigen::Matrix<S2, R2, C2, O2, MR2,
+                                                  MC2>>) {  // NOLINT
       // subtract two static size eigen matrices from each other
       static_assert(R1 == R2, "cannot subtract matrices with different #rows.");
       static_assert(C1 == C2, "cannot subtract matrices with different #cols.");
@@ -357,7 +379,11 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) - S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1, MR1, MC1>,
+                                    Eigen::Array<S2, R2, C2, O2, MR2,
+                                                 MC2>>) {  // NOLINT
       // subtract two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot subtract arrays with different #rows.");
       static_assert(C1 == C2, "cannot subtract arrays with different #cols.");
@@ -504,7 +530,11 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) * S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1, MR1, MC1>,
+                                    Eigen::Array<S2, R2, C2, O2, MR2,
+                                                 MC2>>) {  // NOLINT
       // multiply two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot multiply arrays with different #rows.");
       static_assert(C1 == C2, "cannot multiply arrays with different #cols.");
@@ -563,7 +593,10 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {  // NOLINT
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  kSameStorageOrder<
+                      Eigen::Matrix<scalar_t, R1, C1>,
+                      Eigen::Matrix<S1, R1, C1, O1, MR1, MC1>>) {  // NOLINT
       // result is a static sized matrix:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
@@ -596,7 +629,10 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  kSameStorageOrder<
+                      Eigen::Array<scalar_t, R1, C1>,
+                      Eigen::Array<S1, R1, C1, O1, MR1, MC1>>) {  // NOLINT
       // result is a static sized array:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
-- 
2.43.0


From 51934a26e6c9eaa7a542349f5186bdbffbcde0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 20/38] fix: squaredNorm of complex and matrix valued mesh
 functions

Complex scalars and vectors did not compile, and the squared norm of fixed-size
matrices with several rows and columns was always zero.
---
 lib/lf/mesh/utils/mesh_function_unary.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 4424216..98ed1c4 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -130,13 +130,14 @@ struct UnaryOpMinus {
 
 struct UnaryOpSquaredNorm {
   // squared norm of a scalar type
-  template <class U, class = std::enable_if_t<std::is_arithmetic_v<U>>>
+  template <base::Scalar U>
   auto operator()(const std::vector<U>& u, int /*unused*/) const {
+    using real_t = typename Eigen::NumTraits<U>::Real;
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    std::vector<U> result(u.size());
-    Eigen::Map<Eigen::Matrix<U, 1, Eigen::Dynamic>> rm(result.data(), 1,
-                                                       u.size());
+    std::vector<real_t> result(u.size());
+    Eigen::Map<Eigen::Matrix<real_t, 1, Eigen::Dynamic>> rm(result.data(), 1,
+                                                            u.size());
     rm = um.cwiseAbs2();
     return result;
   }
@@ -154,15 +155,19 @@ struct UnaryOpSquaredNorm {
       if constexpr (C == 1) {  // NOLINT
         const Eigen::Map<const Eigen::Matrix<S, R, Eigen::Dynamic>> um(
             &u[0](0, 0), R, u.size());
-        Eigen::Map<Eigen::Matrix<S, 1, Eigen::Dynamic>> rm(result.data(), 1,
-                                                           u.size());
-        rm = um.cwiseAbs2().colwise().sum();
+        Eigen::Map<Eigen::Matrix<double, 1, Eigen::Dynamic>> rm(result.data(),
+                                                                1, u.size());
+        rm = um.cwiseAbs2().colwise().sum().template cast<double>();
       } else if constexpr (R == 1) {  // NOLINT
         Eigen::Map<const Eigen::Matrix<S, Eigen::Dynamic, C, Eigen::RowMajor>>
             um(&u[0](0, 0), u.size(), C);
-        Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>> rm(result.data(),
-                                                           u.size(), 1);
-        rm = um.cwiseAbs2().rowwise().sum();
+        Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, 1>> rm(result.data(),
+                                                                u.size(), 1);
+        rm = um.cwiseAbs2().rowwise().sum().template cast<double>();
+      } else {
+        for (std::size_t i = 0; i < u.size(); ++i) {
+          result[i] = u[i].squaredNorm();
+        }
       }
     } else {  // NOLINT
       for (std::size_t i = 0; i < u.size(); ++i) {
-- 
2.43.0


From 5031335f6f0cec13d542b098959209929ec8530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 21/38] fix: StructuredMeshBuilder::setTopRightCorner did not
 accept lvalues

---
 lib/lf/mesh/utils/structured_mesh_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/structured_mesh_builder.h b/lib/lf/mesh/utils/structured_mesh_builder.h
index 67d171e..5287bde 100644
--- a/lib/lf/mesh/utils/structured_mesh_builder.h
+++ b/lib/lf/mesh/utils/structured_mesh_builder.h
@@ -43,7 +43,7 @@ class StructuredMeshBuilder {
     return *this;
   }
   template <typename VECTOR>
-  StructuredMeshBuilder &setTopRightCorner(const VECTOR &&trc) {
+  StructuredMeshBuilder &setTopRightCorner(const VECTOR &trc) {
     top_right_corner_ << trc[0], trc[1];
     return *this;
   }
-- 
2.43.0


From 044d6a3a4b3482ed6e6d680a43fd01672db51ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:13 +0000
Subject: [PATCH 22/38] fix: GmshReader looked past the physical entities with
 the requested name or number

---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..358104c 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From 8830aa445498b5253e61e7f1a1266a9ef1bd5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 23/38] fix: GmshReader mixed up nodes that belong to several
 physical entities

---
 lib/lf/io/gmsh_reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 358104c..7ba44fe 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -219,7 +219,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& end_element = msh_file.Elements[end];
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
-    if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
+    if (ref_el != base::RefEl::kPoint() &&
+        begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
         begin_element.Type == end_element.Type) {
       // This entity appears more than once
       mi2gi[codim].back().push_back(end);
@@ -228,7 +229,9 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
 
     begin = end;
     if (ref_el == base::RefEl::kPoint()) {
-      auto mesh_index = gi2mi[end_element.NodeNumbers[0]];
+      const auto node_number = end_element.NodeNumbers[0];
+      const auto mesh_index =
+          node_number < gi2mi.size() ? gi2mi[node_number] : size_type(-1);
       // check that this node is a main node (auxilliary nodes are not inserted
       // into the mesh!):
       if (mesh_index != std::numeric_limits<unsigned int>::max()) {
-- 
2.43.0


From 7e31941a93c097a5f30910f78756beb1a5cc7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 24/38] fix: GmshReader::PhysicalEntityNr did not sort the
 numbers

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 7ba44fe..a656df0 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -5,6 +5,7 @@
 #include <boost/fusion/adapted/std_tuple.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
+#include <algorithm>
 #include <fstream>
 
 #include "eigen_fusion_adapter.h"
@@ -325,6 +326,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
           temp.push_back(msh_file.Elements[gmsh_index].PhysicalEntityNr);
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
@@ -622,6 +624,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
                       std::end(physical_tags));
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
-- 
2.43.0


From 28d43562cfecf2136272b26f699fd05e89feeda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 25/38] fix: VtkWriter::WriteCellData did not sample
 quadrilaterals at the barycenter

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From 4fcc1888253983a3ba57fde9570b4d5df0b87078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 26/38] fix: VtkWriter misplaced the interior points of
 triangles of order 7 and higher

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..e078a52 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          points * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From 22f77a4c33e160c9d7e0df602149924311197d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 27/38] fix: NodalProjection and
 InitEssentialConditionFromFunction did not compile for mixed real and complex
 scalars

---
 lib/lf/fe/fe_tools.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index 5027066..148c9ce 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -246,11 +246,23 @@ auto NodalProjection(const lf::fe::ScalarFESpace<SCALAR> &fe_space, MF const &u,
 
     // Collect values of function to be projected in a row vector
     auto uvalvec = u(*cell, ref_nodes);
+    const Eigen::Matrix<scalar_t, 1, Eigen::Dynamic> nodvals =
+        Eigen::Map<const Eigen::Matrix<scalarMF_t, 1, Eigen::Dynamic>>(
+            uvalvec.data(), 1, uvalvec.size())
+            .template cast<scalar_t>();
 
     // Compute the resulting local degrees of freedom
-    auto dofvec(ref_shape_fns->NodalValuesToDofs(
-        Eigen::Map<Eigen::Matrix<scalar_t, 1, Eigen::Dynamic>>(
-            &uvalvec[0], 1, uvalvec.size())));
+    Eigen::Matrix<scalar_t, 1, Eigen::Dynamic> dofvec;
+    if constexpr (std::is_same_v<scalar_t, SCALAR>) {
+      dofvec = ref_shape_fns->NodalValuesToDofs(nodvals);
+    } else {
+      // complex-valued function, real-valued shape functions: NodalValuesToDofs
+      // is linear
+      dofvec = ref_shape_fns->NodalValuesToDofs(nodvals.real())
+                   .template cast<scalar_t>() +
+               scalar_t(0, 1) * ref_shape_fns->NodalValuesToDofs(nodvals.imag())
+                                    .template cast<scalar_t>();
+    }
 
     // Set the corresponing global degrees of freedom
     // Note: "Setting", not "adding to"
@@ -345,9 +357,12 @@ std::vector<std::pair<bool, SCALAR>> InitEssentialConditionFromFunction(
 
       // Compute degrees of freedom from function values in evaluation
       // points
+      using scalarMF_t = mesh::utils::MeshFunctionReturnType<
+          std::remove_reference_t<FUNCTION>>;
       auto dof_vals = fe->NodalValuesToDofs(
-          Eigen::Map<Eigen::Matrix<SCALAR, 1, Eigen::Dynamic>>(&g_vals[0], 1,
-                                                               g_vals.size()));
+          Eigen::Map<const Eigen::Matrix<scalarMF_t, 1, Eigen::Dynamic>>(
+              g_vals.data(), 1, g_vals.size())
+              .template cast<SCALAR>());
       LF_ASSERT_MSG(dof_vals.size() == fe->NumRefShapeFunctions(),
                     "Mismatch " << dof_vals.size() << " <-> "
                                 << fe->NumRefShapeFunctions());
-- 
2.43.0


From d73df260275dbec4dbf1e855ec54bcde065b3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 28/38] fix: narrow.h was not self-contained

---
 lib/lf/base/narrow.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/base/narrow.h b/lib/lf/base/narrow.h
index 7aabdd9..fab5de2 100644
--- a/lib/lf/base/narrow.h
+++ b/lib/lf/base/narrow.h
@@ -15,6 +15,9 @@
 #ifndef INCG_1944399668484015bcf9f347522a68c3
 #define INCG_1944399668484015bcf9f347522a68c3
 #include <type_traits>
+#include <utility>
+
+#include "lf_assert.h"
 
 namespace lf::base {
 
-- 
2.43.0


From 3d8b6616e4371e4ea7b15c4b3bfdb55383f3b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 29/38] fix: mesh_function_unary.h was not self-contained

---
 lib/lf/mesh/utils/mesh_function_unary.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 98ed1c4..3aef805 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -11,6 +11,8 @@
 
 #include <lf/mesh/mesh.h>
 
+#include "mesh_function_traits.h"
+
 namespace lf::mesh::utils {
 
 /**
-- 
2.43.0


From d42364c5946079f6f833e910831ace3763494792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:28 +0000
Subject: [PATCH 30/38] fix: precomputed_scalar_reference_finite_element.h
 included an internal header of Eigen

---
 lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h b/lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h
index fd31ab4..fb538bc 100644
--- a/lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h
+++ b/lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h
@@ -10,7 +10,6 @@
 #ifndef INCGe281cd0ab7fb476e9315a3dda7f45ffe
 #define INCGe281cd0ab7fb476e9315a3dda7f45ffe
 
-#include <Eigen/src/Core/util/ForwardDeclarations.h>
 #include <lf/quad/quad.h>
 
 #include <memory>
-- 
2.43.0


From 00bdd7bc391a4f61d1837ad16484164d77949d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:38 +0000
Subject: [PATCH 31/38] fix: shape functions of flux components of degree >= 2
 did not match across edges

---
 ...ntinuous_scalar_reference_finite_element.h | 45 +++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/projects/dpg/discontinuous_scalar_reference_finite_element.h b/projects/dpg/discontinuous_scalar_reference_finite_element.h
index 26a6549..699e468 100644
--- a/projects/dpg/discontinuous_scalar_reference_finite_element.h
+++ b/projects/dpg/discontinuous_scalar_reference_finite_element.h
@@ -37,6 +37,14 @@ namespace projects::dpg {
  * fullfill some continuity constraints, since certain shape functions are
  * associated with vertices or edges of the cells. These continuity constraints
  * are broken, by considering all shape functions as interior.
+ *
+ * #### Numbering of the shape functions on segments
+ *
+ * lf::assemble::UniformFEDofHandler reverses the order of the interior degrees
+ * of freedom of an edge, if the orientation of the edge does not match that of
+ * the cell. Therefore the shape functions (and evaluation nodes) on a segment
+ * have to be numbered along the segment: the shape function that the decorated
+ * finite element associates with endpoint 1 becomes the last one.
  */
 template <typename SCALAR>
 class DiscontinuousScalarReferenceFiniteElement
@@ -101,19 +109,20 @@ class DiscontinuousScalarReferenceFiniteElement
   [[nodiscard]] Eigen::Matrix<SCALAR, Eigen::Dynamic, Eigen::Dynamic>
   EvalReferenceShapeFunctions(const Eigen::MatrixXd& local) const override {
     LF_ASSERT_MSG(isInitialized(), "Not initialized");
-    return cfe_->EvalReferenceShapeFunctions(local);
+    return AlongSegment(cfe_->EvalReferenceShapeFunctions(local));
   }
 
   [[nodiscard]] Eigen::Matrix<SCALAR, Eigen::Dynamic, Eigen::Dynamic>
   GradientsReferenceShapeFunctions(
       const Eigen::MatrixXd& local) const override {
     LF_ASSERT_MSG(isInitialized(), "Not initialized");
-    return cfe_->GradientsReferenceShapeFunctions(local);
+    return AlongSegment(cfe_->GradientsReferenceShapeFunctions(local));
   }
 
   [[nodiscard]] Eigen::MatrixXd EvaluationNodes() const override {
     LF_ASSERT_MSG(isInitialized(), "Not initialized");
-    return cfe_->EvaluationNodes();
+    return AlongSegment<double>(cfe_->EvaluationNodes().transpose())
+        .transpose();
   }
 
   [[nodiscard]] size_type NumEvaluationNodes() const override {
@@ -124,13 +133,41 @@ class DiscontinuousScalarReferenceFiniteElement
   [[nodiscard]] Eigen::Matrix<SCALAR, 1, Eigen::Dynamic> NodalValuesToDofs(
       const Eigen::Matrix<SCALAR, 1, Eigen::Dynamic>& nodvals) const override {
     LF_ASSERT_MSG(isInitialized(), "Not initialized");
-    return cfe_->NodalValuesToDofs(nodvals);
+    Eigen::Matrix<SCALAR, 1, Eigen::Dynamic> cfe_nodvals(nodvals.size());
+    for (Eigen::Index i = 0; i < nodvals.size(); ++i) {
+      cfe_nodvals[DecoratedIndex(i, nodvals.size())] = nodvals[i];
+    }
+    return AlongSegment<SCALAR>(
+               cfe_->NodalValuesToDofs(cfe_nodvals).transpose())
+        .transpose();
   }
 
   /** virtual destructor*/
   ~DiscontinuousScalarReferenceFiniteElement() override = default;
 
  private:
+  /** Index (in the decorated finite element) of the i-th out of n shape
+   * functions or evaluation nodes */
+  [[nodiscard]] Eigen::Index DecoratedIndex(Eigen::Index i,
+                                            Eigen::Index n) const {
+    if (cfe_->RefEl() != lf::base::RefEl::kSegment() || n < 3 || i == 0) {
+      return i;
+    }
+    return (i == n - 1) ? 1 : i + 1;
+  }
+
+  /** Rearranges rows in the order of the shape functions of this class */
+  template <typename T>
+  [[nodiscard]] Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> AlongSegment(
+      const Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>& rows) const {
+    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> result(rows.rows(),
+                                                            rows.cols());
+    for (Eigen::Index i = 0; i < rows.rows(); ++i) {
+      result.row(i) = rows.row(DecoratedIndex(i, rows.rows()));
+    }
+    return result;
+  }
+
   /** The underlying (continuous) scalar-valued paramteric finite element */
   std::shared_ptr<const lf::fe::ScalarReferenceFiniteElement<SCALAR>> cfe_;
 };
-- 
2.43.0


From 3bbab1a5a564b08c0fcd6ca0f533124353f9a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:39 +0000
Subject: [PATCH 32/38] fix: InitEssentialConditionsFromFunctions aborted for
 every flux component

---
 projects/dpg/dpg_tools.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/projects/dpg/dpg_tools.h b/projects/dpg/dpg_tools.h
index 0cf6f5c..5ab5d3c 100644
--- a/projects/dpg/dpg_tools.h
+++ b/projects/dpg/dpg_tools.h
@@ -277,16 +277,14 @@ std::vector<std::pair<bool, SCALAR>> InitEssentialConditionsFromFunctions(
   LF_ASSERT_MSG(trace_component != flux_component,
                 "Boundary conditions imposed on same component");
 
-  // retrive the dofhandlers for the corresponding  trace and flux components
+  // finite element space of the trace component. There is no such space for the
+  // flux component, whose shape functions are available on edges only.
   const auto& trace_fes = fes.ComponentFESpace(trace_component);
-  const auto& flux_fes = fes.ComponentFESpace(flux_component);
 
   // flag dofs on the component spaces
   std::vector<std::pair<bool, SCALAR>> componentTraceConditions =
       lf::fe::InitEssentialConditionFromFunction(*trace_fes, dirichletcondflag,
                                                  g);
-  std::vector<std::pair<bool, SCALAR>> componentFluxConditions =
-      lf::fe::InitEssentialConditionFromFunction(*flux_fes, neumanncondflag, h);
 
   // calculate offsets to transform flags on component spaces
   // to the full product space
@@ -302,8 +300,25 @@ std::vector<std::pair<bool, SCALAR>> InitEssentialConditionsFromFunctions(
   }
 
   // flag dofs on product space corresponding to fixed flux dofs
-  for (size_type dof = 0; dof < flux_fes->LocGlobMap().NumDofs(); dof++) {
-    EssentialConditions[flux_offset + dof] = componentFluxConditions[dof];
+  const auto& flux_dofh = fes.LocGlobMap().ComponentDofHandler(flux_component);
+  const auto* flux_fe =
+      fes.ShapeFunctionLayout(lf::base::RefEl::kSegment(), flux_component);
+  LF_ASSERT_MSG(flux_fe != nullptr, "No shape functions on edges for the flux");
+  for (const lf::mesh::Entity* edge : fes.Mesh()->Entities(1)) {
+    if (neumanncondflag(*edge)) {
+      // values of h in the evaluation nodes yield the dofs on the edge
+      const auto h_vals = h(*edge, flux_fe->EvaluationNodes());
+      Eigen::Matrix<SCALAR, 1, Eigen::Dynamic> nodvals(h_vals.size());
+      for (size_type k = 0; k < h_vals.size(); ++k) {
+        nodvals[k] = h_vals[k];
+      }
+      const auto dof_vals = flux_fe->NodalValuesToDofs(nodvals);
+      size_type k = 0;
+      for (const lf::assemble::gdof_idx_t dof :
+           flux_dofh.GlobalDofIndices(*edge)) {
+        EssentialConditions[flux_offset + dof] = {true, dof_vals[k++]};
+      }
+    }
   }
 
   return EssentialConditions;
-- 
2.43.0


From 224d93ee36722830e17f94354d7020c253ad4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:56 +0000
Subject: [PATCH 33/38] fix: ProductUniformFESpaceFactory counted components of
 spaces built before

---
 projects/dpg/product_fe_space_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dpg/product_fe_space_factory.h b/projects/dpg/product_fe_space_factory.h
index f54ae44..7a796b3 100644
--- a/projects/dpg/product_fe_space_factory.h
+++ b/projects/dpg/product_fe_space_factory.h
@@ -291,6 +291,7 @@ ProductUniformFESpaceFactory<SCALAR>::Build() {
   rfs_quad_v_ = {};
   rfs_segment_v_ = {};
   rfs_point_v_ = {};
+  num_components_ = 0;
   return fe_space;
 }
 
-- 
2.43.0


From dea83141eaf45b9f8e64e301fda6646281af9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:22 +0000
Subject: [PATCH 34/38] fix: EntityCenterPositionSelector tested a point off
 the center of triangles

---
 lib/lf/refinement/mesh_hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.h b/lib/lf/refinement/mesh_hierarchy.h
index 1578393..7706e17 100644
--- a/lib/lf/refinement/mesh_hierarchy.h
+++ b/lib/lf/refinement/mesh_hierarchy.h
@@ -566,7 +566,7 @@ const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::kedge_center_ =
 
 template <typename POSPRED>
 const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::ktria_center_ =
-    (Eigen::MatrixXd(2, 1) << 0.33, 0.33).finished();
+    (Eigen::MatrixXd(2, 1) << 1.0 / 3.0, 1.0 / 3.0).finished();
 
 template <typename POSPRED>
 const Eigen::MatrixXd EntityCenterPositionSelector<POSPRED>::kquad_center_ =
-- 
2.43.0


From 7d09efec2a6ee7e28227162504909715ef60ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:08 +0000
Subject: [PATCH 35/38] fix: AnnulusTriagMeshBuilder ignored the center point

---
 projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
index 1addf04..2c84dac 100644
--- a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
+++ b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
@@ -22,7 +22,8 @@ std::shared_ptr<lf::mesh::Mesh> AnnulusTriagMeshBuilder::Build() {
     Eigen::Vector2d pos;
     const double pos_r = r + r_idx * dr;
     const double pos_phi = phi_idx * dphi;
-    pos << pos_r * std::cos(pos_phi), pos_r * std::sin(pos_phi);
+    pos << center_point_[0] + pos_r * std::cos(pos_phi),
+        center_point_[1] + pos_r * std::sin(pos_phi);
     return pos;
   };
 
-- 
2.43.0


From b66144404ebb9405ec0f51fcf8718445024ed424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 36/38] fix: DGnorm failed for edge rules with more than one
 point

---
 projects/ipdg_stokes/post_processing/norms.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index c68f334..23adfab 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -90,12 +90,12 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
     }
     quadpoints[0] << quadrules[0].Points(),
-        Eigen::VectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::VectorXd::Ones(quadrules[1].NumPoints()) -
+        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
                          quadrules[1].Points(),
         quadrules[1].Points();
-    quadpoints[2] << Eigen::VectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::VectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-- 
2.43.0


From cdcfcd61369e2a98b33aba0f4f0be61296570b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 37/38] fix: DGnorm paired different points of an edge for
 asymmetric rules

---
 projects/ipdg_stokes/post_processing/norms.h | 44 +++++++-------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index 23adfab..aabc1ce 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -84,44 +84,32 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
     const auto normals =
         projects::ipdg_stokes::mesh::computeOutwardNormals(*entity);
     std::array<lf::quad::QuadRule, 3> quadrules;
+    std::array<Eigen::RowVectorXd, 3> t;
     std::array<Eigen::MatrixXd, 3> quadpoints;
     for (int i = 0; i < 3; ++i) {
       quadrules[i] = qr_selector(*edges[i]);
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
+      // The same points of the edge have to be used from both sides
+      t[i] = quadrules[i].Points();
+      if (orientations[i] == lf::mesh::Orientation::negative) {
+        t[i] = Eigen::RowVectorXd::Ones(t[i].cols()) - t[i];
+      }
     }
-    quadpoints[0] << quadrules[0].Points(),
-        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
-                         quadrules[1].Points(),
-        quadrules[1].Points();
-    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[0] << t[0], Eigen::RowVectorXd::Zero(t[0].cols());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(t[1].cols()) - t[1], t[1];
+    quadpoints[2] << Eigen::RowVectorXd::Zero(t[2].cols()),
+        Eigen::RowVectorXd::Ones(t[2].cols()) - t[2];
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-      if (orientations[i] == lf::mesh::Orientation::positive) {
-        if (eval(*edge).size() == 0) {
-          eval(*edge).resize(segment_eval.size());
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] = segment_eval[j] * normals.col(i).transpose();
-          }
-        } else {
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] += segment_eval[j] * normals.col(i).transpose();
-          }
+      if (eval(*edge).size() == 0) {
+        eval(*edge).resize(segment_eval.size());
+        for (int j = 0; j < segment_eval.size(); ++j) {
+          eval(*edge)[j] = segment_eval[j] * normals.col(i).transpose();
         }
       } else {
-        if (eval(*edge).size() == 0) {
-          eval(*edge).resize(segment_eval.size());
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] = segment_eval[segment_eval.size() - j - 1] *
-                             normals.col(i).transpose();
-          }
-        } else {
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] += segment_eval[segment_eval.size() - j - 1] *
-                              normals.col(i).transpose();
-          }
+        for (int j = 0; j < segment_eval.size(); ++j) {
+          eval(*edge)[j] += segment_eval[j] * normals.col(i).transpose();
         }
       }
     }
-- 
2.43.0


From fcb2d77a4ae8d9963eb0419d2d52db2ceadafa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:23 +0000
Subject: [PATCH 38/38] fix: StrangSplit::Evolution stopped one and a half
 steps before the final time

---
 projects/fisher_kpp/strangsplitting.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/fisher_kpp/strangsplitting.cc b/projects/fisher_kpp/strangsplitting.cc
index 08a9fd6..5ae2726 100644
--- a/projects/fisher_kpp/strangsplitting.cc
+++ b/projects/fisher_kpp/strangsplitting.cc
@@ -72,7 +72,7 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
   sol_cur = StrangSplit::diffusionEvolutionOperator(firstcall, mu);
   firstcall = false;
   /* loop through time steps */
-  for (unsigned int i = 1; i < m_ - 1; i++) {
+  for (unsigned int i = 1; i < m_; i++) {
     /* Reaction for next full time step */
     sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
                                             std::exp(-lambda_ * tau_));
@@ -82,9 +82,13 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
     sol_cur = sol_next;
   }
 
-  /* Last half time step: Reaction */
+  /* Last time step: Reaction for the full time step */
   sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
-                                          std::exp(-lambda_ * tau_ / 2.));
+                                          std::exp(-lambda_ * tau_));
+  sol_cur = sol_next;
+  /* Last half time step: Diffusion */
+  firstcall = true;
+  sol_next = StrangSplit::diffusionEvolutionOperator(firstcall, sol_cur);
   sol_cur = sol_next;
 
   sol = sol_cur;
-- 
2.43.0

