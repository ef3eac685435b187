From 73cb08f7d8ddba7d8f3660a614819534ca3eeb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:29 +0000
Subject: [PATCH 01/27] fix: Runge-Kutta abscissae of RK2TVD, RK3TVD and
 BogackiShampine

The stage times did not equal the row sums of the stage coefficients, so
time-dependent right-hand sides were evaluated at the wrong times and the
methods lost their advertised order.
---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 kernel/Base/TimeIntegration/RK2TVD.cpp          | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From 55d7f77ac2f73885268a9f721858b2a67b3d7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:32 +0000
Subject: [PATCH 02/27] fix: advertised order of the 35 and 56 point
 tetrahedron quadrature rules

Both rules are exact to degree 6 and 8 only (which is what the unit tests
check), but advertised order 7 and 9, so a request for order 7 or 9 was
answered with a rule that is not exact. The registration order keeps the
cheaper rules of the same order selected for orders 6 and 8.
---
 .../Integration/QuadratureRules/AllGaussQuadratureRules.cpp   | 4 ++--
 .../QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp b/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
index 90b03e3..7379261 100644
--- a/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
+++ b/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
@@ -101,10 +101,10 @@ AllGaussQuadratureRules::AllGaussQuadratureRules() {
     addRule(&Tn3_3_10::Instance());
     addRule(&Tn3_4_14::Instance());
     addRule(&T3_5_14::Instance());
-    addRule(&T3_6_24::Instance());
     addRule(&T3_7_31::Instance());
-    addRule(&T3_8_43::Instance());
+    addRule(&T3_6_24::Instance());
     addRule(&T3_9_53::Instance());
+    addRule(&T3_8_43::Instance());
     addRule(&T3_10_126::Instance());
     //*************************TRIANGULARPRISM
     // QUADRATURES*****************************
diff --git a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
index 854c283..d1c63c7 100644
--- a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
+++ b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
@@ -399,7 +399,7 @@ T3_6_24::T3_6_24()
 // clang-format-off
 T3_7_31::T3_7_31()
     : StandardGaussQuadratureRule<3>(
-        "T3_7_35", 7, &Geometry::ReferenceTetrahedron::Instance(), {
+        "T3_7_35", 6, &Geometry::ReferenceTetrahedron::Instance(), {
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.9197896733368800,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.9197896733368800,  0.0267367755543735}},
@@ -644,7 +644,7 @@ T3_8_43::T3_8_43()
 // clang-format-off
 T3_9_53::T3_9_53()
     : StandardGaussQuadratureRule<3>(
-        "T3_9_56", 9, &Geometry::ReferenceTetrahedron::Instance(),{
+        "T3_9_56", 8, &Geometry::ReferenceTetrahedron::Instance(),{
         // Source [2]
         {0.0010373112336140 * TET_VOLUME, {0.0149520651530592, 0.0149520651530592, 0.0149520651530592}},
         {0.0010373112336140 * TET_VOLUME, {0.9551438045408220, 0.0149520651530592, 0.0149520651530592}},
-- 
2.43.0


From 1046ddb510d655b9b38e1ac2e523caffabbe94cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:47 +0000
Subject: [PATCH 03/27] fix: face functions of the conforming cube basis for
 faces whose axes are interchanged

The classes only mirrored the two directions; when the first direction of the
face is the second direction of the cube face, the polynomial orders have to
be exchanged as well or the basis is discontinuous across the face.
---
 .../FE/BasisFunctions3DH1ConformingCube.cpp   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..30f5685 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -238,8 +238,14 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
-                                           // be consistent for one face
+    // choices about mirroring need only be consistent for one face
+    if (std::max(node0, node1) - std::min(node0, node1) != 2) {
+        // the first direction of the face is not the first direction of the
+        // cube, but the basis functions have to be defined on the face
+        std::swap(node1, node2);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
+    mirroring1_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
@@ -290,6 +296,13 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
+    // choices about mirroring need only be consistent for one face
+    if (std::max(node0, node1) - std::min(node0, node1) != 1) {
+        // the first direction of the face is not the first direction of the
+        // cube, but the basis functions have to be defined on the face
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring2_ = node0 < node2 ? 1 : -1;
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
@@ -348,6 +361,13 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
+    // choices about mirroring need only be consistent for one face
+    if (std::max(node0, node1) - std::min(node0, node1) != 1) {
+        // the first direction of the face is not the first direction of the
+        // cube, but the basis functions have to be defined on the face
+        std::swap(node1, node2);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     mirroring0_ = node0 < node1 ? 1 : -1;
     mirroring1_ = node0 < node2 ? 1 : -1;
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
-- 
2.43.0


From 6f226be8b226890532842b9c41cf09a02a7aacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:47 +0000
Subject: [PATCH 04/27] fix: face functions of the conforming prism basis on
 the square faces

They were constructed with the class for the triangular faces, whose
assertions reject the nodes of a square face.
---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..21a9c0b 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,7 +695,7 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
                     vectorOfPointIndexes[2], j, k));
             }
@@ -704,43 +704,43 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
                     vectorOfPointIndexes[3], j, k));
             }
@@ -749,18 +749,18 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], j, k));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], j, k));
             }
         }
         result.push_back(set);
-- 
2.43.0


From 3b50041d29046acd2b826d353cc906f4dc3773ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:22 +0000
Subject: [PATCH 05/27] fix: pass the real workspace to zgelss in
 MiddleSizeMatrix::pseudoSolve

LAPACK's zgelss takes a double precision workspace RWORK between LWORK and
INFO. The declaration and call lacked it, so in complex builds INFO was used
as workspace and the routine wrote its status through a garbage pointer.
---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..b1ae3f2 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -898,8 +899,9 @@ void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
+    std::vector<double> rWork(5 * n);
     zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+            work.data(), &lWork, rWork.data(), &info);
 #else
     dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
             work.data(), &lWork, &info);
-- 
2.43.0


From e7eaaa530115065282e87e14fdec0620125a06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 06/27] fix: normal-times-basis-function on a face uses the
 functions of the requested unknown

basisFunctionNormal(i, unknown) and basisFunctionUnitNormal(i, unknown) evaluated basisFunction(j), the functions
of unknown 0, so the result was wrong (or an assertion failed) when the unknowns use different basis functions.
---
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..bc433e9 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From 03d72f7efd598ecb0be7d23693ef453610806702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 07/27] fix: PhysicalFace::setFace adapts its storage to every
 face

The number of functions of the left element and the size of the result storage were taken from the first face only, so
faces between elements with other numbers of basis functions were evaluated with stale sizes.
---
 kernel/Base/PhysicalFace_Impl.h | 62 ++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index bc433e9..e91b61d 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -846,45 +846,43 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
-        std::size_t leftCoefficients =
-            face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
-        nLeftBasisFunctions.resize(numberOfUnknowns);
-        basisFunctionNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionNormal_.resize(numberOfUnknowns);
-        basisFunctionUnitNormal_.resize(numberOfUnknowns);
-        vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
-        std::size_t rightCoefficients = 0;
-        for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+    std::size_t leftCoefficients =
+        face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+    nLeftBasisFunctions.resize(numberOfUnknowns);
+    basisFunctionNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionNormal_.resize(numberOfUnknowns);
+    basisFunctionUnitNormal_.resize(numberOfUnknowns);
+    vectorBasisFunctionUnitNormal_.resize(numberOfUnknowns);
+    std::size_t rightCoefficients = 0;
+    for (std::size_t i = 0; i < numberOfUnknowns; ++i) {
+        std::size_t numBasis =
+            face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+        basisFunctionNormal_[i].resize(numBasis);
+        vectorBasisFunctionNormal_[i].resize(numBasis);
+        basisFunctionUnitNormal_[i].resize(numBasis);
+        vectorBasisFunctionUnitNormal_[i].resize(numBasis);
+        nLeftBasisFunctions[i] = numBasis;
+    }
+    if (isInternal_) {
+        rightCoefficients =
+            face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        // We assume that in the left and right element the number of
+        // unknowns is equal.
+        for (std::size_t i = 0;
+             i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
             std::size_t numBasis =
-                face->getPtrElementLeft()->getNumberOfBasisFunctions(i);
+                face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
+                face->getPtrElementRight()->getNumberOfBasisFunctions(i);
             basisFunctionNormal_[i].resize(numBasis);
             vectorBasisFunctionNormal_[i].resize(numBasis);
             basisFunctionUnitNormal_[i].resize(numBasis);
             vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            nLeftBasisFunctions[i] = numBasis;
-        }
-        if (isInternal_) {
-            rightCoefficients =
-                face->getPtrElementRight()->getTotalNumberOfBasisFunctions();
-            // We assume that in the left and right element the number of
-            // unknowns is equal.
-            for (std::size_t i = 0;
-                 i < face->getPtrElementRight()->getNumberOfUnknowns(); ++i) {
-                std::size_t numBasis =
-                    face->getPtrElementLeft()->getNumberOfBasisFunctions(i) +
-                    face->getPtrElementRight()->getNumberOfBasisFunctions(i);
-                basisFunctionNormal_[i].resize(numBasis);
-                vectorBasisFunctionNormal_[i].resize(numBasis);
-                basisFunctionUnitNormal_[i].resize(numBasis);
-                vectorBasisFunctionUnitNormal_[i].resize(numBasis);
-            }
         }
-        resultMatrix.resize(leftCoefficients, rightCoefficients);
-        leftRightMatrix.resize(leftCoefficients, rightCoefficients);
-        rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
-        resultVector.resize(leftCoefficients + rightCoefficients);
     }
+    resultMatrix.resize(leftCoefficients, rightCoefficients);
+    leftRightMatrix.resize(leftCoefficients, rightCoefficients);
+    rightLeftMatrix.resize(rightCoefficients, leftCoefficients);
+    resultVector.resize(leftCoefficients + rightCoefficients);
     face_ = face;
     hasFace = true;
     left.setElement(face->getPtrElementLeft());
-- 
2.43.0


From e0f0085e7bb36b6cbd1da200c2f9a127f842c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 08/27] fix: side based (unit) normal cross products of basis
 functions

basisFunctionNormalCross(side, ...) and basisFunctionUnitNormalCross(side, ...) called the scalar variants
and could not be instantiated.
---
 kernel/Base/PhysicalFace_Impl.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index e91b61d..5e1d0a2 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -429,11 +429,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result);
+        return basisFunctionNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[0], result);
 }
 
 template <std::size_t DIM>
@@ -443,12 +443,12 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result, unknown);
+        return basisFunctionNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[unknown], result,
-                               unknown);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
+                                    unknown);
 }
 
 template <std::size_t DIM>
@@ -537,11 +537,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result);
+        return basisFunctionUnitNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[0], result);
 }
 template <std::size_t DIM>
 inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
@@ -550,12 +550,12 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result, unknown);
+        return basisFunctionUnitNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[unknown], result,
-                                   unknown);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown],
+                                        result, unknown);
 }
 
 template <std::size_t DIM>
-- 
2.43.0


From 2353492c0f4430cda2ba839d5926adc15bd8715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:58 +0000
Subject: [PATCH 09/27] fix: face numbering of the right degrees of freedom
 counts all left basis functions

Face::convertToSingleIndex skipped only the functions local to the left
element, so with conforming basis functions the indices of the right
element overlapped those of the left one (and disagreed with getSide and
getElementBasisFunctionId).
---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 0e6244d41895a22716fe5446ae1a90eccf1f4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:22 +0000
Subject: [PATCH 10/27] fix: indexing an element without included unknowns

The check for duplicate unknowns underflowed for an empty list and read
past its end.
---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
-- 
2.43.0


From eb7b1ea99fbca882b792f8b5b445aa7e2981a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:48 +0000
Subject: [PATCH 11/27] fix: declare VTK tensor arrays with nine components

Tensor fields are written with nine numbers per point, but both the data
array and its declaration in the master file announced three components, so
no reader could load such a file.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..a756e7d 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From e1954b35a2d9ab0508a731012b3bc87752b863f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 12/27] fix: do not mark faces between two ghost elements as
 periodic

Such a face is visited once for each of its elements; the second visit found
SUBDOMAIN_BOUNDARY instead of INTERNAL and made it PERIODIC_SUBDOMAIN_BC.
---
 kernel/Base/MeshManipulator_Impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..2568cc2 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1834,7 +1834,8 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                     if (face->getFaceType() == Geometry::FaceType::INTERNAL) {
                         face->setFaceType(
                             Geometry::FaceType::SUBDOMAIN_BOUNDARY);
-                    } else {
+                    } else if (face->getFaceType() ==
+                               Geometry::FaceType::PERIODIC_BC) {
                         face->setFaceType(
                             Geometry::FaceType::PERIODIC_SUBDOMAIN_BC);
                     }
-- 
2.43.0


From aece55756f9a80735b6347c3e143cc4b659b8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 13/27] fix: write a single unknown of a global vector with its
 own number of functions

writeTimeIntegrationVector(id, unknown) used the number of basis functions
of the element without naming the unknown, which aborts (or copies the wrong
number of coefficients without assertions) when the unknowns have different
numbers of basis functions.
---
 kernel/Utilities/GlobalVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..66e23f2 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -454,8 +454,9 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(unknown);
+             ++i) {
             singleUnknownData[i] =
                 localData[(*it)->convertToSingleIndex(i, unknown)];
         }
-- 
2.43.0


From eaa276ac3d345776e6c788cce5e9156d1f4245e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 14/27] fix: check face coupling of the included unknown, not
 of its position

The check that face coupled rows are element based used the position in the
list of included unknowns as unknown. For indexings of a subset of the
unknowns this rejected valid couplings on distributed meshes and missed
invalid ones.
---
 kernel/Utilities/SparsityEstimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..87c1710 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -385,7 +385,10 @@ std::pair<std::vector<int>, std::vector<int>>
              ++i) {
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                const std::size_t rowUnknown =
+                    rowIndexing_.getIncludedUnknowns()[i];
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(rowUnknown)) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0


From c37fc1442312b12db87095322fea13393474aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 15/27] fix: do not step past the final time in solve

---
 kernel/Base/HpgemAPISimplified_Impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..3349cbc 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -987,14 +987,13 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                               (numberOfTimeSteps % numberOfOutputFrames)) %
                              numberOfOutputFrames;
 
-        // Recompute dt.
-        dt = T / numberOfTimeSteps;
-
         // Compute the number of timesteps after which to create an output
         // frame.
         numberOfTimeStepsForOutput =
             (std::size_t)(numberOfTimeSteps / numberOfOutputFrames);
     }
+    // Recompute dt.
+    dt = T / numberOfTimeSteps;
 
     // if the user wants an adaptive time step, the default of 0.01 for dt is
     // silly
@@ -1032,7 +1031,8 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                 time, maximumRelativeError,
                 std::min(std::min(dt, outputTime - time), finalTime - time));
         } else {
-            computeOneTimeStep(time, dt);
+            // Do not step past the final time due to rounding of the time
+            computeOneTimeStep(time, std::min(dt, finalTime - time));
         }
 
         if (time > outputTime - 1e-12) {
-- 
2.43.0


From 80248e2feb120c462eaf5f715a378c9d750408b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 16/27] fix: read gmsh elements without tags

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..dc3ef2d 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From 8fd8aea64a534083e0ada800c67738cabb4004b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 17/27] fix: accept 4-node tetrahedra from gmsh

---
 applications/Preprocessor/lib/gmsh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index dc3ef2d..4a97857 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,8 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    // Tetrahedrons do not require reordering
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 4b01c5469136ef272bec3090cc4290c4ab116898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 18/27] fix: gmsh node numbers need not be dense and ordered

---
 applications/Preprocessor/lib/gmsh.cpp | 7 +++----
 applications/Preprocessor/lib/gmsh.h   | 3 +++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 4a97857..b5d6219 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -299,6 +299,7 @@ void GmshReader::readNodes(double tol) {
         temp.nodeId =
             nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
         temp.coordinate = std::vector<double>{x, y, z};
+        nodeIndices_[nodeTag] = nodes_.size();
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
@@ -366,8 +367,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(nodeIndices_.at(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -466,8 +466,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[nodeIndices_.at(node2)] = nodeIndices_.at(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..2a0c51f 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -135,6 +135,9 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// Index in nodes_ for each gmsh node number. The node numbers in a gmsh
+    /// file need not form a dense nor an ordered sequence.
+    std::map<std::size_t, std::size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From 0147c6b745b9cdd9e1bd8c222dd9cc60440b9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 19/27] fix: use the test function in the DivDGMax normal jump
 stabilization

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..446b5bc 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -645,7 +645,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From b4000cfa82810494d9c0d7a65aa44969641dffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 20/27] fix: use the permittivity on both sides in
 computeVectorNormalLiftProjector

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 446b5bc..84e4a44 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -963,7 +963,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From 2b73dde66b7762dcc49b68ebb6f7026481aa7bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 21/27] fix: add the Brezzi boundary vector only for a Brezzi
 tangential flux

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 84e4a44..147d6d9 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From 212a7cddad677dc5be87eb2f891e52b1d91dcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 22/27] fix: index of the right coefficients in DG-Max face
 quantities

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp    | 2 +-
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..4279a3c 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -740,7 +740,7 @@ double DGMaxDiscretization<DIM>::computeFieldL2Integral(Base::Face& face,
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 147d6d9..c874be9 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,8 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
@@ -424,7 +421,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From 8e78f89bc56e0d154afdeadc7458dbed94b7083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 23/27] fix: undo the orthogonalization per side in
 computeEnergyFluxes

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 4279a3c..785c98c 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -655,7 +655,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -669,7 +669,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                 face.getPtrElementRight()->getNumberOfBasisFunctions();
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -677,7 +677,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
-- 
2.43.0


From 2fd6f25ed152a6e9c473ebde4c14ce055eefc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 24/27] fix: write the requested time integration vector in
 DGMax

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 785c98c..d0be17c 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -591,10 +591,11 @@ void DGMaxDiscretization<DIM>::writeFields(
     };
 
     writer.template writeMultiple<Fields>(
-        [this](Base::Element* element,
-               const Geometry::PointReference<DIM>& point, std::size_t) {
+        [this, timeIntegrationVectorId](
+            Base::Element* element, const Geometry::PointReference<DIM>& point,
+            std::size_t) {
             LinearAlgebra::MiddleSizeVector coefficients =
-                element->getTimeIntegrationVector(0);
+                element->getTimeIntegrationVector(timeIntegrationVectorId);
             // When using the Hermitian system we applied a rescaling of the
             // solution coefficients to use y = L^H x (LL^H = M is the Cholesky
             // decomposition of the mass matrix and x the actual coefficients).
-- 
2.43.0


From 6a95482d45d63466e35eafd5da7ba2666fb06506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 25/27] fix: DGMax fields and boundary vectors with the
 projector unknown

---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index d0be17c..f812537 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -478,7 +478,7 @@ void DGMaxDiscretization<DIM>::faceVector(
     LinearAlgebra::MiddleSizeVector& ret,
     DGMax::BoundaryConditionType bct) const {
 
-    std::size_t numDoFs = fa.getNumberOfBasisFunctions();
+    std::size_t numDoFs = fa.getNumberOfBasisFunctions(0);
     ret.resize(numDoFs);
 
     const Base::Face* face = fa.getFace();
@@ -539,7 +539,7 @@ typename DGMaxDiscretization<DIM>::Fields
         physicalElement.basisFunction(i, phi, 0);
         result.electricField += coefficients[i] * phi;
         result.electricFieldCurl +=
-            coefficients[i] * physicalElement.basisFunctionCurl(i);
+            coefficients[i] * physicalElement.basisFunctionCurl(i, 0);
     }
     const ElementInfos& userData = ElementInfos::get(*element);
 
@@ -636,7 +636,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
     using VecC = LinearAlgebra::SmallVectorC<DIM>;
 
     auto coefficients = face.getTimeIntegrationVector(timeIntegrationVectorId);
-    auto leftDoFs = face.getPtrElementLeft()->getNumberOfBasisFunctions();
+    auto leftDoFs = face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     if (matrixHandling_ == ORTHOGONALIZE) {
         // We need to undo the orthogonalization
         // for boundary faces this is easy (see computing of fields). For
@@ -667,7 +667,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
 
             // Same process but now for the coefficients on the right side.
             std::size_t rightDoFs =
-                face.getPtrElementRight()->getNumberOfBasisFunctions();
+                face.getPtrElementRight()->getNumberOfBasisFunctions(0);
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
                 temp[i] = coefficients[i + leftDoFs];
@@ -695,10 +695,10 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgE;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            for (int i = 0; i < pface.getNumberOfBasisFunctions(); ++i) {
+            for (int i = 0; i < pface.getNumberOfBasisFunctions(0); ++i) {
                 avgCurl +=
-                    factor * coefficients[i] * pface.basisFunctionCurl(i);
-                pface.basisFunction(i, phi);
+                    factor * coefficients[i] * pface.basisFunctionCurl(i, 0);
+                pface.basisFunction(i, phi, 0);
                 avgE += factor * coefficients[i] * normal.crossProduct(phi);
             }
             // Compute n . Re(S) = n . Re(E x flux[H]^*)
-- 
2.43.0


From 1f22f2fd4884e7665c2a61439d853bf604eb677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 26/27] fix: zero vectors for absent functions in DGMax

---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index f812537..a067325 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -128,6 +128,8 @@ void DGMaxDiscretization<DIM>::computeElementIntegralsImpl(
                                             res);  // Initial conditions
                         return res;
                     });
+            } else {
+                tempElementVector.set(0.0);
             }
             element->setElementVector(tempElementVector,
                                       elementVectorDef.first);
@@ -183,6 +185,8 @@ void DGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                         faceVector(face, faceVectorDef.second, res, bct);
                         return res;
                     });
+            } else {
+                tempFaceVector.set(0.0);
             }
             face->setFaceVector(tempFaceVector, faceVectorDef.first);
         }
-- 
2.43.0


From 258b1bdf3e25c93053295cb9dc3e8fd5bf1d8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:28 +0000
Subject: [PATCH 27/27] fix: Euler: evaluate the element fluxes with the
 coefficients of the current stage

---
 applications/Euler/Euler_Impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/applications/Euler/Euler_Impl.h b/applications/Euler/Euler_Impl.h
index 5dea76c..8829b93 100644
--- a/applications/Euler/Euler_Impl.h
+++ b/applications/Euler/Euler_Impl.h
@@ -265,7 +265,11 @@ LinearAlgebra::MiddleSizeVector Euler<DIM>::integrandRightHandSideOnRefElement(
 
     // Create data structures for calculating the integrand
     LinearAlgebra::MiddleSizeVector &integrand = ptrElement.getResultVector();
-    const LinearAlgebra::MiddleSizeVector &qSolution = ptrElement.getSolution();
+    // The stages of the time integration are not stored in the element, so use
+    // the given coefficients
+    const LinearAlgebra::MiddleSizeVector qSolution = computeSolutionAtElement(
+        ptrElement.getElement(), solutionCoefficients,
+        ptrElement.getPointReference());
     LinearAlgebra::SmallVector<DIM> gradientBasisFunction;  // Gradient function
                                                             // based on the
                                                             // number of
-- 
2.43.0

