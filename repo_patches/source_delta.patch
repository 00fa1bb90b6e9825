From a8eb4931a152e158d467bf9262ce3eedc7c6e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 01/84] fix: planar materials used the covariant metric as
 contravariant metric

---
 src/gsMaterialMatrixBaseDim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 8ca1bfc..9e9e82c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1154,7 +1154,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Get metric information
     Acov_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
-    Acon_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
+    Acon_def = m_data.mine().m_Acon_def_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_def.setZero();
@@ -1283,7 +1283,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Get metric information
     Acov_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
-    Acon_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
+    Acon_ori = m_data.mine().m_Acon_ori_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_ori.setZero();
-- 
2.43.0


From 1d65430d62adfda2960cc6aa207aa8d305ffbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 02/84] fix: Cauchy stress of compressible materials was always
 zero

---
 src/gsMaterialMatrixNonlinear.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 488a24c..7ba778d 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1049,10 +1049,8 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
     // Output: (n=u.cols(), m=z.rows())
     //          [(u1,z1) (u2,z1) ..  (un,z1), (u1,z2) ..  (un,z2), ..,  (u1,zm) .. (un,zm)]
 
-    gsMatrix<T> Smat = _eval3D_Compressible_stress(patch,u,z);
+    gsMatrix<T> result = _eval3D_Compressible_stress(patch,u,z);
 
-    gsMatrix<T> result(3, u.cols() * z.rows());
-    result.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,z);
     T C33;
     index_t colIdx;
@@ -1065,7 +1063,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             C33 = C33s(0,colIdx);
             detF = math::sqrt(m_data.mine().m_J0_sq*C33);
-            Smat.col(colIdx) /= detF;
+            result.col(colIdx) /= detF;
         }
     }
     return result;
-- 
2.43.0


From a9aa458b131922bdd9275c7a8823b150bedf3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 03/84] fix: compressible stretches used the thickness stretch
 of the first height only

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 7ba778d..59dd775 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -591,7 +591,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch_impl(const
             colIdx = j*u.cols()+k;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
 
-            C33 = C33s(0,k);
+            C33 = C33s(0,colIdx);
 
             // Compute c
             c.setZero();
-- 
2.43.0


From 8d083211bf8a38ee6afccaaf9e1fed2cfb2d7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 04/84] fix: spectral tangent lost all accuracy for nearly
 equal stretches

---
 src/gsMaterialMatrixNonlinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 59dd775..27a96f8 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -2755,7 +2755,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_Cabcd_impl(const index_t a
     T frac = 0.0;
     T tmp = 0.0;
 
-    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-14)
+    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-7)
     {
         // gsDebug<<"Stretches are equal; (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) = "<<abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a))<<"\n";
         frac = 1.0 / (2.0 * m_data.mine().m_stretches(a) ) * ( _dSa_db(b,b) - _dSa_db(a,b));
@@ -2782,7 +2782,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_Cabcd_impl(const index_t a
     T frac = 0.0;
     T tmp = 0.0;
 
-    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-14)
+    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-7)
     {
         // gsDebug<<"Stretches are equal; (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) = "<<abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a))<<"\n";
         frac = 1.0 / (2.0 * m_data.mine().m_stretches(a) ) * ( _dSa_db(b,b) - _dSa_db(a,b));
-- 
2.43.0


From c673f7c604786afd416f4738a0edfb51384e7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 05/84] fix: principal stretches of deformations with trace 2
 were reported as undeformed

---
 src/gsMaterialMatrixBaseDim.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 9e9e82c..4d9764b 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1347,7 +1347,11 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
     gsMatrix<T> eigVectors(3,3);
     gsMatrix<T> eigValues(3,1);
-    if (math::abs(((B.block(0,0,2,2).diagonal()).array()-1).sum()) < 10*std::numeric_limits<T>::epsilon())
+    gsMatrix<T> B0(3,3);
+    B0<<1,0,0,
+        0,1,0,
+        0,0,0;
+    if ((B-B0).cwiseAbs().maxCoeff() < 10*std::numeric_limits<T>::epsilon())
     {
         eigValues<<0,1,1; // eigenvalues when B = [1 0 0; 0 1 0; 0 0 0]
         eigVectors<<0,0,1,
-- 
2.43.0


From aad5ad9bc3a630dda5d1d2fbb47d646eaa44fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 06/84] fix: basis transformations wrote out of bounds for
 several thickness points

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 4d9764b..5ba3a97 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -67,7 +67,7 @@ void gsMaterialMatrixBaseDim<dim,T>::thickness_into(const index_t patch, const g
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> covbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -89,7 +89,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch,
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> conbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -113,7 +113,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_cov2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, covbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
@@ -136,7 +136,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_con2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, conbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
-- 
2.43.0


From 045e481cbaaa7de74d1ca250a6084bd8021e2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:27 +0000
Subject: [PATCH 07/84] fix: principal stresses and strains of all points used
 the basis of the last point

---
 src/gsMaterialMatrixBaseDim.hpp   | 1 +
 src/gsMaterialMatrixLinear.hpp    | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 5ba3a97..a853255 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -254,6 +254,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_pstrain(const index_t patch,
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             E.setZero();
             E(0,0) = Emat(0,colIdx);
             E(1,1) = Emat(1,colIdx);
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 6908828..de105b2 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -377,6 +377,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -410,6 +411,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -443,6 +445,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 27a96f8..b1014dc 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -631,6 +631,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -661,6 +662,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -691,6 +693,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
-- 
2.43.0


From 7f2e424f913c0d413e19af7b235f5632ba5ce53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:27 +0000
Subject: [PATCH 08/84] fix: principal stresses and strains failed when
 round-off exceeded a fixed tolerance

---
 src/gsMaterialMatrixBaseDim.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index a853255..31c4436 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1403,14 +1403,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
 
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
+    // The out-of-plane eigenvalue is zero up to round-off
+    index_t zeroIdx;
+    eigSolver.eigenvalues().cwiseAbs().minCoeff(&zeroIdx);
 
     index_t count = 0;
 
@@ -1447,14 +1442,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStrain(
 
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
+    // The out-of-plane eigenvalue is zero up to round-off
+    index_t zeroIdx;
+    eigSolver.eigenvalues().cwiseAbs().minCoeff(&zeroIdx);
 
     index_t count = 0;
     pstrainvec.col(2) = m_data.mine().m_gcon_ori.col(2);
-- 
2.43.0


From b286ca827c98a24f9eae899511c398fd32ecc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 09/84] fix: principal stress directions were read and written
 out of bounds

---
 src/gsMaterialMatrixBaseDim.hpp   | 3 ++-
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 31c4436..364796a 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1391,7 +1391,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     gsMatrix<T> pstressvec;
     std::pair<gsVector<T>,gsMatrix<T>> result;
     pstresses.resize(2,1);    pstresses.setZero();
-    pstressvec.resize(3,2);   pstressvec.setZero();
+    pstressvec.resize(3,3);   pstressvec.setZero();
 
     typename gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base >  eigSolver;
 
@@ -1408,6 +1408,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     eigSolver.eigenvalues().cwiseAbs().minCoeff(&zeroIdx);
 
     index_t count = 0;
+    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index b1014dc..3e58c1a 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -648,7 +648,7 @@ template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enu
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
     gsMatrix<T> Smat = eval3D_stress(patch,u,z,out);
-    gsMatrix<T> result(2, u.cols() * z.rows());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     result.setZero();
     gsMatrix<T,3,3> S;
     index_t colIdx;
-- 
2.43.0


From f66a6f8f2bff59fe8ec7f118a5f2fb671ad03a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 10/84] fix: principal Cauchy stresses were computed in the
 undeformed basis

---
 src/gsMaterialMatrixBaseDim.h     |  3 +++
 src/gsMaterialMatrixBaseDim.hpp   | 10 ++++++++--
 src/gsMaterialMatrixLinear.hpp    |  2 +-
 src/gsMaterialMatrixNonlinear.hpp |  2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 7bedc88..024b309 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -244,6 +244,9 @@ public:
     /// Computes the principal stress given stress tensor S, into a pair
     std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S ) const;
 
+    /// Computes the principal stress given stress tensor S in the covariant basis gcov, into a pair
+    std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov ) const;
+
     /// Computes the stretch given deformation tensor C, into class members m_stretches and m_stretchDirs
     void _computeStretch(const gsMatrix<T> & C, const gsMatrix<T> & gcon_ori ) const;
 
diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 364796a..a78b238 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1386,6 +1386,12 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
 template <short_t dim, class T>
 std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S) const
+{
+    return _evalPStress(S,m_data.mine().m_gcov_ori);
+}
+
+template <short_t dim, class T>
+std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov) const
 {
     gsVector<T> pstresses;
     gsMatrix<T> pstressvec;
@@ -1399,7 +1405,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     B.setZero();
     for (index_t k = 0; k != 2; k++)
         for (index_t l = 0; l != 2; l++)
-            B += S(k,l) * m_data.mine().m_gcov_ori.col(k) * m_data.mine().m_gcov_ori.col(l).transpose();
+            B += S(k,l) * gcov.col(k) * gcov.col(l).transpose();
 
     eigSolver.compute(B);
 
@@ -1408,7 +1414,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     eigSolver.eigenvalues().cwiseAbs().minCoeff(&zeroIdx);
 
     index_t count = 0;
-    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
+    pstressvec.col(2) = gcov.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index de105b2..b69aaee 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -451,7 +451,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 3e58c1a..17b3207 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -699,7 +699,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
-- 
2.43.0


From 323bedac9022335cb6a9058fd53d46227a37a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 11/84] fix: linear materials rejected the principal stress
 directions

---
 src/gsMaterialMatrixLinear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index b69aaee..5a0e311 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -620,7 +620,8 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::_E(const T /*z*/, enum MaterialOutput
     else if (   out == MaterialOutput::Generic          ||
                 out == MaterialOutput::Strain           ||
                 out == MaterialOutput::Stress           ||
-                out == MaterialOutput::PStress             ) // To be used with multiplyLinZ_into or integrateZ_into
+                out == MaterialOutput::PStress          ||
+                out == MaterialOutput::PStressDir          ) // To be used with multiplyLinZ_into or integrateZ_into
         strain = 0.5*(m_data.mine().m_Gcov_def.block(0,0,2,2) - m_data.mine().m_Gcov_ori.block(0,0,2,2));
     else
         GISMO_ERROR("Output type MaterialOutput::" + std::to_string((short_t)(out)) + " not understood. See gsMaterialMatrixUtils.h");
-- 
2.43.0


From b7992aace1dd6eb020cae5d68a3f4c35586f42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 12/84] fix: hasUndeformed() reported on the deformed geometry

---
 src/gsMaterialMatrixBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index cef3f66..78bce9b 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -795,7 +795,7 @@ public:
     const function_ptr getDeformed()  const { return m_defpatches; }
 
     virtual bool hasUndeformed() const
-    { return m_defpatches!=nullptr; }
+    { return m_patches!=nullptr; }
     virtual bool hasDeformed() const { return m_defpatches!=nullptr; }
 
     virtual bool initialized() const
-- 
2.43.0


From 3722653ccb6a9c45c66c6b8b6cc08b8cc9cdf3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 13/84] fix: evaluator used the deformed geometry as undeformed
 geometry

---
 src/gsMaterialMatrixEval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..cf61c64 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
-- 
2.43.0


From 743de329d64ffe171f9c0c5ed23637b45dbd6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 14/84] fix: integrator built its pieces before all materials
 were set

---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From 6a1969eb9a3bb8bd40feb565843b3f895fbd8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:51 +0000
Subject: [PATCH 15/84] fix: laminate stiffness was wrong for non-orthogonal
 parametrisations

---
 src/gsMaterialMatrixComposite.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fb5c0cf..2d2c9bc 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -357,7 +357,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_cart2cov(const gsVector<T> & a1,
     Tmat.setZero();
     // Covariant to local cartesian
     Tmat(0,0) = (e1.dot(a1))*(a1.dot(e1));
-    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e2));
+    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e1));
     Tmat(0,2) = 2*(e1.dot(a1))*(a2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(a1))*(a1.dot(e2));
@@ -377,17 +377,17 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_con2cart(const gsVector<T> & ac1,
 {
     gsMatrix<T,3,3> Tmat;
     Tmat.setZero();
-    // Contravariant to local cartesian
+    // Contravariant to local cartesian, for strains with engineering shear (E11, E22, 2*E12)
     Tmat(0,0) = (e1.dot(ac1))*(ac1.dot(e1));
-    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e2));
-    Tmat(0,2) = 2*(e1.dot(ac1))*(ac2.dot(e1));
+    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e1));
+    Tmat(0,2) = (e1.dot(ac1))*(ac2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(ac1))*(ac1.dot(e2));
     Tmat(1,1) = (e2.dot(ac2))*(ac2.dot(e2));
-    Tmat(1,2) = 2*(e2.dot(ac1))*(ac2.dot(e2));
+    Tmat(1,2) = (e2.dot(ac1))*(ac2.dot(e2));
     // Row 2
-    Tmat(2,0) = (e1.dot(ac1))*(ac1.dot(e2));
-    Tmat(2,1) = (e1.dot(ac2))*(ac2.dot(e2));
+    Tmat(2,0) = 2*(e1.dot(ac1))*(ac1.dot(e2));
+    Tmat(2,1) = 2*(e1.dot(ac2))*(ac2.dot(e2));
     Tmat(2,2) = (e1.dot(ac1))*(ac2.dot(e2)) + (e1.dot(ac2))*(ac1.dot(e2));
     return Tmat;
 }
-- 
2.43.0


From 913fead33b15a3b14949a563ac536305acfda89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:31 +0000
Subject: [PATCH 16/84] fix: membrane forces and moments of laminates lacked
 the membrane-bending coupling

---
 src/gsMaterialMatrixComposite.hpp | 40 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 2d2c9bc..4785a7d 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -293,35 +293,33 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_vector(const index_t patch,
 
     this->_computePoints(patch,u);
     gsMatrix<T> result(3, u.cols());
-    enum MaterialOutput _out;
+    // N = A*Em + B*Ef, M = C*Em + D*Ef
+    gsMatrix<T> Cm, Cf;
     if      (out==MaterialOutput::VectorN)
-        _out=MaterialOutput::MatrixA;
+    {
+        Cm = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixA);
+        Cf = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixB);
+    }
     else if (out==MaterialOutput::VectorM)
-        _out=MaterialOutput::MatrixD;
+    {
+        Cm = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixC);
+        Cf = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixD);
+    }
     else
-        GISMO_ERROR("Output unknown");
-
-    gsMatrix<T> Cmat = this->eval3D_matrix(patch,u,z,_out);
-    gsMatrix<T> Eij(2,2);
+        GISMO_ERROR("Output type is not VectorN or VectorM!");
 
+    gsMatrix<T,2,2> Eij;
+    gsVector<T,3> Em, Ef;
     for (index_t k = 0; k != u.cols(); ++k)
     {
         this->_getMetric(k,0.0); // on point i, with height 0.0
 
-        if      (out == MaterialOutput::VectorN) // To be used with multiplyZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
-        else if (out == MaterialOutput::VectorM) // To be used with multiplyZ_into
-            Eij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else if (out == MaterialOutput::Generic) // To be used with multiplyLinZ_into or integrateZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori) + z*(m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else
-            GISMO_ERROR("Output type is not VectorN, VectorM or Generic!");
-
-        Eij(0,1) += Eij(1,0);
-        std::swap(Eij(1,0), Eij(1,1));
-        Eij.resize(4,1);
-        Eij.conservativeResize(3,1);
-        result.col(k) = Cmat.reshapeCol(k,3,3) * Eij;
+        Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
+        Em << Eij(0,0), Eij(1,1), Eij(0,1)+Eij(1,0);
+        Eij = m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def;
+        Ef << Eij(0,0), Eij(1,1), Eij(0,1)+Eij(1,0);
+
+        result.col(k) = Cm.reshapeCol(k,3,3) * Em + Cf.reshapeCol(k,3,3) * Ef;
     }
     return result;
 }
-- 
2.43.0


From 4b564f20f0b546ae7db9473f27d65c681c41edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:31 +0000
Subject: [PATCH 17/84] fix: laminates could not be evaluated before a deformed
 geometry was set

---
 src/gsMaterialMatrixComposite.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 4785a7d..e933d9b 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -133,7 +133,7 @@ void gsMaterialMatrixComposite<dim,T>::_computePoints(const index_t patch, const
 {
     this->_computeMetricUndeformed(patch,u);
 
-    if (Base::m_defpatches->nPieces()!=0)
+    if (Base::m_defpatches!=nullptr && Base::m_defpatches->nPieces()!=0)
         this->_computeMetricDeformed(patch,u);
 }
 
@@ -229,7 +229,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_matrix(const index_t patch,
     for (index_t k = 0; k != u.cols(); ++k)
     {
         Cmat.setZero();
-        this->_getMetric(k,0.0); // on point i, with height 0.0
+        this->_getMetricUndeformed(k,0.0); // on point i, with height 0.0
 
         // Compute total thickness (sum of entries)
         t_tot = 0;
-- 
2.43.0


From 195c46c3788fd9b1825a6e1fe0be04bd0e5603fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:31 +0000
Subject: [PATCH 18/84] fix: ply thicknesses of laminates were written to an
 unsized matrix and taken from the first patch

---
 src/gsMaterialMatrixComposite.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index e933d9b..e3f816f 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -176,15 +176,15 @@ void gsMaterialMatrixComposite<dim,T>::thickness_into(const index_t patch, const
     static_cast<const gsFunction<T>&>(m_patches->piece(patch)   ).computeMap(map); // the piece(0) here implies that if you call class.eval_into, it will be evaluated on piece(0). Hence, call class.piece(k).eval_into()
 
     std::vector<gsMatrix<T>> Tcontainer(m_nLayers);
-    for (size_t k=0; k!= m_Rs.size(); k++)
+    for (size_t k=0; k!= m_Ts.size(); k++)
     {
-        Tcontainer[k] = m_Ts[k]->eval(map.values[0]);
+        Tcontainer[k] = m_Ts[k]->piece(patch).eval(map.values[0]);
         GISMO_ASSERT(Tcontainer[k].rows()==1,"Thickness has the wrong size, must be scalar");
     }
 
+    result.resize(m_nLayers, u.cols());
     for (index_t i = 0; i != m_nLayers; ++i) // layers
-        for (index_t k = 0; k != u.cols(); ++k) // points
-            result.row(i) = Tcontainer[i].row(0);
+        result.row(i) = Tcontainer[i].row(0);
 }
 
 template <short_t dim, class T >
-- 
2.43.0


From 05e1de2ea1c50396a0dc30cbc38e3b3f25d6b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:10 +0000
Subject: [PATCH 19/84] fix: Cauchy stress of wrinkled points was divided by
 the root of the volume ratio

---
 src/gsMaterialMatrixTFT.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a87fe4f..f40edf3 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -208,7 +208,6 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
     index_t colIdx;
     T theta;
 
-    this->_computePoints(patch,u);
     for (index_t k=0; k!=u.cols(); k++)
     {
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
@@ -226,15 +225,15 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
             }
             else if (TF(0,colIdx) == 0) // wrinkled
             {
-                this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
                 gsMatrix<T> C = m_materialMat->eval3D_matrix(patch,u.col(k),z(j,k),MaterialOutput::MatrixA);
                 gsMatrix<T> N = m_materialMat->eval3D_stress(patch,u.col(k),z(j,k),MaterialOutput::VectorN);;
                 gsMatrix<T> E = m_materialMat->eval3D_strain(patch,u.col(k),z(j,k));
                 gsMatrix<T> thetas = eval_theta(C,N,E);
                 theta = thetas(0,0);
                 gsMatrix<T> S = this->_compute_S(theta,C.reshape(3,3),N);
-                T detF = math::sqrt(m_data.mine().m_J0_sq)*1.0;
-                result.col(colIdx) = S / math::sqrt(detF);
+                gsMatrix<T> zmat(1,1); zmat<<z(j,k);
+                T detF = m_materialMat->eval3D_detF(patch,u.col(k),zmat,MaterialOutput::Generic)(0,0);
+                result.col(colIdx) = S / detF;
             }
             else
                 GISMO_ERROR("Tension field data not understood: "<<TF(0,colIdx));
-- 
2.43.0


From 0b6845cfb4dc76d1d37bf481281a1c61ef5a1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:10 +0000
Subject: [PATCH 20/84] fix: wrinkle angle and wrinkling strain were written
 out of bounds for several thickness points

---
 src/gsMaterialMatrixTFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index f40edf3..70eee3b 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -302,7 +302,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_tensionfield(const index_t
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols() * z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
@@ -334,7 +334,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch,
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_gamma(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols() * z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
-- 
2.43.0


From 0fb5549792c0fef281917ed482e784d0c192b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:11 +0000
Subject: [PATCH 21/84] fix: derivative of the hyperelastic tangent was
 evaluated at half of the shear deformation

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 17b3207..d2da0a9 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -385,7 +385,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::dCijkl_impl(const index_t p
 
     Cvoight(0,0) = m_data.mine().m_Gcov_def(0,0);
     Cvoight(1,0) = m_data.mine().m_Gcov_def(1,1);
-    Cvoight(2,0) = m_data.mine().m_Gcov_def(0,1);
+    Cvoight(2,0) = 2*m_data.mine().m_Gcov_def(0,1); // Cfun takes the engineering shear
 
     Cfunc.deriv_into(Cvoight,result);
     return result;
-- 
2.43.0


From e8024038e5ac0df6ad6d4a6429c86a65505deecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:44 +0000
Subject: [PATCH 22/84] fix: sign of the wrinkle angle derivative in the
 tangent of linear wrinkled materials

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 70eee3b..acce365 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -864,7 +864,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // dF/dE
     // gsMatrix<T> dfdE = ( n2_vec.transpose() - tmp * n1_vec.transpose() ) * C;
-    gsMatrix<T> dfdE = n2_vec.transpose() * C - dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
+    gsMatrix<T> dfdE = n2_vec.transpose() * C + dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
     dfdE.transposeInPlace();
 
     // dF/dT
-- 
2.43.0


From a04bc34da376c4d8235879d266f041ceb61387f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:56 +0000
Subject: [PATCH 23/84] fix: root finder of the wrinkle angle swapped function
 values without their arguments

---
 src/gsMaterialMatrixTFT.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index acce365..16733cd 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -1135,8 +1135,6 @@ public:
 
         if (fa*fb >=0)
             return false;
-        else if (fa > fb)
-            std::swap(fa,fb);
 
         c = sa;
         fc = fa;
-- 
2.43.0


From 042cb683cc9072df43d6bdc522cda36aee99e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:56 +0000
Subject: [PATCH 24/84] fix: bisection for the wrinkle angle never moved its
 midpoint

---
 src/gsMaterialMatrixTFT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 16733cd..dc856cf 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -1069,10 +1069,13 @@ public:
     {
         T a = A;
         T b = B;
-        T c = (b-a)/2;
+        T c = (a+b)/2;
+        if (this->eval(a)*this->eval(b) > 0)
+            return false;
         index_t it = 0;
         while (math::abs(b-a) > t && it++ < itmax)
         {
+            c = (a+b)/2;
             if (this->eval(c)==0.0)
                 break;
             else if (this->eval(c)*this->eval(a) < 0)
-- 
2.43.0


From a6ab0733e41044f25040b6d9cb4070c37e79cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:56 +0000
Subject: [PATCH 25/84] fix: admissibility of the wrinkle angle counted the
 shear strain twice

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index dc856cf..52789fb 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -598,7 +598,7 @@ bool gsMaterialMatrixTFT<dim,T,linear>::_check_theta_full(const T & theta, const
     T m1 = -math::sin(theta);
     T m2 = math::cos(theta);
     gsVector<T,3> n1_vec; n1_vec<<n1*n1, n2*n2, 2*n1*n2;
-    gsVector<T,3> n4_vec; n4_vec<<m1*m1, m2*m2, 2*m1*m2;
+    gsVector<T,3> n4_vec; n4_vec<<m1*m1, m2*m2, m1*m2; // E has the engineering shear strain
 
     bool check = true;
     check &= ((n1_vec.transpose() * N).value() < 0); // Li et al eq. 63 / eq. 55
-- 
2.43.0


From 57ec9bfab14c4ad77f520f4a1c70d8b9f195fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 26/84] fix: constructing a material without a geometry
 dereferenced a null pointer

---
 src/gsMaterialMatrixBaseDim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 024b309..523b0cc 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -80,7 +80,7 @@ public:
     :
     Base(mp,nullptr,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
-- 
2.43.0


From f6e0675a592c9dca353d7af1c64499c56f088c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 27/84] fix: setting a parameter by shared pointer wrote out of
 bounds when it was not set before

---
 src/gsMaterialMatrixBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index 78bce9b..7558e7e 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -699,6 +699,8 @@ public:
      */
     virtual void setParameter(const index_t i, const function_ptr &par)
     {
+        if ((index_t)m_pars.size() < i+1)
+            m_pars.resize(i+1);
         m_pars[i] = par;
     }
 
-- 
2.43.0


From 09d9096bfdadded703737e18bf998abed27a885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:17 +0000
Subject: [PATCH 28/84] fix: materials with constant parameters could be
 written to a file but not read back

---
 src/gsMaterialMatrixXml.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 42c2b04..00f4a32 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -284,28 +284,26 @@ Object getMaterialMatrixFromXml ( gsXmlNode * node)
 
     tmp = node->first_node("Thickness");
     GISMO_ASSERT(tmp,"Thickness must be assigned!");
-    gsFunctionExpr<T> thickness;
-    gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), thickness);
-    result.setThickness(thickness);
+    typename gsFunction<T>::uPtr fun;
+    fun.reset(gsXml<gsFunction<T> >::get(tmp->first_node("Function")));
+    result.setThickness(*fun);
 
     tmp = node->first_node("Density");
-    gsFunctionExpr<T> density;
     bool hasDensity = tmp;
     if ( hasDensity )
     {
-        gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), density);
-        result.setDensity(density);
+        fun.reset(gsXml<gsFunction<T> >::get(tmp->first_node("Function")));
+        result.setDensity(*fun);
     }
 
     gsXmlNode * parNode = node->first_node("Parameters");
     // Read function inventory
-    gsFunctionExpr<T> fun;
     for (gsXmlNode * child = parNode->first_node("Function"); child; child =
             child->next_sibling("Function"))
     {
         const int i = atoi(child->first_attribute("index")->value());
-        gsXml<gsFunctionExpr<T> >::get_into(child, fun);
-        result.setParameter(i,fun);
+        fun.reset(gsXml<gsFunction<T> >::get(child));
+        result.setParameter(i,*fun);
     }
     return result;
 }
-- 
2.43.0


From a4cec3d9da719d6bd197ce7c49aa815e2a56cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:05 +0000
Subject: [PATCH 29/84] fix: integrated principal bending stresses of linear
 materials were always zero

---
 src/gsMaterialMatrixIntegrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index d85252d..6c9fb46 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -234,7 +234,7 @@ gsMaterialMatrixIntegrateSingle<T,out>::eval_into_impl(const gsMatrix<T>& u, gsM
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Integrated)
         result = this->_eval(u);
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Constant)
-        this->multiplyZ_into(u,getMoment(),result);
+        this->multiplyZ_into(u,(_out==MaterialOutput::PStressM ? 2 : 0),result);
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Linear)
         this->multiplyLinZ_into(u,getMoment(),result);
     else
-- 
2.43.0


From bdba347c598e8c8ee43870df9c3cf0fb58e0b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 30/84] fix: vectors could not be assembled before a matrix
 was, or after the boundary conditions changed

---
 src/gsThinShellAssembler.h   | 1 +
 src/gsThinShellAssembler.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..52ab303 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -182,6 +182,7 @@ public:
 
         m_ddofs = m_space.fixedPart();
         m_mapper = m_space.mapper();
+        m_assembler.initSystem();
     }
 
     /// See \ref gsThinShellAssemblerBase for details
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..64aef7c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -262,6 +262,7 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
 
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
+    m_assembler.initSystem(); // a vector can be assembled without assembling a matrix first
 
     // foundation is off by default
     m_foundInd = false;
-- 
2.43.0


From ce9e076856eb8c656634dcb1bbeff92b69718392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:54 +0000
Subject: [PATCH 31/84] fix: the elastic foundation pushed in the direction of
 the displacement in the residual

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 64aef7c..862bf59 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -550,7 +550,7 @@ gsThinShellAssembler<d, T, bending>::_assembleFoundation_impl(const gsFunction<T
 
     // Assemble vector
     m_assembler.assemble(
-                  m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
+                 -m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
                 );
 }
 
-- 
2.43.0


From 30a2c760bbcef6c6d1cdfef4ee9628a36567c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 32/84] fix: the right-hand side kept point loads that had been
 removed

---
 src/gsThinShellAssembler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 862bf59..5088b0d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1611,6 +1611,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
+        m_rhs.resize(0,0);
         if ( m_pLoads.numLoads() != 0 )
         {
             m_rhs = m_assembler.rhs();
@@ -1687,6 +1688,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
+        m_rhs.resize(0,0);
         if ( m_pLoads.numLoads() != 0 )
         {
             m_rhs = m_assembler.rhs();
@@ -2047,6 +2049,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
+        m_rhs.resize(0,0);
         if ( m_pLoads.numLoads() != 0 )
         {
             m_rhs = m_assembler.rhs();
@@ -2115,6 +2118,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
+        m_rhs.resize(0,0);
         if ( m_pLoads.numLoads() != 0 )
         {
             m_rhs = m_assembler.rhs();
-- 
2.43.0


From 6f1f00b207514505004f79a5df80f0e62e7d5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 33/84] fix: separately assembled pressure and foundation
 vectors were lost in the presence of point loads

---
 src/gsThinShellAssembler.h   |  1 +
 src/gsThinShellAssembler.hpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 52ab303..231fb7b 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -528,6 +528,7 @@ protected:
     void _assembleDirichlet();
 
     void _applyLoads();
+    void _addLoads();
     void _applyMass();
 
     void _ifcTest(const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 5088b0d..869cd00 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1385,6 +1385,15 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
     }
 }
 
+template<short_t d, class T, bool bending>
+void gsThinShellAssembler<d, T, bending>::_addLoads()
+{
+    if (m_rhs.size()==0) // the last assembly had no point loads
+        return;
+    m_rhs = m_assembler.rhs();
+    _applyLoads();
+}
+
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::_applyMass()
 {
@@ -2203,6 +2212,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        _addLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2219,6 +2229,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        _addLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2234,6 +2245,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun,deformed);
+        _addLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2250,6 +2262,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun, deformed);
+        _addLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2295,6 +2308,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundation
     try
     {
         this->_assembleFoundation<false>(foundFun,deformed);
+        _addLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
-- 
2.43.0


From c6c6cbda8bbfc8da9d408a119cfffbe909a8947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:00 +0000
Subject: [PATCH 34/84] fix: assembling the mass matrix reported no or an old
 status

---
 src/gsThinShellAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 869cd00..1c6df28 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1475,6 +1475,8 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
 
         m_mass = m_assembler.matrix();
 
+        m_status = ThinShellAssemblerStatus::Success;
+
 /*        // assemble system
         if (!lumped)
         {
-- 
2.43.0


From 7ca393dc527a3ea1ab64cd549c52689285e5b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 35/84] fix: the lumped mass matrix was not assembled

---
 src/gsThinShellAssembler.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 1c6df28..6245e7c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1469,11 +1469,20 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     {
         // assemble system
         if (!lumped)
+        {
             m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
+            m_mass = m_assembler.matrix();
+        }
         else
+        {
+            // the row sums are assembled as a vector, and form the diagonal of the lumped matrix
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-
-        m_mass = m_assembler.matrix();
+            m_mass = gsSparseMatrix<T>(m_assembler.numDofs(),m_assembler.numDofs());
+            for (index_t k=0; k!=m_assembler.numDofs(); ++k)
+                m_mass.insert(k,k) = m_assembler.rhs()(k,0);
+            m_mass.makeCompressed();
+            m_assembler.initVector(1);
+        }
 
         m_status = ThinShellAssemblerStatus::Success;
 
-- 
2.43.0


From af3450bb2fbecf9ddf0dc01651798e4ebc8171a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 36/84] fix: point masses were ignored

---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 37 +++++++++++++-----------------------
 2 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 231fb7b..cc0dd08 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -529,7 +529,7 @@ protected:
 
     void _applyLoads();
     void _addLoads();
-    void _applyMass();
+    void _applyMass(const bool lumped);
 
     void _ifcTest(const T tol = 1e-2);
     bool _isInPlane(const boundaryInterface & ifc, const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 6245e7c..03f40f3 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1395,7 +1395,7 @@ void gsThinShellAssembler<d, T, bending>::_addLoads()
 }
 
 template<short_t d, class T, bool bending>
-void gsThinShellAssembler<d, T, bending>::_applyMass()
+void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
 {
     gsMatrix<T>        bVals;
     gsMatrix<index_t> acts,globalActs;
@@ -1412,15 +1412,15 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
         // Compute actives and values of basis functions on point load location.
         if ( m_pMass[i].parametric )   // in parametric space
         {
-            m_basis.front().basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
         }
         else                            // in physical space
         {
             gsMatrix<T> forcePoint;
             m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.front().basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
         }
 
         // Add the point load values in the right entries in the global RHS
@@ -1431,10 +1431,16 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
                 m_mapper.localToGlobal(acts, m_pMass[i].patch, globalActs,j);
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
+                    if (lumped)
+                    {
+                        if (m_mapper.is_free_index(globalActs(k,0)))
+                            m_mass.coeffRef(globalActs(k,0), globalActs(k,0)) += bVals(k,0) * m_pMass[i].value[0];
+                        continue;
+                    }
                     for (index_t l=0; l < globalActs.rows(); ++l)
                     {
                         if (m_mapper.is_free_index(globalActs(k,0)) && m_mapper.is_free_index(globalActs(l,0)))
-                            m_mass(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
+                            m_mass.coeffRef(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
                     }
                 }
             }
@@ -1483,26 +1489,9 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
             m_mass.makeCompressed();
             m_assembler.initVector(1);
         }
+        this->_applyMass(lumped);
 
         m_status = ThinShellAssemblerStatus::Success;
-
-/*        // assemble system
-        if (!lumped)
-        {
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-            m_mass = m_assembler.matrix();
-            this->_applyMass();
-        }
-        else
-        {
-            // To do: add point masses in lumped case
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-            m_rhs = m_assembler.rhs();
-        }
-        m_mass = m_assembler.matrix();
-
-        this->_applyMass();
-        m_status = ThinShellAssemblerStatus::Success;*/
     }
     catch (...)
     {
-- 
2.43.0


From d075ee9d131530b9771fab7bbbaed9c464f1f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:42 +0000
Subject: [PATCH 37/84] fix: the full solution vector of several patches had
 overlapping entries

---
 src/gsThinShellAssembler.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 03f40f3..a9fc788 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2706,13 +2706,20 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructDisplacement(const
 template<short_t d, class T, bool bending>
 gsMatrix<T> gsThinShellAssembler<d, T, bending>::fullSolutionVector(const gsMatrix<T> & vector) const
 {
-    gsMatrix<T> solVector = vector;
     space m_space = m_assembler.trialSpace(0);
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
-    solution m_solution = m_assembler.getSolution(m_space, solVector);
-    gsMatrix<T> result;
-    m_solution.extractFull(result);
-    return result.col(0);
+    const gsDofMapper & mapper = m_space.mapper();
+    gsMatrix<T> result(mapper.mapSize(),1);
+    // the coefficients of all patches per component
+    index_t k = 0;
+    for (index_t c = 0; c!=m_space.dim(); c++)
+        for (size_t p = 0; p!=mapper.numPatches(); p++)
+            for (size_t i = 0; i!=mapper.patchSize(p,c); i++, k++)
+            {
+                const index_t ii = mapper.index(i,p,c);
+                result(k,0) = mapper.is_free_index(ii) ? vector.at(ii) : m_space.fixedPart().at( mapper.global_to_bindex(ii) );
+            }
+    return result;
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From a82a6f716ada7a945f46e80b01c71dad0f875cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 38/84] fix: weak displacement conditions entered the system
 with a negative penalty

The penalty was subtracted from the stiffness matrix, which made it
indefinite. The weak clamped and interface penalties are added.
---
 src/gsThinShellAssembler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a9fc788..045a8f0 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -601,7 +601,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+        (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 
     // for weak clamped
@@ -643,7 +643,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * g_N         ) * meas(m_ori)
+        (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -677,7 +677,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+        (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 }
 
@@ -696,7 +696,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        (-m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
     );
 }
 
@@ -743,7 +743,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+        alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 
     // for weak clamped
@@ -793,7 +793,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -832,7 +832,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+        alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 }
 
@@ -863,7 +863,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From e885fbf188cc99bcf5e492b7d3515b2f48aab7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 39/84] fix: planar weak displacement conditions used different
 penalties in matrix and vector

---
 src/gsThinShellAssembler.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 045a8f0..ac8a7ae 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -686,17 +686,29 @@ template <short_t _d, bool _matrix>
 typename std::enable_if<!(_d==3) && !_matrix, void>::type
 gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
 {
+    gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
 
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     auto g_N = m_assembler.getBdrFunction(m_ori);
 
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
+    auto mmA = m_assembler.getCoeff(m_mmA);
+
+    auto cart2cov = cartcov(m_ori);
+    auto con2cartI = cartcon(m_ori).inv();
+
+    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+
+    element el = m_assembler.getElement();
+    auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
+
     // Weak BCs
     m_assembler.assembleBdr
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (-m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From b4e23116ea29f47918aed782b13f333e9c52f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 40/84] fix: the weak clamped condition did not restrain the
 rotation of deformed configurations

The residual varied the normal in the direction of the normal instead of
the direction of the outer conormal in which the rotation is measured.
---
 src/gsThinShellAssembler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index ac8a7ae..112456f 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -764,7 +764,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            alpha_r * dnN * ( var2deriv2(m_space,m_space,m_def,unv(m_ori).tr()) )
+            alpha_r * dnN * ( var2(m_space,m_space,m_def,unv(m_ori).tr()) )
             +
             alpha_r * ( ( var1(m_space,m_def) * unv(m_ori) ) * ( var1(m_space,m_def) * unv(m_ori) ).tr() )
         ) * meas(m_ori)
@@ -798,7 +798,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto alpha_r = m_alpha_r_bc * reshape(mmDcart,9,1).max().val() / el.area(m_ori);
 
     auto du  = m_def - m_ori;
-    auto dnN = ( usn(m_def).tr()*nv(m_ori) - usn(m_ori).tr()*nv(m_ori) ).val();
+    auto dnN = ( usn(m_def).tr()*unv(m_ori) - usn(m_ori).tr()*unv(m_ori) ).val();
 
     // Weak BCs
     m_assembler.assembleBdr
@@ -814,7 +814,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            - alpha_r * dnN * ( var1(m_space,m_def) * usn(m_ori) )
+            - alpha_r * dnN * ( var1(m_space,m_def) * unv(m_ori) )
         ) * meas(m_ori)
     );
 }
-- 
2.43.0


From 9659ea9c257826e50db848d75652cc11d2e46656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 41/84] fix: the planar weak interface penalty was scaled twice
 by the edge length

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 112456f..892d45c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1004,13 +1004,13 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
 
     // C^0 coupling
     m_assembler.assembleIfc(m_weakC0,
-                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori)
                     ,
-                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori)
                      );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 69babe116277789e475ba937baba01f46e6838b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 42/84] fix: the planar weak interface residual drove the
 patches apart

---
 src/gsThinShellAssembler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 892d45c..5efc8a7 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1305,9 +1305,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
 
     // C^0 coupling
      m_assembler.assembleIfc(m_weakC0,
-                      alpha_d * m_space.left() * du * meas(m_ori)
+                     -alpha_d * m_space.left() * du * meas(m_ori)
                      ,
-                     -alpha_d * m_space.right()* du * meas(m_ori)
+                      alpha_d * m_space.right()* du * meas(m_ori)
                       );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 2288558547858ed1623ef4c6c595477a711c2856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 43/84] fix: the tangent of the in-plane rotation coupling was
 not the derivative of its residual

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 5efc8a7..adcab2d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1132,17 +1132,17 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     m_assembler.assembleIfc(m_weakC1,
                      alpha_r * dnN_lr * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
                     + // Symmetry
-                     alpha_r * dnN_rl * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
+                     alpha_r * dnN_rl *  var2(m_space.left(),m_space.left(),m_def.left(),unv(m_def.right()).tr()) * meas(m_ori) // left left
                     ,
                      alpha_r * dnN_lr * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     + // Symmetry
-                     alpha_r * dnN_rl * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_rl * ( var1(m_space.left() ,m_def.left() ) * ovar1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     ,
-                     alpha_r * dnN_lr * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_lr * ( var1(m_space.right(),m_def.right()) * ovar1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     + // Symmetry
                      alpha_r * dnN_rl * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     ,
-                     alpha_r * dnN_lr * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
+                     alpha_r * dnN_lr *  var2(m_space.right(),m_space.right(),m_def.right(),unv(m_def.left()).tr()) * meas(m_ori) // right right
                     + // Symmetry
                      alpha_r * dnN_rl * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
                      );
-- 
2.43.0


From 577ffffac444ae90f81e3fb3bd2d5c85be79ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 44/84] fix: the linear system lost the prescribed
 displacements after assembling a matrix

assembleMatrix() and assembleMass() homogenize the prescribed displacements;
assemble() has to restore them, like assembleVector() does.
---
 src/gsThinShellAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index adcab2d..be5702a 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1562,6 +1562,7 @@ typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assemble_impl()
 {
     this->_getOptions();
+    this->_assembleDirichlet();
 
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
@@ -1654,6 +1655,7 @@ typename std::enable_if<!(_d==3 && _bending), ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assemble_impl()
 {
     this->_getOptions();
+    this->_assembleDirichlet();
 
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-- 
2.43.0


From f0d386969cd156be01a5755687e31ec165365fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 45/84] fix: the second variation of the outer normal used
 normalised tangent vectors

The variations of the surface normal divide by the measure of the normalised
tangent vectors although the gradients of the basis are not normalised.
---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index eec8b42..7e4985c 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1042,11 +1042,10 @@ public:
         eC.resize(1,3);
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cJac.colwise().normalize();
 
         onormal = _G.data().outNormal(k);
         onormal.normalize();
-        tmp = cJac.transpose() * onormal;
+        tmp = cJac.colwise().normalized().transpose() * onormal;
         tmp.colwise().normalize(); //normalize the inner product for fair comparison
 
         Scalar tol = 1e-8;
-- 
2.43.0


From e677cbeb18bf9541031ba02ba2fb9493ddb43e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:15 +0000
Subject: [PATCH 46/84] fix: pressure and foundation were lost when the
 geometry, basis or continuity changed

---
 src/gsThinShellAssembler.h   | 4 ++--
 src/gsThinShellAssembler.hpp | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index cc0dd08..2df28e5 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -692,8 +692,8 @@ protected:
 
     mutable gsOptionList m_options;
 
-    mutable bool m_foundInd;
-    mutable bool m_pressInd;
+    mutable bool m_foundInd = false; // foundation is off by default
+    mutable bool m_pressInd = false; // pressure is off by default
 
     mutable index_t m_continuity;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index be5702a..7f3af72 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -264,11 +264,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_mapper = m_space.mapper();
     m_assembler.initSystem(); // a vector can be assembled without assembling a matrix first
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From b8658acf85a206b89f46c566fc8c0c24ab642b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:28 +0000
Subject: [PATCH 47/84] fix: nothing could be assembled after removing all
 prescribed displacements

---
 src/gsThinShellAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 7f3af72..e6ecaa3 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1314,6 +1314,8 @@ void gsThinShellAssembler<d, T, bending>::_assembleDirichlet()
     this->_getOptions();
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     // if statement
+    // the setup keeps the values of earlier conditions if there are none any more
+    const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart().resize(0,0);
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
     // m_assembler.initSystem();
 }
-- 
2.43.0


From f3e8c46466f210a54dd40d3d7da4b23bb40794c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:29 +0000
Subject: [PATCH 48/84] fix: assemblers constructed with one material did not
 follow their basis

The space referred to the basis passed by the caller: changing the basis of
the assembler had no effect, and the caller's basis had to outlive it.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e6ecaa3..0050a38 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -77,7 +77,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
-- 
2.43.0


From cd3e13fb8c908cb1ca14ae366f2b3bc098956848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:29 +0000
Subject: [PATCH 49/84] fix: a copied assembler shared its space with the
 original

Changing the boundary conditions of a copy changed the original, and using a
copy after the original was destroyed, or a moved assembler, crashed.
---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 2df28e5..3e40278 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -133,7 +133,7 @@ public:
     /// Default empty constructor
     gsThinShellAssembler() { }
 
-    /// Copy constructor (makes deep copy)
+    /// Copy constructor (makes deep copy, except for the assembled system)
     gsThinShellAssembler( const gsThinShellAssembler& other )
     {
         operator=(other);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 0050a38..782cfc0 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -101,12 +101,11 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     if (this!=&other)
     {
         m_mapper=other.m_mapper;
-        m_assembler=other.m_assembler;
-        m_evaluator=other.m_evaluator;
+        m_assembler=gsExprAssembler<>(); // a copy would share its space with the other one
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_mass=other.m_mass;
@@ -118,7 +117,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_pLoads=other.m_pLoads;
         m_pMass=other.m_pMass;
         m_solvector=other.m_solvector;
-        m_rhs=other.m_rhs;
         m_options=other.m_options;
         m_foundInd=other.m_foundInd;
         m_pressInd=other.m_pressInd;
@@ -136,11 +134,11 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_strongC1=other.m_strongC1;
         m_weakC1=other.m_weakC1;
         m_unassigned=other.m_unassigned;
+        m_status=other.m_status;
 
-        // To do: make copy constructor for the gsExprAssembler
-        m_assembler.setIntegrationElements(m_basis);
-        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        // Initialize the space of this assembler. Its system has to be assembled.
+        m_rhs.resize(0,0);
+        this->_initialize();
     }
     return *this;
 }
@@ -154,7 +152,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_patches=give(other.m_patches);
     m_itpatches=give(other.m_itpatches);
     m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
+    m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
     m_mass=give(other.m_mass);
@@ -184,10 +182,12 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_strongC1=give(other.m_strongC1);
     m_weakC1=give(other.m_weakC1);
     m_unassigned=give(other.m_unassigned);
+    m_status=other.m_status;
     // To do: make copy constructor for the gsExprAssembler
     m_assembler.setIntegrationElements(m_basis);
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+    m_assembler.getSpace(*m_spaceBasis, d, 0); // the space refers to the basis of this assembler
     return *this;
 }
 
-- 
2.43.0


From b190af395e996d11023f6f17a9f5dc1d171a6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:24 +0000
Subject: [PATCH 50/84] fix: some evaluations used whatever undeformed geometry
 the material last saw

---
 src/gsThinShellAssembler.hpp | 10 +++++-----
 src/gsThinShellFunctions.hpp | 34 +++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 782cfc0..71152a1 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1469,7 +1469,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     // Initialize stystem
     m_assembler.initSystem();
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches,&m_patches);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
@@ -2578,8 +2578,8 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
     auto u   = m_def - m_ori;
@@ -2789,7 +2789,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStretches(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
@@ -2819,7 +2819,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStresses(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..c0381a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -37,47 +37,47 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     // Initialize stystem
     // m_assembler.initSystem(false);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_patches,m_defpatches);
     variable N0 = ev.getVariable(m_N0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_patches,m_defpatches);
     variable N1 = ev.getVariable(m_N1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_patches,m_defpatches);
     variable Nc0 = ev.getVariable(m_Nc0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_patches,m_defpatches);
     variable Nc1 = ev.getVariable(m_Nc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_patches,m_defpatches,z);
     variable S0 = ev.getVariable(m_S0);
-    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_patches,m_defpatches,z);
     variable S1 = ev.getVariable(m_S1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc0 = ev.getVariable(m_Sc0);
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
     variable pstressdir = ev.getVariable(m_pstressdir);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp0 = ev.getVariable(m_Sp0);
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp1 = ev.getVariable(m_Sp1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep1 = ev.getVariable(m_Ep1);
 
-    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambda = ev.getVariable(m_lambda);
-    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
     gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-- 
2.43.0


From 82519ff3ba7aeed4890803a71208e9efa78340b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 51/84] fix: evaluators of one material used each other's
 geometry

---
 src/gsMaterialMatrixEval.h        |  6 ++++++
 src/gsMaterialMatrixEval.hpp      | 14 ++++++++++++++
 src/gsMaterialMatrixIntegrate.h   |  6 ++++++
 src/gsMaterialMatrixIntegrate.hpp | 18 ++++++++++++++++--
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixEval.h b/src/gsMaterialMatrixEval.h
index ec31301..da72e00 100644
--- a/src/gsMaterialMatrixEval.h
+++ b/src/gsMaterialMatrixEval.h
@@ -352,9 +352,15 @@ private:
     template<enum MaterialOutput _out>
     typename std::enable_if<_out==MaterialOutput::Deformation, void>::type eval_into_impl(const gsMatrix<T>& u, gsMatrix<T>& result) const;
 
+protected:
+    /// Makes the material use the geometries of this evaluator, also if another evaluator used the same material in the meantime
+    void _setGeometries() const;
+
 protected:
     index_t m_pIndex;
     gsMaterialMatrixBase<T> * m_materialMat;
+    const gsFunctionSet<T> * m_undeformed;
+    const gsFunctionSet<T> * m_deformed;
     gsMatrix<T> m_z;
 };
 
diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index cf61c64..095cc1c 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -132,6 +132,8 @@ gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
 :
 m_pIndex(patch),
 m_materialMat(materialMatrix),
+m_undeformed(nullptr),
+m_deformed(deformed),
 m_z(z)
 {
     m_materialMat->setDeformed(deformed);
@@ -156,6 +158,8 @@ gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
 :
 m_pIndex(patch),
 m_materialMat(materialMatrix),
+m_undeformed(undeformed),
+m_deformed(deformed),
 m_z(z)
 {
     m_materialMat->setUndeformed(undeformed);
@@ -171,11 +175,21 @@ m_z(z)
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
 
+template <class T, enum MaterialOutput out>
+void gsMaterialMatrixEvalSingle<T,out>::_setGeometries() const
+{
+    if (m_undeformed!=nullptr && m_materialMat->getUndeformed().get()!=m_undeformed)
+        m_materialMat->setUndeformed(m_undeformed);
+    if (m_materialMat->getDeformed().get()!=m_deformed)
+        m_materialMat->setDeformed(m_deformed);
+}
+
 template <class T, enum MaterialOutput out>
 void gsMaterialMatrixEvalSingle<T,out>::eval_into(const gsMatrix<T>& u, gsMatrix<T>& result) const
 {
 /// Non-parallel evaluation
 // #pragma omp critical (gsMaterialMatrixEvalSingle_eval_into)
+    this->_setGeometries();
     this->eval_into_impl<out>(u,result);
 }
 
diff --git a/src/gsMaterialMatrixIntegrate.h b/src/gsMaterialMatrixIntegrate.h
index d4ba83a..6fafa94 100644
--- a/src/gsMaterialMatrixIntegrate.h
+++ b/src/gsMaterialMatrixIntegrate.h
@@ -379,9 +379,15 @@ private:
                                                             , gsMatrix<T>>::type eval3D_impl(const gsMatrix<T>& /*u*/, const gsMatrix<T>& /*Z*/) const
     { GISMO_NO_IMPLEMENTATION};
 
+protected:
+    /// Makes the material use the geometries of this evaluator, also if another evaluator used the same material in the meantime
+    void _setGeometries() const;
+
 protected:
     index_t m_pIndex;
     gsMaterialMatrixBase<T> * m_materialMat;
+    const gsFunctionSet<T> * m_undeformed;
+    const gsFunctionSet<T> * m_deformed;
     gsMatrix<T> m_z;
 };
 
diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 6c9fb46..7cd41df 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -132,7 +132,9 @@ gsMaterialMatrixIntegrateSingle<T,out>::gsMaterialMatrixIntegrateSingle(index_t
                                                                         )
 :
 m_pIndex(patch),
-m_materialMat(materialMatrix)
+m_materialMat(materialMatrix),
+m_undeformed(nullptr),
+m_deformed(deformed)
 {
     m_materialMat->setDeformed(deformed);
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
@@ -147,18 +149,30 @@ gsMaterialMatrixIntegrateSingle<T,out>::gsMaterialMatrixIntegrateSingle(index_t
                                                                         )
 :
 m_pIndex(patch),
-m_materialMat(materialMatrix)
+m_materialMat(materialMatrix),
+m_undeformed(undeformed),
+m_deformed(deformed)
 {
     m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
 
+template <class T, enum MaterialOutput out>
+void gsMaterialMatrixIntegrateSingle<T,out>::_setGeometries() const
+{
+    if (m_undeformed!=nullptr && m_materialMat->getUndeformed().get()!=m_undeformed)
+        m_materialMat->setUndeformed(m_undeformed);
+    if (m_materialMat->getDeformed().get()!=m_deformed)
+        m_materialMat->setDeformed(m_deformed);
+}
+
 template <class T, enum MaterialOutput out>
 void gsMaterialMatrixIntegrateSingle<T,out>::eval_into(const gsMatrix<T>& u, gsMatrix<T>& result) const
 {
 /// Non-parallel evaluation
 // #pragma omp critical (gsMaterialMatrixIntegrateSingle_eval_into)
+    this->_setGeometries();
     this->eval_into_impl<out>(u,result);
 }
 
-- 
2.43.0


From 44d0fbf1c3a3e48ce1cad7991d195959fe2efc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:58 +0000
Subject: [PATCH 52/84] fix: principal stresses and their directions were those
 of the first patch on every patch

---
 src/gsThinShellFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index c0381a0..2c6e4bf 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -206,7 +206,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_stress :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Sp,u.col(k));
+                result.col(k) = ev.eval(Sp,u.col(k),m_patchID);
             break;
         case stress_type::principal_stress_membrane :
             for (index_t k = 0; k != u.cols(); ++k)
@@ -240,21 +240,21 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::principal_stress_dir1 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(0);
             }
             break;
         case stress_type::principal_stress_dir2 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(1);
             }
             break;
         case stress_type::principal_stress_dir3 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(2);
             }
             break;
-- 
2.43.0


From a5e211a8b5031ae809e06c92d59e335395816dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:58 +0000
Subject: [PATCH 53/84] fix: the flexural strain field counted the twist twice

---
 src/gsThinShellFunctions.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 2c6e4bf..0ab8ce9 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -80,8 +80,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
-    gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-    variable m_m2 = ev.getVariable(mult2t);
     gsFunctionExpr<> mult12t("1","0","0","0","1","0","0","0","0.5",2);
     variable m_m12 = ev.getVariable(mult12t);
 
@@ -90,7 +88,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
+    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
-- 
2.43.0


From bf3cb2a0b1f42cece5f61a159517e758c87d421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:58 +0000
Subject: [PATCH 54/84] fix: the displacement field of planar geometries
 announced three components

---
 src/gsThinShellFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.h b/src/gsThinShellFunctions.h
index 5589852..69ad7be 100644
--- a/src/gsThinShellFunctions.h
+++ b/src/gsThinShellFunctions.h
@@ -121,7 +121,7 @@ public:
                 return 0;
                 break;
             case stress_type::displacement :
-                return 3;
+                return m_patches->targetDim();
                 break;
 
             case stress_type::membrane :
-- 
2.43.0


From b9231a4fa6b9b8e47ba6c76d822b0e243d2755fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:58 +0000
Subject: [PATCH 55/84] fix: the von Mises stress on the outer fibres did not
 account for the thickness

---
 src/gsThinShellFunctions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 0ab8ce9..1cdc355 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -57,6 +57,9 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
+    gsMaterialMatrixEval<T,MaterialOutput::Thickness> m_thickness(m_materialMatrices,m_patches,m_defpatches,z);
+    variable thickness = ev.getVariable(m_thickness);
+
     gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
     gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
@@ -158,6 +161,8 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
                 gsMatrix<> S;
                 gsMatrix<> Sm = (ev.eval(S_m,u.col(k),m_patchID)).transpose();
                 gsMatrix<> Sf = (ev.eval(S_f,u.col(k),m_patchID)).transpose();
+                // The flexural stress is given per unit of the through-thickness coordinate
+                Sf *= ev.eval(thickness,u.col(k),m_patchID)(0,0)/2;
                 S = Sm + Sf;
                 result(0,k) = math::sqrt(S(0,0)*S(0,0)+S(1,0)*S(1,0)-S(0,0)*S(1,0)+3*S(2,0)*S(2,0)); // ASSUMES PLANE STRESS
                 S = Sm - Sf;
-- 
2.43.0


From 325a13144d338657fdc19dd3da7bc34e7185589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:44 +0000
Subject: [PATCH 56/84] fix: no field could be evaluated on planar geometries

---
 src/gsThinShellFunctions.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 1cdc355..df17820 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -91,7 +91,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
@@ -192,9 +191,13 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
                 result.col(k) = ev.eval(E_m.tr(),u.col(k),m_patchID);
             break;
         case stress_type::flexural_strain :
+        {
+            // Surfaces only, since planar geometries do not have a normal vector
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(E_f.tr(),u.col(k),m_patchID);
             break;
+        }
         case stress_type::principal_membrane_strain:
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(Ep0,u.col(k),m_patchID);
-- 
2.43.0


From b2be0b3b61e072af7ae15897398602337d25eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:10 +0000
Subject: [PATCH 57/84] fix: evaluators of the principal strains announced two
 instead of three components

---
 src/gsMaterialMatrixEval.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixEval.h b/src/gsMaterialMatrixEval.h
index da72e00..ba3f3cf 100644
--- a/src/gsMaterialMatrixEval.h
+++ b/src/gsMaterialMatrixEval.h
@@ -165,9 +165,12 @@ private:
                             _out==MaterialOutput::PStressN ||
                             _out==MaterialOutput::PCauchyStressN ||
                             _out==MaterialOutput::PStressM ||
-                            _out==MaterialOutput::PCauchyStressM ||
-                            _out==MaterialOutput::PStrainN ||
-                            _out==MaterialOutput::PStrainM   , short_t>::type targetDim_impl() const { return 2; };
+                            _out==MaterialOutput::PCauchyStressM   , short_t>::type targetDim_impl() const { return 2; };
+
+    /// Implementation of \ref targetDim for principal strain fields
+    template<enum MaterialOutput _out>
+    typename std::enable_if<_out==MaterialOutput::PStrainN ||
+                            _out==MaterialOutput::PStrainM   , short_t>::type targetDim_impl() const { return 3; };
 
     /// Implementation of \ref targetDim for principal stretch directions
     template<enum MaterialOutput _out>
-- 
2.43.0


From c5a034af1691c0479e64dba7062f2e85d488dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:20 +0000
Subject: [PATCH 58/84] fix: the displacement norm weighted the displacements
 with the deformed instead of the undeformed area

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 71152a1..8e8966a 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2562,7 +2562,7 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
     auto u   = m_def - m_ori;
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral( u.tr() * u * meas(m_def));
+    T result = evaluator.integral( u.tr() * u * meas(m_ori));
     T area = evaluator.integral(meas(m_ori));
 
     return std::pow(result/area,0.5);
-- 
2.43.0


From 5dff28e38110e53c6bc0c718dc503d51dbc9f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:20 +0000
Subject: [PATCH 59/84] fix: the normal error over interfaces compared vectors
 that were not normalised

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8e8966a..8e8effe 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2630,7 +2630,7 @@ T gsThinShellAssembler<d, T, bending>::interfaceErrorNormal(const gsFunctionSet<
 {
     geometryMap G = m_assembler.getMap(deformed);
     gsExprEvaluator<T> ev(m_assembler);
-    ev.maxInterface( (sn(G.left())-sn(G.right())).norm() , iFaces);
+    ev.maxInterface( (sn(G.left()).normalized()-sn(G.right()).normalized()).norm() , iFaces);
     return ev.value();
 }
 
-- 
2.43.0


From ab71c9e8e13b44d0ca18e45a97d304e8b136af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:34 +0000
Subject: [PATCH 60/84] fix: the elastic energy contracted the displacements
 with the stress resultants

---
 src/gsThinShellAssembler.h   | 15 ++++++++++-
 src/gsThinShellAssembler.hpp | 51 +++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 3e40278..6e81788 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -391,6 +391,19 @@ public:
     /// See \ref gsThinShellAssemblerBase for details
     T getElasticEnergy(const gsFunctionSet<T> & deformed);
 
+private:
+    /// Implementation of the elastic energy for surfaces (3D)
+    template<short_t _d, bool _bending>
+    typename std::enable_if<(_d==3) && _bending, T>::type
+    getElasticEnergy_impl(const gsFunctionSet<T> & deformed);
+
+    /// Implementation of the elastic energy without bending
+    template<short_t _d, bool _bending>
+    typename std::enable_if<!(_d==3 && _bending), T>::type
+    getElasticEnergy_impl(const gsFunctionSet<T> & deformed);
+
+public:
+
     //--------------------- MATERIAL ACCESS --------------------------------//
     gsMaterialMatrixContainer<T> materials()    const  {return m_materialMatrices;}
     gsMaterialMatrixBase<T> * material(const index_t p)    const  {return m_materialMatrices.piece(p);}
@@ -999,7 +1012,7 @@ public:
     /// Returns the displacement norm, i.e. norm = sqrt(u'*u/area)
     virtual T getDisplacementNorm(const gsFunctionSet<T> & deformed) = 0;
 
-    /// Returns the elastic energy norm, i.e. norm = 0.5 * u'*F_int
+    /// Returns the elastic energy, i.e. half the integral of N:E_m + M:E_f over the undeformed geometry
     virtual T getElasticEnergy(const gsFunctionSet<T> & deformed) = 0;
 
     /// Returns a reference to the system matrix that is assembled
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8e8effe..50ced93 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2570,6 +2570,14 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
 
 template<short_t d, class T, bool bending>
 T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> & deformed)
+{
+    return getElasticEnergy_impl<d, bending>(deformed);
+}
+
+template<short_t d, class T, bool bending>
+template<short_t _d, bool _bending>
+typename std::enable_if<(_d==3) && _bending, T>::type
+gsThinShellAssembler<d, T, bending>::getElasticEnergy_impl(const gsFunctionSet<T> & deformed)
 {
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
@@ -2578,18 +2586,43 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
-    auto S0  = m_assembler.getCoeff(m_S0);
-    auto S1  = m_assembler.getCoeff(m_S1);
-    auto u   = m_def - m_ori;
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0f(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1f(m_materialMatrices,&m_patches,&deformed);
+    auto m_S0 = m_assembler.getCoeff(m_S0f);
+    auto m_S1 = m_assembler.getCoeff(m_S1f);
 
-    auto m_N        = S0.tr();
-    auto m_M        = S1.tr(); // output is a column
+    gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
+    auto m_m2 = m_assembler.getCoeff(mult2t);
+
+    auto m_N    = m_S0.tr();
+    auto m_Em   = 0.5 * ( flat( jac(m_def).tr() * jac(m_def) ) - flat( jac(m_ori).tr() * jac(m_ori) ) );
+    auto m_M    = m_S1.tr();
+    auto m_Ef   = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3);
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral(0.5 * ( u.tr() * ( m_N + m_M ).tr() ) * meas(m_def));
-    return result;
+    return evaluator.integral(0.5 * ( m_N * m_Em.tr() + m_M * m_Ef.tr() ) * meas(m_ori));
+}
+
+template<short_t d, class T, bool bending>
+template<short_t _d, bool _bending>
+typename std::enable_if<!(_d==3 && _bending), T>::type
+gsThinShellAssembler<d, T, bending>::getElasticEnergy_impl(const gsFunctionSet<T> & deformed)
+{
+    m_assembler.cleanUp();
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+
+    geometryMap m_ori   = m_assembler.getMap(m_patches);
+    geometryMap m_def   = m_assembler.getMap(deformed);
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0f(m_materialMatrices,&m_patches,&deformed);
+    auto m_S0 = m_assembler.getCoeff(m_S0f);
+
+    auto m_N    = m_S0.tr();
+    auto m_Em   = 0.5 * ( flat( jac(m_def).tr() * jac(m_def) ) - flat( jac(m_ori).tr() * jac(m_ori) ) );
+
+    gsExprEvaluator<T> evaluator(m_assembler);
+    return evaluator.integral(0.5 * ( m_N * m_Em.tr() ) * meas(m_ori));
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From ce23a7ce33bf3f93f4d079b1c0fd2c4789690bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:34 +0000
Subject: [PATCH 61/84] fix: the mean curvature error was twice the difference
 of the mean curvatures

---
 src/gsThinShellAssembler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 50ced93..f736061 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2681,8 +2681,8 @@ T gsThinShellAssembler<d, T, bending>::interfaceErrorMeanCurvature(const gsFunct
 {
     geometryMap G = m_assembler.getMap(deformed);
     gsExprEvaluator<T> ev(m_assembler);
-    ev.maxInterface( abs( (fform(G.left() ).inv()*fform2nd(G.left() )).trace().val() -
-                          (fform(G.right()).inv()*fform2nd(G.right())).trace().val() ) , iFaces);
+    ev.maxInterface( 0.5 * abs( (fform(G.left() ).inv()*fform2nd(G.left() )).trace().val() -
+                                (fform(G.right()).inv()*fform2nd(G.right())).trace().val() ) , iFaces);
     return ev.value();
 }
 template<short_t d, class T, bool bending>
-- 
2.43.0


From 6772a810af36046b95d0d16b0ef0afec3d0db4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:53 +0000
Subject: [PATCH 62/84] fix: the stretch goal at points was the displacement or
 used the transposed transformation

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..36d8c2f 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3243,7 +3243,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     auto Cm      = flat( jac(Gdef).tr() * jac(Gdef) ) * reshape(m12,3,3);
 
     // Principal stretch
-    auto lambda  = reshape(Tstretch,3,3).tr() * Cm.tr();
+    auto lambda  = reshape(Tstretch,3,3) * Cm.tr();
 
     // Membrane strain
     auto Em     = 0.5 * ( flat(jac(Gdef).tr()*jac(Gdef)) - flat(jac(Gori).tr()* jac(Gori)) ) ;
@@ -3307,7 +3307,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = lambda.tr() * gismo::expr::uv(m_component,3)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From 833e2d6b4b2d29b349574e2ee937cd81be8e8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:05 +0000
Subject: [PATCH 63/84] fix: the dual of a membrane-force component on sides
 and at points was the force itself, not its variation

---
 src/gsThinShellAssemblerDWR.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 36d8c2f..9f9804c 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -983,7 +983,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1458,8 +1458,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            // remove N_der from this scipe
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From 2eed647ab57d42ac01e29ffbe78c0245188f2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 64/84] fix: the dual of the principal-stress norm at points
 multiplied three components with two

---
 src/gsThinShellAssemblerDWR.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 9f9804c..336ccba 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1335,9 +1335,15 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     }
     else if (m_goalFunction == GoalFunction::PStress)
     {
+        // to convert P0 from a vector of length 2 to 3, this matrix is [[1,0],[0,1],[0,0]]
+        gsMatrix<T> convMat(3,2);
+        convMat.setZero();
+        convMat(0,0) = convMat(1,1) = 1;
+        gsConstantFunction<T> convFun(convMat.reshape(6,1),2);
+        auto conv = exprAssembler.getCoeff(convFun);
         if (m_component==9)
         {
-            auto expr = 2 * Smp_der * P0 * meas(Gori);
+            auto expr = 2 * Smp_der * reshape(conv,3,2) * P0 * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
@@ -1353,7 +1359,8 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = Smp_der * gismo::expr::uv(m_component,3) * meas(Gori);
+            GISMO_ASSERT(m_component < 2,"Can only select principle stress component 0 or 1, but "<<m_component<<" selected.");
+            auto expr = Smp_der * reshape(conv,3,2) * gismo::expr::uv(m_component,2) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From 4aa9cc6d9d8bd50ddabb2245f01e6b79df034a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 65/84] fix: the dual of the flexural-strain norm on sides
 counted the twist twice

---
 src/gsThinShellAssemblerDWR.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 336ccba..2413175 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1001,9 +1001,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     {
         if (m_component==9)
         {
-            gsFunctionExpr<T> mult110t("1","0","0","0","1","0","0","0","0",2);
-            auto m110 = exprAssembler.getCoeff(mult2t);
-            auto expr = 2*Ef_der * reshape(m110,3,3) *  Ef.tr() * meas(Gori);
+            auto expr = 2 * Ef_der * Ef.tr() * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
-- 
2.43.0


From 39b25c8387ba0493b6f094a1c6a149ed1b4b74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 66/84] fix: the dual was assembled on continuously coupled
 patches whatever the assembler's continuity

---
 src/gsThinShellAssemblerDWR.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 2413175..42849dd 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -218,7 +218,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -675,7 +675,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -1138,7 +1138,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
-- 
2.43.0


From 9a6732f976724d20df99443fd5e8c848538dff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:24 +0000
Subject: [PATCH 67/84] fix: duals and error estimates kept the boundary
 conditions given before updateBCs

---
 src/gsThinShellAssemblerDWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 6e7b4a2..b9eed77 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -109,7 +109,7 @@ public:
     void setPressure(const gsFunction<T> & pressure) { m_assemblerL->setPressure(pressure);  m_assemblerH->setPressure(pressure); }
 
     /// See \ref gsThinShellAssemblerBase for details
-    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
+    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_bcs = bconditions; m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
 
     /// See \ref gsThinShellAssemblerBase for details
     void setBasisL(const gsMultiBasis<T> & basis) { m_assemblerL->setBasis(basis); }
-- 
2.43.0


From 04b40e8c6406d1f1593d716cfab855658167f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 68/84] fix: goals, duals and error estimates evaluated the
 material on whatever geometry it last got

---
 src/gsThinShellAssemblerDWR.hpp | 182 ++++++++++++++++----------------
 1 file changed, 91 insertions(+), 91 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 42849dd..8bcc424 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -224,40 +224,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -681,40 +681,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1144,40 +1144,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1837,8 +1837,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -1946,7 +1946,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2150,8 +2150,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -2258,7 +2258,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2420,26 +2420,26 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     // gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
@@ -2675,18 +2675,18 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA    = exprAssembler.getCoeff(mmAf);
     auto mmB    = exprAssembler.getCoeff(mmBf);
     auto mmC    = exprAssembler.getCoeff(mmCf);
     auto mmD    = exprAssembler.getCoeff(mmDf);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
     auto rho  = exprAssembler.getCoeff(rhof);
@@ -2767,18 +2767,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -2794,7 +2794,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -2991,18 +2991,18 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
@@ -3018,7 +3018,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -3215,24 +3215,24 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     // Material tensors
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0 = exprAssembler.getCoeff(P0f);
 
     // // Helper matrix for flexural components
@@ -3544,7 +3544,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches); // note: is this right?
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches); // note: is this right?
     auto rho = exprAssembler.getCoeff(rhof);
 
     auto usol = exprAssembler.getCoeff(primal);
@@ -3573,26 +3573,26 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&defpatches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&defpatches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
-- 
2.43.0


From cf6bb3723fa7d6a2c08adb389ad9dd8f31900a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:05 +0000
Subject: [PATCH 69/84] fix: the transformation from spectral to contravariant
 axes used the covariant axes

---
 src/gsMaterialMatrixBaseDim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index a78b238..589cf9b 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -100,7 +100,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch,
             colIdx = j*u.cols()+k;
             _getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             sbasis = tmp.reshapeCol(colIdx,3,3);
-            conbasis = m_data.mine().m_gcov_ori;
+            conbasis = m_data.mine().m_gcon_ori;
             result.col(colIdx) = this->_transformation(conbasis,sbasis).reshape(9,1);
         }
     }
-- 
2.43.0


From 8c8c7eb0a38541de20bbfe2086c7221fea5f0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:58 +0000
Subject: [PATCH 70/84] fix: the mass matrices of the two discretisations were
 taken from the stiffness matrix (lumped masses were lost)

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 8bcc424..dfcca4d 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -67,7 +67,7 @@ template <short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleMass(gsThinShellAssemblerBase<T> * assembler, gsSparseMatrix<T> & result, bool lumped)
 {
     ThinShellAssemblerStatus status =  assembler->assembleMass(lumped);
-    result = assembler->matrix();
+    result = assembler->massMatrix();
     GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly failed");
     return status;
 }
-- 
2.43.0


From d8a21c08a1a0fb7261e341336e898a6c83d9086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:41 +0000
Subject: [PATCH 71/84] fix: element-wise errors spread the share of a point
 load over elements of every patch

---
 src/gsThinShellAssemblerDWR.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index dfcca4d..2b171a6 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3701,7 +3701,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                 for (; domIt<domItEnd; ++domIt )
 #               endif
                 {
-                    bool test = !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
+                    bool test = static_cast<index_t>(patchInd)==m_pLoads[i].patch &&
+                                !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
                                     (domIt.upperCorner() - forcePoint).array() >= 0)   ).array() == 0).any();
                     if (test)
                         elements_private.push_back(c);
@@ -3711,9 +3712,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                                     c++;
                     #endif
                 }
-#pragma omp critical
-                elements.insert(elements.end(), elements_private.begin(), elements_private.end());
             }
+#pragma omp critical
+            elements.insert(elements.end(), elements_private.begin(), elements_private.end());
         }
 
         // Compute load value on the point
-- 
2.43.0


From e16fb14dadfce20f02ea7225d2a6bebf3e65ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:41 +0000
Subject: [PATCH 72/84] fix: the error of a solution vector could not be
 computed (ambiguous overloads)

---
 src/gsThinShellDWRHelper.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/gsThinShellDWRHelper.h b/src/gsThinShellDWRHelper.h
index 13a3408..3d14830 100644
--- a/src/gsThinShellDWRHelper.h
+++ b/src/gsThinShellDWRHelper.h
@@ -49,13 +49,6 @@ public:
         this->computeError(deformed,primalL);
     }
 
-    void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false)
-    {
-        gsMatrix<T> points;
-        bContainer bnds;
-        this->computeError(deformed,primalL,bnds,points,true,withLoads);
-    }
-
     void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false,
                         std::string filename = std::string(), unsigned np=1000, bool parametric=false, bool mesh=false)
     {
-- 
2.43.0


From 7970498b205143cda51070f379771e39a5de0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 73/84] fix: error estimates evaluated forces defined on the
 parameter domain at physical points

---
 src/gsThinShellAssemblerDWR.h   |  4 ++++
 src/gsThinShellAssemblerDWR.hpp | 37 +++++++++++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index b9eed77..503a017 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -405,6 +405,9 @@ protected:
                       std::string filename = std::string(), unsigned np=1000, bool parametric=false, bool mesh=false);
 
     void _applyLoadsToElWiseError(const gsMultiPatch<T> &dualL, const gsMultiPatch<T> &dualH, std::vector<T> & errors) const;
+    /// Geometry whose points are the arguments of the surface force: the parameter domain for a force defined on it
+    gsMultiPatch<T> _forceDomain() const;
+
     void _applyLoadsToError(const gsMultiPatch<T> &dualL, const gsMultiPatch<T> &dualH, T & error) const;
 
 
@@ -435,6 +438,7 @@ protected:
     // using Base::m_defpatches;
     using Base::m_materialMatrices;
     using Base::m_forceFun;
+    using Base::m_parametricForce;
     using Base::m_options;
     using Base::m_foundFun;
     using Base::m_foundInd;
diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 2b171a6..f171ecf 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -23,6 +23,7 @@
 
 #include <gsCore/gsFunctionExpr.h>
 #include <gsCore/gsConstantFunction.h>
+#include <gsNurbs/gsTensorBSpline.h>
 #include <gsAssembler/gsExprEvaluator.h>
 
 namespace gismo
@@ -1748,7 +1749,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeError_impl( const gsMultiPat
     // Geometries
     geometryMap Gori = exprAssembler.getMap(m_patches);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
 
@@ -1845,7 +1847,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
     auto m2 = exprAssembler.getCoeff(mult2t);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
@@ -1949,7 +1952,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
 
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
@@ -2061,7 +2065,8 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl( const gsM
     // Geometries
     geometryMap Gori = exprAssembler.getMap(m_patches);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
 
@@ -2158,7 +2163,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
     auto m2 = exprAssembler.getCoeff(mult2t);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
@@ -2261,7 +2267,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    const gsMultiPatch<T> Fdomain = _forceDomain();
+    auto F      = exprAssembler.getCoeff(*m_forceFun, exprAssembler.getMap(Fdomain));
 
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
@@ -3659,6 +3666,24 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     return integral;
 }
 
+template <short_t d, class T, bool bending>
+gsMultiPatch<T> gsThinShellAssemblerDWR<d, T, bending>::_forceDomain() const
+{
+    if (!m_parametricForce)
+        return m_patches;
+
+    gsMultiPatch<T> result;
+    for (size_t p = 0; p!=m_patches.nPatches(); ++p)
+    {
+        const gsMatrix<T> supp = m_patches.patch(p).support();
+        gsKnotVector<T> kv0(supp(0,0),supp(0,1),0,2), kv1(supp(1,0),supp(1,1),0,2);
+        gsMatrix<T> coefs(4,2);
+        coefs<<supp(0,0),supp(1,0), supp(0,1),supp(1,0), supp(0,0),supp(1,1), supp(0,1),supp(1,1);
+        result.addPatch(gsTensorBSpline<2,T>(kv0,kv1,give(coefs)));
+    }
+    return result;
+}
+
 template <short_t d, class T, bool bending>
 void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMultiPatch<T> &dualL, const gsMultiPatch<T> &dualH, std::vector<T> & errors) const
 {
-- 
2.43.0


From 7d6a09cd0f07d835075fc0f9c8f96dcf2a22d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:16 +0000
Subject: [PATCH 74/84] fix: buckling error estimates subtracted the variation
 of the normal from the change of curvature

---
 src/gsThinShellAssemblerDWR.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index f171ecf..b03ee62 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2491,9 +2491,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsolH) - jac(zsolL) ) ) ;
 
     auto M_L        = S1.tr(); // output is a column
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_L  = -(
-                         deriv2(zsolH, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolH, Gori) )
+                         deriv2(zsolH, sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsolH, Gori) )
                         -deriv2(zsolL, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolL, Gori) )
                        ) * reshape(m2, 3, 3);
 
@@ -2513,9 +2513,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Emd_der2   = flat( jac(usol).tr() * ( jac(zsolH) - jac(zsolL) ) ) * N_NL.tr();
 
     auto M_NL       = S1.tr(); // output is a column
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_NL = -(
-                         deriv2(zsolH, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolH, Gdef) )
+                         deriv2(zsolH, sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsolH, Gdef) )
                         -deriv2(zsolL, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolL, Gdef) )
                        ) * reshape(m2, 3, 3);
 
@@ -3610,10 +3610,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     auto zsol = exprAssembler.getCoeff(other);
 
     auto Em_der_L   = flat(  jac(Gori).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
 
 
     auto N_der_L     = Em_derd_L * reshape(mmA_L,3,3) + Ef_derd_L * reshape(mmB_L,3,3);
@@ -3621,10 +3621,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
 
     auto N_NL       = S0.tr();
     auto Em_der_NL  = flat(  jac(Gdef).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_NL = flat(  jac(Gdef).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_der2    = flat( jac(usol).tr() * ( jac(zsol )               ) ) * N_NL.tr();
 
-- 
2.43.0


From 654663e54fded10aba2cad4be1c7b315b843629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:16 +0000
Subject: [PATCH 75/84] fix: second derivatives of a variable were those at the
 first point of the element

---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 7e4985c..404dcdc 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1499,7 +1499,6 @@ public:
         typename util::enable_if< util::is_same<U,gsFeVariable<Scalar> >::value, const gsMatrix<Scalar> & >::type
         eval_impl(const U & u, const index_t k)  const
         {
-            GISMO_UNUSED(k); //should this use k??
             /*
                 Here, we compute the hessian of the geometry map.
                 The hessian of the geometry map c has the form: hess(c)
@@ -1513,7 +1512,7 @@ public:
             tmp = u.data().values[2];
             res.resize(rows(),cols());
             for (index_t comp = 0; comp != u.source().targetDim(); comp++)
-                res.col(comp) = tmp.block(comp*rows(),0,rows(),1); //star,length
+                res.col(comp) = tmp.block(comp*rows(),k,rows(),1); //star,length
             return res;
         }
 
-- 
2.43.0


From fb68bf77cbb2d57a1178c7368ef56919d51d48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 76/84] fix: the second variation of the normal of given fields
 was wrong and already multiplied with the second derivatives

---
 src/gsThinShellUtils.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 404dcdc..5dab632 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -514,7 +514,7 @@ public:
 
     mutable gsMatrix<Scalar> res;
 
-    mutable gsMatrix<Scalar> uGrads, vGrads, cJac, cDer2, result;
+    mutable gsMatrix<Scalar> uGrads, vGrads, cJac, result;
     mutable gsVector<Scalar> m_u, m_v, normal, m_uv, m_u_der, n_der, n_der2, tmp; // memomry leaks when gsVector<T,3>, i.e. fixed dimension
 
 #   define Eigen gsEigen
@@ -556,7 +556,7 @@ public:
 
         _G.parse(evList);
         evList.add(_G);
-        _G.data().flags |= NEED_NORMAL | NEED_DERIV | NEED_DERIV2 ;
+        _G.data().flags |= NEED_NORMAL | NEED_DERIV;
     }
 
     const gsFeSpace<Scalar> & rowVar() const { return _u.rowVar(); }
@@ -590,7 +590,6 @@ private:
         normal.normalize();
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cDer2 = _G.data().values[2].reshapeCol(k, _G.data().dim.second, _G.data().dim.second);
 
         const Scalar measure = (cJac.col3d(0).cross( cJac.col3d(1) )).norm();
 
@@ -606,7 +605,7 @@ private:
         n_der.noalias() = (m_v - ( normal*m_v.transpose() ) * normal); // outer-product version
 
         m_uv.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( vGrads.col(1).template head<3>() )
-                         - ( vGrads.col(1).template head<3>() ).cross( uGrads.col(0).template head<3>() ) )
+                         - ( uGrads.col(1).template head<3>() ).cross( vGrads.col(0).template head<3>() ) )
                         / measure;
 
         m_u_der.noalias() = (m_uv - ( normal.dot(m_v) ) * m_u);
@@ -615,10 +614,6 @@ private:
         // ---------------  Second variation of the normal
         tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
         // tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
-
-        // Evaluate the product
-        tmp = cDer2 * tmp; // E_f_der2, last component
-        tmp.row(2) *= 2.0;
         res = tmp;
         return res;
     }
-- 
2.43.0


From bba4ff162ddf6a32d9fd9536666cb6897f0ee337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:25 +0000
Subject: [PATCH 77/84] fix: error estimates of vibration modes demanded modes
 in the basis of the geometry

---
 src/gsThinShellAssemblerDWR.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index b03ee62..44812a6 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2671,10 +2671,6 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     GISMO_ENSURE(m_assemblerH->options().hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     exprAssembler.setOptions(m_assemblerH->options().getGroup("ExprAssembler"));
 
-    gsMultiPatch<T> deformed = m_patches;
-    for ( size_t k =0; k!=primal.nPatches(); ++k) // Deform the geometry
-        deformed.patch(k).coefs() += primal.patch(k).coefs();  // Gdef points to mp_def, therefore updated
-
     // Geometries
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
 
-- 
2.43.0


From 38ad2ce7d91e97cb8da65341d3d2b96d71274340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 78/84] fix: copies of a sum of functions evaluated the
 destroyed original, printing one skipped or overran its pieces

---
 src/gsFunctionSum.h | 56 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/gsFunctionSum.h b/src/gsFunctionSum.h
index 0f3f292..c40322a 100644
--- a/src/gsFunctionSum.h
+++ b/src/gsFunctionSum.h
@@ -67,8 +67,8 @@ public:
 
     std::ostream &print(std::ostream &os) const
     {
-        for (index_t p = 1; p!=m_size; p++)
-            gsInfo<<"Piece "<<p<<":\n"<<m_pieces[p]<<"\n";
+        for (size_t p = 0; p!=m_pieces.size(); p++)
+            os<<"Piece "<<p<<":\n"<<m_pieces[p]<<"\n";
         return os;
     }
 
@@ -114,19 +114,21 @@ class gsFunctionPieceSum :  public gsFunction<T>
 public:
     gsFunctionPieceSum(const gsFunctionSum<T> * geom, const index_t index)
     :
-    m_geom(geom),
     m_index(index)
     {
-        m_support = m_geom->func(0)->piece(m_index).support();
-        for (index_t p = 1; p!=m_geom->funcSize(); p++)
+        for (index_t p = 0; p!=geom->funcSize(); p++)
+            m_functions.push_back(geom->func(p));
+
+        m_support = m_functions[0]->piece(m_index).support();
+        for (index_t p = 1; p!=static_cast<index_t>(m_functions.size()); p++)
             for (index_t d=0; d!=m_support.rows(); d++)
             {
-                GISMO_ASSERT(m_geom->func(p)->piece(m_index).support().rows()!=0 && m_geom->func(p)->piece(m_index).support().cols()!=0,"Support is empty");
+                GISMO_ASSERT(m_functions[p]->piece(m_index).support().rows()!=0 && m_functions[p]->piece(m_index).support().cols()!=0,"Support is empty");
 
-                if (m_support(d,0) > m_geom->func(p)->piece(m_index).support()(d,0))
-                    m_support(d,0) = m_geom->func(p)->piece(m_index).support()(d,0);
-                if (m_support(d,1) < m_geom->func(p)->piece(m_index).support()(d,1))
-                    m_support(d,1) = m_geom->func(p)->piece(m_index).support()(d,1);
+                if (m_support(d,0) > m_functions[p]->piece(m_index).support()(d,0))
+                    m_support(d,0) = m_functions[p]->piece(m_index).support()(d,0);
+                if (m_support(d,1) < m_functions[p]->piece(m_index).support()(d,1))
+                    m_support(d,1) = m_functions[p]->piece(m_index).support()(d,1);
             }
     }
 
@@ -136,19 +138,19 @@ public:
     }
 
     short_t domainDim() const
-    { return m_geom->domainDim(); }
+    { return m_functions[0]->domainDim(); }
 
     short_t targetDim() const
-    { return m_geom->targetDim(); }
+    { return m_functions[0]->targetDim(); }
 
     /// Evaluates the non-zero spline functions at value u.
     void eval_into(const gsMatrix<T> & u, gsMatrix<T>& result) const
     {
         gsMatrix<T> tmp;
-        m_geom->func(0)->piece(m_index).eval_into(u,result);
-        for (index_t p = 1; p!=m_geom->funcSize(); p++)
+        m_functions[0]->piece(m_index).eval_into(u,result);
+        for (index_t p = 1; p!=static_cast<index_t>(m_functions.size()); p++)
         {
-            m_geom->func(p)->piece(m_index).eval_into(u,tmp);
+            m_functions[p]->piece(m_index).eval_into(u,tmp);
             result += tmp;
         }
     }
@@ -157,10 +159,10 @@ public:
     void deriv_into(const gsMatrix<T> & u, gsMatrix<T>& result ) const
     {
         gsMatrix<T> tmp;
-        m_geom->func(0)->piece(m_index).deriv_into(u,result);
-        for (index_t p = 1; p!=m_geom->funcSize(); p++)
+        m_functions[0]->piece(m_index).deriv_into(u,result);
+        for (index_t p = 1; p!=static_cast<index_t>(m_functions.size()); p++)
         {
-            m_geom->func(p)->piece(m_index).deriv_into(u,tmp);
+            m_functions[p]->piece(m_index).deriv_into(u,tmp);
             result += tmp;
         }
 
@@ -170,10 +172,10 @@ public:
     void deriv2_into(const gsMatrix<T> & u, gsMatrix<T>& result ) const
     {
         gsMatrix<T> tmp;
-        m_geom->func(0)->piece(m_index).deriv2_into(u,result);
-        for (index_t p = 1; p!=m_geom->funcSize(); p++)
+        m_functions[0]->piece(m_index).deriv2_into(u,result);
+        for (index_t p = 1; p!=static_cast<index_t>(m_functions.size()); p++)
         {
-            m_geom->func(p)->piece(m_index).deriv2_into(u,tmp);
+            m_functions[p]->piece(m_index).deriv2_into(u,tmp);
             result += tmp;
         }
 
@@ -184,10 +186,10 @@ public:
     void evalAllDers_into(const gsMatrix<T> & u, int n, std::vector<gsMatrix<T> >& result) const
     {
         std::vector<gsMatrix<T> > tmp;
-        m_geom->func(0)->piece(m_index).evalAllDers_into(u,n,result);
-        for (index_t p = 1; p!=m_geom->funcSize(); p++)
+        m_functions[0]->piece(m_index).evalAllDers_into(u,n,result);
+        for (index_t p = 1; p!=static_cast<index_t>(m_functions.size()); p++)
         {
-            m_geom->func(p)->piece(m_index).evalAllDers_into(u,n,tmp);
+            m_functions[p]->piece(m_index).evalAllDers_into(u,n,tmp);
             for (size_t k = 0; k!=result.size(); k++)
             {
                 result[k] += tmp[k];
@@ -200,13 +202,13 @@ public:
 
     std::ostream &print(std::ostream &os) const
     {
-        for (index_t p = 0; p!= m_geom->funcSize(); p++)
-            gsInfo<<" function "<<p<<":\n"<<m_geom->func(p)->piece(m_index)<<"\n";
+        for (index_t p = 0; p!= static_cast<index_t>(m_functions.size()); p++)
+            os<<" function "<<p<<":\n"<<m_functions[p]->piece(m_index)<<"\n";
         return os;
     }
 
 protected:
-    const gsFunctionSum<T> * m_geom;
+    std::vector<const gsFunctionSet<T> * > m_functions;
     const index_t m_index;
     gsMatrix<T> m_support;
 
-- 
2.43.0


From 5360d54821cd12ccfe15a6151668c3a4af7d7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 79/84] fix: the stiffness of the linear material at a given
 strain was written outside its matrix

---
 src/gsMaterialMatrixLinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 5a0e311..d2b3f1f 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -582,7 +582,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::S(const gsMatrix<T> & strain) const
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixLinear<dim,T>::C(const gsMatrix<T> &) const
 {
-    gsMatrix<T> result(2,2);
+    gsMatrix<T> result(3,3);
     result(0,0)                 = _Cijkl(0,0,0,0); // C1111
     result(1,1)                 = _Cijkl(1,1,1,1); // C2222
     result(2,2)                 = _Cijkl(0,1,0,1); // C1212
-- 
2.43.0


From 9431738d706e272bfaf859d512d97fc42fc24398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 80/84] fix: copies of a tension-field material shared their
 underlying material

---
 src/gsMaterialMatrixTFT.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/gsMaterialMatrixTFT.h b/src/gsMaterialMatrixTFT.h
index c0f915e..4a08400 100644
--- a/src/gsMaterialMatrixTFT.h
+++ b/src/gsMaterialMatrixTFT.h
@@ -108,6 +108,26 @@ public:
         m_options.addSwitch("Explicit","Explicit iterations; use tension field from a fixed deformed geometry that does not change when calling setDeformed",false);
     }
 
+    /// Copy constructor; the copy gets its own underlying material
+    gsMaterialMatrixTFT(const gsMaterialMatrixTFT & other)
+    :
+    Base(other),
+    m_materialMat(memory::make_shared(other.m_materialMat->clone().release())),
+    m_defpatches0(other.m_defpatches0)
+    {}
+
+    /// Copy assignment; the assigned object gets its own underlying material
+    gsMaterialMatrixTFT & operator=(const gsMaterialMatrixTFT & other)
+    {
+        if (this!=&other)
+        {
+            Base::operator=(other);
+            m_materialMat = memory::make_shared(other.m_materialMat->clone().release());
+            m_defpatches0 = other.m_defpatches0;
+        }
+        return *this;
+    }
+
     /// See \ref gsMaterialMatrixBase for details
     /// Here, we use the integrated matrix and vector to make our computations!
     inline enum MatIntegration isMatIntegrated() const override
-- 
2.43.0


From 863f9c94160887aa6d741237ab32bc5fd7081a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:38 +0000
Subject: [PATCH 81/84] fix: thickness, density and parameters set on a
 tension-field material were ignored

---
 src/gsMaterialMatrixTFT.h | 60 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.h b/src/gsMaterialMatrixTFT.h
index 4a08400..7e43b90 100644
--- a/src/gsMaterialMatrixTFT.h
+++ b/src/gsMaterialMatrixTFT.h
@@ -153,6 +153,10 @@ public:
     void thickness_into(const index_t patch, const gsMatrix<T> & u, gsMatrix<T>& result) const override
     { m_materialMat->thickness_into( patch,u,result ); }
 
+    /// See \ref gsMaterialMatrixBase for details
+    void parameters_into(const index_t patch, const gsMatrix<T> & u, gsMatrix<T>& result) const override
+    { m_materialMat->parameters_into( patch,u,result ); }
+
     /// See \ref gsMaterialMatrixBase for details
     gsMatrix<T> eval3D_matrix(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput out = MaterialOutput::Generic) const override;
     using Base::eval3D_matrix;
@@ -214,7 +218,60 @@ public:
     /// See \ref gsMaterialMatrixBase for details
     void setParameters(const std::vector<gsFunctionSet<T>*> &pars) override
     { m_materialMat->setParameters(pars); }
-    using Base::setParameters;
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setParameters(const std::vector<function_ptr> &pars) override
+    { m_materialMat->setParameters(pars); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setParameter(const index_t i, const function_ptr &par) override
+    { m_materialMat->setParameter(i,par); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setParameter(const index_t i, const gsFunctionSet<T> &par) override
+    { m_materialMat->setParameter(i,par); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    const function_ptr getParameter(const index_t i) const override
+    { return m_materialMat->getParameter(i); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    index_t numParameters() const override
+    { return m_materialMat->numParameters(); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void resetParameters() override
+    { m_materialMat->resetParameters(); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setThickness(const function_ptr & thickness) override
+    {
+        Base::setThickness(thickness);
+        m_materialMat->setThickness(m_thickness);
+    }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setThickness(const gsFunctionSet<T> & thickness) override
+    {
+        Base::setThickness(thickness);
+        m_materialMat->setThickness(m_thickness);
+    }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setDensity(function_ptr Density) override
+    { m_materialMat->setDensity(Density); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    void setDensity(const gsFunctionSet<T> & Density) override
+    { m_materialMat->setDensity(Density); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    bool hasDensity() const override
+    { return m_materialMat->hasDensity(); }
+
+    /// See \ref gsMaterialMatrixBase for details
+    const function_ptr getDensity() const override
+    { return m_materialMat->getDensity(); }
 
     /// See \ref gsMaterialMatrixBase for details
     void info() const override
@@ -302,6 +359,7 @@ protected:
     mutable material_ptr m_materialMat;
     using Base::m_patches;
     using Base::m_defpatches;
+    using Base::m_thickness;
     function_ptr m_defpatches0;
     using Base::m_options;
 
-- 
2.43.0


From 2511ced29cdcb41c22e693b3b3762dc6ceb8854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:37 +0000
Subject: [PATCH 82/84] fix: point masses act on the functions of the space
 basis

---
 src/gsThinShellAssembler.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index f736061..b8e9fde 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1419,18 +1419,24 @@ void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
         GISMO_ASSERT(m_pMass[i].value.size()==1,"Mass should be one-dimensional");
 
         // Compute actives and values of basis functions on point load location.
+        gsMatrix<T> massPoint;
         if ( m_pMass[i].parametric )   // in parametric space
+            massPoint = m_pMass[i].point;
+        else                            // in physical space
+            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,massPoint);
+
+        if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
         {
-            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            mbasis->active_into(m_pMass[i].patch,massPoint, acts );
+            mbasis->eval_into  (m_pMass[i].patch,massPoint, bVals );
         }
-        else                            // in physical space
+        else if (const gsMultiBasis<T> * mbasis = dynamic_cast<const gsMultiBasis<T> * >(m_spaceBasis))
         {
-            gsMatrix<T> forcePoint;
-            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            mbasis->basis(m_pMass[i].patch).active_into( massPoint, acts);
+            mbasis->basis(m_pMass[i].patch).eval_into  ( massPoint, bVals);
         }
+        else
+            GISMO_ERROR("Basis type not understood");
 
         // Add the point load values in the right entries in the global RHS
         for (size_t j = 0; j< d; ++j)
-- 
2.43.0


From 339bad73e3eb91668e38073119bfe71d0cb115a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 83/84] fix: displacements are built in the basis of the space

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index b8e9fde..c422678 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2741,7 +2741,7 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructMultiPatch(const g
         for ( index_t p =0; p!=m_patches.nPieces(); ++p) // Deform the geometry
         {
             m_solution.extract(cc, p);
-            result.addPatch(m_basis.basis(p).makeGeometry( give(cc) ));  // defG points to mp_def, therefore updated
+            result.addPatch(m_spaceBasis->basis(p).makeGeometry( give(cc) ));  // defG points to mp_def, therefore updated
         }
         return result;
     }
-- 
2.43.0


From 922e811a0451894d32e993bdbb546f10b1f1f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:43 +0000
Subject: [PATCH 84/84] fix: solution vectors of mapped bases were read beyond
 the coefficients

---
 src/gsThinShellAssembler.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index c422678..f020fce 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2777,6 +2777,24 @@ gsVector<T> gsThinShellAssembler<d, T, bending>::constructSolutionVector(const g
 {
     gsVector<T> result(m_mapper.freeSize());
 
+    if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
+    {
+        // The displacements have the coefficients of the local basis functions
+        gsMatrix<T> local(mbasis->localSize(),d), global;
+        index_t offset = 0;
+        for (size_t p=0; p!=displacements.nPatches(); p++)
+        {
+            local.middleRows(offset,mbasis->localSize(p)) = displacements.patch(p).coefs();
+            offset += mbasis->localSize(p);
+        }
+        mbasis->local_coef_to_global_coef(local,global);
+        for (index_t dim = 0; dim!=d; dim++)
+            for (index_t k=0; k!=mbasis->size(); k++)
+                if (m_mapper.is_free(k,0,dim))
+                    result.at(m_mapper.index(k,0,dim)) = global(k,dim);
+        return result;
+    }
+
     for (size_t p=0; p!=displacements.nPatches(); p++)
     {
         for (size_t dim = 0; dim!=d; dim++)
-- 
2.43.0

