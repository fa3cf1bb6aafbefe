From 01b8d9e53239aea5ef71d0b5cf27a92f4efb106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:51 +0000
Subject: [PATCH 01/23] fix: mat_times_transposed_mat must compute A * B^T with
 a result of n_rowsA x n_rowsB

---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From 88e20ba7096bfb5f7a61ef79eef7b6deb3657def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 02/23] fix: sign of the determinant, LAPACK's reflector with
 tau = 0 is the identity and does not change sign

---
 include/HyperHDG/wrapper/lapack.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..1dcfcff 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -65,8 +65,8 @@ std::array<lapack_float_t, system_size * n_rhs_cols> lapack_solve(
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of (non-trivial) reflections is even,
+ * and det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  *
  * The matrix is destroyed using this function. Its entries might be used to generate matrices Q and
  * R of the QR descomposition.
@@ -399,7 +399,7 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
 
   lapack_float_t determinant = 1.;
   for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+    determinant *= (tau[i] == 0. ? 1. : -1.) * dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From e2e6d0bb0e94097d053ba1a76cc35cf2c1796a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 03/23] fix: lower triangle of the reduced R was zeroed with
 the wrong leading dimension

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 1dcfcff..aea373c 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 039758874627aab758affb4b30ef5783c78bcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 04/23] fix: lapack_qr_decomp_r passed a superfluous template
 argument and could not be instantiated

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index aea373c..d0bf3f7 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -586,7 +586,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 8f8ddda5b37436970ffce8a5b2b1202d0d67b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 05/23] fix: qr_decomp derived det(Q) from the number of rows
 instead of the non-trivial reflections

---
 include/HyperHDG/dense_la.hxx       |  7 ++++---
 include/HyperHDG/wrapper/lapack.hxx | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..ca09a29 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1067,12 +1067,13 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
                SmallSquareMat<n_cols, mat_entry_t>& mat_r)
 {
   static_assert(n_cols <= n_rows, "Function only defined for these matrices!");
-  Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
+  const mat_entry_t det_q =
+    Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
   SmallVec<n_rows, mat_entry_t> factors(1.);
   bool switch_necessary = false;
 
-  // Q should have determinant = +1 and not -1 (as it has for odd dimensions)!
-  if (n_rows % 2 == 1)
+  // Q should have determinant = +1 and not -1!
+  if (det_q < 0.)
   {
     if (n_cols == n_rows)
       factors[0] *= -1.;
diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index d0bf3f7..fc54267 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -145,11 +145,12 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
  * \retval  dense_mat   Matrix R of Householder QR decomposition.
  * \retval  mat_q       Matrix Q of Householder QR decomposition.
  * \retval  mat_r       Square system of size n_cols that contains respective part of R.
+ * \retval  det_q       Determinant of Q, i.e., +1 or -1.
  **************************************************************************************************/
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
-                      std::array<lapack_float_t, n_rows * n_rows>& mat_q,
-                      std::array<lapack_float_t, n_cols * n_cols>& mat_r);
+lapack_float_t lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+                                std::array<lapack_float_t, n_rows * n_rows>& mat_q,
+                                std::array<lapack_float_t, n_cols * n_cols>& mat_r);
 
 // -------------------------------------------------------------------------------------------------
 /// \cond EXCLUDE_CODE
@@ -610,9 +611,9 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
 // -------------------------------------------------------------------------------------------------
 
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
-                      std::array<lapack_float_t, n_rows * n_rows>& mat_q,
-                      std::array<lapack_float_t, n_cols * n_cols>& mat_r)
+lapack_float_t lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+                                std::array<lapack_float_t, n_rows * n_rows>& mat_q,
+                                std::array<lapack_float_t, n_cols * n_cols>& mat_r)
 {
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
@@ -621,6 +622,13 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
   get_q_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat, tau, mat_q);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat, mat_r);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
+
+  // A reflector with tau = 0 is the identity, each other one has determinant -1.
+  lapack_float_t det_q = 1.;
+  for (unsigned int i = 0; i < rank; ++i)
+    if (tau[i] != 0.)
+      det_q *= -1.;
+  return det_q;
 }
 
 }  // end of namespace Wrapper
-- 
2.43.0


From 152d4ffc60762205bb6406cb9a1db4e6d5f44e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 06/23] fix: qr_decomp left the rectangular R inconsistent with
 the normalized Q

---
 include/HyperHDG/dense_la.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index ca09a29..33b5a81 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1105,7 +1105,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
+        mat(i, j) *= factors[i];
         mat_r(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
-- 
2.43.0


From 6cfba75af883ffd850f6bf6e0887d3ac9342dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:56 +0000
Subject: [PATCH 07/23] fix: Parabolic::make_initial truncated the time to an
 index

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 95653ecb0e5147b59fe030239b9bee9522bc7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:56 +0000
Subject: [PATCH 08/23] fix: Parabolic::residual_flux and make_initial must use
 the configured vector type

---
 include/HyperHDG/global_loop/parabolic.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 87405ea..34562f5 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -235,8 +235,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the product \f$y = Ax\f$.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  std::vector<dof_value_t> residual_flux(const std::vector<dof_value_t>& x_vec,
-                                         const dof_value_t time = 0.)
+  LargeVecT residual_flux(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
@@ -350,7 +349,7 @@ class Parabolic
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
 
-    std::vector<dof_value_t> vec_Ax(x_vec.size(), 0.);
+    LargeVecT vec_Ax(x_vec.size(), 0.);
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<std::array<dof_value_t, n_dofs_per_node>, 2 * hyEdge_dim> hyEdge_dofs;
 
-- 
2.43.0


From d9abe03b72e2c3a472f0f25b4c1c4f0eb1a9bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 09/23] fix: dirichlet_indices accumulated the indices of
 previous calls and refinements

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 3 +++
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..947b9dd 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -145,6 +145,9 @@ class MassApproxEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    // Remove the indices of previous calls, which do not belong to the current refinement.
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..2b4c9d1 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -141,6 +141,9 @@ class ShiftedInverseEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    // Remove the indices of previous calls, which do not belong to the current refinement.
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
-- 
2.43.0


From 1df38cad3a85544ccdce8c143174a49378621b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 10/23] fix: check_consistency forgot invalid indices of all
 but the last check when assertions are off

---
 include/HyperHDG/read_domain.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..646981c 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -115,10 +115,11 @@ struct DomainInfo
     std::for_each(hyNodes_hyEdge.begin(), hyNodes_hyEdge.end(),
                   [&](std::array<hyNode_index_t, 2 * hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent &= is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
+                      consistent &= (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one hypernode index is invalid!");
                     }
                   });
@@ -126,13 +127,16 @@ struct DomainInfo
     std::for_each(points_hyEdge.begin(), points_hyEdge.end(),
                   [&](std::array<pt_index_t, 1 << hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent &= is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_points && hyEdge[i] >= 0);
+                      consistent &= (hyEdge[i] < n_points && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one point index is invalid!");
                     }
                   });
+    if (!consistent)
+      return false;
 
     consistent = is_unique(points);
     hy_assert(consistent, "DomainInfo.points contains duplicate points!");
-- 
2.43.0


From 3c219b4717964339fb586f61a90888e56d019df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:41 +0000
Subject: [PATCH 11/23] fix: set_plot_option returned the numeric value of the
 file type as a character instead of its name

---
 include/HyperHDG/plot.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..1f412b6 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -116,6 +116,12 @@ struct PlotOptions
   bool numbers = false;
 };  // end of class PlotOptions
 
+namespace PlotFunctions
+{
+// Implemented below, together with the other auxiliary functions.
+std::string fileType_to_string(const PlotOptions::fileType& type);
+}  // namespace PlotFunctions
+
 /*!*************************************************************************************************
  * \brief Set a plot option and return the new value of this option as std::string.
  **************************************************************************************************/
@@ -161,7 +167,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = PlotFunctions::fileType_to_string(plot_options.fileEnding);
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 509ce66a1c406745eb7a3d312e541ca4c34507a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:48 +0000
Subject: [PATCH 12/23] fix: plots of edge boundaries lacked the padding
 components at all but the last vertex of a face

---
 include/HyperHDG/plot.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 1f412b6..c4fd544 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -681,10 +681,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From eac417b09cf0ac6b1a4ddd1e4a91ed8f6fee3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:25 +0000
Subject: [PATCH 13/23] fix: boundary_lexicographic subtracted the offset of
 the face from an index that is local to the face

---
 include/HyperHDG/geometry/file.hxx      | 3 +--
 include/HyperHDG/geometry/unit_cube.hxx | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/geometry/file.hxx b/include/HyperHDG/geometry/file.hxx
index a4731e0..f30a716 100644
--- a/include/HyperHDG/geometry/file.hxx
+++ b/include/HyperHDG/geometry/file.hxx
@@ -263,10 +263,9 @@ class File
       const SmallVec<n_sub_points, one_dim_float_t>& points_1d) const
     {
       static_assert(n_sub_points > 0, "No subpoints do not make sense!");
-      hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1) * hyEdge_dimT * 2,
+      hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1),
                 "The index must not exceed the number of prescribed lexicographic points.");
       Point<hyEdge_dimT - 1, pt_coord_t> subpt;
-      index = index - std::pow(n_sub_points, hyEdge_dimT - 1) * boundary_number;
       for (unsigned int subdim = 0; subdim < hyEdge_dimT - 1; ++subdim)
       {
         subpt[subdim] = (pt_coord_t)points_1d[index % n_sub_points];
diff --git a/include/HyperHDG/geometry/unit_cube.hxx b/include/HyperHDG/geometry/unit_cube.hxx
index bc407cf..b099866 100644
--- a/include/HyperHDG/geometry/unit_cube.hxx
+++ b/include/HyperHDG/geometry/unit_cube.hxx
@@ -357,10 +357,9 @@ class UnitCube
       const SmallVec<n_sub_points, one_dim_float_t>& points_1d) const
     {
       static_assert(n_sub_points > 0, "No subpoints do not make sense!");
-      hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1) * hyEdge_dimT * 2,
+      hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1),
                 "The index must not exceed the number of prescribed lexicographic points.");
       Point<hyEdge_dimT - 1, pt_coord_t> subpt;
-      index = index - std::pow(n_sub_points, hyEdge_dimT - 1) * boundary_number;
       for (unsigned int subdim = 0; subdim < hyEdge_dimT - 1; ++subdim)
       {
         subpt[subdim] = (pt_coord_t)points_1d[index % n_sub_points];
-- 
2.43.0


From 60d6523061f8654fa9aa6ceb7b8f3a30fd0c6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:22 +0000
Subject: [PATCH 14/23] fix: the copy constructor of NodeDescriptor::File could
 not be instantiated and dropped the refinement

---
 include/HyperHDG/node_descriptor/file.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 2a30af3..3f6dd9c 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -152,12 +152,10 @@ class File
                   hyEdge_index_t,
                   hyNode_index_t,
                   pt_index_t>& other)
-  : domain_info_(other.domain_info),
-    n_subintervals_(1),
-    tpcc_ref_elem_(
-      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
-        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_))),
-    n_hyEdges_(domain_info_.n_hyEdges)
+  : domain_info_(other.domain_info_),
+    n_subintervals_(other.n_subintervals_),
+    tpcc_ref_elem_(other.tpcc_ref_elem_),
+    n_hyEdges_(other.n_hyEdges_)
   {
   }
 
-- 
2.43.0


From 2feb731e1fb46b05c4d3d724e11a4e71722f0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:42 +0000
Subject: [PATCH 15/23] fix: the advective velocity of
 DiffusionAdvectionReaction was always evaluated at time zero

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 579500e6f658e490177d11030443a7125ba11cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:53 +0000
Subject: [PATCH 16/23] fix: DiffusionIP evaluated the diffusion coefficient on
 the faces always at time zero

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..0465a2e 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -390,12 +390,14 @@ class DiffusionIP
    * \tparam  hyEdgeT       The geometry type / typename of the considered hyEdge's geometry.
    * \param   coeffs        Coefficients of the local solution.
    * \param   hyper_edge    The geometry of the considered hyperedge (of typename GeomT).
+   * \param   time          Time at which the diffusion coefficient is evaluated.
    * \retval  bdr_coeffs    Coefficients of respective (dim-1) dimensional function at boundaries.
    ************************************************************************************************/
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +452,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +516,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +635,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +797,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +810,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From de271f5777f9f93480636972acf145c8b277d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:05 +0000
Subject: [PATCH 17/23] fix: errors of DiffusionEigs could not be instantiated,
 since they used an undeclared time

---
 include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
index 630c3ab..3d77a00 100644
--- a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
@@ -546,7 +546,7 @@ class DiffusionEigs
     return std::array<lSol_float_t, 1U>({integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time)});
+                                                                      eig)});
   }
   /*!***********************************************************************************************
    * \brief   Evaluate local local reconstruction at tensorial products of abscissas.
-- 
2.43.0


From b81445e5f71f2d8ccf6c3a082dcb1313d6feb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 18/23] fix: Bilaplacian::residual_flux penalizes the trace of
 the other variable like trace_to_flux

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 1734acb5a557f0b46576cef3893fe037d7410541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 19/23] fix: BilaplacianEigs::errors evaluates the analytic
 result at its eigenvalue argument

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..618c673 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -614,7 +614,7 @@ class BilaplacianEigs
     lSol_float_t result = integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time);
+                                                                      eig);
     hy_assert(result >= 0., "The squared error must be non-negative, but was " << result);
     return std::array<lSol_float_t, 1U>({result});
   }
-- 
2.43.0


From 2fd18ddcfb35d101668eabb2836fd0404cc00b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 20/23] fix: BilaplacianEigs::make_initial uses the skeletal
 shape function index for the Laplacian

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index 618c673..9dae670 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -484,7 +484,8 @@ class BilaplacianEigs
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t> >(j, i, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t> >(j - lambda_values[i].size() / 2, i,
+                                               hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From 3d0861ffc509323f4c0d04d3c5d1f13bfb0c41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:23 +0000
Subject: [PATCH 21/23] fix: BilaplacianParab::residual_flux penalizes the
 trace of the other variable like trace_to_flux

---
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 37869850d42227b906b8059b159c32901717b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:23 +0000
Subject: [PATCH 22/23] fix: BilaplacianParab::make_initial passes shape
 function and face in the order of the integrator

---
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..9ad4462 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -602,12 +602,13 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - lambda_values[i].size() / 2, i,
+                                              hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From 03b10bae816b88cd060e43d1278c04aee3295889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:05 +0000
Subject: [PATCH 23/23] fix: TimoshenkoBeam evaluates its data at the given
 time

---
 .../local_solver/timoshenko_network.hxx       | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0695b75..0803dff 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -376,7 +376,7 @@ class TimoshenkoBeam
   template <typename hyEdgeT>
   inline SmallVec<n_loc_dofs_, lSol_float_t> assemble_rhs_from_global_rhs(
     hyEdgeT& hyper_edge,
-    const unsigned int dim) const;
+    const lSol_float_t time) const;
 
   template <class hyEdgeT, typename SmallMatT>
   inline std::array<std::array<double, 2 * space_dim>, 2 * hyEdge_dimT> node_dof_to_edge_dof(
@@ -884,7 +884,7 @@ inline SmallVec<
     n_loc_dofs_,
   lSol_float_t>
 TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_float_t>::
-  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const unsigned int dim) const
+  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   // constexpr unsigned int n_dofs_lap = n_loc_dofs_ / 2;
@@ -897,33 +897,33 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
 
     right_hand_side[3 * space_dim * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     for (unsigned int face = 0; face < 2 * hyEdge_dimT; ++face)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))
@@ -931,7 +931,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -939,7 +939,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -947,7 +947,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
@@ -955,7 +955,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -963,7 +963,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -971,7 +971,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
-- 
2.43.0

