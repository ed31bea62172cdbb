From e4764cdcff9a166eacb203923e14040e0a724502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/63] fix: return the element value from
 bml_get_element_<precision>

The typed dense/ellpack getters return a pointer to the element; the
dispatchers declared them implicitly and returned the pointer bits.
---
 src/C-interface/bml_elemental.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..d8d2b0d 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,8 @@
 #include "bml_elemental.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
+#include "dense/bml_getters_dense.h"
+#include "ellpack/bml_getters_ellpack.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -24,10 +24,12 @@ bml_get_element_single_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_real(A, i, j);
+            return *((float *)
+                     bml_get_element_dense_single_real(A, i, j));
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
+            return *((float *)
+                     bml_get_element_ellpack_single_real(A, i, j));
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -52,10 +54,12 @@ bml_get_element_double_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_real(A, i, j);
+            return *((double *)
+                     bml_get_element_dense_double_real(A, i, j));
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
+            return *((double *)
+                     bml_get_element_ellpack_double_real(A, i, j));
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -81,10 +85,12 @@ bml_get_element_single_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
+            return *((float complex *)
+                     bml_get_element_dense_single_complex(A, i, j));
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
+            return *((float complex *)
+                     bml_get_element_ellpack_single_complex(A, i, j));
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -109,10 +115,12 @@ bml_get_element_double_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
+            return *((double complex *)
+                     bml_get_element_dense_double_complex(A, i, j));
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
+            return *((double complex *)
+                     bml_get_element_ellpack_double_complex(A, i, j));
             break;
 
         default:
-- 
2.43.0


From 7ef8551fd0fd87e463dd1c984337a1b51a789495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 02/63] fix: norms of complex matrices, fnorm2 and ellblock
 norm dispatch

---
 src/C-interface/bml_introspection.c           |  3 ++
 src/C-interface/bml_norm.c                    |  3 ++
 src/C-interface/csr/bml_norm_csr_typed.c      |  6 +--
 src/C-interface/dense/bml_norm_dense_typed.c  | 28 ++++------
 .../ellblock/bml_norm_ellblock_typed.c        | 53 +++++++++++--------
 .../ellpack/bml_norm_ellpack_typed.c          | 29 +++++-----
 6 files changed, 63 insertions(+), 59 deletions(-)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..d5d8938 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -279,6 +279,9 @@ bml_get_distribution_mode(
         case ellpack:
             return bml_get_distribution_mode_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index 60252fb..e953214 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -227,6 +227,9 @@ bml_fnorm2(
         case ellpack:
             return bml_fnorm2_ellpack(A, B);
             break;
+        case ellblock:
+            return bml_fnorm2_ellblock(A, B);
+            break;
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..d6f365a 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -43,7 +43,7 @@ double TYPED_FUNC(
     {
         tsum =
             MAGMACOMPLEX(ADD) (tsum,
-                               MAGMA(dotu) (N,
+                               MAGMA(dotc) (N,
                                             (MAGMA_T *) A->matrix + i * A->ld,
                                             1,
                                             (MAGMA_T *) A->matrix + i * A->ld,
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -108,7 +108,7 @@ double TYPED_FUNC(
     {
         tsum =
             MAGMACOMPLEX(ADD) (tsum,
-                               MAGMA(dotu) (N,
+                               MAGMA(dotc) (core_size,
                                             (MAGMA_T *) A->matrix + i * A->ld,
                                             1,
                                             (MAGMA_T *) A->matrix + i * A->ld,
@@ -118,7 +118,7 @@ double TYPED_FUNC(
 #else
     for (int i = 0; i < core_size; i++)
     {
-        sum += MAGMA(dot) (N, (MAGMA_T *) A->matrix + i * A->ld, 1,
+        sum += MAGMA(dot) (core_size, (MAGMA_T *) A->matrix + i * A->ld, 1,
                            (MAGMA_T *) A->matrix + i * A->ld, 1, bml_queue());
     }
 #endif
@@ -133,22 +133,14 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * A_matrix[i];
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * COMPLEX_CONJUGATE(value);
         }
     }
-*/
 #endif
 
     return (double) REAL_PART(sum);
@@ -297,7 +289,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -353,7 +345,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -362,7 +353,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,8 +360,8 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..1a1410e 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -82,6 +82,7 @@ double TYPED_FUNC(
     int *bsize = A->bsize;
     int *B_indexb = B->indexb;
     int *B_nnzb = B->nnzb;
+    int B_MB = B->MB;
 
     REAL_T sum = 0.0;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
@@ -97,7 +98,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
 
-    int ix[NB], jjb[MB];
+    int ix[NB], jjb[NB];
 
     memset(jjb, 0, NB * sizeof(int));
 
@@ -125,7 +126,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] != 0)
             {
@@ -147,11 +148,13 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            int nelements = bsize[ib] * bsize[jjb[jp]];
+            for (int k = 0; k < nelements; k++)
+            {
+                if (ABS(y_value[k]) > threshold)
+                    sum += y_value[k];
+            }
         }
     }
 
@@ -187,6 +190,7 @@ double TYPED_FUNC(
     int *bsize = A->bsize;
     int *B_indexb = B->indexb;
     int *B_nnzb = B->nnzb;
+    int B_MB = B->MB;
 
     REAL_T sum = 0.0;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
@@ -233,7 +237,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
@@ -253,11 +257,13 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_squares)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            int nelements = bsize[ib] * bsize[jjb[jp]];
+            for (int k = 0; k < nelements; k++)
+            {
+                if (ABS(y_value[k]) > threshold)
+                    sum += y_value[k] * COMPLEX_CONJUGATE(y_value[k]);
+            }
 
             /* reset arrays */
             ix[jjb[jp]] = 0;
@@ -318,6 +324,7 @@ double TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *B_nnzb = (int *) B->nnzb;
+    int B_MB = B->MB;
     int *B_indexb = (int *) B->indexb;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
@@ -334,15 +341,15 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, kp, NB, B_MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B_MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -352,34 +359,34 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                 }
         }
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, jp, NB, B_MB)])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..ef391be 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -385,6 +385,7 @@ double TYPED_FUNC(
     int *B_nnz = (int *) B->nnz;
     int *B_index = (int *) B->index;
     REAL_T *B_value = (REAL_T *) B->value;
+    int B_M = B->M;
 
     REAL_T temp;
 
@@ -400,45 +401,45 @@ double TYPED_FUNC(
   private(rvalue, temp)                         \
   shared(N, M, A_nnz, A_index, A_value)         \
   shared(A_localRowMin, A_localRowMax, myRank)  \
-  shared(B_nnz, B_index, B_value)               \
+  shared(B_nnz, B_index, B_value, B_M)          \
   reduction(+:fnorm)
     //for (int i = 0; i < N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
+                fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
             }
         }
     }
-- 
2.43.0


From ecf8decc24d0110ae253b18081dd1cdbb2f9d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:57 +0000
Subject: [PATCH 03/63] fix: bml_trace_mult returns Tr(A*B) for non-symmetric
 matrices; MatrixMarket header

---
 src/C-interface/csr/bml_utilities_csr_typed.c |  4 +--
 src/C-interface/dense/bml_trace_dense_typed.c | 13 ++++++---
 .../dense/bml_utilities_dense_typed.c         |  4 +--
 .../distributed2d/bml_trace_distributed2d.c   | 10 ++++++-
 .../ellblock/bml_trace_ellblock_typed.c       |  4 +--
 .../ellblock/bml_utilities_ellblock_typed.c   |  4 +--
 .../ellpack/bml_trace_ellpack_typed.c         | 29 ++++++++++---------
 .../ellpack/bml_utilities_ellpack_typed.c     |  4 +--
 8 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..7f5fdae 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -132,9 +132,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..970d686 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -120,13 +120,13 @@ double TYPED_FUNC(
     {
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
         MAGMA_T ttrace = MAGMA(dotu) (N, (MAGMA_T *) A->matrix + i * A->ld, 1,
-                                      (MAGMA_T *) B->matrix + i * B->ld, 1,
+                                      (MAGMA_T *) B->matrix + i, B->ld,
                                       bml_queue());
         trace +=
             MAGMACOMPLEX(REAL) (ttrace) + I * MAGMACOMPLEX(IMAG) (ttrace);
 #else
         trace += MAGMA(dot) (N, (REAL_T *) A->matrix + i * A->ld, 1,
-                             (REAL_T *) B->matrix + i * B->ld, 1,
+                             (REAL_T *) B->matrix + i, B->ld,
                              bml_queue());
 #endif
     }
@@ -143,9 +143,14 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int k = 0; k < N; k++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, k, N, N)] *
+                B_matrix[ROWMAJOR(k, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..27b5ea8 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -158,10 +158,10 @@ void TYPED_FUNC(
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate real general\n");
+            "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate complex general\n");
+            "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // count number of non-zero elements
diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..fc1a5be 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -2,7 +2,10 @@
 #include "../bml_trace.h"
 #include "../bml_types.h"
 #include "../bml_parallel.h"
+#include "../bml_transpose.h"
+#include "bml_allocate_distributed2d.h"
 #include "bml_trace_distributed2d.h"
+#include "bml_transpose_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
 #include <stdlib.h>
@@ -43,7 +46,12 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    /* the block of B multiplying the local block of A is the local block of
+     * the transpose of B */
+    bml_matrix_distributed2d_t *BT = bml_transpose_new_distributed2d(B);
+    bml_transpose(BT->matrix);
+    double trace = bml_trace_mult(A->matrix, BT->matrix);
+    bml_deallocate_distributed2d(BT);
 
     bml_sumRealReduce(&trace);
 
diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index 9383a12..d68379c 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,7 +85,7 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    if (NB != B->NB || MB != B->MB)
+    if (NB != B->NB)
     {
         LOG_ERROR
             ("bml_trace_mult_ellblock: Matrices A and B have different number of blocks.");
@@ -101,7 +101,7 @@ double TYPED_FUNC(
 
             for (int kp = 0; kp < B_nnzb[jb]; kp++)
             {
-                int indB = ROWMAJOR(jb, kp, NB, MB);
+                int indB = ROWMAJOR(jb, kp, NB, B->MB);
                 int kb = B_indexb[indB];
                 if (kb == ib)
                 {
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..9e705af 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -194,9 +194,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #else
     LOG_ERROR("unknown matrix precision\n");
 #endif
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..d0383eb 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,13 +115,12 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
     int rowMax = A_localRowMax[myRank];
 
-    if (A_N != B->N || A_M != B->M)
+    if (A_N != B->N)
     {
         LOG_ERROR
             ("bml_trace_mult_ellpack: Matrices A and B have different sizes.");
@@ -129,33 +128,37 @@ double TYPED_FUNC(
 
     int B_N = B->N;
     int B_M = B->M;
-
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace +=
+                        A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..2b008cd 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -152,9 +152,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
-- 
2.43.0


From 3fc51fa933ef5996bb1c7b80aa1762473f33c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 04/63] fix: ellpack setters check the row capacity before
 writing

---
 .../ellpack/bml_setters_ellpack_typed.c       | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..e5f5146 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] >= A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -72,7 +77,6 @@ void TYPED_FUNC(
 {
     int A_N = A->N;
     int A_M = A->M;
-    int l;
     int ll;
 
     REAL_T *A_value = (REAL_T *) A->value;
@@ -83,26 +87,21 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    for (int l = 0; l < A_nnz[i]; l++)
     {
-        for (int l = 0; l < A_nnz[i]; l++)
-        {
-            if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j) //Something in the row at the same position
-            {
-                A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
-                ll = 1;
-                break;
-            }
-        }
-        if (ll == 0)            //There is something in the row but in a different position
+        if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j)     //Something in the row at the same position
         {
-            A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
-            A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
-            A_nnz[i]++;
+            A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
+            ll = 1;
+            break;
         }
     }
-    else                        //There is nothing in the row
+    if (ll == 0)                //There is nothing in the row at this position
     {
+        if (A_nnz[i] >= A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
         A_nnz[i]++;
@@ -149,6 +148,10 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
+                if (ll >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
 
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
@@ -211,6 +214,10 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From 801922ac0d87536907201c7d6068ef50333a4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 05/63] fix: ellblock setters replace the row and check the
 block capacity

---
 .../ellblock/bml_setters_ellblock_typed.c      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..5c16edc 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -152,6 +152,16 @@ void TYPED_FUNC(
         ib++;
     }
 
+    //reset the elements of row i in the existing blocks
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int jb = A_indexb[ind];
+        REAL_T *A_value = A_ptr_value[ind];
+        memset(&A_value[ROWMAJOR(ii, 0, A_bsize[ib], A_bsize[jb])], 0,
+               A_bsize[jb] * sizeof(REAL_T));
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
@@ -180,6 +190,10 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -263,6 +277,10 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
-- 
2.43.0


From 99bc7d8d35e5cd7ee3b2eeab7881fbf4d5e7ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:15 +0000
Subject: [PATCH 06/63] fix: ellblock block partition follows the matrix size;
 add frees replaced blocks

---
 .../ellblock/bml_add_ellblock_typed.c         | 52 ++++++++++-----
 .../ellblock/bml_allocate_ellblock.c          | 64 ++++++++++++++++---
 .../ellblock/bml_allocate_ellblock.h          | 16 +++++
 .../ellblock/bml_allocate_ellblock_typed.c    | 39 +++++++----
 4 files changed, 134 insertions(+), 37 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..028c6cf 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -140,7 +141,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B->MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -160,7 +161,8 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+        /* the row is accumulated in x: rebuild its blocks from scratch */
+        TYPED_FUNC(bml_free_row_blocks_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -172,14 +174,15 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
+                if (ll == MB)
                 {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
+                    LOG_ERROR
+                        ("Number of non-zero blocks per row > MB, Increase MB\n");
                 }
+                int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
@@ -235,17 +238,21 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
@@ -282,7 +289,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
@@ -306,7 +313,8 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+        /* the row is accumulated in x: rebuild its blocks from scratch */
+        TYPED_FUNC(bml_free_row_blocks_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -315,12 +323,21 @@ double TYPED_FUNC(
             REAL_T *xTmp = x[jb];
             REAL_T normx = TYPED_FUNC(bml_norm_inf)
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
-            REAL_T normy = TYPED_FUNC(bml_sum_squares)
+            double normy = TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
+            trnorm += normy;
             if (is_above_threshold(normx, threshold))
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zero blocks per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
@@ -338,6 +355,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..aa76740 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -13,6 +13,9 @@
  * variables visible only in that file
  */
 static int *s_default_bsize = NULL;
+static int *s_user_bsize = NULL;        /* set by bml_set_block_sizes() */
+static int s_user_nb = 0;
+static int s_user_mb = 0;
 static int s_default_block_dim = 4;
 static int s_nb = 0;
 static int s_mb = 0;
@@ -43,6 +46,37 @@ bml_set_block_sizes(
     {
         s_default_bsize[ib] = bsize[ib];
     }
+    s_user_bsize = s_default_bsize;
+    s_user_nb = nb;
+    s_user_mb = mb;
+}
+
+static int
+sum_block_sizes(
+    int *bsize,
+    int nb)
+{
+    int n = 0;
+    for (int ib = 0; ib < nb; ib++)
+    {
+        n += bsize[ib];
+    }
+    return n;
+}
+
+static int
+default_mb(
+    int nb,
+    int M)
+{
+    int mb = (M + s_default_block_dim - 1) / s_default_block_dim;
+    if (mb < 4)
+        mb = 4;
+    // the number of blocks/row cannot exceed the number
+    // of row blocks
+    if (mb > nb)
+        mb = nb;
+    return mb;
 }
 
 int *
@@ -50,6 +84,22 @@ bml_get_block_sizes(
     int N,
     int M)
 {
+    /* the partition in use is for another matrix size */
+    if (s_default_bsize != NULL && sum_block_sizes(s_default_bsize, s_nb) != N)
+    {
+        if (s_default_bsize != s_user_bsize)
+        {
+            bml_free_memory(s_default_bsize);
+        }
+        s_default_bsize = NULL;
+        if (s_user_bsize != NULL
+            && sum_block_sizes(s_user_bsize, s_user_nb) == N)
+        {
+            s_default_bsize = s_user_bsize;
+            s_nb = s_user_nb;
+            s_mb = s_user_mb;
+        }
+    }
     if (s_default_bsize == NULL)
     {
         assert(M > 0);
@@ -59,15 +109,7 @@ bml_get_block_sizes(
             s_nb++;
         printf("s_nb = %d\n", s_nb);
 
-        s_mb = M / s_default_block_dim;
-        if (s_mb * s_default_block_dim < M)
-            s_mb++;
-        if (s_mb < 4)
-            s_mb = 4;
-        // the number of blocks/row cannot exceed the number
-        // of row blocks
-        if (s_mb > s_nb)
-            s_mb = s_nb;
+        s_mb = default_mb(s_nb, M);
         printf("s_mb = %d\n", s_mb);
 
         s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
@@ -77,6 +119,10 @@ bml_get_block_sizes(
         }
         s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
     }
+    else if (s_default_bsize != s_user_bsize && default_mb(s_nb, M) > s_mb)
+    {
+        s_mb = default_mb(s_nb, M);
+    }
     return s_default_bsize;
 }
 
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.h b/src/C-interface/ellblock/bml_allocate_ellblock.h
index 955175d..156c5ba 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.h
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.h
@@ -210,6 +210,22 @@ int bml_get_nb(
 int count_nelements(
     bml_matrix_ellblock_t * A);
 
+void bml_free_row_blocks_ellblock_single_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_free_row_blocks_ellblock_double_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_free_row_blocks_ellblock_single_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_free_row_blocks_ellblock_double_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
 void *bml_allocate_block_ellblock_single_real(
     bml_matrix_ellblock_t * A,
     const int ib,
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..e6f6c85 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -116,6 +116,32 @@ void TYPED_FUNC(
     A->nnzb[ib]--;
 }
 
+/** Release all the blocks of a block row.
+ *
+ * \param A The matrix
+ * \param ib The block row
+ */
+void TYPED_FUNC(
+    bml_free_row_blocks_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int ib)
+{
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    A->memory_pool_ptr[ib] =
+        (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
+    for (int jp = 0; jp < A->nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+#ifndef BML_ELLBLOCK_USE_MEMPOOL
+        bml_free_memory(A->ptr_value[ind]);
+#endif
+        A->ptr_value[ind] = NULL;
+        A->indexb[ind] = -1;
+    }
+    A->nnzb[ib] = 0;
+}
+
 /** Clear a matrix.
  *
  * Numbers of non-zeroes/row are set to zero.
@@ -128,19 +154,8 @@ void TYPED_FUNC(
     bml_clear_ellblock) (
     bml_matrix_ellblock_t * A)
 {
-#ifdef BML_ELLBLOCK_USE_MEMPOOL
     for (int ib = 0; ib < A->NB; ib++)
-        A->memory_pool_ptr[ib] =
-            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
-#else
-    for (int ib = 0; ib < A->NB; ib++)
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            bml_free_memory(A->ptr_value[ind]);
-        }
-#endif
-    memset(A->nnzb, 0, A->NB * sizeof(int));
+        TYPED_FUNC(bml_free_row_blocks_ellblock) (A, ib);
 }
 
 bml_matrix_ellblock_t
-- 
2.43.0


From 31c4db8a99a67d1dd45a14acffb6ac56deb45db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 07/63] fix: ellblock transpose in place keeps block ownership;
 check block capacity

---
 .../ellblock/bml_allocate_ellblock_typed.c    |   7 +-
 .../ellblock/bml_import_ellblock_typed.c      |   5 +
 .../ellblock/bml_transpose_ellblock_typed.c   | 176 +++---------------
 3 files changed, 39 insertions(+), 149 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index e6f6c85..0b62b89 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -167,10 +167,11 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
+    // the number of blocks is known once the block sizes are
+    int *bsize = bml_get_block_sizes(N, M);
+
     return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
-                                                  distrib_mode);
+                                                  M, bsize, distrib_mode);
 }
 
 /** Allocate the zero matrix.
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..4f63d71 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,11 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] >= MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..b366dfb 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
@@ -52,12 +53,16 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] >= MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -116,155 +121,34 @@ void TYPED_FUNC(
     bml_transpose_ellblock) (
     bml_matrix_ellblock_t * A)
 {
-    int NB = A->NB;
-    int MB = A->MB;
-
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    int *bsize = A->bsize;
-
-    int max_block_size = 0;
-    for(int i=0; i<NB; i++)
-    {
-        max_block_size = max_block_size >= bsize[i] ? max_block_size : bsize[i];
-    }
-    const int BUFFER_SIZE = max_block_size * max_block_size;
-
-    REAL_T buffer[BUFFER_SIZE];
+    bml_matrix_ellblock_t *B = TYPED_FUNC(bml_transpose_new_ellblock) (A);
 
-    int nz_t[NB];
-    memset(nz_t, 0, sizeof(int) * NB);
+    // exchange the blocks of A and its transpose
+    void **ptr_value = A->ptr_value;
+    int *indexb = A->indexb;
+    int *nnzb = A->nnzb;
 
-    for (int ib = 0; ib < NB; ib++)
-    {
-        const int innzb = A_nnzb[ib];
-        int iposb = innzb - 1;
-        while (iposb >= nz_t[ib])
-        {
-            const int jb = A_indexb[ROWMAJOR(ib, iposb, NB, MB)];
-            if (jb > ib)
-            {
-                const int jnnzb = A_nnzb[jb];
-                const int jbstart = nz_t[jb];
-                int found = 0;
-                /* search for symmetric position */
-                for (int jposb = jbstart; jposb < jnnzb; jposb++)
-                {
-                    /* symmetric position found so just swap block entries */
-                    if (A_indexb[ROWMAJOR(jb, jposb, NB, MB)] == ib)
-                    {
-                        /* swap and transpose block row entries in row ib position iposb 
-                         * row jb position jposb. 
-                        */
-                        REAL_T *A_value_ib = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                        REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, jposb, NB, MB)];
+    A->ptr_value = B->ptr_value;
+    A->indexb = B->indexb;
+    A->nnzb = B->nnzb;
 
-                        for (int ii = 0; ii < bsize[ib]; ii++)
-                        {
-                            for (int jj = 0; jj < bsize[jb]; jj++)
-                            {
-                                REAL_T tmp = A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                                A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] =
-                                A_value_jb[ROWMAJOR(jj, ii, bsize[jb], bsize[ib])];
-                                A_value_jb[ROWMAJOR(jj, ii, bsize[jb], bsize[ib])] = tmp;
-                            }
-                        }
+    B->ptr_value = ptr_value;
+    B->indexb = indexb;
+    B->nnzb = nnzb;
 
-                        /* swap position in row i to process next entry */
-                        TYPED_FUNC(ellblock_swap_block_row_entries) (A, ib, iposb, nz_t[ib]);
-                        /* swap position in row j */
-                        TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, jposb,
-                                                          nz_t[jb]);
-                        /* update nonzero count */
-                        nz_t[ib]++;
-                        nz_t[jb]++;
-                        found = 1;
-                        break;
-                    }
-                }
-                if (!found)
-                {
-                    /* nonsymmetric entry. Insert block entries and swap position */
-                    const int nnz_jb = A_nnzb[jb];
-                    A_ptr_value[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                    A_indexb[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = ib;
-                    A_nnzb[jb]++;
-                    
-                    /* transpose inserted block */
-                    REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)];
-                    for (int ii = 0; ii < bsize[ib]; ii++)
-                    {
-                        for (int jj = 0; jj < bsize[jb]; jj++)
-                        {
-                            buffer[COLMAJOR(ii, jj, bsize[ib], bsize[jb])] = 
-                            A_value_jb[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                        }
-                    }
-                    const int blocksize = bsize[ib] * bsize[jb];
-                    memcpy(A_value_jb, buffer, blocksize * sizeof(REAL_T));
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    void *memory_pool = A->memory_pool;
+    int *memory_pool_offsets = A->memory_pool_offsets;
+    void **memory_pool_ptr = A->memory_pool_ptr;
 
-                    /* swap position in updated row j */
-                    const int nzposb = A_nnzb[jb] - 1;
-                    TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, nzposb,
-                                                      nz_t[jb]);
-                    /* update nonzero count */
-                    nz_t[jb]++;
-                    A_nnzb[ib]--;
-                    /* update ipos */
-                    iposb--;
-                }
-            }
-            else if (jb < ib)
-            {
-                // insert block entries in block row jb
-                const int nnz_jb = A_nnzb[jb];
-                A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                A_indexb[ROWMAJOR(jb, nnz_jb, NB, MB)] = ib;
-                A_nnzb[jb]++;
+    A->memory_pool = B->memory_pool;
+    A->memory_pool_offsets = B->memory_pool_offsets;
+    A->memory_pool_ptr = B->memory_pool_ptr;
 
-                /* transpose inserted block */
-                REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)];
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                {
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        buffer[COLMAJOR(ii, jj, bsize[ib], bsize[jb])] = 
-                        A_value_jb[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                    }
-                }
-                const int blocksize = bsize[ib] * bsize[jb];
-                memcpy(A_value_jb, buffer, blocksize * sizeof(REAL_T)); 
+    B->memory_pool = memory_pool;
+    B->memory_pool_offsets = memory_pool_offsets;
+    B->memory_pool_ptr = memory_pool_ptr;
+#endif
 
-                /* swap position in updated row j */
-                const int nzposb = A_nnzb[jb] - 1;
-                TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, nzposb,
-                                                  nz_t[jb]);
-                /* update nonzero count */
-                nz_t[jb]++;
-                A_nnzb[ib]--;
-                /* update ipos */
-                iposb--;
-            }
-            else /* jb == ib*/
-            {
-                REAL_T *A_value_ib = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                {
-                    for (int jj = ii; jj < bsize[ib]; jj++)
-                    {
-                        REAL_T tmp = A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[ib])];
-                        A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[ib])] =
-                        A_value_ib[ROWMAJOR(jj, ii, bsize[ib], bsize[ib])];
-                        A_value_ib[ROWMAJOR(jj, ii, bsize[ib], bsize[ib])] = tmp;
-                    }
-                }
-                /* swap position in row ib */
-                TYPED_FUNC(ellblock_swap_block_row_entries) (A, ib, iposb,
-                                                  nz_t[ib]);
-                /* update nonzero count */
-                nz_t[ib]++;
-            }
-        }
-    }
-}
\ No newline at end of file
+    bml_deallocate_ellblock(B);
+}
-- 
2.43.0


From a8fc50a9dd3dbc6c368c2e9e661d2d26953105dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 08/63] fix: ellblock copy replaces the target; reorder
 permutes elements

---
 .../ellblock/bml_copy_ellblock_typed.c        | 107 ++++++++++--------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..7e4a983 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,13 +2,16 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
+#include "bml_setters_ellblock.h"
 #include "bml_types_ellblock.h"
 
 #include <assert.h>
 #include <complex.h>
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -42,7 +45,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
@@ -75,34 +77,47 @@ void TYPED_FUNC(
 {
     assert(A->NB == B->NB);
 
+    if (A == B)
+    {
+        return;
+    }
+
     int NB = A->NB;
-    int MB = A->MB;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
-
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
+
+    for (int ib = 0; ib < NB; ib++)
+    {
+        if (A->nnzb[ib] > B->MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
+    }
+
+    // release the blocks B holds before copying those of A
+    TYPED_FUNC(bml_clear_ellblock) (B);
+
+    memcpy(B->nnzb, A->nnzb, sizeof(int) * NB);
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int indA = ROWMAJOR(ib, jp, NB, A->MB);
+            int indB = ROWMAJOR(ib, jp, NB, B->MB);
+            assert(A_ptr_value[indA] != NULL);
+            int jb = A_indexb[indA];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            B_indexb[indB] = jb;
+            B_ptr_value[indB] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[indB] != NULL);
+            memcpy(B_ptr_value[indB], A_ptr_value[indA],
                    nelements * sizeof(REAL_T));
         }
     }
@@ -122,50 +137,48 @@ void TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int *bsize = A->bsize;
 
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_bsize = A->bsize;
-
-    bml_matrix_ellblock_t *B = bml_copy_new(A);
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
+    bml_matrix_ellblock_t *B = TYPED_FUNC(bml_copy_ellblock_new) (A);
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-    int *B_bsize = B->bsize;
 
-    for (int i = 0; i < NB; i++)
+    int offset[NB];
+    offset[0] = 0;
+    for (int ib = 1; ib < NB; ib++)
     {
-        A_bsize[i] = B_bsize[perm[i]];
+        offset[ib] = offset[ib - 1] + bsize[ib - 1];
     }
 
-    // Reorder rows - need to copy
+    // the block sizes stay as they are, element (i, j) of the original
+    // matrix becomes element (perm[i], perm[j])
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
     for (int ib = 0; ib < NB; ib++)
     {
-        memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
-               &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
+            int jb = B->indexb[ind];
+            REAL_T *B_value = B_ptr_value[ind];
+            for (int ii = 0; ii < bsize[ib]; ii++)
+            {
+                for (int jj = 0; jj < bsize[jb]; jj++)
+                {
+                    REAL_T value =
+                        B_value[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
+                    if (ABS(value) > 0.0)
+                    {
+                        TYPED_FUNC(bml_set_element_ellblock) (A,
+                                                              perm[offset[ib]
+                                                                   + ii],
+                                                              perm[offset[jb]
+                                                                   + jj],
+                                                              &value);
+                    }
+                }
+            }
         }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
-        A_nnzb[perm[ib]] = B_nnzb[ib];
     }
 
     bml_deallocate_ellblock(B);
-
-    // Reorder elements in each row - just change index
-    for (int ib = 0; ib < NB; ib++)
-    {
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            A_indexb[ROWMAJOR(ib, jp, NB, MB)] =
-                perm[A_indexb[ROWMAJOR(ib, jp, NB, MB)]];
-        }
-    }
 }
-- 
2.43.0


From fd4e2d6e5255280083bf575ec347cbabf606ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 09/63] fix: ellblock products of large blocks, capacity of the
 result, adjusted threshold

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 152 ++++++++++++------
 1 file changed, 106 insertions(+), 46 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..94186b6 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -25,6 +25,31 @@
 #include <omp.h>
 #endif
 
+/** Multiply blocks of any size, for those without a specialized kernel. */
+static void TYPED_FUNC(
+    bml_multiply_block) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int k = 0; k < ld; k++)
+                (*xk) += a[k] * b[k];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 void TYPED_FUNC(
     bml_multiply_block1) (
     REAL_T * mat0,
@@ -199,7 +224,9 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        void *trace =
+            TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(trace);
     }
     else
     {
@@ -210,7 +237,9 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            void *trace =
+                TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(trace);
         }
         else
         {
@@ -303,6 +332,7 @@ void *TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
             TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+    const int nkernels = sizeof(fun_ptr_arr) / sizeof(fun_ptr_arr[0]);
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                           \
@@ -377,8 +407,14 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= nkernels)
+                    (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (X_value_left,
+                                                    T_value_right, bsizejb, x,
+                                                    bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
                 REAL_T beta = (REAL_T) 1.;
@@ -391,7 +427,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2->MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -400,7 +436,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2->MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -410,12 +446,12 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2->MB);
+                assert(ind < NB * X2->MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
@@ -462,6 +498,8 @@ void TYPED_FUNC(
     assert(A->NB == B->NB);
     assert(A->NB == C->NB);
 
+    TYPED_FUNC(bml_clear_ellblock) (C);
+
     int NB = A->NB;
 
     int *A_nnzb = A->nnzb;
@@ -513,6 +551,7 @@ void TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
             TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+    const int nkernels = sizeof(fun_ptr_arr) / sizeof(fun_ptr_arr[0]);
 
     //loop over row blocks
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -578,8 +617,14 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= nkernels)
+                    (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_block) (A_value, T_value_right,
+                                                    bsizejb, x, bsize[ib],
+                                                    bsizekb);
             }
         }
 
@@ -638,11 +683,14 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * C,
     double threshold)
 {
+    assert(A->NB == B->NB);
+    assert(A->NB == C->NB);
+
     int NB = A->NB;
-    int MB = A->MB;
+    int *bsize = A->bsize;
+
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
-    int *bsize = A->bsize;
 
     int *B_nnzb = B->nnzb;
     int *B_indexb = B->indexb;
@@ -668,48 +716,60 @@ void TYPED_FUNC(
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
     for (int ib = 0; ib < NB; ib++)
-        x_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        x_ptr[ib] = bml_noinit_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     while (aflag > 0)
     {
         aflag = 0;
 
-        for (int ib = 0; ib < NB; ib++)
+        TYPED_FUNC(bml_clear_ellblock) (C);
+
+        for (int ib = 0; ib < NB && aflag == 0; ib++)
         {
             int l = 0;
             for (int jp = 0; jp < A_nnzb[ib]; jp++)
             {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
+                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, A->MB)];
+                int jb = A_indexb[ROWMAJOR(ib, jp, NB, A->MB)];
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B->MB)];
                     if (ix[kb] == 0)
                     {
-                        memset(x_ptr[kb], 0, maxbsize2);
+                        memset(x_ptr[kb], 0, maxbsize2 * sizeof(REAL_T));
                         jx[l] = kb;
                         ix[kb] = ib + 1;
                         l++;
                     }
-                    // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B->MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
+                    for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[kb]; jj++)
-                        {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
-                        }
+                            for (int kk = 0; kk < bsize[jb]; kk++)
+                            {
+                                x[ROWMAJOR(ii, jj, bsize[ib], bsize[kb])] +=
+                                    a[ROWMAJOR
+                                      (ii, kk, bsize[ib],
+                                       bsize[jb])] * b[ROWMAJOR(kk, jj,
+                                                                bsize[jb],
+                                                                bsize[kb])];
+                            }
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
+            // Count the blocks to keep, the threshold needs to be
+            // adjusted if they do not fit
+            int nkeep = 0;
+            for (int jb = 0; jb < l; jb++)
+            {
+                int jp = jx[jb];
+                double normx = TYPED_FUNC(bml_norm_inf)
+                    (x_ptr[jp], bsize[ib], bsize[jp], bsize[jp]);
+                if (jp == ib || normx > adjust_threshold)
+                    nkeep++;
+            }
+            if (nkeep > C->MB)
             {
                 aflag = 1;
             }
@@ -721,27 +781,27 @@ void TYPED_FUNC(
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
+                if (aflag == 0 && (jp == ib || normx > adjust_threshold))
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
+                    int nelements = bsize[ib] * bsize[jp];
+                    int ind = ROWMAJOR(ib, ll, NB, C->MB);
+                    C_ptr_value[ind] =
+                        TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                 nelements);
+                    memcpy(C_ptr_value[ind], xtmp,
+                           nelements * sizeof(REAL_T));
+                    C_indexb[ind] = jp;
                     ll++;
                 }
                 ix[jp] = 0;
-                memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
             }
             C_nnzb[ib] = ll;
         }
 
-        adjust_threshold *= 2.0;
+        adjust_threshold =
+            (adjust_threshold > 0.0) ? 2.0 * adjust_threshold : BML_REAL_MIN;
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        bml_free_memory(x_ptr[ib]);
 }
-- 
2.43.0


From b36108d377ff49f1097461a3bc82a8130a4ac0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 10/63] fix: ellblock submatrices keep the block sizes and
 replace the assigned region

---
 .../ellblock/bml_submatrix_ellblock_typed.c   | 49 ++++++++++++++-----
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..fe48866 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -34,16 +34,6 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
@@ -68,9 +58,25 @@ bml_matrix_ellblock_t
     int nb = 0;
     while (count < B_N)
     {
-        count += bsize[nb];
+        assert(irowb + nb < A_NB && icolb + nb < A_NB);
+        assert(bsize[irowb + nb] == bsize[icolb + nb]);
+        count += bsize[irowb + nb];
         nb++;
     }
+    assert(count == B_N);
+
+    // B inherits its blocks from A
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, MIN(nb, A_MB), B_M,
+                                               bsize + irowb,
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -149,13 +155,32 @@ void TYPED_FUNC(
     }
     assert(count == icol);
 
+    // remove the blocks of A which B replaces
+    for (int ib = 0; ib < B_NB; ib++)
+    {
+        assert(bsize[ib + irowb] == B->bsize[ib]);
+        assert(bsize[ib + icolb] == B->bsize[ib]);
+        for (int jp = A_nnzb[ib + irowb] - 1; jp >= 0; jp--)
+        {
+            int jb = A_indexb[ROWMAJOR(ib + irowb, jp, A_NB, A_MB)];
+            if (jb >= icolb && jb < icolb + B_NB)
+            {
+                TYPED_FUNC(bml_free_block_ellblock) (A, ib + irowb, jb);
+            }
+        }
+    }
+
     // loop over block rows of B
     for (int ib = 0; ib < B_NB; ib++)
     {
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            if (A_nnzb[ib + irowb] >= A_MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
+            int nelements = B->bsize[ib] * B->bsize[jb];
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
-- 
2.43.0


From e95df57ff35bd7b024cddddf45dce37731f1c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 11/63] fix: Gershgorin upper bound of matrices with negative
 spectrum

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From 9057884ac3330a1dd5794938abc4bd2e49bbc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 12/63] fix: convert between precisions; ellpack conversion
 stores no zeroes; distributed conversion leak

---
 src/C-interface/bml_convert.c                 | 98 +++++++++++++++++++
 .../distributed2d/bml_convert_distributed2d.c |  2 +
 .../ellpack/bml_convert_ellpack_typed.c       |  8 +-
 3 files changed, 107 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/bml_convert.c b/src/C-interface/bml_convert.c
index a6091a2..209c411 100644
--- a/src/C-interface/bml_convert.c
+++ b/src/C-interface/bml_convert.c
@@ -1,4 +1,8 @@
 #include "bml_convert.h"
+#include "bml_allocate.h"
+#include "bml_export.h"
+#include "bml_import.h"
+#include "bml_introspection.h"
 #include "bml_logger.h"
 #include "dense/bml_convert_dense.h"
 #include "ellpack/bml_convert_ellpack.h"
@@ -8,8 +12,98 @@
 #include "distributed2d/bml_convert_distributed2d.h"
 #endif
 
+#include <complex.h>
 #include <stdlib.h>
 
+/** Get an element of a dense array of any precision.
+ *
+ * \param A The dense array.
+ * \param precision The precision of the dense array.
+ * \param k The index of the element.
+ * \return The element.
+ */
+static double complex
+get_value(
+    void *A,
+    bml_matrix_precision_t precision,
+    size_t k)
+{
+    switch (precision)
+    {
+        case single_real:
+            return ((float *) A)[k];
+            break;
+        case double_real:
+            return ((double *) A)[k];
+            break;
+        case single_complex:
+            return ((float complex *) A)[k];
+            break;
+        case double_complex:
+            return ((double complex *) A)[k];
+            break;
+        default:
+            LOG_ERROR("unknown precision\n");
+            break;
+    }
+    return 0.0;
+}
+
+/** Convert a bml matrix to another type and another precision.
+ *
+ * The real part is kept when converting from complex to real.
+ *
+ * \param A The input matrix.
+ * \return The converted matrix \f$ B \f$.
+ */
+static bml_matrix_t *
+convert_precision(
+    bml_matrix_t * A,
+    bml_matrix_type_t matrix_type,
+    bml_matrix_precision_t matrix_precision,
+    int M,
+    bml_distribution_mode_t distrib_mode)
+{
+    int N = bml_get_N(A);
+    size_t n = (size_t) N * N;
+    bml_matrix_precision_t precision = bml_get_precision(A);
+
+    void *A_dense = bml_export_to_dense(A, dense_row_major);
+    void *B_dense = bml_noinit_allocate_memory(n * sizeof(double complex));
+
+    for (size_t k = 0; k < n; k++)
+    {
+        double complex value = get_value(A_dense, precision, k);
+        switch (matrix_precision)
+        {
+            case single_real:
+                ((float *) B_dense)[k] = creal(value);
+                break;
+            case double_real:
+                ((double *) B_dense)[k] = creal(value);
+                break;
+            case single_complex:
+                ((float complex *) B_dense)[k] = value;
+                break;
+            case double_complex:
+                ((double complex *) B_dense)[k] = value;
+                break;
+            default:
+                LOG_ERROR("unknown precision\n");
+                break;
+        }
+    }
+
+    bml_matrix_t *B =
+        bml_import_from_dense(matrix_type, matrix_precision, dense_row_major,
+                              N, M, B_dense, 0.0, distrib_mode);
+
+    bml_free_memory(A_dense);
+    bml_free_memory(B_dense);
+
+    return B;
+}
+
 /** Convert a bml matrix to another type.
  *
  * \f$ A \rightarrow B \f$
@@ -30,6 +124,10 @@ bml_convert(
         return bml_convert_distributed2d(A, matrix_type, matrix_precision, M);
     else
 #endif
+    if (bml_get_precision(A) != matrix_precision)
+        return convert_precision(A, matrix_type, matrix_precision, M,
+                                 distrib_mode);
+    else
         switch (matrix_type)
         {
             case dense:
diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..dd80019 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -22,6 +23,7 @@ bml_convert_distributed2d(
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
     int m = bml_get_M(matrix);
+    bml_deallocate(&(B->matrix));
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..d9dba73 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -8,6 +8,7 @@
 #include "bml_types_ellpack.h"
 
 #include <complex.h>
+#include <math.h>
 
 bml_matrix_ellpack_t *TYPED_FUNC(
     bml_convert_ellpack) (
@@ -30,7 +31,12 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     {
         for (int j = 0; j < N; j++)
         {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
+            // zeroes are not stored
+            REAL_T *value = bml_get_element(A, i, j);
+            if (ABS(*value) > 0.0)
+            {
+                bml_set_element(B, i, j, value);
+            }
         }
     }
 
-- 
2.43.0


From d2e391213ce44c00c28ba1449e154e251f6626b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 13/63] fix: eigenvectors of complex Hermitian matrices

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..fe325b3 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -754,8 +754,9 @@ bml_diagonalize_dense_single_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // A was passed transposed (row major), i.e. conjugated
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -864,8 +865,9 @@ bml_diagonalize_dense_double_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // A was passed transposed (row major), i.e. conjugated
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From dbba86fa7546fc70bfe0c02b3cc0fd53124e70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 14/63] fix: report singular matrices in bml_inverse

---
 src/C-interface/dense/bml_inverse_dense_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/dense/bml_inverse_dense_typed.c b/src/C-interface/dense/bml_inverse_dense_typed.c
index 3d8e66a..b08bd51 100644
--- a/src/C-interface/dense/bml_inverse_dense_typed.c
+++ b/src/C-interface/dense/bml_inverse_dense_typed.c
@@ -122,7 +122,11 @@ void TYPED_FUNC(
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
     C_BLAS(GETRF) (&M, &N, A->matrix, &lda, ipiv, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getrf: the matrix is singular\n");
     C_BLAS(GETRI) (&N, A->matrix, &N, ipiv, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getri\n");
 #ifdef MKL_GPU
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
-- 
2.43.0


From 405e9d6f038ec26c97ab8f80f65f7da38a0711bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 15/63] fix: introspection dispatch of ellblock bandwidth and
 distributed mode

---
 src/C-interface/bml_introspection.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index d5d8938..1c6b5bf 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -225,6 +225,9 @@ bml_get_row_bandwidth(
         case ellpack:
             return bml_get_row_bandwidth_ellpack(A, i);
             break;
+        case ellblock:
+            return bml_get_row_bandwidth_ellblock(A, i);
+            break;
         case csr:
             return bml_get_row_bandwidth_csr(A, i);
             break;
@@ -252,6 +255,9 @@ bml_get_bandwidth(
         case ellpack:
             return bml_get_bandwidth_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_bandwidth_ellblock(A);
+            break;
         case csr:
             return bml_get_bandwidth_csr(A);
             break;
@@ -285,6 +291,11 @@ bml_get_distribution_mode(
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
-- 
2.43.0


From ad851acc2f34823273c62c0cc032e71cd6031842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 16/63] fix: dense reorder moves element (i,j) to
 (perm[i],perm[j])

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..bf8e64b 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Element (i,j) moves to (perm[i],perm[j])
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From b8e36fd946757aa1cfcdd9918b47ed1840570163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 17/63] fix: scale_add_identity scales single and complex
 matrices; capacity of ellpack additions; csr add after reallocation

---
 src/C-interface/csr/bml_add_csr_typed.c       |  5 +++-
 .../ellblock/bml_add_ellblock_typed.c         |  3 +-
 .../ellpack/bml_add_ellpack_typed.c           | 28 +++++++++++++++----
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..9872092 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the insertion may have reallocated the row
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
@@ -190,7 +192,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 028c6cf..85cc82b 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -408,7 +408,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..35f4754 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
+#include "../bml_logger.h"
 #include "bml_allocate_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "bml_scale_ellpack.h"
@@ -195,6 +196,11 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -385,6 +391,11 @@ double TYPED_FUNC(
             trnorm += y[jind] * y[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +444,12 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    // room for the elements of a full row and the diagonal element
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -533,6 +545,11 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -567,7 +584,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From 64c78163940639fc19065f1435e5f98953925f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 18/63] fix: csr rows grow from small sizes; copy, threshold
 and submatrix of csr rows

---
 src/C-interface/csr/bml_copy_csr_typed.c      |  7 +++++--
 src/C-interface/csr/bml_setters_csr_typed.c   |  2 +-
 src/C-interface/csr/bml_submatrix_csr_typed.c | 20 ++++++++++++++++++-
 src/C-interface/csr/bml_threshold_csr_typed.c | 12 +++--------
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr_typed.c b/src/C-interface/csr/bml_copy_csr_typed.c
index cc08a44..2919c5c 100644
--- a/src/C-interface/csr/bml_copy_csr_typed.c
+++ b/src/C-interface/csr/bml_copy_csr_typed.c
@@ -90,10 +90,13 @@ void TYPED_FUNC(
     csr_sparse_row_t * brow)
 {
     const int NNZ = arow->NNZ_;
-    // Check size for data
+    // reallocate memory if needed
     if (brow->alloc_size_ < NNZ)
     {
-        LOG_ERROR("CSR row size mismatch\n");
+        brow->alloc_size_ = NNZ;
+        brow->cols_ = bml_reallocate_memory(brow->cols_, NNZ * sizeof(int));
+        brow->vals_ =
+            bml_reallocate_memory(brow->vals_, NNZ * sizeof(REAL_T));
     }
 
     memcpy(brow->cols_, arow->cols_, NNZ * sizeof(int));
diff --git a/src/C-interface/csr/bml_setters_csr_typed.c b/src/C-interface/csr/bml_setters_csr_typed.c
index a88a6d1..e77868e 100644
--- a/src/C-interface/csr/bml_setters_csr_typed.c
+++ b/src/C-interface/csr/bml_setters_csr_typed.c
@@ -36,7 +36,7 @@ void TYPED_FUNC(
     arow->NNZ_++;
     if (arow->NNZ_ > arow->alloc_size_)
     {
-        arow->alloc_size_ *= EXPAND_FACT;
+        arow->alloc_size_ = (int) (arow->alloc_size_ * EXPAND_FACT) + 1;
         arow->cols_ =
             bml_reallocate_memory(cols, sizeof(int) * arow->alloc_size_);
         arow->vals_ =
diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..4dfba2e 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
@@ -88,9 +90,25 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // remove the entries of A in the assigned columns
+        csr_sparse_row_t *arow = A->data_[i + irow];
+        REAL_T *avals = (REAL_T *) arow->vals_;
+        int rlen = 0;
+        for (int pos = 0; pos < arow->NNZ_; pos++)
+        {
+            const int col = arow->cols_[pos];
+            if (col < icol || col >= icol + B_N)
+            {
+                arow->cols_[rlen] = col;
+                avals[rlen] = avals[pos];
+                rlen++;
+            }
+        }
+        arow->NNZ_ = rlen;
+
         for (int j = 0; j < nz; j++)
         {
-            TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
+            TYPED_FUNC(csr_set_row_element_new) (arow,
                                                  cols[j] + icol, &vals[j]);
         }
     }
diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..772a5d0 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,8 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From 1fb15ddee48fa9165a46db720c2456887cbba41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 19/63] fix: ellpack transposition checks the row capacity and
 frees its locks

---
 .../ellpack/bml_transpose_ellpack_typed.c     | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..bce941c 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -87,6 +87,11 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+                if (colcnt >= M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -98,6 +103,14 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
@@ -236,6 +249,11 @@ void TYPED_FUNC(
                     if (!found)
                     {
                         /* nonsymmetric entry. Insert entry and swap position */
+                        if (A_nnz[j] >= M)
+                        {
+                            LOG_ERROR
+                                ("Number of non-zeroes per row > M, Increase M\n");
+                        }
                         A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                         A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                         A_nnz[j]++;
@@ -254,6 +272,11 @@ void TYPED_FUNC(
                 else if (j < i)
                 {
                     // insert entry in row j
+                    if (A_nnz[j] >= M)
+                    {
+                        LOG_ERROR
+                            ("Number of non-zeroes per row > M, Increase M\n");
+                    }
                     A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                     A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                     A_nnz[j]++;
@@ -352,6 +375,11 @@ void TYPED_FUNC(
                     if (!found)
                     {
                         /* nonsymmetric entry. Insert entry and swap position */
+                        if (A_nnz[j] >= M)
+                        {
+                            LOG_ERROR
+                                ("Number of non-zeroes per row > M, Increase M\n");
+                        }
                         A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                         A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                         A_nnz[j]++;
@@ -370,6 +398,11 @@ void TYPED_FUNC(
                 else if (j < i)
                 {
                     // insert entry in row j
+                    if (A_nnz[j] >= M)
+                    {
+                        LOG_ERROR
+                            ("Number of non-zeroes per row > M, Increase M\n");
+                    }
                     A_value[ROWMAJOR(j, A_nnz[j], N, M)] = A_value[ROWMAJOR(i, ipos, N, M)];
                     A_index[ROWMAJOR(j, A_nnz[j], N, M)] = i;
                     A_nnz[j]++;
-- 
2.43.0


From 812b602e02667b2702220a84284cafcba4b9d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 20/63] fix: ellpack adjungate triangle replaces the target
 triangle without races

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 51 +++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..cdc42cc 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -38,14 +38,35 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 #ifdef _OPENMP
-    omp_lock_t lock[A_M];
+    omp_lock_t lock[A_N];
 #endif
 
+    // number of entries per row before the new ones are appended
+    int l_nnz[A_N];
+
+    // the triangle to be set is replaced, remove its entries
+    for (int i = 0; i < A_N; i++)
+    {
+        l = 0;
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if ((*triangle == 'u' && ll < i) || (*triangle == 'l' && ll > i))
+                continue;
+            A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+            A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                A_value[ROWMAJOR(i, j, A_N, A_M)];
+            l++;
+        }
+        A_nnz[i] = l;
+        l_nnz[i] = l;
+    }
+
     switch (*triangle)
     {
         case 'u':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
@@ -54,13 +75,13 @@ void TYPED_FUNC(
 #endif
 
 #pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
+  shared(A_N, A_M, A_index, A_nnz, A_value, lock, l_nnz) \
   private(l, ll)
             // WARNING: Please, check for race conditions ...
 
             for (int i = 0; i < A_N; i++)       // For every row
             {
-                l = A_nnz[i];
+                l = l_nnz[i];
                 for (int j = 0; j < l; j++)     // We search for indices gt 0.
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -71,6 +92,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -84,7 +110,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -92,17 +118,17 @@ void TYPED_FUNC(
 
         case 'l':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
 #pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
+  shared(lock, l_nnz, A_N, A_M, A_index, A_nnz, A_value)       \
   private(l, ll)
             //    WARNING: Please, check for race conditions and parallel performances ...
             for (int i = 0; i < A_N; i++)
             {
-                l = A_nnz[i];
+                l = l_nnz[i];
                 for (int j = 0; j < l; j++)
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -113,6 +139,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -126,13 +157,13 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
             break;
         default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
+            LOG_ERROR("unknown triangle %c\n", *triangle);
             break;
     }
 #if defined(USE_OMP_OFFLOAD)
-- 
2.43.0


From df86ab158d171dff7314ea83a44e6a69bfb7bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 21/63] fix: ellpack submatrix, adjacency and group functions

---
 .../ellpack/bml_submatrix_ellpack.c           | 26 +++++--------
 .../ellpack/bml_submatrix_ellpack_typed.c     | 38 +++++++++++++++----
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..f6aab42 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,22 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Count the off-diagonal elements of each row
+    for (int i = 0; i < A_N; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i + 1] = xadj[i];
+        for (int jj = 0; jj < A_nnz[i]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i, jj, A_N, A_M)] != i)
+            {
+                xadj[i + 1]++;
+            }
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
@@ -497,7 +490,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
@@ -509,6 +502,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..2eb985a 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,17 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
-
         B_nnz[ii] = icol;
     }
 #ifdef BML_USE_MAGMA
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
@@ -484,9 +484,9 @@ bml_matrix_ellpack_t
 
 #if defined(__IBMC_) || defined(__ibmxl__)
         int ix[ngroups];
+#endif
 
         memset(ix, 0, sizeof(int) * ngroups);
-#endif
 
         ix[i] = i + 1;
         B_index[ROWMAJOR(i, 0, B_N, B_M)] = i;
@@ -588,6 +588,11 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -628,10 +633,29 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // remove the entries of A in the assigned columns
+        int l = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int jA = A_index[ROWMAJOR(i + irow, jp, A_N, A_M)];
+            if (jA < icol || jA >= icol + B_N)
+            {
+                A_index[ROWMAJOR(i + irow, l, A_N, A_M)] = jA;
+                A_value[ROWMAJOR(i + irow, l, A_N, A_M)] =
+                    A_value[ROWMAJOR(i + irow, jp, A_N, A_M)];
+                l++;
+            }
+        }
+        A_nnz[i + irow] = l;
+
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From 29b3432805932aa5f68fa61b260312d296ca0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:36 +0000
Subject: [PATCH 22/63] fix: ellpack products and imports check the row
 capacity before writing

---
 .../ellpack/bml_diagonalize_ellpack_typed.c   |  2 +-
 .../ellpack/bml_import_ellpack_typed.c        |  5 +++
 .../ellpack/bml_multiply_ellpack_typed.c      | 37 ++++++++-----------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c b/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
index 177f463..03c68ef 100644
--- a/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
@@ -78,7 +78,7 @@ void TYPED_FUNC(
     myeigenvectors = bml_import_from_dense_ellpack(A->matrix_precision,
                                                    dense_row_major, A->N,
                                                    eigenvectors_dense,
-                                                   threshold, A->M,
+                                                   threshold, eigenvectors->M,
                                                    A->distribution_mode);
     free(eigenvectors_dense);
 
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..ca37a0b 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,11 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] >= M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..d21b0d1 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -303,6 +303,11 @@ void *TYPED_FUNC(
         {
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+            // Check for number of non-zeroes per row exceeded
+            if (ll >= X2_M && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
@@ -319,16 +324,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
@@ -593,7 +588,7 @@ void TYPED_FUNC(
     REAL_T *B_value = (REAL_T *) B->value;
     REAL_T *C_value = (REAL_T *) C->value;
 
-    REAL_T adjust_threshold = (REAL_T) threshold;
+    double adjust_threshold = threshold;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -666,22 +661,21 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
+                // Check for number of non-zeroes per row exceeded
+                // Need to adjust threshold
+                if (ll >= C_M
+                    && (jp == i || is_above_threshold(xtmp, adjust_threshold)))
+                {
+                    aflag = 1;
+                }
                 // Diagonal elements are saved in first column
-                if (jp == i)
+                else if (jp == i)
                 {
                     C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
                     C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
@@ -699,7 +693,8 @@ void TYPED_FUNC(
             C_nnz[i] = ll;
         }
 
-        adjust_threshold *= (REAL_T) 2.0;
+        adjust_threshold =
+            (adjust_threshold > 0.0) ? 2.0 * adjust_threshold : BML_REAL_MIN;
     }
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update to(C_nnz[:C_N], C_index[:C_N*C_M], C_value[:C_N*C_M])
-- 
2.43.0


From 53df0b16be539111bed105b7ba2e3ca1189cb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:16 +0000
Subject: [PATCH 23/63] fix: Matrix Market readers replace the matrix and check
 size, field and indices

---
 src/C-interface/bml_utilities.c               |  93 ++++++++++++
 src/C-interface/bml_utilities.h               |  19 +++
 src/C-interface/csr/bml_utilities_csr_typed.c |  79 +++-------
 .../dense/bml_utilities_dense_typed.c         |  84 +++--------
 .../ellblock/bml_utilities_ellblock_typed.c   | 137 +++---------------
 .../ellpack/bml_utilities_ellpack_typed.c     |  91 +++---------
 6 files changed, 194 insertions(+), 309 deletions(-)

diff --git a/src/C-interface/bml_utilities.c b/src/C-interface/bml_utilities.c
index 4d28820..bbbc1e0 100644
--- a/src/C-interface/bml_utilities.c
+++ b/src/C-interface/bml_utilities.c
@@ -17,6 +17,7 @@
 
 #include <complex.h>
 #include <stdio.h>
+#include <string.h>
 
 /** Print a bml vector.
  *
@@ -522,6 +523,98 @@ bml_read_bml_matrix(
     }
 }
 
+/** Open a Matrix Market file and read its header.
+ *
+ * The file has to describe an N x N matrix of the requested field.
+ *
+ * \param filename The Matrix Market format file
+ * \param N The matrix size
+ * \param is_complex 1 if the elements are complex, 0 if they are real
+ * \param is_symmetric Set to 1 if the file stores a symmetric matrix
+ * \param nnz Set to the number of entries in the file
+ * \return The open file, positioned at the first entry
+ */
+FILE *
+bml_open_matrix_market(
+    char *filename,
+    int N,
+    int is_complex,
+    int *is_symmetric,
+    int *nnz)
+{
+    char header[5][20];
+    int nrows, ncols;
+
+    FILE *file = fopen(filename, "r");
+    if (file == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
+
+    if (fscanf(file, "%19s %19s %19s %19s %19s", header[0], header[1],
+               header[2], header[3], header[4]) != 5)
+    {
+        LOG_ERROR("read error on header\n");
+    }
+    if ((strcmp(header[3], "complex") == 0) != is_complex
+        || strcmp(header[3], "pattern") == 0)
+    {
+        LOG_ERROR("can not read %s elements into this matrix\n", header[3]);
+    }
+    *is_symmetric = strcmp(header[4], "symmetric") == 0;
+    if (!*is_symmetric && strcmp(header[4], "general") != 0)
+    {
+        LOG_ERROR("unknown symmetry %s\n", header[4]);
+    }
+
+    if (fscanf(file, "%d %d %d", &nrows, &ncols, nnz) != 3)
+    {
+        LOG_ERROR("read error on matrix size\n");
+    }
+    if (nrows != N || ncols != N || *nnz < 0)
+    {
+        LOG_ERROR("file stores a %d x %d matrix, expected %d x %d\n", nrows,
+                  ncols, N, N);
+    }
+
+    return file;
+}
+
+/** Read one entry of a Matrix Market file.
+ *
+ * \param file The open file
+ * \param N The matrix size
+ * \param is_complex 1 if the elements are complex, 0 if they are real
+ * \param irow Set to the row index, starting at zero
+ * \param icol Set to the column index, starting at zero
+ * \param real_part Set to the real part of the element
+ * \param imaginary_part Set to the imaginary part of the element
+ */
+void
+bml_read_matrix_market_element(
+    FILE * file,
+    int N,
+    int is_complex,
+    int *irow,
+    int *icol,
+    double *real_part,
+    double *imaginary_part)
+{
+    *imaginary_part = 0.0;
+    if (fscanf(file, "%d %d %lf", irow, icol, real_part) != 3
+        || (is_complex && fscanf(file, "%lf", imaginary_part) != 1))
+    {
+        LOG_ERROR("read error on matrix element\n");
+    }
+    if (*irow < 1 || *irow > N || *icol < 1 || *icol > N)
+    {
+        LOG_ERROR("element (%d,%d) outside of %d x %d matrix\n", *irow,
+                  *icol, N, N);
+    }
+    (*irow)--;
+    (*icol)--;
+}
+
 /** Write a bml matrix to a Matrix Market file.
  *
  * \param A The matrix
diff --git a/src/C-interface/bml_utilities.h b/src/C-interface/bml_utilities.h
index 8924b0b..8133544 100644
--- a/src/C-interface/bml_utilities.h
+++ b/src/C-interface/bml_utilities.h
@@ -4,6 +4,9 @@
 #define __BML_UTILITIES_H
 
 #include "bml_types.h"
+
+#include <stdio.h>
+
 #define PRINT_THRESHOLD 16
 
 void bml_print_dense_matrix(
@@ -39,6 +42,22 @@ void bml_read_bml_matrix(
     bml_matrix_t * A,
     char *filename);
 
+FILE *bml_open_matrix_market(
+    char *filename,
+    int N,
+    int is_complex,
+    int *is_symmetric,
+    int *nnz);
+
+void bml_read_matrix_market_element(
+    FILE * file,
+    int N,
+    int is_complex,
+    int *irow,
+    int *icol,
+    double *real_part,
+    double *imaginary_part);
+
 void bml_write_bml_matrix(
     bml_matrix_t * A,
     char *filename);
diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 7f5fdae..ccdf8ac 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_allocate_csr.h"
 #include "bml_types_csr.h"
 #include "bml_setters_csr.h"
 #include "bml_utilities_csr.h"
@@ -26,78 +27,38 @@ void TYPED_FUNC(
     char *filename)
 {
     FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int symflag, nnz, irow, icol;
+    double real_part, imaginary_part;
     REAL_T value;
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    const int is_complex = 0;
+#else
+    const int is_complex = 1;
+#endif
 
-    hFile = fopen(filename, "r");
+    int N = A->N_;
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
-    {
-        LOG_ERROR("read error on header\n");
-    }
-
-    LOG_DEBUG("Read: %s %s %s %s %s\n", header1, header2, header3, header4,
-              header5);
+    hFile = bml_open_matrix_market(filename, N, is_complex, &symflag, &nnz);
 
-    int symflag = strcmp(header5, "symmetric");
-
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
-    {
-        LOG_ERROR("read error\n");
-    }
-
-    LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
+    // Replace the elements of A
+    TYPED_FUNC(bml_clear_csr) (A);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
-#elif defined(DOUBLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
+        bml_read_matrix_market_element(hFile, N, is_complex, &irow, &icol,
+                                       &real_part, &imaginary_part);
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+        value = real_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        value = real_part + I * imaginary_part;
 #endif
-
-        irow--;
-        icol--;
-        // set new element
-        TYPED_FUNC(csr_set_row_element_new) (A->data_[irow], icol, &value);
+        TYPED_FUNC(csr_set_row_element) (A->data_[irow], icol, &value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag && icol != irow)
         {
-            TYPED_FUNC(csr_set_row_element_new) (A->data_[icol], irow,
-                                                 &value);
+            TYPED_FUNC(csr_set_row_element) (A->data_[icol], irow, &value);
         }
     }
 
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 27b5ea8..7c8b2f1 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -29,13 +29,14 @@ void TYPED_FUNC(
     bml_matrix_dense_t * A,
     char *filename)
 {
-    FILE *matrix_file;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
-    int values_read;
-    double real_part;
-#if (defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX))
-    double imaginary_part;
+    FILE *hFile;
+    int symflag, nnz, irow, icol;
+    double real_part, imaginary_part;
+    REAL_T value;
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    const int is_complex = 0;
+#else
+    const int is_complex = 1;
 #endif
 
     int N = A->N;
@@ -46,67 +47,28 @@ void TYPED_FUNC(
     REAL_T *A_matrix = A->matrix;
 #endif
 
-    matrix_file = fopen(filename, "r");
-
     // Read header
-    if ((values_read = fscanf
-         (matrix_file, "%s %s %s %s %s", header1, header2, header3, header4,
-          header5)) < 5)
-    {
-        LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
-    }
+    hFile = bml_open_matrix_market(filename, N, is_complex, &symflag, &nnz);
 
-    // Read N, N, # of non-zeroes
-    if ((values_read =
-         fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
-    {
-        LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
-    }
+    // Replace the elements of A
+    memset(A_matrix, 0, (size_t) N * N * sizeof(REAL_T));
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
-                    &real_part)) < 3)
-        {
-            LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
-#elif defined(DOUBLE_REAL)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
-                    &real_part)) < 3)
-        {
-            LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
-#elif defined(SINGLE_COMPLEX)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
-        {
-            LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
-#elif defined(DOUBLE_COMPLEX)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
-        {
-            LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
+        bml_read_matrix_market_element(hFile, N, is_complex, &irow, &icol,
+                                       &real_part, &imaginary_part);
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+        value = real_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        value = real_part + I * imaginary_part;
 #endif
+        A_matrix[ROWMAJOR(irow, icol, N, N)] = value;
+        // Set symmetric value if necessary
+        if (symflag && icol != irow)
+        {
+            A_matrix[ROWMAJOR(icol, irow, N, N)] = value;
+        }
     }
 
 #ifdef BML_USE_MAGMA
@@ -118,7 +80,7 @@ void TYPED_FUNC(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    fclose(matrix_file);
+    fclose(hFile);
 }
 
 /** Write a Matrix Market format file from a bml matrix.
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 9e705af..4246e9f 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_setters_ellblock.h"
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_allocate_ellblock.h"
@@ -26,137 +27,39 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * A,
     char *filename)
 {
-    assert(A->bsize[0] < 1e6);
-
     FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int symflag, nnz, irow, icol;
+    double real_part, imaginary_part;
     REAL_T value;
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    const int is_complex = 0;
+#else
+    const int is_complex = 1;
+#endif
 
-    int NB = A->NB;
-    int MB = A->MB;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    int *A_bsize = A->bsize;
-
-    hFile = fopen(filename, "r");
+    int N = A->N;
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
-    {
-        LOG_ERROR("read error on header\n");
-    }
+    hFile = bml_open_matrix_market(filename, N, is_complex, &symflag, &nnz);
 
-    int symflag = strcmp(header5, "symmetric");
-
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
-    {
-        LOG_ERROR("read error\n");
-    }
+    // Replace the elements of A
+    TYPED_FUNC(bml_clear_ellblock) (A);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %e\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %le\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %le %le\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
+        bml_read_matrix_market_element(hFile, N, is_complex, &irow, &icol,
+                                       &real_part, &imaginary_part);
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+        value = real_part;
 #else
-        LOG_ERROR("unknown matrix precision\n");
+        value = real_part + I * imaginary_part;
 #endif
-
-        irow--;
-        icol--;
-
-        /*compute block indexes */
-        int ib = 0;
-        while (irow >= A_bsize[ib])
-        {
-            irow -= A_bsize[ib];
-            ib++;
-        }
-
-        int jb = 0;
-        while (icol >= A_bsize[jb])
-        {
-            icol -= A_bsize[jb];
-            jb++;
-        }
-
-        int found_block = 0;
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jbb = A_indexb[ind];
-            if (jbb == jb)
-            {
-                found_block = 1;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] =
-                    value;
-            }
-        }
-        //add block if needed
-        if (found_block == 0)
-        {
-            //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
-            int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
-            A_indexb[ind] = jb;
-            A_nnzb[ib]++;
-            int nelements = A_bsize[ib] * A_bsize[jb];
-            A_ptr_value[ind] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (A, ib, nelements);
-            REAL_T *A_value = A_ptr_value[ind];
-            memset(A_value, 0, nelements * sizeof(REAL_T));
-            assert(A_value != NULL);
-            A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] = value;
-        }
-
+        TYPED_FUNC(bml_set_element_ellblock) (A, irow, icol, &value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag && icol != irow)
         {
-            int found_block = 0;
-            for (int ip = 0; ip < A_nnzb[jb]; ip++)
-            {
-                int ind = ROWMAJOR(jb, ip, NB, MB);
-                int ibb = A_indexb[ROWMAJOR(jb, ip, NB, MB)];
-                if (ibb == ib)
-                {
-                    found_block = 1;
-                    REAL_T *A_value = A_ptr_value[ind];
-                    A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                        value;
-                }
-            }
-            //add block if needed
-            if (found_block == 0)
-            {
-                A_indexb[A_nnzb[jb]] = ib;
-                int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
-                A_nnzb[jb]++;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                    value;
-            }
+            TYPED_FUNC(bml_set_element_ellblock) (A, icol, irow, &value);
         }
     }
 
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 2b008cd..0fd2dd3 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -4,6 +4,8 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_setters_ellpack.h"
+#include "bml_allocate_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "bml_utilities_ellpack.h"
 
@@ -25,96 +27,41 @@ void TYPED_FUNC(
     char *filename)
 {
     FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol, ind;
-#if (defined(SINGLE_COMPLEX)||defined(DOUBLE_COMPLEX))
+    int symflag, nnz, irow, icol;
     double real_part, imaginary_part;
-#endif
     REAL_T value;
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    const int is_complex = 0;
+#else
+    const int is_complex = 1;
+#endif
 
     int N = A->N;
-    int M = A->M;
-    REAL_T *A_value = (REAL_T *) A->value;
-    int *A_index = A->index;
-    int *A_nnz = A->nnz;
-
-    hFile = fopen(filename, "r");
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
-    {
-        LOG_ERROR("read error on header\n");
-    }
-
-    LOG_DEBUG("Read: %s %s %s %s %s\n", header1, header2, header3, header4,
-              header5);
+    hFile = bml_open_matrix_market(filename, N, is_complex, &symflag, &nnz);
 
-    int symflag = strcmp(header5, "symmetric");
-
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
-    {
-        LOG_ERROR("read error\n");
-    }
-
-    LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
+    // Replace the elements of A
+    TYPED_FUNC(bml_clear_ellpack) (A);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX)
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
-#elif defined(DOUBLE_COMPLEX)
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
+        bml_read_matrix_market_element(hFile, N, is_complex, &irow, &icol,
+                                       &real_part, &imaginary_part);
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+        value = real_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        value = real_part + I * imaginary_part;
 #endif
-
-        irow--;
-        icol--;
-        ind = A_nnz[irow];
-        A_index[ROWMAJOR(irow, ind, N, M)] = icol;
-        A_value[ROWMAJOR(irow, ind, N, M)] = value;
-        A_nnz[irow]++;
-
+        TYPED_FUNC(bml_set_element_ellpack) (A, irow, icol, &value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag && icol != irow)
         {
-            ind = A_nnz[icol];
-            A_index[ROWMAJOR(icol, ind, N, M)] = irow;
-            A_value[ROWMAJOR(icol, ind, N, M)] = value;
-            A_nnz[icol]++;
+            TYPED_FUNC(bml_set_element_ellpack) (A, icol, irow, &value);
         }
     }
 
-#if defined(USE_OMP_OFFLOAD)
-#pragma omp target update to(A_nnz[:N], A_index[:N*M], A_value[:N*M])
-#endif
     fclose(hFile);
 }
 
-- 
2.43.0


From 3c72d4cd81ff89e65ca74428c56ad0e08760c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 24/63] fix: failed allocations are reported instead of
 dereferenced

---
 src/C-interface/bml_allocate.c                |  12 +-
 src/C-interface/bml_logger.c                  |   5 +
 src/C-interface/bml_parallel.c                |   9 +-
 .../csr/bml_diagonalize_csr_typed.c           |   4 +-
 src/C-interface/csr/bml_getters_csr_typed.c   |   6 +-
 src/C-interface/csr/bml_normalize_csr_typed.c |   2 +-
 src/C-interface/csr/bml_transpose_csr_typed.c |   4 +-
 .../dense/bml_convert_dense_typed.c           |   5 +-
 src/C-interface/dense/bml_diagonalize_dense.c | 178 +++++++++---------
 .../dense/bml_normalize_dense_typed.c         |   2 +-
 .../bml_diagonalize_distributed2d_typed.c     |  12 +-
 .../bml_getters_distributed2d_typed.c         |  12 +-
 .../bml_normalize_distributed2d_typed.c       |   4 +-
 .../ellblock/bml_add_ellblock_typed.c         |  12 +-
 .../ellblock/bml_allocate_ellblock.c          |   2 +-
 .../ellblock/bml_convert_ellblock_typed.c     |   8 +-
 .../ellblock/bml_diagonalize_ellblock_typed.c |   4 +-
 .../ellblock/bml_export_ellblock_typed.c      |   4 +-
 .../ellblock/bml_getters_ellblock_typed.c     |   9 +-
 .../ellblock/bml_import_ellblock_typed.c      |   8 +-
 .../ellblock/bml_multiply_ellblock_typed.c    |   4 +-
 .../ellblock/bml_norm_ellblock_typed.c        |  13 +-
 .../ellblock/bml_normalize_ellblock_typed.c   |  10 +-
 .../ellblock/bml_utilities_ellblock_typed.c   |   5 +-
 .../ellpack/bml_diagonalize_ellpack_typed.c   |   4 +-
 .../ellpack/bml_getters_ellpack_typed.c       |   5 +-
 .../ellpack/bml_normalize_ellpack_typed.c     |   2 +-
 .../ellpack/bml_submatrix_ellpack.c           |   5 +-
 .../ellpack/bml_trace_ellpack_typed.c         |   4 +-
 .../ellpack/bml_transpose_ellpack_typed.c     |   4 +-
 30 files changed, 189 insertions(+), 169 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..b161b6c 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -55,7 +55,11 @@ bml_allocate_memory(
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
     char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    int status = posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    if (status != 0)
+    {
+        LOG_ERROR("error allocating memory: %s\n", strerror(status));
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -88,7 +92,11 @@ bml_noinit_allocate_memory(
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
     void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    int status = posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    if (status != 0)
+    {
+        LOG_ERROR("error allocating memory: %s\n", strerror(status));
+    }
 #else
     void *ptr = malloc(size);
 #endif
diff --git a/src/C-interface/bml_logger.c b/src/C-interface/bml_logger.c
index 41485a1..bbd25bb 100644
--- a/src/C-interface/bml_logger.c
+++ b/src/C-interface/bml_logger.c
@@ -67,6 +67,11 @@ print_backtrace(
 
     size = backtrace(buffer, TRACE_DEPTH);
     strings = backtrace_symbols(buffer, size);
+    if (strings == NULL)
+    {
+        printf("backtrace unavailable\n");
+        return;
+    }
 
     printf("Obtained %zd stack frames.\n", size);
 
diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index 5ddab25..01bd273 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -1,5 +1,6 @@
 #include "bml_parallel.h"
 #include "bml_introspection.h"
+#include "bml_allocate.h"
 #include "bml_logger.h"
 #include "dense/bml_parallel_dense.h"
 #include "ellpack/bml_parallel_ellpack.h"
@@ -82,8 +83,8 @@ bml_initParallel(
 
     bml_setcomm_distributed2d(comm);
 
-    requestList = (MPI_Request *) malloc(nRanks * sizeof(MPI_Request));
-    rUsed = (int *) malloc(nRanks * sizeof(int));
+    requestList = (MPI_Request *) bml_noinit_allocate_memory(nRanks * sizeof(MPI_Request));
+    rUsed = (int *) bml_noinit_allocate_memory(nRanks * sizeof(int));
     for (int i = 0; i < nRanks; i++)
     {
         rUsed[i] = 0;
@@ -113,8 +114,8 @@ bml_shutdownParallel(
     void)
 {
 #ifdef BML_USE_MPI
-    free(requestList);
-    free(rUsed);
+    bml_free_memory(requestList);
+    bml_free_memory(rUsed);
 #endif
 }
 
diff --git a/src/C-interface/csr/bml_diagonalize_csr_typed.c b/src/C-interface/csr/bml_diagonalize_csr_typed.c
index 36889fd..8d65989 100644
--- a/src/C-interface/csr/bml_diagonalize_csr_typed.c
+++ b/src/C-interface/csr/bml_diagonalize_csr_typed.c
@@ -56,7 +56,7 @@ void TYPED_FUNC(
     D = bml_import_from_dense_dense(A->matrix_precision, dense_row_major,
                                     N, A_dense, threshold,
                                     A->distribution_mode);
-    free(A_dense);
+    bml_free_memory(A_dense);
 
     // Allocate eigenvectors matrix in dense_bml
     eigenvectors_bml_dense =
@@ -81,7 +81,7 @@ void TYPED_FUNC(
                                                eigenvectors_dense,
                                                threshold, M,
                                                A->distribution_mode);
-    free(eigenvectors_dense);
+    bml_free_memory(eigenvectors_dense);
 
     // This is done in order to pass the changes back to the upper level
     bml_copy_csr(myeigenvectors, eigenvectors);
diff --git a/src/C-interface/csr/bml_getters_csr_typed.c b/src/C-interface/csr/bml_getters_csr_typed.c
index fbec160..0bebd1e 100644
--- a/src/C-interface/csr/bml_getters_csr_typed.c
+++ b/src/C-interface/csr/bml_getters_csr_typed.c
@@ -128,8 +128,8 @@ void TYPED_FUNC(
     int *nnz)
 {
     int nz = TYPED_FUNC(csr_get_nnz) (A->data_[i]);
-    int *colids = malloc(nz * sizeof(int));
-    REAL_T *colvals = malloc(nz * sizeof(REAL_T));
+    int *colids = bml_noinit_allocate_memory(nz * sizeof(int));
+    REAL_T *colvals = bml_noinit_allocate_memory(nz * sizeof(REAL_T));
     memcpy(colids, (int *) TYPED_FUNC(csr_get_column_indexes) (A->data_[i]),
            nz * sizeof(int));
     memcpy(colvals,
@@ -184,7 +184,7 @@ void *TYPED_FUNC(
     bml_matrix_csr_t * A)
 {
     int A_N = A->N_;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A_N * sizeof(REAL_T));
 
     for (int i = 0; i < A_N; i++)
     {
diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 5096e72..e322b6a 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -50,7 +50,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N_;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
 
     for (int i = 0; i < N; i++)
     {
diff --git a/src/C-interface/csr/bml_transpose_csr_typed.c b/src/C-interface/csr/bml_transpose_csr_typed.c
index b2f55f7..baa21e3 100644
--- a/src/C-interface/csr/bml_transpose_csr_typed.c
+++ b/src/C-interface/csr/bml_transpose_csr_typed.c
@@ -37,7 +37,7 @@ bml_matrix_csr_t *TYPED_FUNC(
 
 #ifdef _OPENMP
     omp_lock_t *row_lock =
-        (omp_lock_t *) malloc(sizeof(omp_lock_t) * matrix_dimension.N_rows);
+        (omp_lock_t *) bml_noinit_allocate_memory(sizeof(omp_lock_t) * matrix_dimension.N_rows);
 
 #pragma omp parallel for
     for (int i = 0; i < matrix_dimension.N_rows; i++)
@@ -72,7 +72,7 @@ bml_matrix_csr_t *TYPED_FUNC(
         omp_destroy_lock(&row_lock[i]);
     }
 
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
 
     return B;
diff --git a/src/C-interface/dense/bml_convert_dense_typed.c b/src/C-interface/dense/bml_convert_dense_typed.c
index b5905d9..5de7a0a 100644
--- a/src/C-interface/dense/bml_convert_dense_typed.c
+++ b/src/C-interface/dense/bml_convert_dense_typed.c
@@ -6,6 +6,7 @@
 #include "../../typed.h"
 #include "../bml_getters.h"
 #include "../bml_introspection.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "bml_allocate_dense.h"
 #include "bml_types_dense.h"
@@ -30,7 +31,7 @@ bml_matrix_dense_t *TYPED_FUNC(
         bml_zero_matrix_dense(matrix_precision, matrix_dimension,
                               distrib_mode);
 #ifdef BML_USE_MAGMA
-    REAL_T *Bij = calloc(N * N, sizeof(REAL_T));
+    REAL_T *Bij = bml_allocate_memory(N * N * sizeof(REAL_T));
 #else
     REAL_T *Bij = (REAL_T *) B->matrix;
 #endif
@@ -45,7 +46,7 @@ bml_matrix_dense_t *TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     MAGMA(setmatrix) (N, N, (MAGMA_T *) Bij, N, B->matrix, B->ld,
                       bml_queue());
-    free(Bij);
+    bml_free_memory(Bij);
 #endif
 #ifdef MKL_GPU
 // push to GPU
diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index fe325b3..d8020c9 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -56,16 +56,16 @@ bml_diagonalize_dense_magma_single_real(
     magma_int_t ret = magma_smalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    float *wa = malloc(A->N * ldwa * sizeof(float));
+    float *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(float));
 
     //copy matrix into evecs
     magmablas_slacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -86,9 +86,9 @@ bml_diagonalize_dense_magma_single_real(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
-    free(evals);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 }
 #endif
 
@@ -109,8 +109,8 @@ bml_diagonalize_dense_gpu_single_real(
     float *A_matrix = (float *) A->matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = (float *) malloc(A->N * A->N * sizeof(float));
-    float *evals = (float *) malloc(A->N * sizeof(float));
+    float *evecs = (float *) bml_noinit_allocate_memory(A->N * A->N * sizeof(float));
+    float *evals = (float *) bml_noinit_allocate_memory(A->N * sizeof(float));
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -162,9 +162,9 @@ bml_diagonalize_dense_gpu_single_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    float *work = (float *) malloc(lwork * sizeof(float));
+    float *work = (float *) bml_noinit_allocate_memory(lwork * sizeof(float));
     MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = (MKL_INT *) malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = (MKL_INT *) bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -172,7 +172,7 @@ bml_diagonalize_dense_gpu_single_real(
     ssyevd("V", "U", &N, evecs, &N, evals, work, &lwork, iwork, &liwork,
            &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     MKL_INT lwork = 3 * N;
     float *work = (float *) mkl_malloc(lwork * sizeof(float), 64);
@@ -221,9 +221,9 @@ bml_diagonalize_dense_gpu_single_real(
 #pragma omp target exit data map(release:evecs)
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -242,25 +242,25 @@ bml_diagonalize_dense_cpu_single_real(
     float *A_matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = calloc(A->N * A->N, sizeof(float));
-    float *evals = calloc(A->N, sizeof(float));
+    float *evecs = bml_allocate_memory(A->N * A->N * sizeof(float));
+    float *evals = bml_allocate_memory(A->N * sizeof(float));
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(float));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const int lwork = 1 + 6 * N + 2 * N * N;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     const int liwork = 3 + 5 * N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     printf("%d, %d \n", lwork, liwork);
 
     C_SSYEVD("V", "U", &N, evecs, &N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const int lwork = 3 * A->N;
-    float *work = calloc(lwork, sizeof(float));
+    float *work = bml_allocate_memory(lwork * sizeof(float));
     C_SSYEV("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
 #endif // BML_SYEVD
 
@@ -275,9 +275,9 @@ bml_diagonalize_dense_cpu_single_real(
         }
     }
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -418,28 +418,28 @@ bml_diagonalize_dense_magma_double_real(
 #else // MAGMA
     int nb = magma_get_ssytrd_nb(A->N);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->N;
-    double *wa = malloc(A->N * ldwa * sizeof(double));
+    double *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(double));
 
     magma_dsyevd_gpu(MagmaVec, MagmaUpper, A->N, evecs, A->ld, evals,
                      wa, ldwa, work, lwork, iwork, liwork, &info);
     if (info != 0)
         LOG_ERROR("ERROR in magma_dsyevd_gpu");
 
-    free(wa);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(work);
 
     for (int i = 0; i < A->N; i++)
         typed_eigenvalues[i] = (double) evals[i];
-    free(evals);
+    bml_free_memory(evals);
 
     //verify norm eigenvectors
     //for(int i= 0;i<A->N;i++)
@@ -482,8 +482,8 @@ bml_diagonalize_dense_gpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = (double *) calloc(A->N * A->N, sizeof(double));
-    double *evals = (double *) calloc(A->N, sizeof(double));
+    double *evecs = (double *) bml_allocate_memory(A->N * A->N * sizeof(double));
+    double *evals = (double *) bml_allocate_memory(A->N * sizeof(double));
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -531,9 +531,9 @@ bml_diagonalize_dense_gpu_double_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     const MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -541,10 +541,10 @@ bml_diagonalize_dense_gpu_double_real(
     dsyevd("V", "U", &N, evecs, &N, evals, work, &lwork,
            iwork, &liwork, &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const MKL_INT lwork = 3 * N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(lwork * sizeof(double));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target variant dispatch device(dnum) use_device_ptr(evecs, evals, work)
     dsyev("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
@@ -592,9 +592,9 @@ bml_diagonalize_dense_gpu_double_real(
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -613,23 +613,23 @@ bml_diagonalize_dense_cpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = calloc(A->N * A->N, sizeof(double));
-    double *evals = calloc(A->N, sizeof(double));
+    double *evecs = bml_allocate_memory(A->N * A->N * sizeof(double));
+    double *evals = bml_allocate_memory(A->N * sizeof(double));
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(double));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     int lwork = 1 + 6 * A->N + 2 * A->N * A->N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     C_DSYEVD("V", "U", &A->N, evecs, &A->N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     int lwork = 3 * A->N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(lwork * sizeof(double));
     C_DSYEV("V", "U", &A->N, evecs, &A->N, evals, work, &lwork, &info);
 #endif
 
@@ -643,9 +643,9 @@ bml_diagonalize_dense_cpu_double_real(
                 evecs[COLMAJOR(i, j, A->N, A->N)];
         }
     }
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -680,18 +680,18 @@ bml_diagonalize_dense_single_complex(
     magma_int_t ret = magma_cmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaFloatComplex *work = malloc(lwork * sizeof(magmaFloatComplex));
+    magmaFloatComplex *work = bml_noinit_allocate_memory(lwork * sizeof(magmaFloatComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaFloatComplex *wa = malloc(A->N * ldwa * sizeof(magmaFloatComplex));
+    magmaFloatComplex *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaFloatComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    float *rwork = malloc(lrwork * sizeof(float));
+    float *rwork = bml_noinit_allocate_memory(lrwork * sizeof(float));
 
     //copy matrix into evecs
     magmablas_clacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -713,20 +713,20 @@ bml_diagonalize_dense_single_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(2 * A->N * sizeof(int));
     int lwork = 2 * A->N;
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(liwork * sizeof(int));
     int M;
-    float *evals = calloc(A->N, sizeof(float));
-    float *rwork = calloc(lrwork, sizeof(float));
-    float complex *A_copy = calloc(A->N * A->N, sizeof(float complex));
+    float *evals = bml_allocate_memory(A->N * sizeof(float));
+    float *rwork = bml_allocate_memory(lrwork * sizeof(float));
+    float complex *A_copy = bml_allocate_memory(A->N * A->N * sizeof(float complex));
     float complex *A_matrix;
-    float complex *evecs = calloc(A->N * A->N, sizeof(float complex));
-    float complex *work = calloc(lwork, sizeof(float complex));
+    float complex *evecs = bml_allocate_memory(A->N * A->N * sizeof(float complex));
+    float complex *work = bml_allocate_memory(lwork * sizeof(float complex));
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -764,14 +764,14 @@ bml_diagonalize_dense_single_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
@@ -790,18 +790,18 @@ bml_diagonalize_dense_double_complex(
     magma_int_t ret = magma_zmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaDoubleComplex *work = malloc(lwork * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *work = bml_noinit_allocate_memory(lwork * sizeof(magmaDoubleComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaDoubleComplex *wa = malloc(A->N * ldwa * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaDoubleComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    double *rwork = malloc(lrwork * sizeof(double));
+    double *rwork = bml_noinit_allocate_memory(lrwork * sizeof(double));
 
     //copy matrix into evecs
     magmablas_zlacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -824,20 +824,20 @@ bml_diagonalize_dense_double_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(2 * A->N * sizeof(int));
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
     int lwork = 2 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(liwork * sizeof(int));
     int M;
-    double *evals = calloc(A->N, sizeof(double));
-    double *rwork = calloc(lrwork, sizeof(double));
-    double complex *A_copy = calloc(A->N * A->N, sizeof(double complex));
+    double *evals = bml_allocate_memory(A->N * sizeof(double));
+    double *rwork = bml_allocate_memory(lrwork * sizeof(double));
+    double complex *A_copy = bml_allocate_memory(A->N * A->N * sizeof(double complex));
     double complex *A_matrix;
-    double complex *evecs = calloc(A->N * A->N, sizeof(double complex));
-    double complex *work = calloc(lwork, sizeof(double complex));
+    double complex *evecs = bml_allocate_memory(A->N * A->N * sizeof(double complex));
+    double complex *work = bml_allocate_memory(lwork * sizeof(double complex));
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -875,14 +875,14 @@ bml_diagonalize_dense_double_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index e604c84..9081f1b 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
 
 #ifdef BML_USE_MAGMA
     // copy matrix into tmp matrix on CPU
diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..a6201ea 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -228,10 +228,10 @@ void TYPED_FUNC(
     int lwork = m + (2 * np0 + mb) * mb;
 #endif
 #if defined(SINGLE_REAL) || defined(SINGLE_COMPLEX)
-    float *ev = malloc(A->N * sizeof(float));
+    float *ev = bml_noinit_allocate_memory(A->N * sizeof(float));
 #endif
 #if defined(DOUBLE_REAL) || defined(DOUBLE_COMPLEX)
-    double *ev = malloc(A->N * sizeof(double));
+    double *ev = bml_noinit_allocate_memory(A->N * sizeof(double));
 #endif
 
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
@@ -288,7 +288,7 @@ void TYPED_FUNC(
         typed_eigenvalues[i] = (REAL_T) ev[i];
 
     // clean up
-    free(ev);
+    bml_free_memory(ev);
     bml_free_memory(work);
     bml_free_memory(iwork);
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
@@ -445,11 +445,11 @@ void TYPED_FUNC(
     // copy eigenvalues to CPU
     LOG_DEBUG("copy eigenvalues to CPU");
 #if defined(SINGLE_REAL) || defined(SINGLE_COMPLEX)
-    float *tmp = malloc(na * sizeof(float));
+    float *tmp = bml_noinit_allocate_memory(na * sizeof(float));
     magma_sgetvector(na, ev, 1, tmp, 1, bml_queue());
 #endif
 #if defined(DOUBLE_REAL) || defined(DOUBLE_COMPLEX)
-    double *tmp = malloc(na * sizeof(double));
+    double *tmp = bml_noinit_allocate_memory(na * sizeof(double));
     magma_dgetvector(na, ev, 1, tmp, 1, bml_queue());
 #endif
     magma_queue_sync(bml_queue());
@@ -457,7 +457,7 @@ void TYPED_FUNC(
     REAL_T *ev_ptr = eigenvalues;
     for (int i = 0; i < A->N; i++)
         ev_ptr[i] = (REAL_T) tmp[i];
-    free(tmp);
+    bml_free_memory(tmp);
 
     magma_free(ev);
 
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..d78c9d9 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -16,7 +16,7 @@ void *TYPED_FUNC(
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T *sub_row = NULL;
-    int *counts = calloc(A->ntasks, sizeof(int));
+    int *counts = bml_allocate_memory(A->ntasks * sizeof(int));
 
     int mycount = 0;
     // get (piece of) row if "i" corresponds to local row
@@ -27,7 +27,7 @@ void *TYPED_FUNC(
         mycount = nloc;
     }
 
-    int *recvcounts = calloc(A->ntasks, sizeof(int));
+    int *recvcounts = bml_allocate_memory(A->ntasks * sizeof(int));
     int ret =
         MPI_Allgather(&mycount, 1, MPI_INT, recvcounts, 1, MPI_INT, A->comm);
     if (ret == MPI_ERR_COUNT)
@@ -35,7 +35,7 @@ void *TYPED_FUNC(
     if (ret == MPI_ERR_BUFFER)
         LOG_ERROR("MPI_ERR_BUFFER");
 
-    int *displs = calloc(A->ntasks, sizeof(int));
+    int *displs = bml_allocate_memory(A->ntasks * sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
         displs[i + 1] += recvcounts[i];
 
@@ -47,9 +47,9 @@ void *TYPED_FUNC(
         LOG_ERROR
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
-    free(recvcounts);
-    free(counts);
-    free(displs);
+    bml_free_memory(recvcounts);
+    bml_free_memory(counts);
+    bml_free_memory(displs);
 
     return row;
 }
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index e37d487..bb2ecf4 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -38,7 +38,7 @@ void *TYPED_FUNC(
     REAL_T *offdiag_sum =
         bml_accumulate_offdiag(A->matrix, A->myprow != A->mypcol);
     MPI_Allreduce(offdiag_sum, rad, nloc, MPI_T, MPI_SUM, A->row_comm);
-    free(offdiag_sum);
+    bml_free_memory(offdiag_sum);
 
     double emin = DBL_MAX;
     double emax = -DBL_MAX;
@@ -54,7 +54,7 @@ void *TYPED_FUNC(
             if (REAL_PART(dval[i] - rad[i]) < emin)
                 emin = REAL_PART(dval[i] - rad[i]);
         }
-        free(dval);
+        bml_free_memory(dval);
     }
     bml_free_memory(rad);
 
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 85cc82b..b58a700 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -75,7 +75,7 @@ void TYPED_FUNC(
 #else
     const int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage = bml_allocate_memory(maxbsize2 * NB * nthreads * sizeof(REAL_T));
 
     char xptrset = 0;
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -196,7 +196,7 @@ void TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix addition.
@@ -242,14 +242,14 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
-    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
+    x[0] = (REAL_T *) bml_allocate_memory(maxbsize2 * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
         x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) bml_allocate_memory(maxbsize2 * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
         y[i] = y[0] + i * maxbsize2;
@@ -355,8 +355,8 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
-    free(x[0]);
-    free(y[0]);
+    bml_free_memory(x[0]);
+    bml_free_memory(y[0]);
 
     return trnorm;
 }
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index aa76740..89c88c5 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -41,7 +41,7 @@ bml_set_block_sizes(
 
     s_nb = nb;
     s_mb = mb;
-    s_default_bsize = malloc(nb * sizeof(int));
+    s_default_bsize = bml_noinit_allocate_memory(nb * sizeof(int));
     for (int ib = 0; ib < nb; ib++)
     {
         s_default_bsize[ib] = bsize[ib];
diff --git a/src/C-interface/ellblock/bml_convert_ellblock_typed.c b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
index 33de04b..1450e3b 100644
--- a/src/C-interface/ellblock/bml_convert_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
@@ -36,7 +36,7 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                                                distrib_mode);
 
     int NB = B->NB;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
         offset[ib] = offset[ib - 1] + bsize[ib - 1];
@@ -54,7 +54,7 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                 = TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
             B->indexb[ind] = jb;
 
-            REAL_T *block = malloc(nelements * sizeof(REAL_T));
+            REAL_T *block = bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             for (int ii = 0; ii < bsize[ib]; ii++)
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
@@ -64,10 +64,10 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                     block[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] = alpha;
                 }
             TYPED_FUNC(bml_set_block_ellblock) (B, ib, jb, block);
-            free(block);
+            bml_free_memory(block);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return B;
 }
diff --git a/src/C-interface/ellblock/bml_diagonalize_ellblock_typed.c b/src/C-interface/ellblock/bml_diagonalize_ellblock_typed.c
index a875dbf..561991f 100644
--- a/src/C-interface/ellblock/bml_diagonalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_diagonalize_ellblock_typed.c
@@ -55,7 +55,7 @@ void TYPED_FUNC(
     D = bml_import_from_dense_dense(A->matrix_precision, dense_row_major,
                                     A->N, A_dense, threshold,
                                     A->distribution_mode);
-    free(A_dense);
+    bml_free_memory(A_dense);
 
     // Allocate eigenvectors matrix in dense_bml
     eigenvectors_bml_dense =
@@ -80,7 +80,7 @@ void TYPED_FUNC(
                                                     eigenvectors_dense,
                                                     threshold, A->M,
                                                     A->distribution_mode);
-    free(eigenvectors_dense);
+    bml_free_memory(eigenvectors_dense);
 
     // This is done in order to pass the changes back to the upper level
     bml_copy_ellblock(myeigenvectors, eigenvectors);
diff --git a/src/C-interface/ellblock/bml_export_ellblock_typed.c b/src/C-interface/ellblock/bml_export_ellblock_typed.c
index a86c987..0c792dc 100644
--- a/src/C-interface/ellblock/bml_export_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_export_ellblock_typed.c
@@ -40,7 +40,7 @@ void *TYPED_FUNC(
     int *bsize = A->bsize;
     REAL_T *A_dense = bml_allocate_memory(sizeof(REAL_T) * N * N);
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -96,7 +96,7 @@ void *TYPED_FUNC(
             LOG_ERROR("unknown order\n");
             break;
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_dense;
 }
diff --git a/src/C-interface/ellblock/bml_getters_ellblock_typed.c b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
index 01a13a1..cee75c7 100644
--- a/src/C-interface/ellblock/bml_getters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
@@ -1,5 +1,6 @@
 #include "bml_getters_ellblock.h"
 #include "../bml_introspection.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "bml_types_ellblock.h"
 #include "../../macros.h"
@@ -85,7 +86,7 @@ void *TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
-    REAL_T *row = calloc(A->N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
     for (int ii = 0; ii < A->N; ii++)
     {
         row[ii] = 0.0;
@@ -100,7 +101,7 @@ void *TYPED_FUNC(
         ib++;
     }
 
-    int *offset = malloc(A_NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(A_NB * sizeof(int));
     offset[0] = 0;
     for (int jb = 1; jb < A_NB; jb++)
         offset[jb] = offset[jb - 1] + bsize[jb - 1];
@@ -119,7 +120,7 @@ void *TYPED_FUNC(
             }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return row;
 }
@@ -142,7 +143,7 @@ void *TYPED_FUNC(
     int *indexb = A->indexb;
     int *nnzb = A->nnzb;
     int *bsize = A->bsize;
-    REAL_T *diagonal = calloc(A->N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     int offset = 0;
     for (int ib = 0; ib < NB; ib++)
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index 4f63d71..2482569 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -45,7 +45,7 @@ bml_matrix_ellblock_t
 
     REAL_T *dense_A = (REAL_T *) A;
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -59,7 +59,7 @@ bml_matrix_ellblock_t
         for (int jb = 0; jb < NB; jb++)
         {
             int nelements = A_bsize[ib] * A_bsize[jb];
-            REAL_T *A_ij = malloc(nelements * sizeof(REAL_T));
+            REAL_T *A_ij = bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             switch (order)
             {
                 case dense_row_major:
@@ -99,10 +99,10 @@ bml_matrix_ellblock_t
                 A_indexb[ind] = jb;
                 A_nnzb[ib]++;
             }
-            free(A_ij);
+            bml_free_memory(A_ij);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_bml;
 }
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 94186b6..d28a66e 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -533,7 +533,7 @@ void TYPED_FUNC(
 #else
     int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage = bml_allocate_memory(maxbsize2 * NB * nthreads * sizeof(REAL_T));
 
     char xptrset = 0;
 
@@ -662,7 +662,7 @@ void TYPED_FUNC(
         bml_free_memory(T_value_right);
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix multiply with threshold adjustment.
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 1a1410e..525ed30 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_norm.h"
 #include "../bml_parallel.h"
+#include "../bml_allocate.h"
 #include "../bml_types.h"
 #include "bml_norm_ellblock.h"
 #include "bml_types_ellblock.h"
@@ -96,7 +97,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     int ix[NB], jjb[NB];
 
@@ -159,7 +160,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -205,7 +206,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     int ix[NB], jjb[NB];
 
@@ -273,7 +274,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -334,7 +335,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
-    REAL_T *zero_block = calloc(maxbsize2, sizeof(REAL_T));
+    REAL_T *zero_block = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     for (int ib = 0; ib < NB; ib++)
     {
@@ -401,7 +402,7 @@ double TYPED_FUNC(
 
     fnorm = sqrt(fnorm);
 
-    free(zero_block);
+    bml_free_memory(zero_block);
 
     return (double) REAL_PART(fnorm);
 }
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index a181d33..4c3d345 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -56,7 +56,7 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *offdiag_sum = calloc(A->N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -110,8 +110,8 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *rad = calloc(A->N, sizeof(REAL_T));
-    REAL_T *dval = calloc(A->N, sizeof(REAL_T));
+    REAL_T *rad = bml_allocate_memory(A->N * sizeof(REAL_T));
+    REAL_T *dval = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -163,8 +163,8 @@ void *TYPED_FUNC(
     eval[1] = emax;
 
     //printf("Global %d: emin = %e emax = %e\n", myRank, emin, emax);
-    free(dval);
-    free(rad);
+    bml_free_memory(dval);
+    bml_free_memory(rad);
 
     return eval;
 }
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 4246e9f..65621e7 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
@@ -118,7 +119,7 @@ void TYPED_FUNC(
     }
     fprintf(mFile, "%d %d %d\n", A->N, A->N, msum);
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -155,7 +156,7 @@ void TYPED_FUNC(
                 }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     fclose(mFile);
 }
diff --git a/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c b/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
index 03c68ef..7a56c93 100644
--- a/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_diagonalize_ellpack_typed.c
@@ -55,7 +55,7 @@ void TYPED_FUNC(
     D = bml_import_from_dense_dense(A->matrix_precision, dense_row_major,
                                     A->N, A_dense, threshold,
                                     A->distribution_mode);
-    free(A_dense);
+    bml_free_memory(A_dense);
 
     // Allocate eigenvectors matrix in dense_bml
     eigenvectors_bml_dense =
@@ -80,7 +80,7 @@ void TYPED_FUNC(
                                                    eigenvectors_dense,
                                                    threshold, eigenvectors->M,
                                                    A->distribution_mode);
-    free(eigenvectors_dense);
+    bml_free_memory(eigenvectors_dense);
 
     // This is done in order to pass the changes back to the upper level
     bml_copy_ellpack(myeigenvectors, eigenvectors);
diff --git a/src/C-interface/ellpack/bml_getters_ellpack_typed.c b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
index 4607432..d85d13f 100644
--- a/src/C-interface/ellpack/bml_getters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "bml_getters_ellpack.h"
 #include "../bml_introspection.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "bml_types_ellpack.h"
 #include "../../macros.h"
@@ -74,7 +75,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *row = calloc(A_N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(A_N * sizeof(REAL_T));
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
@@ -114,7 +115,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A_N * sizeof(REAL_T));
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 4ee1c3b..7df8e49 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int M = A->M;
     int *A_nnz = (int *) A->nnz;
     int *A_index = (int *) A->index;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
     REAL_T *A_value = (REAL_T *) A->value;
 
     for (int i = 0; i < N; i++)
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index f6aab42..d265f46 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -1,4 +1,5 @@
 #include "../../macros.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_submatrix.h"
 #include "../bml_types.h"
@@ -436,7 +437,7 @@ bml_adjacency_group_ellpack(
     int *A_nnz = A->nnz;
     int *A_index = A->index;
 
-    int *hnode = malloc(nnodes * sizeof(int));
+    int *hnode = bml_noinit_allocate_memory(nnodes * sizeof(int));
     for (int i = 0; i < nnodes; i++)
     {
         hnode[i] = hindex[i] - 1;
@@ -502,7 +503,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
-    free(hnode);
+    bml_free_memory(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index d0383eb..e0287e3 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
     int numrows = rowMax - rowMin;
     REAL_T *diag;
-    diag = (REAL_T *) calloc(numrows, sizeof(REAL_T));
+    diag = (REAL_T *) bml_allocate_memory(numrows * sizeof(REAL_T));
 #pragma omp target enter data map(to:diag[:numrows])
 #pragma omp target teams distribute
     //for (int i = 0; i < N; i++)
@@ -69,7 +69,7 @@ double TYPED_FUNC(
     for (int i = 0; i < numrows; i++)
         trace += diag[i];
 #pragma omp target exit data map(delete:diag[:numrows])
-    free(diag);
+    bml_free_memory(diag);
 #else
 #pragma omp parallel for                        \
   shared(A_value, A_index, A_nnz)         \
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index bce941c..34ac109 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -58,7 +58,7 @@ bml_matrix_ellpack_t
 #else
     // Transpose all elements
 #ifdef _OPENMP
-    omp_lock_t *row_lock = (omp_lock_t *) malloc(sizeof(omp_lock_t) * N);
+    omp_lock_t *row_lock = (omp_lock_t *) bml_noinit_allocate_memory(sizeof(omp_lock_t) * N);
 
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
@@ -108,7 +108,7 @@ bml_matrix_ellpack_t
     {
         omp_destroy_lock(&row_lock[i]);
     }
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
 
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
-- 
2.43.0


From b9ba2ae30184cc561421f10a544092d30b5134d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:38 +0000
Subject: [PATCH 25/63] fix: banded random matrices do not depend on the thread
 schedule

---
 src/C-interface/csr/bml_allocate_csr_typed.c         | 2 +-
 src/C-interface/dense/bml_allocate_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_allocate_ellpack_typed.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_allocate_csr_typed.c b/src/C-interface/csr/bml_allocate_csr_typed.c
index de16032..c117068 100644
--- a/src/C-interface/csr/bml_allocate_csr_typed.c
+++ b/src/C-interface/csr/bml_allocate_csr_typed.c
@@ -239,7 +239,7 @@ bml_matrix_csr_t *TYPED_FUNC(
     bml_matrix_csr_t *A =
         TYPED_FUNC(bml_zero_matrix_csr) (N, M, distrib_mode);
 
-#pragma omp parallel for
+    // rand() in a fixed order, see bml_random_matrix_csr: no OpenMP here
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
diff --git a/src/C-interface/dense/bml_allocate_dense_typed.c b/src/C-interface/dense/bml_allocate_dense_typed.c
index 5f0f6f1..cc58121 100644
--- a/src/C-interface/dense/bml_allocate_dense_typed.c
+++ b/src/C-interface/dense/bml_allocate_dense_typed.c
@@ -218,7 +218,7 @@ bml_matrix_dense_t *TYPED_FUNC(
     REAL_T *A_dense = A->matrix;
 #endif
 
-#pragma omp parallel for shared(A_dense)
+    // rand() in a fixed order, see bml_random_matrix_dense: no OpenMP here
     for (int i = 0; i < N; i++)
     {
         for (int j = (i - M / 2 >= 0 ? i - M / 2 : 0);
diff --git a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
index dc380e2..1598ff8 100644
--- a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
@@ -294,7 +294,7 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     int *A_nnz = A->nnz;
     const REAL_T INV_RAND_MAX = 1.0 / (REAL_T) RAND_MAX;
 
-#pragma omp parallel for shared(A_value, A_index, A_nnz)
+    // rand() in a fixed order, see bml_random_matrix_ellpack: no OpenMP here
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
-- 
2.43.0


From 316f5636a70cb3725447219bc831090549b91cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 26/63] fix: importing a distributed matrix sets its precision
 and honours column-major order

---
 .../distributed2d/bml_import_distributed2d_typed.c           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..9d319b1 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
@@ -70,7 +71,9 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0


From 2b43f782e0feda572025c8052ee73a7aebf376e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 27/63] fix: exporting a distributed matrix honours
 column-major order and frees its send buffer

---
 .../distributed2d/bml_export_distributed2d_typed.c          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..9b128d0 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,10 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            int offset = (order == dense_row_major) ?
+                n * N * ip + n * jp : n * N * jp + n * ip;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
@@ -78,5 +80,7 @@ void *TYPED_FUNC(
         bml_free_memory(recvbuf);
     }
 
+    bml_free_memory(sendbuf);
+
     return A_dense;
 }
-- 
2.43.0


From 2737ee8fea1880854acd0ab5fc79d0c9b08050f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 28/63] fix: reading a row of a distributed matrix places each
 block at its own columns

---
 .../distributed2d/bml_getters_distributed2d_typed.c         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index d78c9d9..1167520 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -16,7 +16,6 @@ void *TYPED_FUNC(
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T *sub_row = NULL;
-    int *counts = bml_allocate_memory(A->ntasks * sizeof(int));
 
     int mycount = 0;
     // get (piece of) row if "i" corresponds to local row
@@ -37,7 +36,7 @@ void *TYPED_FUNC(
 
     int *displs = bml_allocate_memory(A->ntasks * sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
@@ -47,8 +46,9 @@ void *TYPED_FUNC(
         LOG_ERROR
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
+    if (sub_row != NULL)
+        bml_free_memory(sub_row);
     bml_free_memory(recvcounts);
-    bml_free_memory(counts);
     bml_free_memory(displs);
 
     return row;
-- 
2.43.0


From 9df66d1cb28f2968c4c61dbc2d35be8b59a3c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 29/63] fix: adding an identity to a distributed matrix changes
 the diagonal blocks only

---
 .../distributed2d/bml_add_distributed2d.c     | 45 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..6e24f4b 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -3,6 +3,7 @@
 #include "../bml_types.h"
 #include "../bml_introspection.h"
 #include "../bml_parallel.h"
+#include "../bml_scale.h"
 #include "bml_add_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
@@ -75,7 +76,9 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // the identity has elements in the diagonal blocks only
+    if (A->myprow == A->mypcol)
+        bml_add_identity(A->matrix, beta, threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +98,43 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // the identity has elements in the diagonal blocks only
+    if (A->myprow == A->mypcol)
+    {
+        bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+        return;
+    }
+
+    switch (bml_get_precision(A->matrix))
+    {
+        case single_real:
+        {
+            float alpha_ = alpha;
+            bml_scale_inplace(&alpha_, A->matrix);
+            break;
+        }
+        case double_real:
+        {
+            double alpha_ = alpha;
+            bml_scale_inplace(&alpha_, A->matrix);
+            break;
+        }
+#ifdef BML_COMPLEX
+        case single_complex:
+        {
+            float _Complex alpha_ = alpha;
+            bml_scale_inplace(&alpha_, A->matrix);
+            break;
+        }
+        case double_complex:
+        {
+            double _Complex alpha_ = alpha;
+            bml_scale_inplace(&alpha_, A->matrix);
+            break;
+        }
+#endif
+        default:
+            LOG_ERROR("unknown precision\n");
+            break;
+    }
 }
-- 
2.43.0


From 281447a83ff707c7b45a2bcafda6a01c27636e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 30/63] fix: deallocating a distributed matrix frees its
 communicators

---
 src/C-interface/distributed2d/bml_allocate_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..f496026 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -87,6 +87,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&A->row_comm);
+    MPI_Comm_free(&A->col_comm);
     bml_free_memory(A);
 }
 
-- 
2.43.0


From a4c66c551ccb0105419a971d1d40ee3bc0d2118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 31/63] fix: the square of a distributed matrix returns its
 traces

---
 src/C-interface/bml_multiply.c                            | 2 +-
 .../distributed2d/bml_multiply_distributed2d.c            | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_multiply.c b/src/C-interface/bml_multiply.c
index 463852b..7b4e638 100644
--- a/src/C-interface/bml_multiply.c
+++ b/src/C-interface/bml_multiply.c
@@ -90,7 +90,7 @@ bml_multiply_x2(
             break;
 #ifdef BML_USE_MPI
         case distributed2d:
-            bml_multiply_x2_distributed2d(X, X2, threshold);
+            return bml_multiply_x2_distributed2d(X, X2, threshold);
             break;
 #endif
         default:
diff --git a/src/C-interface/distributed2d/bml_multiply_distributed2d.c b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
index b1c9ed1..eb6bdba 100644
--- a/src/C-interface/distributed2d/bml_multiply_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
@@ -1,7 +1,9 @@
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_multiply.h"
 #include "../bml_types.h"
 #include "bml_multiply_distributed2d.h"
+#include "bml_trace_distributed2d.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -95,7 +97,11 @@ bml_multiply_x2_distributed2d(
             LOG_ERROR("unknown precision\n");
             break;
     }
-    return NULL;
+
+    double *trace = bml_allocate_memory(sizeof(double) * 2);
+    trace[0] = bml_trace_distributed2d(X);
+    trace[1] = bml_trace_distributed2d(X2);
+    return trace;
 }
 
 /** Matrix multiply.
-- 
2.43.0


From 696fd4b7d8a125a07f731781f9b3ea8052037162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 32/63] fix: file input and output of distributed matrices
 frees the block sizes

---
 .../distributed2d/bml_utilities_distributed2d.c           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..94180ea 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -22,7 +22,7 @@ bml_read_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
     bml_matrix_t *B;
     switch (bml_get_type(A->matrix))
@@ -63,6 +63,8 @@ bml_read_bml_matrix_distributed2d(
 
     bml_deallocate(&B);
     bml_deallocate(&C);
+    if (bsizes != NULL)
+        bml_free_memory(bsizes);
 }
 
 void
@@ -73,7 +75,7 @@ bml_write_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
 
     // task 0 collects all blocks and write matrix
@@ -127,6 +129,8 @@ bml_write_bml_matrix_distributed2d(
         // print "big" matrix containing all the distributed submatrices
         bml_write_bml_matrix(B, filename);
         bml_deallocate(&B);
+        if (bsizes != NULL)
+            bml_free_memory(bsizes);
     }
     else
     {
-- 
2.43.0


From c7696b0d53de0e7dc0bd5a878abe4923de47d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 33/63] fix: rows of a csr matrix grow to hold the received
 elements

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 24 ++++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..ebfd3f3 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -89,39 +89,33 @@ void TYPED_FUNC(
         LOG_ERROR("MPI_Recv failed for nnz");
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
-    {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
-    }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // assign received data, the rows grow if needed
+    int *pcols = cols;
     REAL_T *pvalues = values;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(csr_set_sparse_row) (A->data_[i], nnz[i], pcols, pvalues,
+                                        0.);
+        pvalues += nnz[i];
+        pcols += nnz[i];
     }
     bml_free_memory(values);
+    bml_free_memory(cols);
+    bml_free_memory(nnz);
 }
 
 void TYPED_FUNC(
-- 
2.43.0


From 82f136c051bf3de1f1cf57a2890e5096bd2f3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 34/63] fix: receive buffers of csr matrices hold any number of
 elements

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index ebfd3f3..92ad2fe 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -131,11 +131,11 @@ void TYPED_FUNC(
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for nnz");
 
-    // estimate total number of non-zero one may receive
-    int totnnz = A->NZMAX_ * A->N_ * 2;
+    // largest number of non-zero one may receive, since rows can grow
+    size_t totnnz = (size_t) A->N_ * A->N_;
 
     // receive column indexes
-    A->cols_buffer = bml_allocate_memory(sizeof(int) * totnnz);
+    A->cols_buffer = bml_noinit_allocate_memory(sizeof(int) * totnnz);
     mpiret =
         MPI_Irecv(A->cols_buffer, totnnz, MPI_INT, src, 112, comm,
                   A->req + 1);
@@ -143,7 +143,7 @@ void TYPED_FUNC(
         LOG_ERROR("MPI_Irecv failed for cols");
 
     // recv matrix elements
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * totnnz);
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Irecv(A->buffer, totnnz, MPI_T, src, 113, comm, A->req + 2);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for values");
-- 
2.43.0


From 2644355847e666d48cd229501e98c300023b03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 35/63] fix: empty csr matrices can be broadcast

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 92ad2fe..37eae92 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -200,7 +200,6 @@ void TYPED_FUNC(
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
-- 
2.43.0


From 172f93cc0411df20649fe7551871dae8f270b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 36/63] fix: the root of a broadcast is a rank of the given
 communicator

---
 src/C-interface/csr/bml_parallel_csr_typed.c          | 11 +++++++----
 .../ellblock/bml_parallel_ellblock_typed.c            |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 37eae92..26c4df2 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -193,8 +193,11 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
@@ -204,7 +207,7 @@ void TYPED_FUNC(
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -215,7 +218,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -226,7 +229,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..5547b1f 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -164,12 +164,15 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -178,7 +181,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
-- 
2.43.0


From 97589c59b7185a94fc849eede08628e5de298479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 37/63] fix: messages hold all the stored blocks of an ellblock
 matrix

---
 .../ellblock/bml_parallel_ellblock_typed.c    | 45 +++++++++++++++----
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 5547b1f..db6604e 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -19,6 +19,27 @@
 #endif
 
 #ifdef BML_USE_MPI
+/*
+ * Number of elements in the blocks stored in a matrix
+ */
+static int TYPED_FUNC(
+    count_elements_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int *nnzb,
+    const int *indexb)
+{
+    int count = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        for (int jp = 0; jp < nnzb[ib]; jp++)
+        {
+            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+            count += A->bsize[ib] * A->bsize[indexb[ind]];
+        }
+    }
+    return count;
+}
+
 void TYPED_FUNC(
     bml_mpi_send_ellblock) (
     bml_matrix_ellblock_t * A,
@@ -36,7 +57,8 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int count = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +71,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, count, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,8 +93,9 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
+    int count = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
+    MPI_Recv(values, count, MPI_T, src, 111, comm, &status);
 
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
@@ -110,8 +133,13 @@ void TYPED_FUNC(
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    // largest number of elements one may receive
+    int maxbsize = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        maxbsize = MAX(maxbsize, A->bsize[ib]);
+    size_t count = (size_t) A->N * MIN(A->N, A->MB * maxbsize);
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * count);
+    MPI_Irecv(A->buffer, count, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -180,7 +208,8 @@ void TYPED_FUNC(
 
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int count = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
     if (myrank == root)
     {
         REAL_T *pvalues = values;
@@ -196,7 +225,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, count, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From 836013b821fafde042ce2c6401062900d3422fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 38/63] fix: receiving an ellblock matrix releases the blocks
 it replaces

---
 src/C-interface/ellblock/bml_parallel_ellblock_typed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index db6604e..4834f9f 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -97,6 +97,9 @@ void TYPED_FUNC(
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
     MPI_Recv(values, count, MPI_T, src, 111, comm, &status);
 
+    // release the blocks being replaced
+    bml_clear_ellblock(A);
+
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
@@ -128,6 +131,8 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    // release the blocks being replaced
+    bml_clear_ellblock(A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
-- 
2.43.0


From 964f9d9d4e014e469317ceac43a3184e4a5a72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 39/63] fix: converting a distributed matrix gives its blocks
 the requested width

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index dd80019..0a4be4e 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -22,7 +22,7 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
+    int m = bml_get_M(B->matrix);
     bml_deallocate(&(B->matrix));
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
-- 
2.43.0


From eb6c95315e7e856e5a348b0b06a291be7b68fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 40/63] fix: adding the local rows of dense matrices starts at
 the right element

---
 src/C-interface/dense/bml_add_dense_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..6e09766 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,9 +134,10 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    REAL_T *A_matrix = (REAL_T *) A->matrix + startIndex;
+    REAL_T *B_matrix = (REAL_T *) B->matrix + startIndex;
+    C_BLAS(SCAL) (&nElems, &alpha_, A_matrix, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_matrix, &inc, A_matrix, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From 0c12e646d4d1c440d45e641c5f1c11662871afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 41/63] fix: the extents of a default domain are exact

---
 src/C-interface/bml_allocate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index b161b6c..04dd683 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -644,6 +644,8 @@ bml_default_domain(
                     domain->localRowExtent[i] * domain->totalCols;
                 domain->localDispl[i] = 0;
             }
+            domain->maxLocalExtent = domain->globalRowExtent;
+            domain->minLocalExtent = domain->globalRowExtent;
 
         }
             break;
@@ -652,7 +654,7 @@ bml_default_domain(
         {
             // For completely distributed
             avgExtent = N / nRanks;
-            domain->maxLocalExtent = ceil((float) N / (float) nRanks);
+            domain->maxLocalExtent = avgExtent + (N % nRanks > 0);
             domain->minLocalExtent = avgExtent;
 
             for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 61a52fb324798641caab1a614ae5620a60748f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 42/63] fix: gathering rows uses the precision of the matrix

---
 src/C-interface/bml_parallel.h                       | 8 --------
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/bml_parallel.h b/src/C-interface/bml_parallel.h
index 3d2b6dd..f516156 100644
--- a/src/C-interface/bml_parallel.h
+++ b/src/C-interface/bml_parallel.h
@@ -5,14 +5,6 @@
 
 #include "bml_types.h"
 
-#ifdef BML_USE_MPI
-#ifdef SINGLE
-#define REAL_MPI_TYPE MPI_FLOAT
-#else
-#define REAL_MPI_TYPE MPI_DOUBLE
-#endif
-#endif
-
 #ifdef BML_USE_MPI
 #include <mpi.h>
 extern MPI_Comm ccomm;
diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 4ff79a3e2c4a241a30282ca8f465aba610567f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 43/63] fix: diagonal blocks of a hermitian matrix reach
 ScaLAPACK in column-major order

---
 .../distributed2d/bml_diagonalize_distributed2d_typed.c     | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index a6201ea..9c2df3f 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -207,10 +207,8 @@ void TYPED_FUNC(
                            -1, sequential);
     }
 
-    // transpose to satisfy column major ScaLapack convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    // transpose local blocks to satisfy column major ScaLapack convention
+    bml_transpose(amat);
 
     REAL_T *pzmat = bml_get_data_ptr(zmat);
     assert(pzmat != NULL);
-- 
2.43.0


From 6f6ce1cf0d67f082df19fe11898929a71fe19c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 44/63] fix: the ScaLAPACK diagonalization releases its process
 grid

---
 .../bml_diagonalize_distributed2d_typed.c              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 9c2df3f..58454e8 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -53,6 +53,10 @@ void Cblacs_gridinit(
     char[],
     int,
     int);
+void Cblacs_gridexit(
+    int);
+void Cfree_blacs_system_handle(
+    int);
 int NUMROC(
     int *,
     int *,
@@ -169,7 +173,8 @@ void TYPED_FUNC(
     int np_cols = A->npcols;
     int my_prow = A->myprow;
     int my_pcol = A->mypcol;
-    int my_blacs_ctxt = Csys2blacs_handle(A->comm);
+    int my_blacs_handle = Csys2blacs_handle(A->comm);
+    int my_blacs_ctxt = my_blacs_handle;
     Cblacs_gridinit(&my_blacs_ctxt, &order, np_rows, np_cols);
     Cblacs_gridinfo(my_blacs_ctxt, &np_rows, &np_cols, &my_prow, &my_pcol);
 
@@ -293,6 +298,9 @@ void TYPED_FUNC(
     bml_free_memory(rwork);
 #endif
 
+    Cblacs_gridexit(my_blacs_ctxt);
+    Cfree_blacs_system_handle(my_blacs_handle);
+
     bml_deallocate(&amat);
     if (bml_get_type(Alocal) != dense)
     {
-- 
2.43.0


From 32d825d0255eaca76ec1bc6f557cd16a0351dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 45/63] fix: built-in gemm honours the leading dimensions of
 its operands

---
 src/internal-blas/bml_gemm.c | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index 2fd247a..ba929d4 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -104,7 +104,7 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] = 0;
+                    c[COLMAJOR(i, j, *ldc, *n)] = 0;
                 }
             }
         }
@@ -114,8 +114,8 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] =
-                        *beta * c[COLMAJOR(i, j, *m, *n)];
+                    c[COLMAJOR(i, j, *ldc, *n)] =
+                        *beta * c[COLMAJOR(i, j, *ldc, *n)];
                 }
             }
         }
@@ -135,24 +135,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *k, *n)];
+                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *ldb, *n)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -170,17 +170,17 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(l, j, *k, *n)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
@@ -199,24 +199,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *n, *k)];
+                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -234,18 +234,18 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(j, l, *n, *k)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(j, l, *ldb, *k)];
                     }
 
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
-- 
2.43.0


From 34d257674399076ee8b5e7c62d27e4622e66bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 46/63] fix: built-in gemm conjugates operands passed with
 transpose flag C

---
 src/internal-blas/bml_gemm.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index ba929d4..091b651 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -169,9 +169,10 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
-                        temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
-                            b[COLMAJOR(l, j, *ldb, *n)];
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
+                        if (*transa == 'C')
+                            a_li = COMPLEX_CONJUGATE(a_li);
+                        temp += a_li * b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
@@ -212,7 +213,10 @@ void TYPED_FUNC(
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
+                    if (*transb == 'C')
+                        b_jl = COMPLEX_CONJUGATE(b_jl);
+                    REAL_T temp = *alpha * b_jl;
                     for (int i = 0; i < *m; i++)
                     {
                         c[COLMAJOR(i, j, *ldc, *n)] +=
@@ -233,9 +237,13 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
-                        temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
-                            b[COLMAJOR(j, l, *ldb, *k)];
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
+                        if (*transa == 'C')
+                            a_li = COMPLEX_CONJUGATE(a_li);
+                        REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
+                        if (*transb == 'C')
+                            b_jl = COMPLEX_CONJUGATE(b_jl);
+                        temp += a_li * b_jl;
                     }
 
                     if (*beta == 0)
-- 
2.43.0


From ca5f7a348dce5de860dc2e86b33f090ec6156b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 47/63] fix: report row and column indices outside the matrix
 in element and row access

---
 src/C-interface/bml_getters.c | 12 ++++++++++++
 src/C-interface/bml_setters.c | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/C-interface/bml_getters.c b/src/C-interface/bml_getters.c
index 47caab9..164e81b 100644
--- a/src/C-interface/bml_getters.c
+++ b/src/C-interface/bml_getters.c
@@ -24,6 +24,14 @@ bml_get_element(
     int i,
     int j)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d outside of matrix\n", i);
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index %d outside of matrix\n", j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -56,6 +64,10 @@ bml_get_row(
     bml_matrix_t * A,
     int i)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d outside of matrix\n", i);
+    }
     switch (bml_get_type(A))
     {
         case dense:
diff --git a/src/C-interface/bml_setters.c b/src/C-interface/bml_setters.c
index 75ad8d6..2e64b37 100644
--- a/src/C-interface/bml_setters.c
+++ b/src/C-interface/bml_setters.c
@@ -16,6 +16,14 @@ bml_set_element_new(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d outside of matrix\n", i);
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index %d outside of matrix\n", j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -44,6 +52,14 @@ bml_set_element(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d outside of matrix\n", i);
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index %d outside of matrix\n", j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -71,6 +87,10 @@ bml_set_row(
     void *row,
     double threshold)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d outside of matrix\n", i);
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From 4571cf0758fd9cc725f9e4f2b1af0aca492dca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 48/63] fix: report a copy between matrices of different
 precision

---
 src/C-interface/bml_copy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/bml_copy.c b/src/C-interface/bml_copy.c
index d24ed31..6ec5ed5 100644
--- a/src/C-interface/bml_copy.c
+++ b/src/C-interface/bml_copy.c
@@ -73,6 +73,10 @@ bml_copy(
     {
         LOG_ERROR("type mismatch\n");
     }
+    if (bml_get_precision(A) != bml_get_precision(B))
+    {
+        LOG_ERROR("precision mismatch\n");
+    }
     if (bml_get_N(A) < 0)
     {
         LOG_ERROR("matrix is not initialized\n");
-- 
2.43.0


From 9d974393dfa152ce635f091c52c663773f6fb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 49/63] fix: report a trace of a product of ellblock matrices
 of different size

---
 src/C-interface/ellblock/bml_trace_ellblock_typed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index d68379c..cbe598f 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,6 +85,11 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
+    if (A->N != B->N)
+    {
+        LOG_ERROR
+            ("bml_trace_mult_ellblock: Matrices A and B have different sizes.");
+    }
     if (NB != B->NB)
     {
         LOG_ERROR
-- 
2.43.0


From f2b460ff5d5ca5dcf4a876c8f39c1d8fceaeda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 50/63] fix: report a matrix file that can not be opened for
 writing

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 4 ++++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 4 ++++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 4 ++++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index ccdf8ac..639f81f 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -90,6 +90,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 7c8b2f1..e233aad 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -116,6 +116,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "w");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 65621e7..dcb21b2 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -95,6 +95,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 0fd2dd3..01e87ca 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -96,6 +96,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-- 
2.43.0


From f73fc20b9aa29cd7f789df96f862352881f7f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 51/63] fix: bml_import_from_dense (Fortran) ignored the
 strides of array sections

---
 src/Fortran-interface/bml_import_m.F90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..2ee14e0 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
-- 
2.43.0


From a70db773eaf8e43d885ff127d336fbdac4e67766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 52/63] fix: bml_get_type and bml_get_deep_type (Fortran) did
 not know csr matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..f06a08b 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,7 +96,7 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_type'
@@ -125,7 +125,7 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
-- 
2.43.0


From ecedb3e27a56f001e7223fd16599ae5dc7dde7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 53/63] fix: bml_get_element_precision (Fortran) stopped for
 complex matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index f06a08b..509736e 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -170,6 +170,10 @@ contains
       bml_get_element_precision = kind(1.0)
     case(2)
       bml_get_element_precision = kind(1.0d0)
+    case(3)
+      bml_get_element_precision = kind(1.0)
+    case(4)
+      bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
     end select
-- 
2.43.0


From 9e43f798db19ee3f038e0c163108b6b086ac1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 54/63] fix: bml_get_distribution_mode (Fortran) did not know
 graph distributed matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index 509736e..aa2f71c 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -227,7 +227,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From 95ca6558d7cfcd0ceb838399797d5f8b7795bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 55/63] fix: bml_clear (Fortran) passed the address of the
 matrix pointer

---
 src/Fortran-interface/bml_c_interface_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_c_interface_m.F90 b/src/Fortran-interface/bml_c_interface_m.F90
index 3be9493..81ab84a 100644
--- a/src/Fortran-interface/bml_c_interface_m.F90
+++ b/src/Fortran-interface/bml_c_interface_m.F90
@@ -214,7 +214,7 @@ module bml_c_interface_m
 
     subroutine bml_clear_C(a) bind(C, name="bml_clear")
       import :: C_PTR
-      type(C_PTR) :: a
+      type(C_PTR), value :: a
     end subroutine bml_clear_C
 
     subroutine bml_free_C(cptr) bind(C, name="bml_free_ptr")
-- 
2.43.0


From 5d1cbc81dac8ce95c0092d8172e18ee5c248c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 56/63] fix: bml_transpose_triangle (Fortran) forwarded a
 garbage triangle under gfortran

---
 src/Fortran-interface/bml_transpose_triangle_m.F90 | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_transpose_triangle_m.F90 b/src/Fortran-interface/bml_transpose_triangle_m.F90
index e4a2f6b..3da5f0d 100644
--- a/src/Fortran-interface/bml_transpose_triangle_m.F90
+++ b/src/Fortran-interface/bml_transpose_triangle_m.F90
@@ -20,7 +20,13 @@ contains
     type(bml_matrix_t), intent(inout) :: a
     character(C_CHAR), intent(in) :: triangle
 
-    call bml_transpose_triangle_C(a%ptr, triangle)
+    character(C_CHAR) :: triangle_value
+
+    ! gfortran passes an address instead of the character when a dummy
+    ! argument is forwarded to a by-value character argument.
+    triangle_value = triangle
+
+    call bml_transpose_triangle_C(a%ptr, triangle_value)
 
   end subroutine bml_transpose_triangle
 
-- 
2.43.0


From fb1ee12187c2c54fb61c81cb30c5f3c4a3038c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 57/63] fix: copy ellpack matrices between different row
 capacities

---
 .../ellpack/bml_copy_ellpack_typed.c          | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..be0fd7d 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -2,6 +2,8 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
+#include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
 #include "bml_copy_ellpack.h"
@@ -92,6 +94,7 @@ void TYPED_FUNC(
 
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
 
     int *A_index = A->index;
     int *A_nnz = A->nnz;
@@ -101,6 +104,16 @@ void TYPED_FUNC(
     int *B_nnz = B->nnz;
     REAL_T *B_value = B->value;
 
+    // The rows of A and B may have different capacities
+    for (int i = 0; i < N; i++)
+    {
+        if (A_nnz[i] > B_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
+    }
+    int rowlen = M < B_M ? M : B_M;
+
     size_t NbyM = (size_t)N*(size_t)M;
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target teams distribute parallel for
@@ -132,10 +145,10 @@ void TYPED_FUNC(
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], rowlen * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], rowlen * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
@@ -144,6 +157,21 @@ void TYPED_FUNC(
     {
         bml_copy_domain(A->domain, B->domain);
         bml_copy_domain(A->domain2, B->domain2);
+        if (M != B_M)
+        {
+            // displacements and sizes count elements of rows of B
+            bml_domain_t *domains[2] = { B->domain, B->domain2 };
+            for (int k = 0; k < 2; k++)
+            {
+                for (int r = 0; r < bml_getNRanks(); r++)
+                {
+                    domains[k]->localElements[r] =
+                        domains[k]->localRowExtent[r] * B_M;
+                    domains[k]->localDispl[r] =
+                        domains[k]->localRowMin[r] * B_M;
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 3bb9c9db52556bde9403d21c8d61b62e9426c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 58/63] fix: return freed ellblock blocks to the memory pool
 and clear their own row entry

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 0b62b89..7c4afd3 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -63,6 +63,7 @@ void TYPED_FUNC(
             if (jp == A->nnzb[ib] - 1)
             {
                 A->ptr_value[ind] = NULL;
+                A->indexb[ind] = -1;
                 break;
             }
             // save pointers to beginning and end of memory
@@ -82,7 +83,9 @@ void TYPED_FUNC(
                 A->indexb[ind - 1] = A->indexb[ind];
                 A->ptr_value[ind - 1] = (REAL_T *) A->ptr_value[ind] - shift;
             }
-            A->ptr_value[A->nnzb[ib] - 1] = NULL;
+            ind = ROWMAJOR(ib, A->nnzb[ib] - 1, A->NB, A->MB);
+            A->ptr_value[ind] = NULL;
+            A->indexb[ind] = -1;
             break;
         }
     }
@@ -92,6 +95,9 @@ void TYPED_FUNC(
     // move data in memory to reflect shift in pointers
     if (nelements > 0)
         memmove(dst, src, nelements * sizeof(REAL_T));
+
+    // return memory to the pool
+    A->memory_pool_ptr[ib] = ((REAL_T **) A->memory_pool_ptr)[ib] - shift;
 #else
     for (int jp = 0; jp < A->nnzb[ib]; jp++)
     {
-- 
2.43.0


From c0668414e3d2799b934b2ff07b0fa22ad565e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 59/63] fix: reserve room for every allowed block in the
 ellblock memory pool

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 7c4afd3..a0a24ee 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -228,13 +228,13 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     A->nnzb = bml_allocate_memory(sizeof(int) * NB);
 
     // allocate memory for matrix elements
-    // we make sure we have enough memory for at least 3 blocks/row
+    // we make sure we have enough memory for MB blocks/row
     int maxbsize = 0;
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int ncols_storage = M;
-    if (ncols_storage < 3 * maxbsize)
-        ncols_storage = 3 * maxbsize;
+    if (ncols_storage < MIN(N, MB * maxbsize))
+        ncols_storage = MIN(N, MB * maxbsize);
 #ifdef BML_ELLBLOCK_USE_MEMPOOL
     A->memory_pool =
         (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * N * ncols_storage);
-- 
2.43.0


From 2427c4cdf87da56ee336b9602c50760de347b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 60/63] fix: add the identity to ellblock matrices with block
 sizes of their own

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index b58a700..226c8b0 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -7,6 +7,7 @@
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_setters_ellblock.h"
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_scale_ellblock.h"
@@ -378,11 +379,18 @@ void TYPED_FUNC(
     double threshold)
 {
     REAL_T alpha = (REAL_T) 1.0;
+    REAL_T one = (REAL_T) 1.0;
+    int MB = 1;
     int M = 1;
 
+    // the identity must have the same block sizes as A
     bml_matrix_ellblock_t *Id =
-        TYPED_FUNC(bml_identity_matrix_ellblock) (A->N, M,
-                                                  A->distribution_mode);
+        TYPED_FUNC(bml_block_matrix_ellblock) (A->NB, MB, M, A->bsize,
+                                               A->distribution_mode);
+    for (int i = 0; i < A->N; i++)
+    {
+        TYPED_FUNC(bml_set_element_ellblock) (Id, i, i, &one);
+    }
 
     TYPED_FUNC(bml_add_ellblock) (A, Id, alpha, beta, threshold);
 
-- 
2.43.0


From 167ab85f2ea5f76ce6f01136ad323556745c3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 61/63] fix: bml_print_matrix (Fortran) skipped the first row
 and column of a bml matrix

---
 src/Fortran-interface/bml_utilities_m.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_utilities_m.F90 b/src/Fortran-interface/bml_utilities_m.F90
index b22b7d2..c5bdb18 100644
--- a/src/Fortran-interface/bml_utilities_m.F90
+++ b/src/Fortran-interface/bml_utilities_m.F90
@@ -46,7 +46,9 @@ contains
     integer(C_INT), intent(in) :: j_u
 
     if (bml_getMyRank() .eq. 0) write(*, "(A)") tag
-    call bml_print_bml_matrix_C(a%ptr, i_l, i_u, j_l, j_u)
+    ! Print bounds are inclusive and start at 1 here, but start at 0 and are
+    ! exclusive in the upper bound in the C code.
+    call bml_print_bml_matrix_C(a%ptr, i_l-1_C_INT, i_u, j_l-1_C_INT, j_u)
 
   end subroutine bml_print_bml_matrix
 
-- 
2.43.0


From 252324b56a0e098df9703323ce2d1b4304623fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:11 +0000
Subject: [PATCH 62/63] fix: bml_print_matrix (Fortran) ignored the strides of
 array sections

---
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..0d4d99d 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, target, contiguous, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From 8c94028b69aa3a8539a5720d78a92a7bb2eefb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 63/63] fix: terminate log messages which fill the format
 buffer

---
 src/C-interface/bml_logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/bml_logger.c b/src/C-interface/bml_logger.c
index bbd25bb..62941e3 100644
--- a/src/C-interface/bml_logger.c
+++ b/src/C-interface/bml_logger.c
@@ -110,6 +110,7 @@ bml_log_real(
         else
         {
             strncpy(new_format, format, FMT_LENGTH - 1);
+            new_format[FMT_LENGTH - 1] = '\0';
         }
         vprintf(new_format, ap);
 
-- 
2.43.0

