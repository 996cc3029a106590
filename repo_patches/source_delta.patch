From 80c539bf645407784cf48ecb32e42378737a3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 001/208] fix: general matrix product applies |A| and |B| only
 to the operand the flag names

---
 src/blas/kernel.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/blas/kernel.c b/src/blas/kernel.c
index 4cead8f..274c075 100644
--- a/src/blas/kernel.c
+++ b/src/blas/kernel.c
@@ -101,10 +101,10 @@ int armas_mult_kernel(
             armas_make(&Bcpy, nP, nJ, cache->ab_step, cache->Bcpy);
             if (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) {
                 armas_submatrix_unsafe(&Bc, B, jp, kp, nJ, nP);
-                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags);
+                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags & ARMAS_ABSB);
             } else {
                 armas_submatrix_unsafe(&Bc, B, kp, jp, nP, nJ);
-                CPBLK(&Bcpy, &Bc, nP, nJ, flags);
+                CPBLK(&Bcpy, &Bc, nP, nJ, flags & ARMAS_ABSB);
             }
 
             for (ip = 0; ip < C->rows; ip += cache->MB) {
@@ -112,10 +112,10 @@ int armas_mult_kernel(
                 armas_make(&Acpy, nP, nI, cache->ab_step, cache->Acpy);
                 if (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) {
                     armas_submatrix_unsafe(&Ac, A, kp, ip, nP, nI);
-                    CPBLK(&Acpy, &Ac, nP, nI, flags);
+                    CPBLK(&Acpy, &Ac, nP, nI, flags & ARMAS_ABSA);
                 } else {
                     armas_submatrix_unsafe(&Ac, A, ip, kp, nI, nP);
-                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags);
+                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags & ARMAS_ABSA);
                 }
 
                 armas_submatrix_unsafe(&Ca, C, ip, jp, nI, nJ);
@@ -157,10 +157,10 @@ int armas_mult_kernel_nc(
             armas_make(&Bcpy, nP, nJ, cache->ab_step, cache->Bcpy);
             if (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) {
                 armas_submatrix_unsafe(&Bc, B, jp, kp, nJ, nP);
-                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags);
+                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags & ARMAS_ABSB);
             } else {
                 armas_submatrix_unsafe(&Bc, B, kp, jp, nP, nJ);
-                CPBLK(&Bcpy, &Bc, nP, nJ, flags);
+                CPBLK(&Bcpy, &Bc, nP, nJ, flags & ARMAS_ABSB);
             }
 
             for (ip = 0; ip < C->rows; ip += cache->MB) {
@@ -168,10 +168,10 @@ int armas_mult_kernel_nc(
                 armas_make(&Acpy, nP, nI, cache->ab_step, cache->Acpy);
                 if (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) {
                     armas_submatrix_unsafe(&Ac, A, kp, ip, nP, nI);
-                    CPBLK(&Acpy, &Ac, nP, nI, flags);
+                    CPBLK(&Acpy, &Ac, nP, nI, flags & ARMAS_ABSA);
                 } else {
                     armas_submatrix_unsafe(&Ac, A, ip, kp, nI, nP);
-                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags);
+                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags & ARMAS_ABSA);
                 }
 
                 armas_submatrix_unsafe(&Ca, C, ip, jp, nI, nJ);
-- 
2.43.0


From 21f6ac66e178b946c00012b9cc7f2e77732f38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 002/208] fix: armas_mscale scales whole rows of the upper
 triangle

---
 src/blas/mscale.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..61d4cd7 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -137,9 +137,9 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
-            vec_scale(&C, alpha, C.rows);
+        for (c = 0; c < m->rows && c < m->cols-n; c++) {
+            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->cols-c-n);
+            vec_scale(&C, alpha, C.cols);
         }
         break;
 
-- 
2.43.0


From d50a81a570812aa18f1b4b779d1f65ecff0234c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 003/208] fix: armas_madd stays inside upper triangular and
 trapezoidal part

---
 src/blas/madd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..ff36843 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            armas_submatrix_unsafe(&C, A, 0, c, (c+1-n < A->rows ? c+1-n : A->rows), 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
-- 
2.43.0


From 340afa2e1ffd5877f7f850a1cdcab1803cc42dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 004/208] fix: recursive upper triangular update of odd size
 updates off-diagonal block once

---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..8721fd4 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From 45d6cb98cf47af501312603c48fbb84b380eb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 005/208] fix: symmetric product from right keeps packed blocks
 inside the cache areas

---
 src/blas/symm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..90ffabc 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -218,8 +218,12 @@ void armas_mult_symm_right(
     flags1 |= (flags & ARMAS_UPPER) != 0 ? 0 : ARMAS_TRANSB;
     flags2 |= (flags & ARMAS_UPPER) != 0 ? ARMAS_TRANSB : 0;
 
-    int mb = C->rows < mcache->MB ? C->rows : mcache->MB;
-    int nb = C->cols < mcache->NB ? C->cols : mcache->NB;
+    // copies of diagonal block and of B must fit to MB columns and to NB columns of the cache
+    int kb = mcache->MB < mcache->NB ? mcache->MB : mcache->NB;
+    if (kb > mcache->KB)
+        kb = mcache->KB;
+    int mb = C->rows < kb ? C->rows : kb;
+    int nb = C->cols < kb ? C->cols : kb;
     for (ic = 0; ic < C->cols; ic += nb) {
         nC = C->cols - ic < nb ? C->cols - ic : nb;
 
-- 
2.43.0


From 3bace8af4ca767809b6d298d503ae1945c84c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 006/208] fix: symmetric product from left keeps packed
 diagonal block inside the cache rows

---
 src/blas/symm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 90ffabc..b52deef 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -119,7 +119,10 @@ void armas_mult_symm_left(
         flags1 |= ARMAS_TRANSB;
         flags2 |= ARMAS_TRANSB;
     }
-    mb = C->rows < mcache->MB ? C->rows : mcache->MB;
+    // copy of diagonal block must fit to KB rows of the cache
+    mb = mcache->MB < mcache->KB ? mcache->MB : mcache->KB;
+    if (C->rows < mb)
+        mb = C->rows;
     nb = C->cols < mcache->NB ? C->cols : mcache->NB;
     for (i = 0; i < C->rows; i += mb) {
         nI = C->rows - i < mb ? C->rows - i : mb;
-- 
2.43.0


From 210144c6671052ba71ba4718f861202a3467f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 007/208] fix: matrix-vector product of absolute values starts
 at first element and covers all rows

---
 src/blas/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..fe24b60 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -79,7 +79,7 @@ void gemv_unb_abs(
 
     // Non-Transposed A here
 
-    y = &Y->elems[yinc];
+    y = &Y->elems[0*yinc];
     for (j = 0; j < A->cols-3; j += 4) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
@@ -104,7 +104,7 @@ void gemv_unb_abs(
     if (j < A->cols) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
-        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->cols);
+        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->rows);
     }
 }
 
-- 
2.43.0


From 56ba5374df9748429013b99bbd78fa257c64b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 008/208] fix: triangular rank update handles trapezoidal
 matrices

---
 src/blas/updtrmv.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..bb24551 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -43,10 +43,11 @@ void update_trmv_unb(
 {
     armas_dense_t a0, x0, y0;
     DTYPE dk;
+    int K = A->rows < A->cols ? A->rows : A->cols;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
-        for (int j = 0; j < A->rows; j++) {
+        for (int j = 0; j < K; j++) {
             armas_submatrix_unsafe(&a0, A, j, j, 1, A->cols-j);
             armas_subvector_unsafe(&y0, Y, j, A->cols-j);
             dk = armas_get_at_unsafe(X, j);
@@ -55,7 +56,7 @@ void update_trmv_unb(
         break;
     case ARMAS_LOWER:
     default:
-        for (int j = 0; j < A->cols; j++) {
+        for (int j = 0; j < K; j++) {
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
             armas_subvector_unsafe(&x0, X, j, A->rows-j);
             dk = armas_get_at_unsafe(Y, j);
@@ -76,6 +77,8 @@ void update_trmv_recursive(
 {
     armas_dense_t xT, xB, yT, yB;
     armas_dense_t ATL, ATR, ABL, ABR;
+    // split on the diagonal
+    int K = (A->rows < A->cols ? A->rows : A->cols)/2;
 
     if (min_mvec_size <= 0 ||
         A->rows < min_mvec_size || A->cols < min_mvec_size) {
@@ -85,13 +88,13 @@ void update_trmv_recursive(
 
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, K, K, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, K, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, K, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From 25dacffa68ef21e8d28dc5f0284ed5fa6f91e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 009/208] fix: recursive triangular solve applies alpha once to
 every block

---
 src/blas/trsm_rec.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..1a262f5 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 213342cd573ee5c9b423ebafb0259bd43ec8497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 010/208] fix: armas_iamin advances by the vector increment

---
 src/blas/iamax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/iamax.c b/src/blas/iamax.c
index dd639b3..0403ddf 100644
--- a/src/blas/iamax.c
+++ b/src/blas/iamax.c
@@ -126,9 +126,9 @@ int vec_iamin2(const armas_dense_t *X,  int N)
 
     xinc = X->rows == 1 ? X->step : 1;
     ep = X->elems;
-    min = ABS(*ep++);
+    min = ABS(*ep);
     ix = 0;
-    for (i = 1; i < N; ++i, ep += xinc) {
+    for (i = 1, ep += xinc; i < N; ++i, ep += xinc) {
         c0 = ABS(*ep);
         if (c0 < min) {
             ix = i;
-- 
2.43.0


From 0f2da9327938d3fc5cc218c8a3085627edbc6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 011/208] fix: armas_apply, apply2 and iterate stay inside
 upper trapezoidal part

---
 src/blas/mapply.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
-- 
2.43.0


From f8c3e44a73561a74f1c96960b9b5a455abb1bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 012/208] fix: armas_make_trm does not write unit diagonal
 below last row

---
 src/blas/mset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From dc08e8ae88fc28687b5d12895574e85dbe5cf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 013/208] fix: armas_mplus of one-element matrices applies
 alpha

---
 src/blas/mplus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mplus.c b/src/blas/mplus.c
index 1b2eac6..9502361 100644
--- a/src/blas/mplus.c
+++ b/src/blas/mplus.c
@@ -298,7 +298,7 @@ int armas_mplus(
 
     if (armas_size(A) == 0 || armas_size(B) == 0)
         return 0;
-    if (armas_size(B) == 1)
+    if (armas_size(B) == 1 && armas_size(A) != 1)
         return armas_madd(A, beta*armas_get_unsafe(B, 0, 0), flags, cf);
     if (armas_isvector(A) && armas_isvector(B))
         return armas_axpby(alpha, A, beta, B, cf);
-- 
2.43.0


From fda5ea13873366e2d87d9e2f1e835916c849f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 014/208] fix: strictly lower scaling and addition reach last
 column of trapezoidal matrix

---
 src/blas/madd.c   | 2 +-
 src/blas/mscale.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index ff36843..d270300 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -94,7 +94,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c+n < A->rows; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 61d4cd7..1e07017 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -146,7 +146,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c+n < m->rows; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From 0b15249dc65eca466c9693b8dbf10cf1a362be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 015/208] fix: computed cache blocks are non-empty and fit in
 the cache buffer

---
 src/base/cache.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..9b93eb1 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -150,6 +150,36 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
     }
 }
 
+/*
+ * Make block sizes usable: blocks hold at least one cache line of rows and 4 columns
+ * and one m-column block and nblk n-column blocks fit to S items.
+ */
+static
+void cbuf_fit_blocks(size_t *mb, size_t *nb, size_t *kb, size_t S, size_t clp, size_t nblk)
+{
+    size_t kmax, nmax, cols;
+
+    kmax = S/(4 + 4*nblk);
+    kmax -= kmax % clp;
+    if (*kb > kmax)
+        *kb = kmax;
+    if (*kb < clp)
+        *kb = clp;
+    if (*mb < 4)
+        *mb = 4;
+    if (*nb < 4)
+        *nb = 4;
+
+    cols = S/(*kb);
+    if (*mb + nblk*(*nb) > cols) {
+        nmax = ((cols - 4)/nblk) & ~0x3;
+        if (*nb > nmax)
+            *nb = nmax;
+        if (*mb > cols - nblk*(*nb))
+            *mb = (cols - nblk*(*nb)) & ~0x3;
+    }
+}
+
 /*
  * Divide buffer with size 'S' bytes to 2 blocks of size 'k*m' and 'k*n' items
  * where item size is 'p' bytes.
@@ -213,6 +243,7 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        cbuf_fit_blocks(&mn, &nn, &kn, S, clp, 1);
     }
     *mb = mn;
     *nb = nn;
@@ -334,6 +365,10 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        cbuf_fit_blocks(&mn, &nn, &kn, S, clp, 2);
+        // require mn <= kn
+        if (mn > kn)
+            mn = kn & ~0x3;
     }
     *mb = mn;
     *nb = nn;
-- 
2.43.0


From 3c171912b5a906711856619ae39e6be61fd86c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 016/208] fix: fixed block sizes are used only if they fit the
 cache buffer

---
 src/base/cache.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 9b93eb1..03746e2 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -260,8 +260,8 @@ static
 int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    size_t step = kb > (CACHELINE/p) ? kb - kb % (CACHELINE/p) : (CACHELINE/p);
+    if (mb < 4 || nb < 4 || step*p > cbuf->len || mb + nb > cbuf->len/(step*p)) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -390,8 +390,8 @@ static
 int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    size_t step = kb > (CACHELINE/p) ? kb - kb % (CACHELINE/p) : (CACHELINE/p);
+    if (mb < 4 || nb < 4 || mb > step || step*p > cbuf->len || mb + 2*nb > cbuf->len/(step*p)) {
         return -1;
     }
     if (kb > (CACHELINE/p))
-- 
2.43.0


From 95a6eda4640053b9c4c193ac5cac06fcf829c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 017/208] fix: recursion thresholds below two are ignored

---
 src/base/env.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..7d7d2a4 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -94,11 +94,13 @@ void armas_read_environment()
                 __env_config.lb = val;
             break;
         case 4:
-            if (val > 0)
+            // recursion needs at least two elements to split
+            if (val > 1)
                 __env_config.blas1min = val;
             break;
         case 5:
-            if (val > 0)
+            // recursion needs at least two elements to split
+            if (val > 1)
                 __env_config.blas2min = val;
             break;
         case 6:
-- 
2.43.0


From c7688c09f3ef1e29361018ff86ae23f40bffc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 018/208] fix: recursive rank-2k update ends at single element
 for blocking size one

---
 src/blas/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..0b10eba 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (A->rows < minblock || A->rows < 2) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (A->rows < minblock || A->rows < 2) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
-- 
2.43.0


From ac00d673963356e0a49f95a7dd9cda5761fdc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 019/208] fix: row and column pivoting record the size error

---
 src/base/pivot.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index 342c7e7..d8c8433 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -231,10 +231,12 @@ void apply_col_pivots(armas_dense_t * A, armas_pivot_t * P,
 int armas_pivot_rows(armas_dense_t * A, armas_pivot_t * P, int flags,
                        armas_conf_t * conf)
 {
-    if (A->rows < P->npivots)
-        return -1;
     if (!conf)
         conf = armas_conf_default();
+    if (A->rows < P->npivots) {
+        conf->error = ARMAS_ESIZE;
+        return -1;
+    }
 
     apply_row_pivots(A, P, flags, conf);
     return 0;
@@ -248,10 +250,12 @@ int armas_pivot_rows(armas_dense_t * A, armas_pivot_t * P, int flags,
 int armas_pivot_cols(armas_dense_t * A, armas_pivot_t * P, int flags,
                        armas_conf_t * conf)
 {
-    if (A->cols < P->npivots)
-        return -1;
     if (!conf)
         conf = armas_conf_default();
+    if (A->cols < P->npivots) {
+        conf->error = ARMAS_ESIZE;
+        return -1;
+    }
 
     apply_col_pivots(A, P, flags, conf);
     return 0;
-- 
2.43.0


From 619405fc64e21a4a9829e54ef4e07ae94933c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 020/208] fix: transposed LU solve applies U then L then pivots

---
 src/lapack/lu.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..6e28b6f 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -351,18 +351,20 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; X = A.-T*B == (U.T*L.T*P).-1*B == P.T*(L.-T*(U.-T*B))
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From 7bd7250069c116d54b73489eba3571d1065c19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 021/208] fix: LU factorization reports every zero pivot

---
 src/lapack/lu.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 6e28b6f..2983a86 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -36,6 +36,7 @@ static
 int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    int err = 0;
     DTYPE a11val;
 
     EMPTY(A00);
@@ -52,7 +53,12 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
         // ---------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        armas_scale(&a21, ONE/a11val, conf);
+        if (a11val == ZERO) {
+            conf->error = ARMAS_ESINGULAR;
+            err = -1;
+        } else {
+            armas_scale(&a21, ONE/a11val, conf);
+        }
 
         // A22 = A22 - a21*a12
         armas_mvupdate(ONE, &A22, -ONE, &a21, &a12, conf);
@@ -61,13 +67,14 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
             &ATL, __nil,
             __nil, &ABR, /**/ &A00, &a11, &A22, A, ARMAS_PBOTTOMRIGHT);
     }
-    return 0;
+    return err;
 }
 
 static
 int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, A11, A12, A21, A22;
+    int err = 0;
 
     EMPTY(A00);
 
@@ -82,7 +89,8 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
             __nil, &A21, &A22, /**/ A, lb, ARMAS_PBOTTOMRIGHT);
         // ---------------------------------------------------------------------
         // A11 = LU(A11)
-        unblk_lufactor_nopiv(&A11, conf);
+        if (unblk_lufactor_nopiv(&A11, conf) < 0)
+            err = -1;
         // A12 = trilu(A11)*A12.-1
         armas_solve_trm(&A12, ONE, &A11,
                           ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, conf);
@@ -98,9 +106,10 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 
     // last block with unblocked 
     if (ABR.rows > 0 && ABR.cols > 0) {
-        unblk_lufactor_nopiv(&ABR, conf);
+        if (unblk_lufactor_nopiv(&ABR, conf) < 0)
+            err = -1;
     }
-    return 0;
+    return err;
 }
 
 /*
@@ -145,7 +154,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +245,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From 7c21a3137ea8279d01cef0524b90ea2bd7bc0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 022/208] fix: products do not pick up stale values beyond the
 packed blocks

---
 src/include/x86_64/mult_avx_f64.h | 105 +++++++++++++++---------------
 src/include/x86_64/mult_fma_f64.h | 105 +++++++++++++++---------------
 2 files changed, 108 insertions(+), 102 deletions(-)

diff --git a/src/include/x86_64/mult_avx_f64.h b/src/include/x86_64/mult_avx_f64.h
index 76f2c7e..a65e847 100644
--- a/src/include/x86_64/mult_avx_f64.h
+++ b/src/include/x86_64/mult_avx_f64.h
@@ -42,6 +42,9 @@ static const uint64_t __masks_pd[4][4] __attribute__((aligned(64))) = {
   {     0,      0, __hb64, __hb64},
   {     0,      0,      0, __hb64}};
 
+// entries past the last row of the packed blocks are undefined
+#define mm_tail(x) _mm256_blendv_pd(x, Z, M)
+
 // don't use six column versions; 
 #define HAVE_6COL 0
 
@@ -73,12 +76,12 @@ void __mult1c6(double *c0, double *c1, double *c2, double *c3, double *c4, doubl
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
-  y4 += _mm256_mul_pd(A0, mm_load_B(&b4[k]));
-  y5 += _mm256_mul_pd(A0, mm_load_B(&b5[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
+  y2 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b2[k])));
+  y3 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b3[k])));
+  y4 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b4[k])));
+  y5 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b5[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -130,19 +133,19 @@ void __mult2c6(double *c0, double *c1, double *c2, double *c3, double *c4, doubl
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
-  y4 += _mm256_mul_pd(A0, mm_load_B(&b4[k]));
-  y5 += _mm256_mul_pd(A0, mm_load_B(&b5[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
+  y2 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b2[k])));
+  y3 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b3[k])));
+  y4 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b4[k])));
+  y5 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b5[k])));
 
-  y6  += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y7  += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
-  y8  += _mm256_mul_pd(A1, mm_load_B(&b2[k]));
-  y9  += _mm256_mul_pd(A1, mm_load_B(&b3[k]));
-  y10 += _mm256_mul_pd(A1, mm_load_B(&b4[k]));
-  y11 += _mm256_mul_pd(A1, mm_load_B(&b5[k]));
+  y6  += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b0[k])));
+  y7  += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b1[k])));
+  y8  += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b2[k])));
+  y9  += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b3[k])));
+  y10 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b4[k])));
+  y11 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b5[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -185,10 +188,10 @@ void __mult1c4(double *c0, double *c1, double *c2, double *c3,
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
+  y2 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b2[k])));
+  y3 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b3[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -234,15 +237,15 @@ void __mult2c4(double *c0, double *c1, double *c2, double *c3,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
+  y2 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b2[k])));
+  y3 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b3[k])));
 
-  y4 += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y5 += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
-  y6 += _mm256_mul_pd(A1, mm_load_B(&b2[k]));
-  y7 += _mm256_mul_pd(A1, mm_load_B(&b3[k]));
+  y4 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b0[k])));
+  y5 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b1[k])));
+  y6 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b2[k])));
+  y7 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b3[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -281,8 +284,8 @@ void __mult1c2(double *c0, double *c1,
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -323,10 +326,10 @@ void __mult2c2(double *c0, double *c1,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y3 += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b0[k])));
+  y1 += _mm256_mul_pd(A0, mm_tail(mm_load_B(&b1[k])));
+  y2 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b0[k])));
+  y3 += _mm256_mul_pd(A1, mm_tail(mm_load_B(&b1[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -354,7 +357,7 @@ void __mult1c1(double *c, const double *a, const double *b, double alpha, int nR
   A = mm_load_A(&a[k]);
   A = _mm256_blendv_pd(A, Z, M);
 
-  y0 += _mm256_mul_pd(A, mm_load_B(&b[k]));
+  y0 += _mm256_mul_pd(A, mm_tail(mm_load_B(&b[k])));
 
 update:
   c[0] += alpha*hsum_f64x4(y0);
@@ -391,10 +394,10 @@ void __mult4c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_pd(B0, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a0[k])));
+  y1 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a1[k])));
+  y2 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a2[k])));
+  y3 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a3[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -440,14 +443,14 @@ void __mult4c2(double *c0, double *c1,
   B0 = _mm256_blendv_pd(B0, Z, M);
   B1 = _mm256_blendv_pd(B1, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_pd(B0, mm_load_A(&a3[k]));
-  y4 += _mm256_mul_pd(B1, mm_load_A(&a0[k]));
-  y5 += _mm256_mul_pd(B1, mm_load_A(&a1[k]));
-  y6 += _mm256_mul_pd(B1, mm_load_A(&a2[k]));
-  y7 += _mm256_mul_pd(B1, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a0[k])));
+  y1 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a1[k])));
+  y2 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a2[k])));
+  y3 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a3[k])));
+  y4 += _mm256_mul_pd(B1, mm_tail(mm_load_A(&a0[k])));
+  y5 += _mm256_mul_pd(B1, mm_tail(mm_load_A(&a1[k])));
+  y6 += _mm256_mul_pd(B1, mm_tail(mm_load_A(&a2[k])));
+  y7 += _mm256_mul_pd(B1, mm_tail(mm_load_A(&a3[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -487,8 +490,8 @@ void __mult2c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
+  y0 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a0[k])));
+  y1 += _mm256_mul_pd(B0, mm_tail(mm_load_A(&a1[k])));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
diff --git a/src/include/x86_64/mult_fma_f64.h b/src/include/x86_64/mult_fma_f64.h
index 7d50da6..1d570f3 100644
--- a/src/include/x86_64/mult_fma_f64.h
+++ b/src/include/x86_64/mult_fma_f64.h
@@ -39,6 +39,9 @@ static const uint64_t __masks_pd[4][4] __attribute__((aligned(64))) = {
   {     0,      0, __hb64, __hb64},
   {     0,      0,      0, __hb64}};
 
+// entries past the last row of the packed blocks are undefined
+#define mm_tail(x) _mm256_blendv_pd(x, Z, M)
+
 // Use six column version when FMA instructions available
 #define HAVE_6COL 1
 
@@ -73,12 +76,12 @@ void __mult1c6(double *c0, double *c1, double *c2, double *c3,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
-  y4 = _mm256_fmadd_pd(A0, mm_load_B(&b4[k]), y4);
-  y5 = _mm256_fmadd_pd(A0, mm_load_B(&b5[k]), y5);
+  y0 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
+  y2 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b2[k])), y2);
+  y3 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b3[k])), y3);
+  y4 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b4[k])), y4);
+  y5 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b5[k])), y5);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -129,19 +132,19 @@ void __mult2c6(double *c0, double *c1, double *c2, double *c3,
   A0  = _mm256_blendv_pd(A0, Z, M);
   A1  = _mm256_blendv_pd(A1, Z, M);
 
-  y0  = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1  = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2  = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3  = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
-  y4  = _mm256_fmadd_pd(A0, mm_load_B(&b4[k]), y4);
-  y5  = _mm256_fmadd_pd(A0, mm_load_B(&b5[k]), y5);
+  y0  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
+  y2  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b2[k])), y2);
+  y3  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b3[k])), y3);
+  y4  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b4[k])), y4);
+  y5  = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b5[k])), y5);
   
-  y6  = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y6);
-  y7  = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y7);
-  y8  = _mm256_fmadd_pd(A1, mm_load_B(&b2[k]), y8);
-  y9  = _mm256_fmadd_pd(A1, mm_load_B(&b3[k]), y9);
-  y10 = _mm256_fmadd_pd(A1, mm_load_B(&b4[k]), y10);
-  y11 = _mm256_fmadd_pd(A1, mm_load_B(&b5[k]), y11);
+  y6  = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b0[k])), y6);
+  y7  = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b1[k])), y7);
+  y8  = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b2[k])), y8);
+  y9  = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b3[k])), y9);
+  y10 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b4[k])), y10);
+  y11 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b5[k])), y11);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -186,10 +189,10 @@ void __mult1c4(double *c0, double *c1, double *c2, double *c3,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
+  y2 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b2[k])), y2);
+  y3 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b3[k])), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -235,15 +238,15 @@ void __mult2c4(double *c0, double *c1, double *c2, double *c3,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
+  y2 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b2[k])), y2);
+  y3 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b3[k])), y3);
 
-  y4 = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y4);
-  y5 = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y5);
-  y6 = _mm256_fmadd_pd(A1, mm_load_B(&b2[k]), y6);
-  y7 = _mm256_fmadd_pd(A1, mm_load_B(&b3[k]), y7);
+  y4 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b0[k])), y4);
+  y5 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b1[k])), y5);
+  y6 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b2[k])), y6);
+  y7 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b3[k])), y7);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -282,8 +285,8 @@ void __mult1c2(double *c0, double *c1,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
+  y0 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -324,10 +327,10 @@ void __mult2c2(double *c0, double *c1,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y2);
-  y3 = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b0[k])), y0);
+  y1 = _mm256_fmadd_pd(A0, mm_tail(mm_load_B(&b1[k])), y1);
+  y2 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b0[k])), y2);
+  y3 = _mm256_fmadd_pd(A1, mm_tail(mm_load_B(&b1[k])), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -355,7 +358,7 @@ void __mult1c1(double *c, const double *a, const double *b, double alpha, int nR
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A = _mm256_blendv_pd(A, Z, M);
 
-  y0 = _mm256_fmadd_pd(A, mm_load_B(&b[k]), y0);
+  y0 = _mm256_fmadd_pd(A, mm_tail(mm_load_B(&b[k])), y0);
 
 update:
   c[0] += alpha*hsum_f64x4(y0);
@@ -392,10 +395,10 @@ void __mult4c1(double *c0,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_pd(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_pd(B0, mm_load_A(&a3[k]), y3);
+  y0 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a0[k])), y0);
+  y1 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a1[k])), y1);
+  y2 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a2[k])), y2);
+  y3 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a3[k])), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -441,14 +444,14 @@ void __mult4c2(double *c0, double *c1,
   B0 = _mm256_blendv_pd(B0, Z, M);
   B1 = _mm256_blendv_pd(B1, Z, M);
 
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_pd(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_pd(B0, mm_load_A(&a3[k]), y3);
-  y4 = _mm256_fmadd_pd(B1, mm_load_A(&a0[k]), y4);
-  y5 = _mm256_fmadd_pd(B1, mm_load_A(&a1[k]), y5);
-  y6 = _mm256_fmadd_pd(B1, mm_load_A(&a2[k]), y6);
-  y7 = _mm256_fmadd_pd(B1, mm_load_A(&a3[k]), y7);
+  y0 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a0[k])), y0);
+  y1 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a1[k])), y1);
+  y2 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a2[k])), y2);
+  y3 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a3[k])), y3);
+  y4 = _mm256_fmadd_pd(B1, mm_tail(mm_load_A(&a0[k])), y4);
+  y5 = _mm256_fmadd_pd(B1, mm_tail(mm_load_A(&a1[k])), y5);
+  y6 = _mm256_fmadd_pd(B1, mm_tail(mm_load_A(&a2[k])), y6);
+  y7 = _mm256_fmadd_pd(B1, mm_tail(mm_load_A(&a3[k])), y7);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -487,8 +490,8 @@ void __mult2c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   B0 = _mm256_blendv_pd(B0, Z, M);
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
+  y0 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a0[k])), y0);
+  y1 = _mm256_fmadd_pd(B0, mm_tail(mm_load_A(&a1[k])), y1);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
-- 
2.43.0


From a82a91f9453e5502d578ca6108e76ceb060c3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 023/208] fix: lower Cholesky factorization reports a zero
 pivot

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From 301c81d9b8326dab5dac6636031afbb19582016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 024/208] fix: rank deficient pivoting Cholesky applies only
 the pivots it has set

---
 src/lapack/cholpv.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 7a6605a..239b515 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -219,7 +219,7 @@ int blk_cholpv_lower(armas_dense_t * A, armas_dense_t * W,
                      armas_conf_t * cf)
 {
     armas_dense_t ATL, ABL, ABR, A00, A11, A21, A22, D;
-    armas_pivot_t pT, pB, p0, p1, p2;
+    armas_pivot_t pT, pB, p0, p1, p2, pk;
     int k, e, np;
 
     EMPTY(A00);
@@ -243,8 +243,10 @@ int blk_cholpv_lower(armas_dense_t * A, armas_dense_t * W,
         // if non-zero then stopping criteria satisfied with
         e = unblk_cholpv_lower_ncol(&ABR, &D, &p1, xstop, A11.cols, cf);
         // partial pivot of rows on left side; update pivot indexes;
-        armas_pivot(&ABL, &p1, ARMAS_PIVOT_ROWS|ARMAS_PIVOT_FORWARD, cf);
         np = e < A11.cols ? e : A11.cols;
+        // pivots after the stop are not set
+        subpivot(&pk, &p1, 0, np);
+        armas_pivot(&ABL, &pk, ARMAS_PIVOT_ROWS|ARMAS_PIVOT_FORWARD, cf);
         for (k = 0; k < np; k++) {
             armas_pivot_set_unsafe(&p1, k,
                                    armas_pivot_get_unsafe(&p1, k) + ATL.rows);
@@ -265,8 +267,10 @@ int blk_cholpv_lower(armas_dense_t * A, armas_dense_t * W,
     if (ABR.cols > 0) {
         e = unblk_cholpv_lower(&ABR, &pB, xstop, cf);
         // pivot left side
-        armas_pivot(&ABL, &pB, ARMAS_PIVOT_ROWS|ARMAS_PIVOT_FORWARD, cf);
         np = e < ABR.cols ? e : ABR.cols;
+        // pivots after the stop are not set
+        subpivot(&pk, &pB, 0, np);
+        armas_pivot(&ABL, &pk, ARMAS_PIVOT_ROWS|ARMAS_PIVOT_FORWARD, cf);
         for (k = 0; k < np; k++) {
             armas_pivot_set_unsafe(&pB, k,
                                    armas_pivot_get_unsafe(&pB, k) + ATL.rows);
@@ -444,7 +448,7 @@ int blk_cholpv_upper(armas_dense_t * A, armas_dense_t * W,
                      armas_conf_t * cf)
 {
     armas_dense_t ATL, ATR, ABR, A00, A11, A12, A22, D;
-    armas_pivot_t pT, pB, p0, p1, p2;
+    armas_pivot_t pT, pB, p0, p1, p2, pk;
     int k, e, np;
 
     EMPTY(A00);
@@ -469,8 +473,10 @@ int blk_cholpv_upper(armas_dense_t * A, armas_dense_t * W,
 
         e = unblk_cholpv_upper_ncol(&ABR, &D, &p1, xstop, A11.cols, cf);
         // pivot colums above; update pivot indexes
-        armas_pivot(&ATR, &p1, ARMAS_PIVOT_COLS | ARMAS_PIVOT_FORWARD, cf);
         np = e < A11.cols ? e : A11.cols;
+        // pivots after the stop are not set
+        subpivot(&pk, &p1, 0, np);
+        armas_pivot(&ATR, &pk, ARMAS_PIVOT_COLS | ARMAS_PIVOT_FORWARD, cf);
         for (k = 0; k < np; k++) {
             armas_pivot_set_unsafe(&p1, k,
                                    armas_pivot_get_unsafe(&p1, k) + ATL.rows);
@@ -488,8 +494,10 @@ int blk_cholpv_upper(armas_dense_t * A, armas_dense_t * W,
     }
     if (ABR.cols > 0) {
         e = unblk_cholpv_upper(&ABR, &pB, xstop, cf);
-        armas_pivot(&ATR, &pB, ARMAS_PIVOT_COLS | ARMAS_PIVOT_FORWARD, cf);
         np = e < ABR.cols ? e : ABR.cols;
+        // pivots after the stop are not set
+        subpivot(&pk, &pB, 0, np);
+        armas_pivot(&ATR, &pk, ARMAS_PIVOT_COLS | ARMAS_PIVOT_FORWARD, cf);
         for (k = 0; k < np; k++) {
             armas_pivot_set_unsafe(&pB, k,
                                    armas_pivot_get_unsafe(&pB, k) + ATL.rows);
-- 
2.43.0


From 040edbdca55bf1b99d2c6c840a001f99dcdf56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 025/208] fix: rank deficient Cholesky solve undoes its
 pivoting

---
 src/lapack/cholpv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 239b515..fe51232 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -609,7 +609,7 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
                          armas_pivot_t * P, int flags, armas_conf_t * cf)
 {
     armas_dense_t BT, BB, Ac;
-    int pivot1_dir, pivot2_dir;
+    int k, pivot1_dir;
     if (!cf)
         cf = armas_conf_default();
 
@@ -622,7 +622,6 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
     }
 
     pivot1_dir = ARMAS_PIVOT_FORWARD;
-    pivot2_dir = ARMAS_PIVOT_BACKWARD;
 
     armas_pivot(B, P, ARMAS_PIVOT_ROWS | pivot1_dir, cf);
 
@@ -655,7 +654,10 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
             &BT, ONE, &Ac, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANS, cf);
     }
 
-    armas_pivot(B, P, ARMAS_PIVOT_ROWS | pivot2_dir, cf);
+    // undo pivoting; there are less pivots than rows if not full rank
+    for (k = P->npivots - 1; k >= 0; k--) {
+        swap_rows(B, k, armas_pivot_get(P, k) - 1, cf);
+    }
 
     return 0;
 }
-- 
2.43.0


From 6ea4ebfa81a40aea87d482509f40e0d77babfa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 026/208] fix: scale a single row or column by a diagonal along
 the named side

armas_mult_diag and armas_solve_diag took every vector shaped operand for an
elementwise product and refused it when the sizes differed, so that the solvers
left a one-row right hand side undivided (armas_ldlsolve with a 1x1 matrix).
---
 src/lapack/diag.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..b4c81dd 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,11 +64,7 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -147,11 +143,7 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
-- 
2.43.0


From 219fb0d0b8d1952832f7d011a2155c0309a78697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 027/208] fix: no blocked Bunch-Kaufman factorization with
 blocking factor less than four

A blocking factor of one leaves no room for a 2x2 diagonal block and
armas_bkfactor looped forever on the first one it met; with two and three the
inverse of the diagonal block and the panel shared elements of the workspace
and the factorization was wrong.
---
 src/lapack/ldlbk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..5e6bf8d 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -159,7 +159,8 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         armas_pivot_set(P, k, 0);
     }
 
-    if (lb == 0 || A->cols <= lb) {
+    // blocked version needs room for 2x2 diagonal blocks and their inverse
+    if (lb < 4 || A->cols <= lb) {
         armas_make(&Wrk, A->rows, 2, A->rows, armas_wptr(wb));
         if (flags & ARMAS_UPPER) {
             armas_unblk_bkfactor_upper(A, &Wrk, P, conf);
-- 
2.43.0


From 77fe793b541fca63dc460c1ed1488fda87857b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 028/208] fix: inverse from pivoted LDL factorization checks
 the size of the pivot vector

---
 src/lapack/invldl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/invldl.c b/src/lapack/invldl.c
index 9134c41..8712cd7 100644
--- a/src/lapack/invldl.c
+++ b/src/lapack/invldl.c
@@ -324,7 +324,8 @@ int armas_ldlinverse_w(armas_dense_t * A, const armas_pivot_t * P,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols
+        || (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 7513048d47b2f9321203bc8a57bb33abd50c3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 029/208] fix: lqsolve workspace minimum is by columns of B, as
 the size query returns

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 816c775cf86a09c79d4faaafc4a786a47c83a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 030/208] fix: lqbuild and rqbuild choose blocked version by
 row count

---
 src/lapack/lqbld.c | 2 +-
 src/lapack/rqbld.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..2c90068 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..280d91f 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -281,7 +281,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     if (lb > 0 && A->rows > lb) {
         wsz /= sizeof(DTYPE);
         if (wsz < A->rows * lb) {
-            lb = (wsz / A->cols) & ~0x3;
+            lb = (wsz / A->rows) & ~0x3;
             if (lb < ARMAS_BLOCKING_MIN)
                 lb = 0;
         }
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From 69499c42bbd67810357b7d564d8a702596433efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 031/208] fix: qrtfactor block partitioning and reflector of
 earlier columns

---
 src/lapack/qrt.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..2a393e9 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,11 +68,14 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -107,7 +110,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
@@ -253,7 +256,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 6afe6df80acb6d9c15d120538d6611f2a1153e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 032/208] fix: block reflector columns are set when a scalar
 factor is zero

---
 src/lapack/lq.c | 5 ++++-
 src/lapack/ql.c | 5 ++++-
 src/lapack/qr.c | 5 ++++-
 src/lapack/rq.c | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..b46151e 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -266,14 +266,17 @@ int armas_unblk_lq_reflector(armas_dense_t * T, armas_dense_t * A,
             &tT, &t0, &t1, &t2, /**/ tau, 1, ARMAS_PBOTTOM);
         // ---------------------------------------------------------------------
         tauval = armas_get(&t1, 0, 0);
+        armas_set(&t11, 0, 0, tauval);
         if (tauval != 0.0) {
-            armas_set(&t11, 0, 0, tauval);
             // t01 := -tauval*(a01.T + &A02.T*a21)
             armas_axpby(ZERO, &t01, ONE, &a01, conf);
             armas_mvmult(-tauval, &t01, -tauval, &A02, &a12, ARMAS_NONE,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 2a34ede..09fb37d 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -309,14 +309,17 @@ int armas_unblk_ql_reflector(armas_dense_t * T, armas_dense_t * A,
             &tT, &t0, &t1, &t2, /**/ tau, 1, ARMAS_PTOP);
         // ---------------------------------------------------------------------
         tauval = armas_get(&t1, 0, 0);
+        armas_set(&t11, 0, 0, tauval);
         if (tauval != ZERO) {
-            armas_set(&t11, 0, 0, tauval);
             // t21 := -tauval*(a12.T + &A02.T*a01)
             armas_axpby(ZERO, &t21, ONE, &a12, conf);
             armas_mvmult(-tauval, &t21, -tauval, &A02, &a01, ARMAS_TRANSA,
                            conf);
             // t21 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t21, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index af18514..2eaea4c 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -292,14 +292,17 @@ int armas_unblk_qr_reflector(armas_dense_t * T, armas_dense_t * A,
             &tT, &t0, &t1, &t2, /**/ tau, 1, ARMAS_PBOTTOM);
         // ---------------------------------------------------------------------
         tauval = armas_get(&t1, 0, 0);
+        armas_set(&t11, 0, 0, tauval);
         if (tauval != 0.0) {
-            armas_set(&t11, 0, 0, tauval);
             // t01 := -tauval*(a10.T + &A20.T*a21)
             armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01, -tauval, &A20, &a21, ARMAS_TRANSA,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5150488..6d37a20 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -310,14 +310,17 @@ int armas_unblk_rq_reflector(armas_dense_t * T, armas_dense_t * A,
             &tT, &t0, &t1, &t2, /**/ tau, 1, ARMAS_PTOP);
         // ---------------------------------------------------------------------
         tauval = armas_get(&t1, 0, 0);
+        armas_set(&t11, 0, 0, tauval);
         if (tauval != 0.0) {
-            armas_set(&t11, 0, 0, tauval);
             // t21 := -tauval*(a21 + &A20*a10)
             armas_axpby(ZERO, &t21, ONE, &a21, conf);
             armas_mvmult(-tauval, &t21, -tauval, &A20, &a10, ARMAS_NONE,
                            conf);
             // t01 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t21, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 6c931f22d2618de0ac1dd8780103a95816b264eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 033/208] fix: lqreflector checks reflector size against row
 count of A

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index b46151e..957099c 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -313,7 +313,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From e4b734598e9e03d6de6882b11e44fddda51023f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 034/208] fix: hessenberg block reflector column is cleared
 when the scalar factor is zero

---
 src/lapack/hess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..5d4652d 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,9 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // H(k) is the identity
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 49dbe85035260fb0dee2a3aa1984a18660375212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 035/208] fix: trdreduce refuses a scalar vector of wrong size

---
 src/lapack/trired.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..2fbd0f2 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 96dfca5c233d01b939f3561614846c427d417490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 036/208] fix: gvleft and gvright stay inside the matrix

---
 src/lapack/givens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..d65b08e 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
-- 
2.43.0


From 79ce9d3823d5e618a9715033f6168c957e76d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 037/208] fix: gvupdate stays inside the matrix and returns the
 number of rotations applied

---
 src/lapack/givens.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index d65b08e..94a5be1 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-1-start) for left and
+ *      min(nrot, A->cols-1-start) for right.
  *
  * @ingroup lapack
  */
@@ -234,16 +234,16 @@ int armas_gvupdate(armas_dense_t * A, int start,
 
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            end = min(A->rows - 1, end);
+            for (k = end, n = end - start; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            end = min(A->cols - 1, end);
+            for (k = end, n = end - start; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
@@ -253,7 +253,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
+            end = min(A->rows - 1, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -261,7 +261,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
+            end = min(A->cols - 1, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -270,7 +270,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return end > start ? end - start : 0;
 }
 
 
-- 
2.43.0


From 7848f731ed12401fef23d7a45830fe95284328b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 038/208] fix: solve_diag multiplies with alpha

---
 src/lapack/diag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index b4c81dd..b3b446f 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -164,9 +164,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -179,9 +179,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     }
-- 
2.43.0


From a5a8e1b6af1fdbe4cae4b79e9ddc6d6c6dd56a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 039/208] fix: quicksort of vectors with equal elements

---
 src/lapack/qsort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..99f2322 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,14 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +114,14 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 6c2ffb215ecaa245c26b53c30ec0b42941f96e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 040/208] fix: abs_sort_vec keeps the signs of elements

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From f6a54c2c2c7ce92034b7d000993956f2cff3e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 041/208] fix: inverse_trm of unit diagonal matrix

---
 src/lapack/invtrm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 0659c46..2689629 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -72,7 +72,7 @@ int unblk_inverse_upper(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a01 = -a11val*A00*a01
-        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER, conf);
+        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
@@ -155,7 +155,7 @@ int unblk_inverse_lower(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a21 = -a11val*A22*a21
-        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER, conf);
+        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
-- 
2.43.0


From cc60c9a46e96ca8ce70158b267c530216b2255db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 042/208] fix: butterfly products stay inside matrices smaller
 than the padded size

---
 src/lapack/rbtgm.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..a405425 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -62,6 +62,8 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+        if (nb > A->rows)
+            nb = A->rows;
         rb = A->rows - nb;
     }
 
@@ -191,11 +193,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+        if (nb > A->cols)
+            nb = A->cols;
         rb = A->cols - nb;
     }
 
     if (flags & ARMAS_TRANS) {
-        j = 0;
         for (i = 0; i < A->rows; i++) {
             for (j = 0; j < rb; j++) {
                 r0 = armas_get_at_unsafe(R, j);
@@ -205,12 +208,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < nb; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < nb; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
-- 
2.43.0


From da42bda7cec66aefba7b0ac44edd167905c4c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 043/208] fix: order of butterflies in product from right

---
 src/lapack/rbtgm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index a405425..9cba3ed 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -263,7 +263,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
     Nd = (A->cols + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
     k = twod >> 1;
-    if (flags & ARMAS_TRANS) {
+    if (!(flags & ARMAS_TRANS)) {
         pdir = ARMAS_PLEFT;
         rdir = ARMAS_PRIGHT;
         lb = Nd = Nd / k;
@@ -297,7 +297,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         }
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
-        if (flags & ARMAS_TRANS) {
+        if (!(flags & ARMAS_TRANS)) {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
-- 
2.43.0


From 9147671740be8b7e7d972dad4f29f59c7857ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 044/208] fix: butterfly update stays inside blocks smaller
 than half of the padded size

---
 src/lapack/rbtgu.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..4a2e390 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -76,6 +76,10 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
     lb = Nd / 2;
     mb = A->rows - lb;
     nb = A->cols - lb;
+    if (mb < 0)
+        mb = 0;
+    if (nb < 0)
+        nb = 0;
     for (j = 0; j < nb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         s1 = armas_get_at_unsafe(S, j + lb);
@@ -96,7 +100,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +109,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < lb && j < A->cols; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +120,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
-- 
2.43.0


From 957540368accc4d5df36d2042e42901ff0da135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 045/208] fix: roots of quadratic equation when complex or both
 zero

---
 src/lapack/qdroot.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..db687e3 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -140,14 +140,15 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
     if (d < 0.0) {
         r = b / a;
         s = SQRT(ABS(d)) / a;
-        *x1 = -r / 2.0;
-        *x2 = s / 2.0;
+        // complex: real and imaginary part
+        *x1 = r;
+        *x2 = s;
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
     s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
     *x1 = s / a;
-    *x2 = c / s;
+    *x2 = s == ZERO ? ZERO : c / s;
     return 0;
 }
 
-- 
2.43.0


From 82db3ca07a6f0026056ae6b33ca9cc399e1ac2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 046/208] fix: householder reflector of vector with zero tail

---
 src/lapack/house.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..0cf6972 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -103,6 +103,12 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
     normx = armas_nrm2(x, cf);
     if (normx == 0.0) {
         armas_set(tau, 0, 0, 0.0);
+        alpha = armas_get_unsafe(a11, 0, 0);
+        if ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG)) == ARMAS_NONNEG && alpha < 0.0) {
+            // H = I - 2*e_0*e_0^T
+            armas_set(tau, 0, 0, 2.0);
+            armas_set_unsafe(a11, 0, 0, -alpha);
+        }
         return 0;
     }
 
@@ -185,7 +191,11 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
 
     normx = armas_nrm2(x1, cf);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        // H is I or I - 2*e_0*e_0^T
+        x0val = armas_get_unsafe(x0, 0, 0);
+        beta = (flags & ARMAS_NONNEG) != 0 && x0val < 0.0 ? -x0val : x0val;
+        armas_set_unsafe(tau, 0, 0, beta);
+        armas_set_unsafe(x0, 0, 0, beta == x0val ? 0.0 : 1.0);
         return 0;
     }
 
-- 
2.43.0


From 06621529c74a59d5a1192a1152f9db0ea2fb848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 047/208] fix: houseapply takes reflector of the order of the
 side it is applied to

---
 src/lapack/house.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 0cf6972..474301b 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -490,8 +490,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from right and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -512,7 +512,7 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    int scaled = tau ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -541,17 +541,17 @@ int armas_houseapply(armas_dense_t * A,
     int ok = 0;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < ((flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols)) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
@@ -570,12 +570,16 @@ int armas_houseapply(armas_dense_t * A,
         }
         armas_make(
             &w1, armas_size(&a1), 1, armas_size(&a1), armas_data(w));
+        if ((flags & ARMAS_RIGHT) == 0)
+            flags |= ARMAS_LEFT;
         return armas_apply_householder2x1(tau, v, &a1, &A2, &w1, flags, cf);
     }
     // unscaled householder reflector here
     int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
     armas_make(&w1, n, 1, n, armas_data(w));
     // tau is null pointer here
+    if ((flags & ARMAS_RIGHT) == 0)
+        flags |= ARMAS_LEFT;
     return armas_apply_householder1x1(tau, v, A, &w1, flags, cf);
 }
 
-- 
2.43.0


From c1555c6a6c3c36c4cddaae10ad57e442b56a69e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 048/208] fix: housemult workspace size when multiplying from
 left by default

---
 src/lapack/housem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..f3c132a 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -322,7 +322,7 @@ int armas_housemult_w(armas_dense_t * X,
     }
     if (!armas_isvector(X) && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -345,7 +345,7 @@ int armas_housemult_w(armas_dense_t * X,
     armas_dense_t w, *wptr;
     wptr = __nil;
     if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
-- 
2.43.0


From c63ac643d1802bd6198bd38c2602db3120e59fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 049/208] fix: hyperbolic reflector of vectors with zero tail
 or zero hyperbolic norm

---
 src/lapack/hhouse.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..b3a1d71 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -103,15 +103,19 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     alpha = armas_get(a11, 0, 0);
-    if (ABS(alpha) < normx) {
-        // alpha^2 - normx^2 < 0; sqrt not defined
-        cf->error = ARMAS_EINVAL;
-        return -ARMAS_EINVAL;
-    }
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // H is I or I - 2*e_0*e_0^T
+        beta = flags & ARMAS_HHNEGATIVE ? -alpha : alpha;
+        t = (flags & ARMAS_NONNEG) != 0 && beta < 0.0 ? 2.0 : 0.0;
+        armas_set(tau, 0, 0, t);
+        armas_set(a11, 0, 0, t == 0.0 ? beta : -beta);
         return 0;
     }
+    if (ABS(alpha) <= normx) {
+        // alpha^2 - normx^2 < 0; sqrt not defined or beta is zero
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
     // guard agains underflow; see (2)
-- 
2.43.0


From d29f10292508ac47543635722ad57876f2cb1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 050/208] fix: size_rbt with null factor pointer

---
 src/lapack/rbtgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 9cba3ed..228059d 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -402,7 +402,7 @@ int armas_size_rbt(int *fact, int N, int depth)
     // extended size to multiple of 2^d
     Nd = (N + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
-    if (*fact)
+    if (fact)
         *fact = twod >> 1;
     return Nd;
 }
-- 
2.43.0


From 877ef5a81da6b8d89e0a24c3b735935bb7e2c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 051/208] fix: roots of quadratic equation without linear term

---
 src/lapack/qdroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index db687e3..ddf26b4 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -146,7 +146,7 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
     *x2 = s == ZERO ? ZERO : c / s;
     return 0;
-- 
2.43.0


From a57cfcd5a0808ece0bf1107e0d65c115a5b285ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 052/208] fix: butterfly update of matrix smaller than half of
 the padded size

---
 src/lapack/rbtgu.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 4a2e390..989905b 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -136,7 +136,7 @@ int armas_update2_rbt_descend(
 {
     armas_dense_t A00, A01, A10, A11;
     armas_dense_t UL, UR, U0, U1, VL, VR, V0, V1;
-    int lb;
+    int lb, mb, nb;
 
     EMPTY(VL);
     EMPTY(VR);
@@ -158,7 +158,10 @@ int armas_update2_rbt_descend(
     mat_partition_2x1(&U0, &U1, /**/ &UL, lb, ARMAS_PTOP);
     mat_partition_2x1(&V0, &V1, /**/ &VL, lb, ARMAS_PTOP);
 
-    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lb, lb, ARMAS_PTOPLEFT);
+    // blocks of the padded size may extend over the last row and column of A
+    mb = lb < A->rows ? lb : A->rows;
+    nb = lb < A->cols ? lb : A->cols;
+    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, mb, nb, ARMAS_PTOPLEFT);
 
     // compute subblocks;
     armas_update2_rbt_descend(&A00, &U0, &V0, Nd / 2, conf);
-- 
2.43.0


From ed1a2423bf86276547be882e90d4447b6fa5a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 053/208] fix: signs of singular values of 2x2 bidiagonal
 matrix

---
 src/lapack/aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index f05dfae..6790297 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -279,13 +279,13 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
         *sinr = clt;
         *cosl = srt;
         *sinl = crt;
-        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
+        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
     } else {
         *cosr = crt;
         *sinr = srt;
         *cosl = clt;
         *sinl = slt;
-        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
+        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
     }
     if (gmax)
         tsign = sign(ONE, *sinr) * sign(ONE, *cosl) * sign(ONE, g);
-- 
2.43.0


From 4961a4cb83b1d7bfee62812a8e1d8cd8efe48fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 054/208] fix: bidiagonal SVD of matrices with zero singular
 values

---
 src/lapack/bdsvd_dk.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 6def402..dcf506d 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -145,11 +145,11 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
     estimate_sval(&slow, &shigh, D, E);
     if (conf->optflags & ARMAS_OABSTOL) {
         threshold = maxit * SAFEMIN;
-        if (tol * shigh < threshold)
+        if (tol * shigh > threshold)
             threshold = tol * shigh;
     } else {
         threshold = tol * slow;
-        if (maxit * SAFEMIN < threshold)
+        if (maxit * SAFEMIN > threshold)
             threshold = maxit * SAFEMIN;
     }
 
@@ -304,8 +304,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                 dp = armas_get_at_unsafe(D, ip + 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             }
-            if (d0 > ZERO)
-                zero = (ushift / d0) * (ushift / d0) <= EPS;
+            zero = d0 == ZERO || (ushift / d0) * (ushift / d0) <= EPS;
         }
 
         armas_subvector(&sD, D, ip, iq - ip);
-- 
2.43.0


From a1d66fd9a9b753c451924a190ccce260532bd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 055/208] fix: singular values of diagonal matrix and workspace
 clearing in dqds

---
 src/lapack/dqds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index e236838..2252429 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1128,7 +1128,7 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
      * represents {q(k), qq(k), e(k), ee(k)} tuple.
      */
     armas_make(&Z, 4, N, 4, (DTYPE *) armas_wptr(wb));
-    armas_scale(&Z, ZERO, conf);
+    armas_mscale(&Z, ZERO, 0, conf);
     armas_row(&sq, &Z, 0);
     armas_row(&se, &Z, 2);
 
@@ -1149,6 +1149,10 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
 
     if (emax == ZERO) {
         // already diagonal
+        for (k = 0; k < N; k++) {
+            armas_set_at_unsafe(D, k, armas_get_at_unsafe(&sq, k));
+        }
+        armas_sort_eigenvec(D, __nil, __nil, __nil, ARMAS_DESC);
         return 0;
     }
 #if defined(__DQDS_SCALING)
-- 
2.43.0


From 1d1f34552fed7e881ede8c484ae6c5595f1d4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 056/208] fix: zero diagonal elements in Golub-Kahan bidiagonal
 SVD

---
 src/lapack/bdsvd_gr.c | 62 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index f4f4572..6e63325 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -122,8 +122,8 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * U, armas_dense_t * V,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
-    int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift;
+    int N, work, lc, i, k, n, nrot, ip, iq, zeros, saves;
+    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift, bnorm;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -141,6 +141,14 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         saves = 1;
     }
 
+    bnorm = ZERO;
+    for (i = 0; i < N; i++) {
+        d0 = armas_get_at_unsafe(D, i);
+        bnorm = MAX(bnorm, ABS(d0));
+        e0 = i < N - 1 ? armas_get_at_unsafe(E, i) : ZERO;
+        bnorm = MAX(bnorm, ABS(e0));
+    }
+
     ip = 0;
     iq = N;
     for (work = 1, n = 0; work && lc > 0; lc--, n++) {
@@ -166,18 +174,52 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         }
         // from column iq already diagonal; work ip:iq
         zeros = 0;
-        for (i = ip; i < iq; i++) {
-            d0 = armas_get_at(D, i);
-            if (d0 == 0.0) {
-                e1 = armas_get_at(E, i);
-                armas_gvcompute(&c, &s, &r, d0, e1);
-                armas_set_at_unsafe(D, i, r);
-                armas_set_at_unsafe(E, i, 0.0);
-                zeros = 1;
+        for (i = ip; i < iq - 1; i++) {
+            d0 = armas_get_at_unsafe(D, i);
+            if (ABS(d0) > tol * bnorm)
+                continue;
+            // zero on diagonal; zero row i with rotations on rows k and i
+            armas_set_at_unsafe(D, i, ZERO);
+            e1 = armas_get_at_unsafe(E, i);
+            armas_set_at_unsafe(E, i, ZERO);
+            for (k = i + 1; k < iq; k++) {
+                d1 = armas_get_at_unsafe(D, k);
+                armas_gvcompute(&c, &s, &r, d1, e1);
+                armas_set_at_unsafe(D, k, r);
+                if (U) {
+                    armas_gvright(U, c, s, k, i, 0, U->rows);
+                }
+                if (k < iq - 1) {
+                    e0 = armas_get_at_unsafe(E, k);
+                    armas_set_at_unsafe(E, k, c * e0);
+                    e1 = -s * e0;
+                }
             }
+            zeros = 1;
         }
         if (zeros)
             continue;
+        d0 = armas_get_at_unsafe(D, iq - 1);
+        if (ABS(d0) <= tol * bnorm) {
+            // last is zero; zero column iq-1 with rotations on columns k and iq-1
+            armas_set_at_unsafe(D, iq - 1, ZERO);
+            e1 = armas_get_at_unsafe(E, iq - 2);
+            armas_set_at_unsafe(E, iq - 2, ZERO);
+            for (k = iq - 2; k >= ip; k--) {
+                d1 = armas_get_at_unsafe(D, k);
+                armas_gvcompute(&c, &s, &r, d1, e1);
+                armas_set_at_unsafe(D, k, r);
+                if (V) {
+                    armas_gvleft(V, c, s, k, iq - 1, 0, V->cols);
+                }
+                if (k > ip) {
+                    e0 = armas_get_at_unsafe(E, k - 1);
+                    armas_set_at_unsafe(E, k - 1, c * e0);
+                    e1 = -s * e0;
+                }
+            }
+            continue;
+        }
 
         if ((iq - ip) == 2) {
             // 2x2 block
-- 
2.43.0


From 93880bb237eae56160fe8accdc721041c89041ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 057/208] fix: zero multiplier of vector scaling ignores old
 contents

---
 src/blas/axpy.c   | 8 ++++++++
 src/blas/mscale.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/blas/axpy.c b/src/blas/axpy.c
index 10d3f28..8d8c91e 100644
--- a/src/blas/axpy.c
+++ b/src/blas/axpy.c
@@ -39,6 +39,14 @@ void armas_axpby_unsafe(
     int yinc = y->rows == 1 ? y->step : 1;
     int xinc = x->rows == 1 ? x->step : 1;
 
+    if (beta == ZERO) {
+        // old contents of y do not matter
+        for (i = 0; i < N; i++) {
+            y->elems[i*yinc] = alpha*x->elems[i*xinc];
+        }
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         y0 = y->elems[(i+0)*yinc] * beta;
         y1 = y->elems[(i+1)*yinc] * beta;
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 1e07017..d985330 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -34,6 +34,14 @@ void vec_scale(armas_dense_t *X,  const DTYPE alpha, int N)
     register DTYPE *x0;
     register int xinc = X->rows == 1 ? X->step : 1;
 
+    if (alpha == ZERO) {
+        // old contents do not matter
+        for (i = 0; i < N; i++) {
+            X->elems[i*xinc] = ZERO;
+        }
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         X->elems[(i+0)*xinc] *= alpha;
         X->elems[(i+1)*xinc] *= alpha;
-- 
2.43.0


From 2cd4cd7d7f872ffb82780be18b5516a3a4560e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 058/208] fix: workspace of singular value decomposition

---
 src/lapack/svd.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..03bdc9a 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -272,6 +272,8 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
@@ -498,10 +500,8 @@ int armas_svd(armas_dense_t * S, armas_dense_t * U, armas_dense_t * V,
     if (!conf)
         conf = armas_conf_default();
 
-    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0) {
-        conf->error = ARMAS_EWORK;
+    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0)
         return err;
-    }
     if (wb.bytes > 0 && wb.bytes <= ARMAS_MAX_ONSTACK_WSPACE) {
         char b[ARMAS_MAX_ONSTACK_WSPACE];
         armas_wbuf_t wbt = (armas_wbuf_t) {
@@ -586,12 +586,17 @@ int armas_svd_w(armas_dense_t * S,
     tall = A->rows >= A->cols;
     env = armas_getenv();
     if (wb && wb->bytes == 0) {
-        int P = A->rows >= A->cols ? A->cols : A->rows;
-        int K = A->rows >= A->cols ? A->rows : A->cols;
-        if (P <= env->lb)
-            wb->bytes = 4 * P * sizeof(DTYPE);
-        else
-            wb->bytes = (K + env->lb) * env->lb * sizeof(DTYPE);
+        size_t P = A->rows >= A->cols ? A->cols : A->rows;
+        size_t K = A->rows >= A->cols ? A->rows : A->cols;
+        size_t need = K + P;
+        // scalar coefficients and space for reduction and multiplication
+        if (env->lb > 0 && P > (size_t)env->lb)
+            need = (K + env->lb) * env->lb;
+        need += 2 * P;
+        // bidiagonal SVD
+        if (need < 4 * P)
+            need = 4 * P;
+        wb->bytes = need * sizeof(DTYPE);
         return 0;
     }
 
-- 
2.43.0


From 1a31a4e0972ae136723e7be1ec4bc9627cc27e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 059/208] fix: vectors of singular value decomposition of one
 row or column

---
 src/lapack/svd.c | 68 +++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 03bdc9a..c9cca48 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -70,45 +70,47 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_FACT;
     }
 
-    if (M == 1 || N == 1) {
-        // either tall M-by-1 or wide 1-by-N
-        armas_set_at_unsafe(S, 0, ABS(armas_get_unsafe(A, 0, 0)));
-        if (!(flags & (ARMAS_WANTU | ARMAS_WANTV)))
-            return 0;
-
+    if (N == 1) {
+        // tall M-by-1, A = Q*d0
+        d0 = armas_get_unsafe(A, 0, 0);
+        armas_set_at_unsafe(S, 0, ABS(d0));
         if (flags & ARMAS_WANTU) {
-            if (N == 1) {
-                if (U->cols == A->cols) {
-                    armas_copy(U, A, conf);
-                    armas_qrbuild_w(U, &tau, N, wb, conf);
-                } else {
-                    // U is M-by-M
-                    armas_set_values(U, zeros, ARMAS_SYMM | ARMAS_UNIT);
-                    err = armas_qrmult_w(U, A, &tau, ARMAS_RIGHT, wb, conf);
-                    if (err < 0)
-                        return -ARMAS_ESVD_LEFT;
-                }
+            if (U->cols == A->cols) {
+                armas_mcopy(U, A, 0, conf);
+                err = armas_qrbuild_w(U, &tau, N, wb, conf);
             } else {
-                // U is 1-by-1
-                armas_set_unsafe(U, 0, 0, -ONE);
+                // U is M-by-M
+                armas_set_values(U, zeros, ARMAS_SYMM | ARMAS_UNIT);
+                err = armas_qrmult_w(U, A, &tau, ARMAS_RIGHT, wb, conf);
             }
+            if (err < 0)
+                return -ARMAS_ESVD_LEFT;
         }
         if (flags & ARMAS_WANTV) {
-            if (M == 1) {
-                if (V->rows == A->rows) {
-                    armas_copy(V, A, conf);
-                    armas_lqbuild_w(V, &tau, M, wb, conf);
-                } else {
-                    // V is N-by-N
-                    armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
-                    err = armas_lqmult_w(V, A, &tau, ARMAS_RIGHT, wb, conf);
-                    if (err < 0)
-                        return -ARMAS_ESVD_RIGHT;
-                }
+            // V is 1-by-1
+            armas_set_unsafe(V, 0, 0, d0 < ZERO ? -ONE : ONE);
+        }
+        return 0;
+    }
+    if (M == 1) {
+        // wide 1-by-N, A = d0*Q
+        d0 = armas_get_unsafe(A, 0, 0);
+        armas_set_at_unsafe(S, 0, ABS(d0));
+        if (flags & ARMAS_WANTU) {
+            // U is 1-by-1
+            armas_set_unsafe(U, 0, 0, d0 < ZERO ? -ONE : ONE);
+        }
+        if (flags & ARMAS_WANTV) {
+            if (V->rows == A->rows) {
+                armas_mcopy(V, A, 0, conf);
+                err = armas_lqbuild_w(V, &tau, M, wb, conf);
             } else {
-                // V is 1-by-1
-                armas_set_unsafe(V, 0, 0, -ONE);
+                // V is N-by-N
+                armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
+                err = armas_lqmult_w(V, A, &tau, ARMAS_RIGHT, wb, conf);
             }
+            if (err < 0)
+                return -ARMAS_ESVD_RIGHT;
         }
         return 0;
     }
@@ -591,7 +593,7 @@ int armas_svd_w(armas_dense_t * S,
         size_t need = K + P;
         // scalar coefficients and space for reduction and multiplication
         if (env->lb > 0 && P > (size_t)env->lb)
-            need = (K + env->lb) * env->lb;
+            need = (K + P) * env->lb;
         need += 2 * P;
         // bidiagonal SVD
         if (need < 4 * P)
-- 
2.43.0


From 40f248403470bcea7d810b660e3261441d0c4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 060/208] fix: dqds of bidiagonal matrix with zero diagonal
 elements

---
 src/lapack/dqds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 2252429..e4a69a5 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -859,7 +859,7 @@ void dqds_li_test(int ping, armas_dense_t * Z, int N, DTYPE * emin,
         ek = armas_get_at_unsafe(&se, k);
         qk1 = armas_get_at_unsafe(&sq, k + 1);
         qk = d + ek;
-        if (ek < EPS2 * d) {
+        if (ek <= EPS2 * d) {
             // Li's test eq.5 in (1), page 12
             //printf("..[li] ek=%13e < EPS2*d [%13e, %13e]\n", ek, d, EPS2*d);
             armas_set_at_unsafe(&se, k, -ZERO);
-- 
2.43.0


From 76fe1d2b19dd295fecf323ce4b8815d48a8b9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 061/208] fix: bidiagonal SVD to absolute tolerance with zeros
 on diagonal

---
 src/lapack/bdsvd_dk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index dcf506d..03d69d0 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -47,7 +47,7 @@ void estimate_sval(DTYPE * smin, DTYPE * smax, armas_dense_t * D,
     int k, N = armas_size(D);
 
     d1 = ABS(armas_get_at_unsafe(D, 0));
-    e1 = ABS(armas_get_at_unsafe(E, 0));
+    e1 = N > 1 ? ABS(armas_get_at_unsafe(E, 0)) : ZERO;
     e0 = e1;
     ssmax = d1 > e1 ? d1 : e1;
     mu = ssmin = d1;
@@ -288,7 +288,9 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             }
         }
         // compute shift
-        if (!abstol && (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+        if (abstol ? slow <= threshold
+            : (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+            // small element on diagonal
             zero = 1;
         } else {
             if (forwards) {
-- 
2.43.0


From 9834e34fa0b842c50b87cdc64f65c76498382593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 062/208] fix: convergence of bidiagonal SVD of numerically
 rank deficient matrix

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 03d69d0..3a017cb 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -289,7 +289,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         }
         // compute shift
         if (abstol ? slow <= threshold
-            : (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+            : (N * tol * (slow / shigh)) <= MAX(EPS, 0.01 * tol)) {
             // small element on diagonal
             zero = 1;
         } else {
-- 
2.43.0


From 87098c651a7b683d29d7cf6e2fe27092fec57303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 063/208] fix: eigenvalues and vectors of symmetric 2x2 matrix
 with zero or tiny off-diagonal

---
 src/lapack/aux.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index 6790297..c243441 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -339,6 +339,11 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
     b2a = ABS(b + b);
     T = a + c;
     amca = ABS(a - c);
+    if (b == ZERO) {
+        *z1 = acmax;
+        *z2 = acmin;
+        return;
+    }
     Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
     *z1 = HALF * Zt;
     *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
@@ -370,7 +375,7 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
 void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
                              DTYPE * sn, DTYPE a, DTYPE b, DTYPE c)
 {
-    DTYPE T, b2a, amca, Zt, acmax, acmin, ht;
+    DTYPE T, b2a, amca, Zt, acmax, acmin, ht, x0, x1;
 
     acmax = a;
     acmin = c;
@@ -381,14 +386,28 @@ void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
     b2a = ABS(b + b);
     T = a + c;
     amca = ABS(a - c);
+    if (b == ZERO) {
+        *z1 = acmax;
+        *z2 = acmin;
+        *cs = acmax == a ? ONE : ZERO;
+        *sn = acmax == a ? ZERO : ONE;
+        return;
+    }
     Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
     *z1 = HALF * Zt;
     *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
 
-    // these should be thought out for cancellation effects....
-    ht = HYPOT(1.0, (*z1 - a) / b);
-    *cs = 1.0 / ht;
-    *sn = (*z1 - a) / (b * ht);
+    // use the difference that does not suffer from cancellation
+    if (ABS(*z1 - a) > ABS(*z1 - c)) {
+        x0 = b;
+        x1 = *z1 - a;
+    } else {
+        x0 = *z1 - c;
+        x1 = b;
+    }
+    ht = COPYSIGN(HYPOT(x0, x1), x0);
+    *cs = x0 / ht;
+    *sn = x1 / ht;
 }
 //! @}
 #else
-- 
2.43.0


From 328af3886f29511b64f7137c69024caff401c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 064/208] fix: deflation of zero diagonal blocks in tridiagonal
 eigenvalue iteration

---
 src/lapack/trdevd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trdevd.c b/src/lapack/trdevd.c
index 045a9ed..a45b401 100644
--- a/src/lapack/trdevd.c
+++ b/src/lapack/trdevd.c
@@ -66,7 +66,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             e1 = ABS(armas_get_at_unsafe(E, k - 1));
             d1 = ABS(armas_get_at_unsafe(D, k - 1));
-            if (e1 < tol * (d0 + d1)) {
+            if (e1 <= tol * (d0 + d1)) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom value;
-- 
2.43.0


From e1b5156c0e7ae69e7f8041e93603611734f493a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 065/208] fix: signs of updated rank-one vector of secular
 equation

---
 src/lapack/trdsec.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 8d9cd9c..237aa50 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -469,6 +469,8 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  *      Precomputed deltas
  * \param[in] d
  *      Original parameters of secular function
+ * \param[in] z0
+ *      Original rank-1 vector
  * \param[in] rho
  *      Coefficient
  *
@@ -476,7 +478,7 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  */
 static inline
 void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
-                             armas_dense_t * d, DTYPE rho)
+                             armas_dense_t * d, armas_dense_t * z0, DTYPE rho)
 {
     armas_dense_t delta;
     DTYPE zk;
@@ -486,7 +488,8 @@ void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
     for (i = 0; i < armas_size(z); i++) {
         armas_column(&delta, Q, i);
         update_vec_delta(&zk, d, &delta, i, rho);
-        armas_set_at_unsafe(z, i, zk);
+        // keep sign of the original vector
+        armas_set_at_unsafe(z, i, COPYSIGN(zk, armas_get_at_unsafe(z0, i)));
     }
 }
 
@@ -702,7 +705,7 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         armas_set_at_unsafe(y, i, dlam);
     }
     if (err == 0) {
-        trdsec_update_vec_delta(v, Qd, d, rho);
+        trdsec_update_vec_delta(v, Qd, d, z, rho);
     } else {
         conf->error = ARMAS_ECONVERGE;
     }
-- 
2.43.0


From aaee431b60c44a8848b91a2ef06aa079e0111689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 066/208] fix: eigenvectors of rank-one update without separate
 delta matrix

---
 src/lapack/trdsec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 237aa50..e5c7893 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -737,6 +737,8 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd)
+        Qd = Q;
     if (Q->rows != Q->cols || Qd->rows != Qd->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
@@ -746,7 +748,7 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
         return -1;
     }
 
-    if (!Qd || Q == Qd) {
+    if (Q == Qd) {
         trdsec_eigenbuild_inplace(Q, v, conf);
     } else {
         trdsec_eigen2_build(Q, v, Qd, conf);
-- 
2.43.0


From b0da035482b3f18523fc1d85347caa7d8cfeca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 067/208] fix: secular equation of size one

---
 src/lapack/trdsec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index e5c7893..83e34bf 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -330,6 +330,13 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
 
     N = armas_size(D);
     tau = ZERO;
+    if (N == 1) {
+        // d + rho*z^2
+        tau = rho * armas_get_at_unsafe(Z, 0) * armas_get_at_unsafe(Z, 0);
+        compute_delta(delta, D, 0, tau);
+        *lambda = armas_get_at_unsafe(D, 0) + tau;
+        return 0;
+    }
 
     // compute initial value at (D[k] + D[k+1])/2
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
-- 
2.43.0


From 401a99e78d64b62c22c537cb2f61e6f2429cc8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 068/208] fix: eigenvalue count of decoupled tridiagonal matrix
 in bisection

---
 src/lapack/trdbis.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..779e71b 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -80,8 +80,9 @@ int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
     DTYPE d = ONE, bim1 = ZERO;
 
     for (k = 0; k < armas_size(D); k++) {
-        d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
-        bim1 = armas_get_at_unsafe(E, k);
+        DTYPE t = bim1 == ZERO ? ZERO : bim1 * bim1 / d;
+        d = (armas_get_at_unsafe(D, k) - x) - t;
+        bim1 = k < armas_size(E) ? armas_get_at_unsafe(E, k) : ZERO;
         count += signbit(d) ? 1 : 0;
     }
     return count;
-- 
2.43.0


From a6260f540334d9379afb4b88581ffadf16c9e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 069/208] fix: bisection stores selected eigenvalues within the
 result vector

---
 src/lapack/trdbis.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 779e71b..7f22c76 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -233,9 +233,14 @@ int armas_trdbisect(armas_dense_t * Y,
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(D) == 0 || armas_size(E) == 0)
+    if (armas_size(D) == 0)
         return 0;
 
+    if (armas_size(E) != armas_size(D) - 1) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     compute_gerschgorin(&gleft, &gright, D, E);
     bnorm = MAX(ABS(gleft), ABS(gright));
     tau = params ? params->tau : 0.0;
@@ -261,13 +266,18 @@ int armas_trdbisect(armas_dense_t * Y,
         first = 0;
         last = armas_size(D);
     }
+    if (last - first > armas_size(Y)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     for (int k = first; k < last; k++) {
         eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
         if (isnan(eigen)) {
-            return -1;
+            conf->error = ARMAS_ECONVERGE;
+            return -ARMAS_ECONVERGE;
         }
-        armas_set_unsafe(Y, k, 0, eigen);
+        armas_set_at_unsafe(Y, k - first, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
     }
     return 0;
-- 
2.43.0


From 14d32c774556077185afadf820fcd546a9d71e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 070/208] fix: increasing order of eigenvalues of symmetric 2x2
 matrix

---
 src/lapack/evd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..58949e7 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -47,6 +47,15 @@ int eigen_sym_small(armas_dense_t * D, armas_dense_t * A,
         b0 = armas_get_unsafe(A, 1, 0);
     }
     armas_sym_eigen2x2vec(&e0, &e1, &cs, &sn, d0, b0, d1);
+    if (e0 > e1) {
+        // increasing order; (-sn, cs) is vector of the other value
+        DTYPE t = e0;
+        e0 = e1;
+        e1 = t;
+        t = cs;
+        cs = -sn;
+        sn = t;
+    }
     armas_set_at_unsafe(D, 0, e0);
     armas_set_at_unsafe(D, 1, e1);
 
-- 
2.43.0


From b8ffb3f42595a9236e26fe4ccbdb391b96e4122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 071/208] fix: size check of symmetric eigenvalue decomposition

---
 src/lapack/evd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 58949e7..c586458 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -156,7 +156,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From dc3ba68efc4ed6d8cf17e1be8a0ed232f72e26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 072/208] fix: workspace of selected eigenvalues of symmetric
 matrix

---
 src/lapack/evd.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index c586458..9160ee6 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -286,7 +286,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
                                  armas_wbuf_t * wb, armas_conf_t * conf)
 {
     armas_dense_t sD, sE, tau;
-    size_t wsz, wpos;
+    size_t wpos;
     DTYPE *buf;
     int ioff, N, err;
 
@@ -299,9 +299,11 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     }
     N = A->rows;
     if (wb && wb->bytes == 0) {
-        if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
-            return err;
-        wb->bytes += N * sizeof(DTYPE);
+        if (N > 2) {
+            if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
+                return err;
+            wb->bytes += N * sizeof(DTYPE);
+        }
         return 0;
     }
 
@@ -310,18 +312,17 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
-        conf->error = ARMAS_EWORK;
-        return -ARMAS_EWORK;
-    }
     // default to lower triangular storage
     if (!(flags & (ARMAS_UPPER | ARMAS_LOWER)))
         flags |= ARMAS_LOWER;
 
-    wpos = armas_wpos(wb);
-
     ioff = flags & ARMAS_LOWER ? -1 : 1;
     if (N > 2) {
+        if (!wb || armas_wbytes(wb) < 2 * N * sizeof(DTYPE)) {
+            conf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
+        wpos = armas_wpos(wb);
         buf = (DTYPE *) armas_wreserve(wb, N, sizeof(DTYPE));
         armas_make(&tau, N, 1, N, buf);
 
@@ -330,9 +331,8 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
             armas_wsetpos(wb, wpos);
             return err;
         }
-
+        armas_wsetpos(wb, wpos);
     }
-    armas_wsetpos(wb, wpos);
 
     armas_diag(&sD, A, 0);
     armas_diag(&sE, A, ioff);
-- 
2.43.0


From 45bbfffc6dda48672094fb4b4ecfebb8beb7883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 073/208] fix: bisection interval of zero tridiagonal matrix

---
 src/lapack/trdbis.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 7f22c76..e99db21 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -93,7 +93,7 @@ int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
 
  *  gl = gl - fudge*tnorm*ulp*n - fudge*two*pivmin
  *  gu = gu + fudge*tnorm*ulp*n + fudge*pivmin
- *  fudge = 2.1; pivmin = min e(i)^2  ; pivmin = pivmin*safemn
+ *  fudge = 2.1; pivmin = max(1, e(i)^2)  ; pivmin = pivmin*safemn/eps
  */
 static
 void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
@@ -115,10 +115,11 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
         if (gu < di + t)
             gu = di + t;
         eim1 = ei;
-        if (ei * ei < pivmin)
+        if (ei * ei > pivmin)
             pivmin = ei * ei;
     }
-    pivmin = SAFEMIN * pivmin;
+    // keeps interval of zero matrix, and its precision, above underflow
+    pivmin = (SAFEMIN / EPS) * pivmin;
     di = armas_get_at_unsafe(D, n - 1);
     if (gl > di - ei)
         gl = di - ei;
-- 
2.43.0


From 0889eedb6b2ca4695f073ad5f09736c5c943812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 074/208] fix: convergence to the last root of secular equation

---
 src/lapack/trdsec.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 83e34bf..9597a02 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -353,11 +353,7 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     } else {
         iK1 = index;
         delta_k1 = armas_get_at_unsafe(delta, iK1);
-        if (index < N - 1) {
-            delta_k = armas_get_at_unsafe(delta, iK);
-        } else {
-            delta_k = tau;
-        }
+        delta_k = armas_get_at_unsafe(delta, iK);
     }
     eta = ONE;
     eta0 = ONE;
@@ -400,7 +396,10 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         B /= 2.0;
         armas_discriminant(&dd, A, B, C);
         eta0 = eta;
-        if (B > 0) {
+        if (index == N - 1) {
+            // root is above both of the poles
+            eta = B < 0 ? C / (B - SQRT(dd)) : (B + SQRT(dd)) / ABS(A);
+        } else if (B > 0) {
             eta = C / (B + SQRT(dd));
         } else {
             eta = (B - SQRT(dd)) / A;
-- 
2.43.0


From 4cde31c11291415632d233946a967f68bb050311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 075/208] fix: task counter wait returned on spurious wakeups

---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From ae6135628321664ceabf316f82936e1d16a1825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 076/208] fix: duplicated tasks were released while workers
 still referred to them

---
 src/workers/workers.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..955d83f 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -40,16 +40,13 @@ int worker_tiles(int *nrow, int *ncol, int M, int N, int wb)
 static inline
 int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
-    int refcount;
-    for (int k = 0; k < 50; k++) {
-        refcount = 0;
-        for (int i = 0; i < ntask; i++) {
-            refcount += tasks[i].task.wcnt;
+    // tasks may not be released before every worker has dropped its reference
+    for (int i = 0; i < ntask; i++) {
+        while (__atomic_load_n(&tasks[i].task.wcnt, __ATOMIC_SEQ_CST) != 0) {
+            sched_yield();
         }
-        if (refcount == 0)
-            break;
     }
-    return refcount;
+    return 0;
 }
 
 #endif /* ARMAS_WORKERS_H */
-- 
2.43.0


From c0284913d93726465bf3014ccc2f8f0437ba68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 077/208] fix: stopping a worker that was just started could
 hang

---
 src/workers/workers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..32196e8 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -83,7 +83,6 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
     while (W->running) {
         taskq_read(&W->inqueue, (void **)&T);
         if (!T) {
@@ -113,6 +112,7 @@ static
 void worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
+    W->running = 1;
     pthread_create(&W->tid, NULL, worker_thread, W);
     if (W->cpuid != -1) {
         // set cpu affinity
-- 
2.43.0


From fdb751e780ba34cd283972e291b0f65941ffd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 078/208] fix: stop of a workers scheduler that was never
 started joined no threads

---
 src/workers/workers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 32196e8..1379657 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -166,6 +166,8 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    if (!sched->status)
+        return 0;
     for (int i = 0; i < sched->nworker; i++) {
         sched->workers[i].running = 0;
         taskq_write(&sched->workers[i].inqueue, NULL);
-- 
2.43.0


From ad3372c84da0558835c5ddfc1a63b6b47d78763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 079/208] fix: writer blocked on a full task queue was never
 woken up

---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From ff978757662fc8adee36fee0afb73659f3f19c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 080/208] fix: transient worker threads missed tasks added
 while leaving and were never joined

---
 src/workers/transient.c | 48 +++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..aa2c9ad 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,16 +29,13 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
-
 struct armas_ac_sched_transient;
 
 struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
     int running;
+    int created;
 };
 
 struct armas_ac_sched_transient {
@@ -61,17 +58,24 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) == 0) {
+            (T->func)(T->args);
+            armas_counter_decrement(T->ready);
+            continue;
+        }
+        // leave only if queue is still empty; scheduler looks at running
+        // threads with the same lock after adding to the queue.
+        pthread_mutex_lock(&sc->task_queue.mlock);
+        if (sc->task_queue.count == 0) {
+            self->running = 0;
+            sc->nrunning--;
+            pthread_mutex_unlock(&sc->task_queue.mlock);
             break;
-
-        (T->func)(T->args);
-        armas_counter_decrement(T->ready);
+        }
+        pthread_mutex_unlock(&sc->task_queue.mlock);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -86,6 +90,13 @@ int sched_transient_start(struct armas_ac_scheduler *sc)
 static
 int sched_transient_stop(struct armas_ac_scheduler *sc)
 {
+    struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
+    for (unsigned int k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].created)
+            pthread_join(sched->threads[k].tid, (void **)0);
+        sched->threads[k].created = 0;
+    }
+    sched->status = 0;
     return 0;
 }
 
@@ -109,13 +120,22 @@ int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
-    if (sched->nrunning < sched->nworker) {
-        for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
+    pthread_mutex_lock(&sched->task_queue.mlock);
+    for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
+    if (k < sched->nworker) {
         sched->threads[k].running = 1;
+        sched->nrunning++;
+    }
+    pthread_mutex_unlock(&sched->task_queue.mlock);
+
+    if (k < sched->nworker) {
+        // previous user of this slot is leaving
+        if (sched->threads[k].created)
+            pthread_join(sched->threads[k].tid, (void **)0);
+        sched->threads[k].created = 1;
         sched->threads[k].sched = sched;
         pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
     }
     return 0;
 }
-- 
2.43.0


From 77973cbbfcbba0225105290b256be55bbf1fc1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 081/208] fix: task schedulers were not released with the
 accelerator

---
 src/workers/entry.c     | 1 +
 src/workers/scheduler.h | 2 +-
 src/workers/workers.c   | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
diff --git a/src/workers/workers.c b/src/workers/workers.c
index 1379657..0485df3 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -185,6 +185,8 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nworker; i++)
+        taskq_release(&sched->workers[i].inqueue);
     free(sched);
     return 0;
 }
-- 
2.43.0


From 11b51a2f51ac65e2d2e91da369fb31ec8224889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 082/208] fix: memory of threads not released in threaded
 matrix multiplication

---
 src/threaded/gemm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..48cefc5 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -86,6 +86,8 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
-- 
2.43.0


From 539a69863e11c142d0d91b57195180860253304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 083/208] fix: threaded matrix multiplication ignored conjugate
 transpose flags

---
 src/threaded/gemm.c | 6 +++++-
 src/workers/gemm.c  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 48cefc5..25cca67 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,7 +47,11 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0 ? ARMAS_TRANSA : 0;
+    if ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0)
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..d2579b8 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,7 +50,11 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0 ? ARMAS_TRANSA : 0;
+    if ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0)
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-- 
2.43.0


From c056e992b533f503a966058611020728a934be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 084/208] fix: reading the configuration destroyed the
 environment strings

---
 src/base/accel.c | 6 +++++-
 src/base/env.c   | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..96ab43c 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -9,6 +9,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 #include <sched.h>
 
@@ -215,10 +216,12 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 void armas_ac_read_env(struct armas_ac_env *env)
 {
     int n, val;
-    char *tok, *cstr;
+    char *tok, *cstr, *copy;
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
+    // strsep modifies its argument; leave the environment as it is
     cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     CPU_ZERO(&env->cpus);
 
     /* parse string:
@@ -244,6 +247,7 @@ void armas_ac_read_env(struct armas_ac_env *env)
             break;
         }
     }
+    free(copy);
 }
 
 static struct armas_ac_env env = {
diff --git a/src/base/env.c b/src/base/env.c
index 7d7d2a4..e7027c2 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -66,13 +66,15 @@ static int has_read_environment = 0;
 static
 void armas_read_environment()
 {
-    char *cstr, *tok;
+    char *cstr, *copy, *tok;
     int n, val;
 
     if (has_read_environment)
         return;
 
+    // strsep modifies its argument; leave the environment as it is
     cstr = getenv(ENV_ARMAS_CONFIG);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         val = atoi(tok);
@@ -109,9 +111,11 @@ void armas_read_environment()
             break;
         }
     }
+    free(copy);
 
     // get cache memory size; L2MEM,L1MEM
     cstr = getenv(ENV_ARMAS_CACHE);
+    cstr = copy = cstr ? strdup(cstr) : (char *)0;
     if (cstr) {
         char *endptr;
         size_t val;
@@ -142,6 +146,7 @@ void armas_read_environment()
             }
         }
     }
+    free(copy);
 
     has_read_environment = 1;
 }
-- 
2.43.0


From 68ee311272f805ade5fca5f1eaba052cd0eb1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 085/208] fix: negative cache sizes were taken as huge sizes

---
 src/base/env.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index e7027c2..22ebab7 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -118,10 +118,10 @@ void armas_read_environment()
     cstr = copy = cstr ? strdup(cstr) : (char *)0;
     if (cstr) {
         char *endptr;
-        size_t val;
+        long val;
         for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
             endptr = (char *)0;
-            val = strtoul(tok, &endptr, 0);
+            val = strtol(tok, &endptr, 0);
             if (endptr) {
                 switch (toupper(*endptr)) {
                 case 'K':
-- 
2.43.0


From e0bb70ad9b2705145d3bdce88fbf0ba12d428e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 086/208] fix: processor masks were read as 32 bit masks

---
 src/base/accel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 96ab43c..0a871a3 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -183,8 +183,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             }
 
             // only processer number less than nproc
-            for (i = 0; i < 8 * sizeof(val) && start + i < nproc; i++) {
-                if ((bits & (1 << i)) != 0) {
+            for (i = 0; i < 8 * sizeof(bits) && start + i < nproc; i++) {
+                if ((bits & (1UL << i)) != 0) {
                     CPU_SET(start + i, &env->cpus);
                 }
             }
-- 
2.43.0


From 706e095e375d9604cafe3bb028cab17d9a9c5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 087/208] fix: processor ranges without positive step did not
 end

---
 src/base/accel.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 0a871a3..0355169 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -158,7 +158,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 {
     char *tok, *s0, *s1;
     char *cstr = str;
-    int n, i, val, start, end, step;
+    int n;
+    long i, val, start, end, step;
     unsigned long bits;
     long nproc = sysconf(_SC_NPROCESSORS_ONLN);;
 
@@ -199,6 +200,10 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
             end = strtol(s0 + 1, NULL, 10);
+            if (step < 1)
+                continue;
+            if (step > nproc)
+                step = nproc;
             for (i = start; i <= end && i < nproc; i += step) {
                 CPU_SET(i, &env->cpus);
             }
-- 
2.43.0


From 19d0d74ef9b1f85703050169db8a07ff144c58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 088/208] fix: workers were never pinned to the selected
 processors

---
 src/workers/workers.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 0485df3..1f511fa 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -266,6 +266,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     sc->workers = (struct armas_ac_worker *)&buf[sizeof(struct armas_ac_sched_workers)];
     sc->nworker = env->max_cores;
     sc->options = env->options;
+    sc->cpus = env->cpus;
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-- 
2.43.0


From 27ab065b74b4ad608e57a5a106dafa4b6e535d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 089/208] fix: least squares solvers did not check sizes of the
 factorization

---
 src/lapack/lqsolve.c | 2 +-
 src/lapack/qrsolve.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index 8fca073..c5c463e 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -131,7 +131,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->cols) {
+    if (B->rows != A->cols || A->cols < A->rows || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..0e0dc35 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -120,7 +120,7 @@ int armas_qrsolve_w(armas_dense_t * B,
         return armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->rows) {
+    if (B->rows != A->rows || A->rows < A->cols || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From ba567fd00564372cbb454443fddfd2c6767d223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 090/208] fix: LU factorization and solver did not check size
 of pivots

---
 src/lapack/lu.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 2983a86..a8b7c1f 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -305,6 +305,11 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
     if (!cf)
         cf = armas_conf_default();
 
+    if (P && P->npivots < (A->rows < A->cols ? A->rows : A->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
         if (P) {
@@ -356,7 +361,8 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    ok = B->rows == A->cols && A->rows == A->cols;
+    ok = B->rows == A->cols && A->rows == A->cols
+        && (!P || P->npivots == A->rows);
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From 1fba1d02ceb29c7f324e07f150006ca31f6bb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 091/208] fix: symmetric factorizations and solvers did not
 check size of pivots

---
 src/lapack/cholpv.c | 2 +-
 src/lapack/ldlbk.c  | 3 ++-
 src/lapack/ldlpv.c  | 5 +++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index fe51232..59a2f8b 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -616,7 +616,7 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
     if (armas_size(B) == 0 || armas_size(A) == 0)
         return 0;
 
-    if (A->rows != A->cols || A->cols != B->rows) {
+    if (A->rows != A->cols || A->cols != B->rows || P->npivots > A->cols) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 5e6bf8d..680174a 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -251,7 +251,8 @@ int armas_bksolve_w(armas_dense_t * B, const armas_dense_t * A,
         return 0;
     }
 
-    if (A->cols != B->rows) {
+    if (A->rows != A->cols || A->cols != B->rows
+        || armas_pivot_size(P) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index 7ec5c31..9721b6d 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -573,6 +573,11 @@ int armas_ldlfactor_w(armas_dense_t * A,
         return ldlfactor_np(A, &W, flags, conf);
     }
 
+    if (armas_pivot_size(P) != A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsz = armas_wbytes(wb) / sizeof(DTYPE);
     if (lb > 0 && A->rows > lb) {
-- 
2.43.0


From e35d815f6852f3638caba5d4bf52058b9148df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 092/208] fix: Cholesky update did not check sizes of operands

---
 src/lapack/cholupd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lapack/cholupd.c b/src/lapack/cholupd.c
index 6ee7fa7..ca95074 100644
--- a/src/lapack/cholupd.c
+++ b/src/lapack/cholupd.c
@@ -161,6 +161,15 @@ int armas_cholupdate(armas_dense_t * A, armas_dense_t * X, int flags,
     if (armas_size(A) == 0 || armas_size(X) == 0)
         return 0;
 
+    if (!armas_isvector(X)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (A->rows != A->cols || armas_size(X) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     // private functions expect row vector
     if (X->cols == 1) {
         armas_col_as_row(&Xrow, X);
-- 
2.43.0


From 0f832b80c5f3bcfb7f87fb27531f8527a9cfbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 093/208] fix: bidiagonal and Hessenberg reductions did not
 check sizes of operands

---
 src/lapack/bibld.c  |  9 +++++++++
 src/lapack/bired.c  |  8 ++++++++
 src/lapack/biredm.c | 12 +++++++++++-
 src/lapack/hessm.c  |  9 +++++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index aa4fe6f..dd2a9dc 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -123,6 +123,15 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
+    // number of coefficients
+    int nc = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))
+        ? (flags & ARMAS_WANTP ? A->cols - 1 : A->cols)
+        : (flags & ARMAS_WANTP ? A->rows : A->rows - 1);
+    if (armas_size(tau) < nc || (nc > 0 && !armas_isvector(tau))) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 83bfbed..8362f6d 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,6 +945,14 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
+    int nq = A->rows >= A->cols ? A->cols : A->rows - 1;
+    int np = A->rows >= A->cols ? A->cols - 1 : A->rows;
+    if (armas_size(tauq) < nq || armas_size(taup) < np
+        || (nq > 0 && !armas_isvector(tauq)) || (np > 0 && !armas_isvector(taup))) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = (A->cols + A->rows) * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 9726df1..23aa4f2 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -158,7 +158,17 @@ int armas_bdmult_w(armas_dense_t * C,
     if (!(flags & (ARMAS_LEFT | ARMAS_RIGHT)))
         flags |= ARMAS_LEFT;
 
-    // NOTE: sizes are checked in QR/LQ functions.
+    // number of coefficients and order of the multiplying matrix
+    int nc = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))
+        ? (flags & ARMAS_MULTP ? A->cols - 1 : A->cols)
+        : (flags & ARMAS_MULTP ? A->rows : A->rows - 1);
+    int order = flags & ARMAS_MULTP ? A->cols : A->rows;
+    if (!armas_isvector(tau) || armas_size(tau) < nc
+        || order != (flags & ARMAS_RIGHT ? C->cols : C->rows)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (flags & ARMAS_MULTP) {
         flags = (flags & ARMAS_TRANS) ? flags ^ ARMAS_TRANS : flags | ARMAS_TRANS;
     }
diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 57b936f..fb5cbad 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -119,6 +119,15 @@ int armas_hessmult_w(armas_dense_t * C,
         return -1;
     }
 
+    if (!wb || wb->bytes != 0) {
+        int P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
+        if (A->rows != A->cols || P != A->rows || !armas_isvector(tau)
+            || armas_size(tau) < A->rows - 1) {
+            conf->error = ARMAS_ESIZE;
+            return -ARMAS_ESIZE;
+        }
+    }
+
     armas_submatrix(&Qh, A, 1, 0, A->rows - 1, A->cols - 1);
     armas_submatrix(&tauh, tau, 0, 0, A->rows - 1, 1);
     if (flags & ARMAS_RIGHT) {
-- 
2.43.0


From 061957b3b7d5a386a8ba4ccfb87cca9421700767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 094/208] fix: generation of Q did not check sizes of operands

---
 src/lapack/lqbld.c | 6 ++++++
 src/lapack/qlbld.c | 6 ++++++
 src/lapack/qrbld.c | 6 ++++++
 src/lapack/rqbld.c | 2 +-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index 2c90068..35b9112 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -283,6 +283,12 @@ int armas_lqbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (A->cols < A->rows || K > A->rows || !armas_isvector(tau)
+        || armas_size(tau) < K) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->rows * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..29ce2d0 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -277,6 +277,12 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
+    if (A->rows < A->cols || K > A->cols || !armas_isvector(tau)
+        || armas_size(tau) < K) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..b8b4876 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -301,6 +301,12 @@ int armas_qrbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (A->rows < A->cols || K > A->cols || !armas_isvector(tau)
+        || armas_size(tau) < K) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 280d91f..f0028b2 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -265,7 +265,7 @@ int armas_rqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (armas_size(tau) != A->rows) {
+    if (A->cols < A->rows || K > A->rows || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 4c11b83cccebad62687d9e6cd52633af89845b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 095/208] fix: block reflectors were formed from operands of
 wrong size

---
 src/lapack/lq.c | 4 +++-
 src/lapack/ql.c | 4 +++-
 src/lapack/qr.c | 4 +++-
 src/lapack/rq.c | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 957099c..887718a 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -313,7 +313,9 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->rows || T->rows < A->rows) {
+    if (T->cols < A->rows || T->rows < A->rows
+        || A->cols < A->rows || armas_size(tau) < A->rows
+        || !armas_isvector(tau)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 09fb37d..b768ee8 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -356,7 +356,9 @@ int armas_qlreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->cols || T->rows < A->cols
+        || A->rows < A->cols || armas_size(tau) < A->cols
+        || !armas_isvector(tau)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index 2eaea4c..928c548 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -339,7 +339,9 @@ int armas_qrreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->cols || T->rows < A->cols
+        || A->rows < A->cols || armas_size(tau) < A->cols
+        || !armas_isvector(tau)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 6d37a20..8b64ed7 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -351,7 +351,9 @@ int armas_rqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->rows || T->rows < A->rows) {
+    if (T->cols < A->rows || T->rows < A->rows
+        || A->cols < A->rows || armas_size(tau) < A->rows
+        || !armas_isvector(tau)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 7d67d4995bd8b36c82fb8a600dcac67d250e845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 096/208] fix: application of elementary reflectors did not
 check sizes of operands

---
 src/lapack/hhouse.c | 9 ++++++++-
 src/lapack/house.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index b3a1d71..2e01444 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -227,7 +227,14 @@ int armas_hhouse_apply(armas_dense_t * tau, armas_dense_t * v,
 
     if (!cf)
         cf = armas_conf_default();
-    if (armas_size(w) < armas_size(a1)) {
+    if ((armas_size(a1) > 0 && !armas_isvector(a1))
+        || (armas_size(v) > 0 && !armas_isvector(v))) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (armas_size(w) < armas_size(a1)
+        || armas_size(v) != (flags & ARMAS_LEFT ? A2->rows : A2->cols)
+        || armas_size(a1) != (flags & ARMAS_LEFT ? A2->cols : A2->rows)) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/house.c b/src/lapack/house.c
index 474301b..14a0338 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -469,7 +469,14 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
     armas_dense_t w1;
     if (!cf)
         cf = armas_conf_default();
-    if (armas_size(w) < armas_size(a1)) {
+    if ((armas_size(a1) > 0 && !armas_isvector(a1))
+        || (armas_size(v) > 0 && !armas_isvector(v))) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (armas_size(w) < armas_size(a1)
+        || armas_size(v) != (flags & ARMAS_LEFT ? A2->rows : A2->cols)
+        || armas_size(a1) != (flags & ARMAS_LEFT ? A2->cols : A2->rows)) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From d96d765d0047d176e279e524f6ac0fc76f1d777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 097/208] fix: blocked QR factorization accepted block
 reflector without rows

---
 src/lapack/qrt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 2a393e9..04d4472 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -251,7 +251,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return 0;
     }
     // must have: M >= N
-    if (A->rows < A->cols || T->cols < A->cols) {
+    if (A->rows < A->cols || T->rows < 1 || T->cols < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 2eea3f80706d6c688538cf19dd5ebdcff7ea3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 098/208] fix: butterfly transformations of zero depth failed

---
 src/lapack/rbtgm.c | 4 ++++
 src/lapack/rbtgu.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 228059d..a35c05c 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -375,6 +375,10 @@ int armas_mult_rbt(armas_dense_t * A, armas_dense_t * R, int flags,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // zero depth butterfly is an identity
+    if (R->cols == 0)
+        return 0;
+
     if (flags & ARMAS_RIGHT) {
         rbt_recursive_right(A, R, flags, conf);
     } else {
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 989905b..4f44ad8 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -216,6 +216,10 @@ int armas_update2_rbt(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    // zero depth butterfly is an identity
+    if (U->cols == 0)
+        return 0;
+
     armas_update2_rbt_descend(A, U, V, Nd, conf);
     return 0;
 }
-- 
2.43.0


From b2c4b43b26157087727135206cf5877bc9e2d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 099/208] fix: selected eigenvalues were stored to matrices

---
 src/lapack/evd.c    | 5 +++++
 src/lapack/trdbis.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 9160ee6..54a8920 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -311,6 +311,11 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // check before reducing matrix
+    if (armas_size(D) > 0 && !armas_isvector(D)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
 
     // default to lower triangular storage
     if (!(flags & (ARMAS_UPPER | ARMAS_LOWER)))
diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index e99db21..89ee49d 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -237,6 +237,11 @@ int armas_trdbisect(armas_dense_t * Y,
     if (armas_size(D) == 0)
         return 0;
 
+    if (!armas_isvector(D) || (armas_size(E) > 0 && !armas_isvector(E))
+        || (armas_size(Y) > 0 && !armas_isvector(Y))) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(E) != armas_size(D) - 1) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From e1be8f4f138f2f2945c27b5a4cee8e2b8b7a9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 100/208] fix: secular equation solvers did not check sizes of
 results

---
 src/lapack/trdsec.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 9597a02..055493a 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -646,6 +646,11 @@ int armas_trdsec_solve(armas_dense_t * y, armas_dense_t * d,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!armas_isvector(d) || !armas_isvector(y) || !armas_isvector(delta)
+        || !armas_isvector(z)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     // sizes need to match
     if (armas_size(d) != armas_size(y)
         || armas_size(d) != armas_size(delta)
@@ -697,10 +702,17 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!armas_isvector(d) || !armas_isvector(y) || !armas_isvector(v)
+        || !armas_isvector(z)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (armas_size(v) != armas_size(z)
-        || armas_size(v) != armas_size(d)) {
+        || armas_size(v) != armas_size(d)
+        || armas_size(v) != armas_size(y)
+        || Qd->rows != armas_size(d) || Qd->cols != armas_size(d)) {
         conf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
     for (i = 0; i < armas_size(d); i++) {
         armas_row(&delta, Qd, i);
-- 
2.43.0


From 6dd3fe796003ab24625c2232782efb60f4ce4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 101/208] fix: singular values were stored to matrices

---
 src/lapack/svd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index c9cca48..0919349 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -602,6 +602,10 @@ int armas_svd_w(armas_dense_t * S,
         return 0;
     }
 
+    if (armas_size(S) > 0 && !armas_isvector(S)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     if (tall && armas_size(S) < A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From fe560ef6035ce82fc0cf4683612ba61025444cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 102/208] fix: symmetric pivoting accepted matrices that are
 not square

---
 src/base/pivot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index d8c8433..4ee67ae 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -304,7 +304,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
 
     switch (flags) {
     case ARMAS_PIVOT_UPPER:
-        if (A->rows < P->npivots) {
+        if (A->rows != A->cols || A->rows < P->npivots) {
             conf->error = ARMAS_ESIZE;
             return -1;
         }
@@ -327,7 +327,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
         break;
 
     case ARMAS_PIVOT_LOWER:
-        if (A->rows < P->npivots) {
+        if (A->rows != A->cols || A->rows < P->npivots) {
             conf->error = ARMAS_ESIZE;
             return -1;
         }
-- 
2.43.0


From f3c09c5ca05f52f8dc24afb094aad16be46e2156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 103/208] fix: symmetric rank-2 update did not check lengths of
 vectors

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..767bbb1 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->rows != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 22590c801c0b538591145f477f427823d26aa079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 104/208] fix: workspace query of housemult applied the
 reflectors to a vector

---
 src/lapack/housem.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index f3c132a..5fe6ff3 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -320,10 +320,10 @@ int armas_housemult_w(armas_dense_t * X,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
-        // compute workspace size
+    if (wb && wb->bytes == 0) {
+        // compute workspace size; vector does not need any
         int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
-        wb->bytes = nelem * sizeof(DTYPE);
+        wb->bytes = armas_isvector(X) ? 0 : nelem * sizeof(DTYPE);
         return 0;
     }
     // check parameter sizes;
-- 
2.43.0


From 13ef76f458c89a000a1bef1add6e0bfa6324cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 105/208] fix: multiplication with Q accepted factorizations of
 wrong shape

---
 src/lapack/lqmult.c | 2 +-
 src/lapack/qlmult.c | 2 +-
 src/lapack/qrmult.c | 2 +-
 src/lapack/rqmult.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/lqmult.c b/src/lapack/lqmult.c
index 3cb25a4..1af4d7e 100644
--- a/src/lapack/lqmult.c
+++ b/src/lapack/lqmult.c
@@ -487,7 +487,7 @@ int armas_lqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || A->cols < A->rows || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/qlmult.c b/src/lapack/qlmult.c
index 8839412..27f3222 100644
--- a/src/lapack/qlmult.c
+++ b/src/lapack/qlmult.c
@@ -447,7 +447,7 @@ int armas_qlmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || A->rows < A->cols || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrmult.c b/src/lapack/qrmult.c
index 2fea3f7..c34a292 100644
--- a/src/lapack/qrmult.c
+++ b/src/lapack/qrmult.c
@@ -487,7 +487,7 @@ int armas_qrmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || A->rows < A->cols || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rqmult.c b/src/lapack/rqmult.c
index f7d8656..21ec1b5 100644
--- a/src/lapack/rqmult.c
+++ b/src/lapack/rqmult.c
@@ -479,7 +479,7 @@ int armas_rqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || A->cols < A->rows || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 59b40630257c031d1326041a9bc7ebaf48af2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 106/208] fix: singular value decomposition of an empty matrix

---
 src/lapack/svd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 0919349..88c13e5 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -602,6 +602,9 @@ int armas_svd_w(armas_dense_t * S,
         return 0;
     }
 
+    if (armas_size(A) == 0)
+        return 0;
+
     if (armas_size(S) > 0 && !armas_isvector(S)) {
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
-- 
2.43.0


From a383307b4cdaf5322225708d1c7306927202d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 107/208] fix: generation of Q changed the matrix when
 workspace was too small

---
 src/lapack/bibld.c  | 5 +++++
 src/lapack/tribld.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index dd2a9dc..744ca8c 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -131,6 +131,11 @@ int armas_bdbuild_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // check before matrix is changed
+    if (!wb || armas_wbytes(wb) < nc * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
 
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index e1dd45a..012030d 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -118,6 +118,12 @@ int armas_trdbuild_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    // check before matrix is changed
+    if (!wb || armas_wbytes(wb) < (A->rows - 1) * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+
     if (K > A->rows - 1)
         K = A->rows - 1;
 
-- 
2.43.0


From 047220e40d38c314abf820316f72fbb861a0c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 108/208] fix: failed singular value decomposition kept its
 workspace reserved

---
 src/lapack/svd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 88c13e5..e79a0b6 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -675,6 +675,8 @@ int armas_svd_w(armas_dense_t * S,
     int K = armas_wbytes(wb) / sizeof(DTYPE);
     armas_make(&W, K, 1, K, armas_wptr(wb));
 
+    size_t wpos = armas_wpos(wb);
+
     if (tall) {
         if (A->cols <= 2) {
             err = armas_svd_small(S, U, V, A, flags, wb, conf);
@@ -688,6 +690,7 @@ int armas_svd_w(armas_dense_t * S,
             err = armas_svd_wide(S, U, V, A, flags, wb, conf);
         }
     }
+    armas_wsetpos(wb, wpos);
     return err;
 }
 #else
-- 
2.43.0


From 8c58ab27c9a3e31f315c54550e7b98369da614fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 109/208] fix: housemult did not check size of workspace

---
 src/lapack/housem.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 5fe6ff3..e1c625e 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -347,6 +347,10 @@ int armas_housemult_w(armas_dense_t * X,
     if (!armas_isvector(X)) {
         int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
+        if (!t) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
     }
-- 
2.43.0


From 5385abb7106e3135aed308d4fb58f9ff866aeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 110/208] fix: space reserved from workspace was not aligned

---
 src/include/armas.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index 8109149..a701561 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -599,10 +599,11 @@ void armas_wfree(armas_wbuf_t *wb)
 __ARMAS_INLINE
 void *armas_wreserve_bytes(armas_wbuf_t *W, size_t nbytes)
 {
-    if (!W || nbytes > W->bytes - W->offset)
+    size_t off = W ? __align64(W->offset) : 0;
+    if (!W || off > W->bytes || nbytes > W->bytes - off)
         return (char *)0;
-    char *r = &W->buf[W->offset];
-    W->offset += nbytes;
+    char *r = &W->buf[off];
+    W->offset = off + nbytes;
     return (void *)r;
 }
 
-- 
2.43.0


From d6a55943a7570bb2e1ee9a08a2d96bae08e8f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 111/208] fix: size of workspace reservation could overflow

---
 src/include/armas.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/armas.h b/src/include/armas.h
index a701561..b116166 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -611,6 +611,8 @@ void *armas_wreserve_bytes(armas_wbuf_t *W, size_t nbytes)
 __ARMAS_INLINE
 void *armas_wreserve(armas_wbuf_t *W, size_t count, size_t sz)
 {
+    if (sz > 0 && count > (size_t)-1 / sz)
+        return (void *)0;
     return armas_wreserve_bytes(W, count * sz);
 }
 
-- 
2.43.0


From 08be30e658b4b3ff4b0b4042e994f48afecc4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 112/208] fix: position at end of workspace was not restored

---
 src/include/armas.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/armas.h b/src/include/armas.h
index b116166..36d6871 100644
--- a/src/include/armas.h
+++ b/src/include/armas.h
@@ -662,7 +662,7 @@ void *armas_wptr(const armas_wbuf_t *W)
 __ARMAS_INLINE
 void armas_wsetpos(armas_wbuf_t *W, size_t pos)
 {
-    if (W && pos < W->bytes)
+    if (W && pos <= W->bytes)
         W->offset = pos;
 }
 
-- 
2.43.0


From a86c14d5199e0a75e4fcbdf1d7871c2fbb8eb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 113/208] fix: singular value decomposition found out too late
 that workspace is too small

---
 src/lapack/svd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index e79a0b6..caf5a7c 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -617,7 +617,9 @@ int armas_svd_w(armas_dense_t * S,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb) {
+    // smallest workspace is for unblocked reduction; check before A is changed
+    size_t wsmin = tall ? A->rows + 3 * A->cols : A->cols + 3 * A->rows;
+    if (!wb || armas_wbytes(wb) < wsmin * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From 0286849d0a907f0587ea3b27d492c101eef97e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 114/208] fix: bottom left block of partition had width of
 bottom right block

---
 src/include/partition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/partition.h b/src/include/partition.h
index f419a4f..6a88238 100644
--- a/src/include/partition.h
+++ b/src/include/partition.h
@@ -489,7 +489,7 @@ void mat_continue_3x3to2x2(armas_dense_t *ATL, armas_dense_t *ATR,
         if (ATR)
             armas_submatrix_unsafe(ATR, A, 0, kc, kr, A->cols-kc);
         if (ABL)
-            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, A->cols-kc);
+            armas_submatrix_unsafe(ABL, A, kr, 0, A->rows-kr, kc);
         armas_submatrix_unsafe(ABR, A, kr, kc, A->rows-kr, A->cols-kc);
         break;
     }
-- 
2.43.0


From 1a57745263a7178fee35b0d779aa185d6f33e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 115/208] fix: subvector of matrix was left with undefined
 elements and ownership

---
 src/include/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..ae32df9 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -361,7 +361,7 @@ armas_dense_t *armas_subvector(armas_dense_t *X, const armas_dense_t *Y,
                                    int n, int len)
 {
     if (!armas_isvector(Y)) {
-        X->rows = X->cols = 0;
+        armas_zero(X);
     } else {
         if (Y->rows == 1) {
             armas_submatrix(X, Y, 0, n, 1, len);
-- 
2.43.0


From 6586c4a874397ae2a5cd9c79d2ae9063a7a24fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 116/208] fix: submatrix of null matrix crashed

---
 src/include/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index ae32df9..84c4caf 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -344,7 +344,7 @@ __ARMAS_INLINE
 armas_dense_t *armas_submatrix(armas_dense_t *A, const armas_dense_t *B,
                                    int r, int c, int nr, int nc)
 {
-    return armas_submatrix_ext(A, B, r, c, nr, nc, B->step);
+    return armas_submatrix_ext(A, B, r, c, nr, nc, -1);
 }
 
 //! @brief Make A submatrix view of B. (Unsafe version without any limit checks.)
-- 
2.43.0


From 9f75e815e4f536291fdcfc16dc8e8ea68e516f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 117/208] fix: size of large matrix overflowed

---
 src/include/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index 84c4caf..af714f0 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -160,7 +160,7 @@ int armas_isvector(const armas_dense_t *m)
 __ARMAS_INLINE
 int64_t armas_size(const armas_dense_t *m)
 {
-    return m ? m->rows * m->cols : 0;
+    return m ? (int64_t)m->rows * m->cols : 0;
 }
 
 __ARMAS_INLINE
-- 
2.43.0


From 990f67d00854fe3642141a400da13ce8a101d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 118/208] fix: storage of large matrix was too small as element
 count overflowed

---
 src/base/matrix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..4fce58d 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -52,6 +52,7 @@
 armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
 {
     int doff;
+    size_t nelem;
 
     if (r <= 0 || c <= 0) {
         m->rows = r < 0 ? 0 : r;
@@ -62,15 +63,15 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         m->__nbytes = 0;
         return m;
     }
-    // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
-    m->__data = calloc(m->__nbytes, sizeof(DTYPE));
+    // adjusted element count
+    nelem = ALIGNSIZE((size_t)r*c, DTYPE);
+    m->__data = calloc(nelem, sizeof(DTYPE));
     if ( !m->__data ) {
         m->__nbytes = 0;
         return (armas_dense_t *)0;
     }
     // convert to number of bytes
-    m->__nbytes *= sizeof(DTYPE);
+    m->__nbytes = nelem*sizeof(DTYPE);
     m->rows = r;
     m->cols = c;
     m->step = r;
-- 
2.43.0


From eab9c63bf3d787ecae854052c4f39e651b0de969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 119/208] fix: memory leak when there is no space for matrix
 elements

---
 src/include/matrix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index af714f0..06a5304 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From be11d1b5248916fb8ff4f86de9c99c40847a1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 120/208] fix: block merged from empty blocks was left with
 undefined elements and ownership

---
 src/include/partition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/partition.h b/src/include/partition.h
index 6a88238..8f995b1 100644
--- a/src/include/partition.h
+++ b/src/include/partition.h
@@ -511,7 +511,7 @@ void mat_merge2x1(armas_dense_t *ABLK, armas_dense_t *AT, armas_dense_t *AB)
 {
     require(AT->step == AB->step);
     if (armas_size(AT) == 0 && armas_size(AB) == 0) {
-        ABLK->rows = 0; ABLK->cols = 0; ABLK->step = AB->step;
+        armas_make(ABLK, 0, 0, AB->step, (DTYPE *)0);
         return;
     }
     if (armas_size(AT) == 0) {
@@ -541,7 +541,7 @@ void mat_merge1x2(armas_dense_t *ABLK, armas_dense_t *AL, armas_dense_t *AR)
 {
     require(AL->step == AR->step);
     if (armas_size(AL) == 0 && armas_size(AR) == 0) {
-        ABLK->rows = 0; ABLK->cols = 0; ABLK->step = AL->step;
+        armas_make(ABLK, 0, 0, AL->step, (DTYPE *)0);
         return;
     }
     if (armas_size(AL) == 0) {
-- 
2.43.0


From 178246d0aa880081f90b8565c3f32d0409582bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 121/208] fix: triangular solvers did not release local cache
 buffer

---
 src/blas/trsm.c      | 1 +
 src/eblas/trsm_ext.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..aa110bf 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -806,10 +806,12 @@ int armas_ext_solve_trm_w(
 
     if (wb->bytes == 0) {
         wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
     if (ncol < 4) {
+        armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
@@ -817,6 +819,7 @@ int armas_ext_solve_trm_w(
         ncol = cache.NB;
     armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From cdeb72f1934ffb825866bab94353630c79a1ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 122/208] fix: selecting cache buffer from workspace used up
 the workspace

---
 src/base/cache.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 03746e2..12cd7f7 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -526,7 +526,6 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         if (ws >= env->cmem) {
             // use provided cbuf if it is large enough.
             armas_cbuf_make(cbuf, armas_wptr(cf->work), ws, env->l1mem);
-            armas_wreserve(cf->work, ws, 1);
             cbuf->__unaligned = (void *)0;
             return 0;
         }
-- 
2.43.0


From bcd54f056a60a733659629a2708ae26aa25180e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 123/208] fix: cache buffer was smaller than requested on
 aligned memory

---
 src/base/cache.c    | 2 +-
 src/include/cache.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 12cd7f7..4ade52c 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -55,7 +55,7 @@ size_t cache_aligned(void **aligned, void *ptr, size_t len)
 {
     char *p = (char *)ptr;
     uint64_t na, addr = (uint64_t)ptr;
-    na = CACHELINE - (addr & (CACHELINE-1));
+    na = (CACHELINE - (addr & (CACHELINE-1))) & (CACHELINE-1);
     *aligned = (void *)&p[na];
     return len - na;
 }
diff --git a/src/include/cache.h b/src/include/cache.h
index 13a756e..e665576 100644
--- a/src/include/cache.h
+++ b/src/include/cache.h
@@ -13,7 +13,7 @@ extern "C" {
 #define CACHELINE 64
 #endif
 #ifndef CLSHIFT
-#define CLSHIFT   5
+#define CLSHIFT   6
 #endif
 #ifndef CACHEMIN
 #define CACHEMIN  1024
@@ -55,7 +55,7 @@ size_t armas_cache_aligned(void **aligned, void *ptr, size_t len)
 {
     char *p = (char *)ptr;
     uint64_t na, addr = (uint64_t)ptr;
-    na = CACHELINE - (addr & (CACHELINE-1));
+    na = (CACHELINE - (addr & (CACHELINE-1))) & (CACHELINE-1);
     *aligned = (void *)&p[na];
     return len - na;
 }
-- 
2.43.0


From 984cad8b0a01c9f39312c5652cff5c862b0d027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 124/208] fix: blocks of smallest cache buffers overlapped

---
 src/base/cache.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 4ade52c..0cd8f29 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -228,7 +228,8 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -346,7 +347,8 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
-- 
2.43.0


From 19ca7b7eca66c3eb9dd1ca1fd2cfbb2265f371cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 125/208] fix: sparse matrix without entries lost its
 dimensions

---
 src/sparse/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..c325627 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -99,12 +99,12 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
 armas_sparse_t *armassp_init(armas_sparse_t * A, int rows, int cols,
                                  int nnz, armassp_type_enum storage)
 {
-    if (rows == 0 || cols == 0 || nnz == 0) {
+    if (rows == 0 || cols == 0) {
         armassp_clear(A);
         return A;
     }
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
-    void *data = calloc(nbytes, 1);
+    void *data = calloc(nbytes > 0 ? nbytes : 1, 1);
     if (!data)
         return (armas_sparse_t *) 0;
     armassp_make(A, rows, cols, nnz, storage, data, nbytes);
-- 
2.43.0


From 388a7af565eead243db6e569e50f1771b99c06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 126/208] fix: resizing sparse matrix left its byte count
 unchanged and overflowed when shrinking

---
 src/sparse/util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index c325627..2f8650d 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -128,6 +128,8 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
 int armassp_resize(armas_sparse_t * A, int newsize)
 {
     if (A->kind == ARMASSP_COO) {
+        if (newsize < A->nnz)
+            return -1;
         coo_elem_t *nb = (coo_elem_t *) calloc(newsize, sizeof(coo_elem_t));
         if (!nb)
             return -1;
@@ -135,6 +137,7 @@ int armassp_resize(armas_sparse_t * A, int newsize)
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
-- 
2.43.0


From 4bf09977e9724bd3a02c22967c221d96a79d8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 127/208] fix: copy of sparse matrix did not get dimensions,
 kind and entry count of source

---
 src/sparse/copy.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..749cb31 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -37,6 +37,13 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         return (armas_sparse_t *) 0;
     }
 
+    if (A == B)
+        return A;
+    // lay out target for dimensions and storage kind of source
+    size_t nbytes = armassp_nbytes(A);
+    armassp_make(A, B->rows, B->cols, B->nnz, B->kind, A->elems.v, nbytes);
+    A->__nbytes = nbytes;
+
     DTYPE *Ae, *Be;
     switch (B->kind) {
     case ARMASSP_CSC:
@@ -50,8 +57,6 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         for (int k = 0; k <= B->nptr; k++) {
             A->ptr[k] = B->ptr[k];
         }
-        A->nptr = B->nptr;
-        A->nnz = B->nnz;
         break;
     case ARMASSP_COO:
         for (int k = 0; k < B->nnz; k++) {
@@ -59,6 +64,7 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         }
         break;
     }
+    A->nnz = B->nnz;
     return A;
 }
 
-- 
2.43.0


From a7ad8f194b7d51bde5159d1679881a0ac427e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 128/208] fix: conversion to existing sparse matrix used its
 old contents and dimensions

---
 src/sparse/convert.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..51888d4 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -239,7 +239,9 @@ armas_sparse_t *armassp_convert_to(
         return (armas_sparse_t *) 0;
     }
     // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
+    for (int k = 0; k <= A->nptr; k++)
+        A->ptr[k] = 0;
 
     switch (B->kind) {
     case ARMASSP_COO:
-- 
2.43.0


From 809a3608fde5172029dd7d1d7ea012a27fca6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 129/208] fix: conversion of sparse matrix to its own storage
 kind lost all entries

---
 src/sparse/convert.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 51888d4..52428ea 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -254,13 +254,15 @@ armas_sparse_t *armassp_convert_to(
     case ARMASSP_CSC:
         if (target == ARMASSP_CSR)
             csc_to_csr(A, B);
-        // target CSC implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     case ARMASSP_CSR:
     default:
         if (target == ARMASSP_CSC)
             csr_to_csc(A, B);
-        // target CSR implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     }
     return A;
-- 
2.43.0


From cdade198daa645948bb2b68635bfaecac51a211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 130/208] fix: failing conversion or transposition of sparse
 matrix lost its target

---
 src/sparse/convert.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 52428ea..486573d 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -283,8 +283,14 @@ armas_sparse_t *armassp_convert_to(
 armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
+    if (!B || (target != ARMASSP_CSC && target != ARMASSP_CSR))
+        return (armas_sparse_t *) 0;
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    if (A && !armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -324,10 +330,16 @@ armas_sparse_t *armassp_transpose_to(armas_sparse_t * A,
 
 armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
 {
+    if (!B || B->kind == ARMASSP_COO)
+        return (armas_sparse_t *) 0;
     armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
     // make space reservation as if converted to other storage format
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    if (A && !armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
-- 
2.43.0


From 88e0a21dacf4f0ab52f3fb8e0d6d63de2d33b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 131/208] fix: dense image of sparse matrix kept old elements
 at positions without entry

---
 src/sparse/dense.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparse/dense.c b/src/sparse/dense.c
index 89ce9e3..ec40d0f 100644
--- a/src/sparse/dense.c
+++ b/src/sparse/dense.c
@@ -31,10 +31,14 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
 
     if (A->rows != B->rows || A->cols != B->cols) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
 
     int stat = 0;
+    for (int j = 0; j < A->cols; j++) {
+        for (int i = 0; i < A->rows; i++)
+            armas_set_unsafe(A, i, j, ZERO);
+    }
     switch (B->kind) {
     case ARMASSP_CSC:
         for (int j = 0; j < B->nptr; j++) {
-- 
2.43.0


From 7f5dc8cc076f66ce4e0ab396c25c3e041ee80b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 132/208] fix: test for off-diagonals of sparse matrix looked
 at wrong positions

---
 src/sparse/util.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 2f8650d..bd23d04 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -183,8 +183,8 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
+        roff = diag < 0 ? -diag : 0;
+        coff = diag > 0 ? diag : 0;
         nc = diag < 0 ? A->rows + diag : A->cols - diag;
         for (i = 0; i < A->nnz; i++) {
             if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
@@ -193,9 +193,9 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         break;
     case ARMASSP_CSC:
         start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
+        end = diag < 0 ? A->cols + diag : A->cols;
         nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
+        for (i = diag < 0 ? -diag : 0, j = start; j < end; i++, j++) {
             for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
                 if (armassp_at(A, p) == i) {
                     nc--;
@@ -208,7 +208,7 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         start = diag < 0 ? -diag : 0;
         end = diag > 0 ? A->rows - diag : A->rows;
         nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
+        for (j = diag > 0 ? diag : 0, i = start; i < end; i++, j++) {
             for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
                 if (armassp_at(A, p) == j) {
                     nc--;
-- 
2.43.0


From 4aea2324ebf9e25f66415ad896adf1d98e010dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 133/208] fix: looking for entry of sparse matrix read past the
 last index

---
 src/include/sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..f6b7a65 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
-- 
2.43.0


From c0cdba3ea10a13ffa3bb299b8db3456ae516666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 134/208] fix: sparse matrix-vector product scaled wrong number
 of elements, depended on unrelated flags and on old contents with zero beta

---
 src/sparse/gemv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..7a4f99e 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -29,10 +29,10 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta == ZERO ? ZERO : beta * y[i];
 
         // update with linear combinations of A's columns
         for (int j = 0; j < A->cols; j++) {
@@ -48,7 +48,7 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k]];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j] = (beta == ZERO ? ZERO : beta * y[j]) + alpha * ax;
         }
     }
     return 0;
@@ -59,19 +59,19 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
         // y + alpha*A*x
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k]];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j] = (beta == ZERO ? ZERO : beta * y[j]) + alpha * ax;
         }
     } else {
         // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+        for (int i = 0; i < A->cols; i++)
+            y[i] = beta == ZERO ? ZERO : beta * y[i];
 
         // update with linear combinations of A's rows
         for (int j = 0; j < A->rows; j++) {
-- 
2.43.0


From 2348dcbe1dfae8fdb08d267d5f5675c3522faf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 135/208] fix: sparse matrix-vector operations accepted
 operands of wrong size

---
 src/sparse/gemv.c | 8 ++++----
 src/sparse/symv.c | 6 ++----
 src/sparse/trmv.c | 8 +++++---
 src/sparse/trsv.c | 5 +++--
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 7a4f99e..3b5f7d0 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -97,12 +97,12 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
@@ -116,7 +116,7 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
         break;
     }
     cf->error = ARMAS_EIMP;
-    return -1;
+    return -ARMAS_EIMP;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..de87a89 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -192,10 +192,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols
+        && armas_size(y) == A->rows && armas_size(x) == A->cols;
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..41f7a41 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -209,12 +209,14 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
+    }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..557b288 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -208,12 +208,13 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-- 
2.43.0


From 85a82d192ca1aa90785f6c0c8b87185fc7314dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 136/208] fix: sparse symmetric product used entries of
 neighbouring lines and old contents with zero beta

---
 src/sparse/symv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index de87a89..92759fd 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -104,16 +104,16 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta == ZERO ? ZERO : beta * y[i];
     }
     // update with linear combinations of A's columns
     for (j = 0; j < A->cols; j++) {
         ax = alpha * x[j];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k < A->ptr[j + 1] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k++;
         }
@@ -136,16 +136,16 @@ int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i] = beta == ZERO ? ZERO : beta * y[i];
     }
     // update with linear combinations of A's columns
     for (j = A->cols - 1; j >= 0; j--) {
         ax = alpha * x[j];
         // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k >= A->ptr[j] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k--;
         }
-- 
2.43.0


From 6da88a9a8d464affdb2b59e668dcbc832a8f9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 137/208] fix: sparse triangular product used entries of
 neighbouring lines

---
 src/sparse/trmv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 41f7a41..0b558c7 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -38,7 +38,7 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
             x[j] = alpha * xj;
         } else {
             // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
+            x[j] = k > A->ptr[j] && A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
         }
     }
     return 0;
@@ -54,7 +54,7 @@ int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = 0; j < A->rows; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += Ae[k] * x[A->ix[k]];
         }
@@ -96,7 +96,7 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -112,7 +112,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = A->cols - 1; j >= 0; j--) {
         xj = x[j];
         // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         // update x rows below diagonal
         for (i = k; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] += alpha * Ae[i] * xj;
@@ -121,7 +121,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -152,7 +152,7 @@ int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (j = 0; j < A->cols; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += A->elems.v[k] * x[A->ix[k]];
         }
@@ -176,7 +176,7 @@ int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j] = p < A->ptr[j + 1] && A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
-- 
2.43.0


From 305e4135203843bde557006a430599127679a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 138/208] fix: sparse triangular solver ignored alpha

---
 src/sparse/trsv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 557b288..32f6b8b 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -222,6 +222,11 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
 
     DTYPE *y = armas_data(x);
 
+    if (alpha != ONE) {
+        for (int i = 0; i < A->rows; i++)
+            y[i] *= alpha;
+    }
+
     // TODO: we assume column vector here; how about a row vector??
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
-- 
2.43.0


From eac0f816d8469daf59ac11fef1522f1bb30d843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 139/208] fix: sparse triangular solver was wrong when unit
 diagonal is not stored

---
 src/sparse/trsv.c | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 32f6b8b..824afff 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -31,9 +31,9 @@ int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j, k;
     for (j = A->cols - 1; j >= 0; j--) {
         // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
+        for (i = A->ptr[j]; i <= k && A->ix[i] < j; i++) {
             x[A->ix[i]] -= Ae[i] * x[j];
         }
     }
@@ -68,7 +68,7 @@ int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
             xk += Ae[i] * x[A->ix[i]];
         }
         // here Ax[i] == j
@@ -87,10 +87,13 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int j, p;
     for (j = 0; j < A->rows; j++) {
-        // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
+        // skip elements below diagonal; unit diagonal may not be stored
+        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++);
+        if (!unit)
+            x[j] = p < A->ptr[j + 1] && A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0;
+        if (p < A->ptr[j + 1] && A->ix[p] == j)
+            p++;
+        for (; p < A->ptr[j + 1]; p++) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
@@ -104,11 +107,14 @@ int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++);
         // compute diagonal; assumes non-zero ; A->ix[i] == j
         if (!unit)
             x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
+        // unit diagonal may not be stored
+        if (i < A->ptr[j + 1] && A->ix[i] == j)
+            i++;
+        for (; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] -= A->elems.v[i] * x[j];
         }
     }
@@ -143,17 +149,12 @@ int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int i, j, k;
 
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
-
-    for (j = A->cols - 2; j >= 0; j--) {
+    for (j = A->cols - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
+        // A->ix[k] == first row index equals column index; unit diagonal may not be stored
+        i = k < A->ptr[j + 1] && A->ix[k] == j ? k + 1 : k;
+        for (; i < A->ptr[j + 1]; i++) {
             x[j] -= Ae[i] * x[A->ix[i]];
         }
         // compute diagonal; assumes non-zero ; A->ix[k] == j
@@ -170,10 +171,13 @@ int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     for (j = A->rows - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
+        for (p = A->ptr[j + 1] - 1; p >= A->ptr[j] && A->ix[p] > j; p--);
         if (!unit)
             x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
+        // unit diagonal may not be stored
+        if (p >= A->ptr[j] && A->ix[p] == j)
+            p--;
+        for (; p >= A->ptr[j]; p--) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
-- 
2.43.0


From 8108181de0bf39c9c702c105cd1cb44721045971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 140/208] fix: gathering the last entry that fits to sparse
 matrix failed

---
 src/sparse/accum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..e036a59 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -160,11 +160,11 @@ void armas_accum_gather(armas_sparse_t * C,
     C->ptr[ik] = C->nnz;
     for (head = 0; head < acc->tail; head++) {
         k = acc->queue[head];
+        // need realloc??; core dump now if yes
+        assert(C->nnz < C->size);
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
 }
 
-- 
2.43.0


From c16122d7c08924588fb470a4fe3cc3012f70ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 141/208] fix: sum of sparse matrices crashed, was wrong for
 transposed operands and not in index order

---
 src/sparse/add.c | 79 ++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..4cbecc0 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -87,35 +87,29 @@ void add_csr_nt(armas_sparse_t * C,
     C->nptr = A->rows;
 }
 
+// both operands transposed; CSC and CSR storage
 static
-void add_csr_tn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+void add_tt(armas_sparse_t * C,
+            DTYPE alpha, const armas_sparse_t * A,
+            DTYPE beta, const armas_sparse_t * B,
+            armas_accum_t * spa)
 {
     int i, j, p;
-    DTYPE val;
 
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
-        for (j = 0; j < A->rows; j++) {
-            if ((p = armassp_nz(A, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(A, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
+    for (i = 0; i < C->nptr; i++) {
+        for (j = 0; j < A->nptr; j++) {
+            if ((p = armassp_nz(A, j, i)) >= 0)
+                armas_accum_addpos(spa, j, alpha * armassp_value(A, p), i);
+            if ((p = armassp_nz(B, j, i)) >= 0)
+                armas_accum_addpos(spa, j, beta * armassp_value(B, p), i);
         }
-        // gather data to C[i,:] row
         armas_accum_gather(C, 1.0, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->nptr] = C->nnz;
 }
 
 
@@ -203,17 +197,27 @@ int armassp_addto_w(armas_sparse_t * C,
                       const armas_sparse_t * B,
                       int bits, armas_wbuf_t * wb, armas_conf_t * cf)
 {
+    int m, n;
+
     if (!A || !B)
         return 0;
+    if (!cf)
+        cf = armas_conf_default();
 
-    if (A->kind != B->kind) {
+    if (!C || !wb || A->kind != B->kind || A->kind == ARMASSP_COO || C->kind != A->kind) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (A->rows != B->rows || A->cols != B->cols) {
+    m = (bits & ARMAS_TRANSA) == 0 ? A->rows : A->cols;
+    n = (bits & ARMAS_TRANSA) == 0 ? A->cols : A->rows;
+    if (m != ((bits & ARMAS_TRANSB) == 0 ? B->rows : B->cols) ||
+        n != ((bits & ARMAS_TRANSB) == 0 ? B->cols : B->rows) ||
+        C->rows != m || C->cols != n || C->size < A->nnz + B->nnz) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-    if (wb && wb->bytes == 0) {
+    if (wb->bytes == 0) {
         wb->bytes = armas_accum_need(C);
         return 0;
     }
@@ -237,11 +241,16 @@ int armassp_addto_w(armas_sparse_t * C,
         }
         break;
     case ARMAS_TRANSA:
+        // A^T + B == B + A^T
         if (A->kind == ARMASSP_CSC) {
+            add_csc_nt(C, beta, B, alpha, A, &spa);
         } else {
-            add_csr_tn(C, alpha, A, beta, B, &spa);
+            add_csr_nt(C, beta, B, alpha, A, &spa);
         }
         break;
+    case ARMAS_TRANSA | ARMAS_TRANSB:
+        add_tt(C, alpha, A, beta, B, &spa);
+        break;
     default:
         if (A->kind == ARMASSP_CSC) {
             add_csc_nn(C, alpha, A, beta, B, &spa);
@@ -250,6 +259,8 @@ int armassp_addto_w(armas_sparse_t * C,
         }
         break;
     }
+    // entries on rows and columns in ascending order
+    armassp_sort(C);
     // release used wbspace
     armas_wsetpos(wb, pos);
     return 0;
@@ -273,20 +284,28 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     if (!A || !B)
         return C;
 
-    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
-        return C;
+    if (!cf)
+        cf = armas_conf_default();
 
-    if (!armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
-        return C;
-    }
     // allocate target matrix; size estimate 
     int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    if ((bits & ARMAS_TRANSA) == 0)
+        C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    else
+        C = armassp_new(A->cols, A->rows, cnz, A->kind);
     if (!C) {
-        armas_wrelease(&work);
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (!armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
 
     armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
     armas_wrelease(&work);
-- 
2.43.0


From ca3412e2ee43b8019765d89298efb71c4633483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 142/208] fix: product of sparse matrices ignored alpha and was
 wrong for rectangular transposed operands

---
 src/sparse/mult.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..8c6356e 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -50,7 +50,7 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -100,7 +100,7 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
@@ -112,8 +112,8 @@ int mult_csr_tn(armas_sparse_t * C,
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -146,8 +146,8 @@ int mult_csr_tt(armas_sparse_t * C,
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -221,7 +221,7 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < B->rows; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
@@ -251,8 +251,8 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
-- 
2.43.0


From e919d485495e58b85d8737e1be5e754ddf5cbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 143/208] fix: product of sparse matrices was empty, or overran
 its result and accumulator

---
 src/sparse/mult.c | 85 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 8c6356e..f372125 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -272,11 +272,38 @@ int mult_csc_tt(armas_sparse_t * C,
     return 0;
 }
 
+/*
+ * Upper limit for the number of non-zero entries in op(A)*op(B).
+ */
 size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
-    int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
-    return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
+    size_t nz = 0, na = 0, nb = 0;
+    size_t m = (flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols;
+    size_t n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
+    // left operand X and right operand Y in terms of compressed rows
+    const armas_sparse_t *X = A->kind == ARMASSP_CSR ? A : B;
+    const armas_sparse_t *Y = A->kind == ARMASSP_CSR ? B : A;
+    int tx = flags & (A->kind == ARMASSP_CSR ? ARMAS_TRANSA : ARMAS_TRANSB);
+    int ty = flags & (A->kind == ARMASSP_CSR ? ARMAS_TRANSB : ARMAS_TRANSA);
+
+    if (tx && ty) {
+        for (int p = 0; p < Y->nnz; p++)
+            nz += armassp_len(X, armassp_at(Y, p));
+    } else if (tx) {
+        for (int j = 0; j < X->nptr; j++)
+            nz += ((size_t) armassp_len(X, j)) * armassp_len(Y, j);
+    } else if (ty) {
+        for (int j = 0; j < X->nptr; j++)
+            na += armassp_len(X, j) > 0;
+        for (int j = 0; j < Y->nptr; j++)
+            nb += armassp_len(Y, j) > 0;
+        nz = na * nb;
+    } else {
+        for (int p = 0; p < X->nnz; p++)
+            nz += armassp_len(Y, armassp_at(X, p));
+    }
+    return nz < m * n ? nz : m * n;
 }
 
 /**
@@ -311,6 +338,12 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+    if (!A || !B || !C || !w || A->kind == ARMASSP_COO || A->kind != B->kind || A->kind != C->kind) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -333,9 +366,9 @@ int armassp_multto_w(armas_sparse_t * C,
         ok = A->cols == B->rows && C->rows == m && C->cols == n;
         break;
     }
-    if (!ok || !w) {
-        cf->error = ARMAS_EINVAL;
-        return -1;
+    if (!ok) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
     }
 
     // get estimate for needed work space
@@ -344,23 +377,19 @@ int armassp_multto_w(armas_sparse_t * C,
         return 0;
     }
     // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
+    if (C->size < 0 || (size_t) C->size < armassp_mult_nnz(A, B, flags)) {
         cf->error = ARMAS_ESIZE;
-        return -2;
+        return -ARMAS_ESIZE;
     }
 
     size_t sz = armas_accum_need(C);
     if (armas_wbytes(w) < sz) {
         cf->error = ARMAS_EWORK;
-        return -3;
+        return -ARMAS_EWORK;
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wptr(w), sz);
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -389,6 +418,8 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    // entries on rows and columns in ascending order
+    armassp_sort(C);
     return stat;
 }
 
@@ -416,19 +447,39 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  int flags, armas_conf_t * cf)
 {
     armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_wbuf_t work = ARMAS_WBNULL;
+
+    if (!cf)
+        cf = armas_conf_default();
 
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
+        return (armas_sparse_t *) 0;
+    }
+    if (((flags & ARMAS_TRANSA) == 0 ? A->cols : A->rows) !=
+        ((flags & ARMAS_TRANSB) == 0 ? B->rows : B->cols)) {
+        cf->error = ARMAS_ESIZE;
         return (armas_sparse_t *) 0;
     }
     // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
+    C = armassp_new((flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols,
+                    (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows,
+                    (int) armassp_mult_nnz(A, B, flags), A->kind);
     if (!C) {
         cf->error = ARMAS_EMEMORY;
         return (armas_sparse_t *) 0;
     }
-
+    if (armassp_multto_w(C, alpha, A, B, flags, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (!armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+    armas_wrelease(&work);
     return C;
 }
 #else
-- 
2.43.0


From 93dcdb5ffbf07e3e9a8b8dc764030327f382af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 144/208] fix: conjugate gradient solvers made not-a-numbers of
 a solution given to them

---
 src/sparse/cgne.c   | 8 ++++++++
 src/sparse/cgnr.c   | 8 ++++++++
 src/sparse/cgrad.c  | 8 ++++++++
 src/sparse/pcgrad.c | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..d4893f6 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -184,6 +184,14 @@ int armassp_cgne_w(armas_dense_t * x,
     t = armas_wreserve(wb, m, sizeof(DTYPE));
     armas_make(&Ap, m, 1, m, t);
 
+    dot_r1 = armas_dot(&r, &r, cf);
+    if (dot_r1 == ZERO) {
+        // nothing to improve
+        cf->numiters = 0;
+        cf->residual = 0.0;
+        armas_wsetpos(wb, pos);
+        return 0;
+    }
     // -------------------------------------------------------------------------
     dot_r1 = ZERO;
     for (niter = 0; niter < maxiter; niter++) {
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..635eeb5 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -173,6 +173,14 @@ int armassp_cgnr_w(armas_dense_t * x,
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&Ap, m, 1, m, t);
 
+    dot_z1 = armas_dot(&z, &z, cf);
+    if (dot_z1 == ZERO) {
+        // nothing to improve
+        cf->numiters = 0;
+        cf->residual = 0.0;
+        armas_wsetpos(W, pos);
+        return 0;
+    }
     // --------------------------------------------------------------------
     dot_z1 = ZERO;
     for (niter = 0; niter < maxiter; niter++) {
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..1f37259 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -166,6 +166,14 @@ int armassp_cgrad_w(armas_dense_t * x,
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&Ap, m, 1, m, t);
 
+    dot_r1 = armas_dot(&r, &r, cf);
+    if (dot_r1 == ZERO) {
+        // nothing to improve
+        cf->numiters = 0;
+        cf->residual = 0.0;
+        armas_wsetpos(W, pos);
+        return 0;
+    }
     // -------------------------------------------------------------------------
     dot_r1 = ZERO;
     for (niter = 0; niter < maxiter; niter++) {
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..c786160 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -181,6 +181,14 @@ int armassp_pcgrad_w(armas_dense_t * x,
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&Ap, m, 1, m, t);
 
+    dot_rz1 = armas_dot(&r, &z, cf);
+    if (dot_rz1 == ZERO) {
+        // nothing to improve
+        cf->numiters = 0;
+        cf->residual = 0.0;
+        armas_wsetpos(W, wpos);
+        return 0;
+    }
     // -------------------------------------------------------------------------
     dot_rz1 = ZERO;
     for (niter = 0; niter < maxiter; niter++) {
-- 
2.43.0


From 86e83267ced4000e289a5aa3ff73c5c6535b69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 145/208] fix: conjugate gradient solvers did not count last
 iteration nor tell of reaching the iteration limit

---
 src/sparse/cgne.c   | 11 +++++++++--
 src/sparse/cgnr.c   | 11 +++++++++--
 src/sparse/cgrad.c  | 11 +++++++++--
 src/sparse/pcgrad.c |  9 ++++++++-
 4 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index d4893f6..b81e1c2 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -126,7 +126,7 @@ int armassp_cgne_w(armas_dense_t * x,
 {
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
-    int niter, m, n, maxiter;
+    int niter, m, n, maxiter, converged;
 
     if (!cf)
         cf = armas_conf_default();
@@ -194,6 +194,7 @@ int armassp_cgne_w(armas_dense_t * x,
     }
     // -------------------------------------------------------------------------
     dot_r1 = ZERO;
+    converged = 0;
     for (niter = 0; niter < maxiter; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
@@ -208,6 +209,8 @@ int armassp_cgne_w(armas_dense_t * x,
 
         dot_r1 = armas_dot(&r, &r, cf);
         if (dot_r1 < rstop) {
+            niter++;
+            converged = 1;
             break;
         }
         beta = dot_r1 / dot_r;
@@ -220,7 +223,11 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 635eeb5..154db4b 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -112,7 +112,7 @@ int armassp_cgnr_w(armas_dense_t * x,
 {
     armas_dense_t p, Ap, r, z;
     DTYPE dot_z, dot_p, alpha, beta, dot_z1, *t, rstop, rmult;
-    int m, n, maxiter, niter;
+    int m, n, maxiter, niter, converged;
 
     if (!cf)
         cf = armas_conf_default();
@@ -183,6 +183,7 @@ int armassp_cgnr_w(armas_dense_t * x,
     }
     // --------------------------------------------------------------------
     dot_z1 = ZERO;
+    converged = 0;
     for (niter = 0; niter < maxiter; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
@@ -199,6 +200,8 @@ int armassp_cgnr_w(armas_dense_t * x,
 
         dot_z1 = armas_dot(&z, &z, cf);
         if (dot_z1 < rstop) {
+            niter++;
+            converged = 1;
             break;
         }
         beta = dot_z1 / dot_z;
@@ -210,7 +213,11 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index 1f37259..a158415 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -111,7 +111,7 @@ int armassp_cgrad_w(armas_dense_t * x,
                       const armas_dense_t * b,
                       int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int maxiter, niter, m;
+    int maxiter, niter, m, converged;
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
 
@@ -176,6 +176,7 @@ int armassp_cgrad_w(armas_dense_t * x,
     }
     // -------------------------------------------------------------------------
     dot_r1 = ZERO;
+    converged = 0;
     for (niter = 0; niter < maxiter; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
@@ -190,6 +191,8 @@ int armassp_cgrad_w(armas_dense_t * x,
 
         dot_r1 = armas_dot(&r, &r, cf);
         if (dot_r1 < rstop) {
+            niter++;
+            converged = 1;
             break;
         }
         beta = dot_r1 / dot_r;
@@ -202,7 +205,11 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index c786160..8cffb5e 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -122,7 +122,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
                        armassp_precond_t * M,
                        int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int m, niter, maxiter;
+    int m, niter, maxiter, converged;
     DTYPE dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
     armas_dense_t Ap, p, z, r;
 
@@ -191,6 +191,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
     }
     // -------------------------------------------------------------------------
     dot_rz1 = ZERO;
+    converged = 0;
     for (niter = 0; niter < maxiter; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
@@ -207,6 +208,8 @@ int armassp_pcgrad_w(armas_dense_t * x,
 
         dot_rz1 = armas_dot(&r, &z, cf);
         if (dot_rz1 < rstop) {
+            niter++;
+            converged = 1;
             break;
         }
         beta = dot_rz1 / dot_rz;
@@ -219,6 +222,10 @@ int armassp_pcgrad_w(armas_dense_t * x,
     cf->residual = SQRT(dot_rz1);
 
     armas_wsetpos(W, wpos);
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From 0a89a28ad3bfc932fb24d4ca1c6fca44ec82ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 146/208] fix: preconditioned GMRES solved without applying
 preconditioner to matrix

---
 src/sparse/pgmres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..e81df74 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -128,7 +128,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(w, P00.rows - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = AM^-1*v; p1 == z
-        M->precond(&p1, M, &p1, cnf);
+        M->precond(w, M, w, cnf);
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
         // z = P_j*...P_1*Av
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
-- 
2.43.0


From 6bc27cf9ba30d6dcf792d64f59fbad2b79b58a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 147/208] fix: incomplete LU preconditioner applied its factors
 in wrong order

---
 src/sparse/iluz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..ca66bc0 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -154,9 +154,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_mcopy(z, x, 0, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
-- 
2.43.0


From 8e1f7c5e667ae46758ea9fc5eac3b99a7a0a6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 148/208] fix: GMRES went past the dimension of the system and
 the workspace

---
 src/sparse/gmres.c  |  9 ++++++++-
 src/sparse/pgmres.c | 11 ++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..a3c14f6 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -137,7 +137,10 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        if (p11.rows == 0)
+            _beta = ZERO;
+        else
+            armas_house(&p11, &p21, &beta, 0, cnf);
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
@@ -201,6 +204,10 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     DTYPE nrm_r0, nrm_r1, rstop;
     int n = A->cols;
 
+    // no more columns than there are dimensions
+    if (m > n)
+        m = n;
+
     size_t pos = armas_wpos(W);
     // matrix P; Householder vectors
     DTYPE *t = armas_wreserve(W, n * (m + 1), sizeof(DTYPE));
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index e81df74..cdd189a 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -138,7 +138,10 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        if (p11.rows == 0)
+            _beta = ZERO;
+        else
+            armas_house(&p11, &p21, &beta, 0, cnf);
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
@@ -297,6 +300,12 @@ int armassp_pgmres_w(armas_dense_t * x,
     }
     maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
+    // no more columns than fit to workspace or there are dimensions
+    if (m > me)
+        m = me;
+    if (m > n)
+        m = n;
+
     // ------------------------------------------------------------------------
     size_t pos = armas_wpos(W);
     // matrix P; Householder vectors
-- 
2.43.0


From c36a6c45cf549c3ae5c3570867debb4325be328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 149/208] fix: GMRES ignored stopping criteria, went over
 iteration limit and did not tell the residual nor of missing convergence

---
 src/sparse/gmres.c  | 26 +++++++++++++++++++++-----
 src/sparse/pgmres.c | 17 ++++++++++++++---
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a3c14f6..4804bee 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -198,7 +198,8 @@ int gmres_hh_loop_fused(armas_dense_t * x,
                         const armas_dense_t * b,
                         int maxiter,
                         int m,
-                        DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
+                        DTYPE * res, int *converged,
+                        armas_wbuf_t * W, armas_conf_t * cf)
 {
     armas_dense_t P, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop;
@@ -230,14 +231,22 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = stopping && *stopping != ZERO ?
-        *stopping : EPS * nrm_r0 * A->cols;
+    rstop = cf->stop > ZERO ? cf->stop
+        : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0 * A->cols);
 
     int niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    nrm_r1 = nrm_r0;
+    *converged = nrm_r0 == ZERO;
+    while (niter < maxiter && ! *converged) {
+        // not over the limit of iterations
+        if (m > maxiter - niter) {
+            m = maxiter - niter;
+            armas_make(&P, n, m + 1, n, armas_data(&P));
+        }
         niter +=
             gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
         if (nrm_r1 < rstop) {
+            *converged = 1;
             break;
         }
         // compute residual; w = b - A*x
@@ -246,6 +255,7 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     }
 
     armas_wsetpos(W, pos);
+    *res = nrm_r1;
     return niter;
 }
 
@@ -483,9 +493,15 @@ int armassp_gmres_w(armas_dense_t * x,
     }
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
     DTYPE res = ZERO;
-    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
+    int converged = 0;
+    int niter =
+        gmres_hh_loop_fused(x, A, b, maxiter, me, &res, &converged, wb, cf);
     cf->residual = res;
     cf->numiters = niter;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index cdd189a..02048d5 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -271,7 +271,7 @@ int armassp_pgmres_w(armas_dense_t * x,
                        const armassp_precond_t * M,
                        armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int n, m, me, maxiter, niter;
+    int n, m, me, maxiter, niter, converged;
     armas_dense_t P, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop, *t;
 
@@ -333,12 +333,19 @@ int armassp_pgmres_w(armas_dense_t * x,
         : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0);
 
     // ------------------------------------------------------------------------
-    nrm_r1 = ZERO;
+    nrm_r1 = nrm_r0;
     niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    converged = nrm_r0 == ZERO;
+    while (niter < maxiter && !converged) {
+        // not over the limit of iterations
+        if (m > maxiter - niter) {
+            m = maxiter - niter;
+            armas_make(&P, n, m + 1, n, armas_data(&P));
+        }
         niter +=
             pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
         if (nrm_r1 < rstop) {
+            converged = 1;
             break;
         }
         // compute residual; w = b - A*x
@@ -351,6 +358,10 @@ int armassp_pgmres_w(armas_dense_t * x,
     cf->residual = nrm_r1;
     cf->numiters = niter;
 
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From 5ff8f36aba3ce2a518dfdf402cee6ec425c1ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 150/208] fix: GMRES was wrong when its last step was needed

---
 src/sparse/gmres.c  | 5 ++++-
 src/sparse/pgmres.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index 4804bee..8a0001a 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -114,7 +114,7 @@ int gmres_hh_fused(armas_dense_t * x,
     armas_house(&PTL, &PBL, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
+    while (nrot < m && converged == 0) {
         mat_repartition_2x2to3x3(
             &PTL, /**/
             &P00, &p01, __nil,
@@ -122,6 +122,9 @@ int gmres_hh_fused(armas_dense_t * x,
             __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_1x2to1x3(
             &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+        // all of the last column when there are no rows below
+        if (p11.rows == 0)
+            armas_column(&p01, P, P0.cols);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 02048d5..e026c5e 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -114,7 +114,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
     armas_house(&PTL, &PBL, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
+    while (nrot < m && converged == 0) {
         mat_repartition_2x2to3x3(
             &PTL, /**/
             &P00, &p01, __nil,
@@ -122,6 +122,9 @@ int pgmres_hh_pfused(armas_dense_t * x,
             __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_1x2to1x3(
             &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+        // all of the last column when there are no rows below
+        if (p11.rows == 0)
+            armas_column(&p01, P, P0.cols);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-- 
2.43.0


From 77e6b86cc6c9ed454d18b0a8076f1444a6f3ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 151/208] fix: iterative solvers returned code of another error
 or failed on missing matrix

---
 src/sparse/cgne.c   |  6 +++---
 src/sparse/cgnr.c   |  6 +++---
 src/sparse/gmres.c  | 12 ++++++++----
 src/sparse/pcgrad.c | 14 +++++++-------
 src/sparse/pgmres.c | 13 +++++++------
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index b81e1c2..205a84b 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -247,7 +247,7 @@ int armassp_cgne(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
@@ -255,12 +255,12 @@ int armassp_cgne(armas_dense_t * x,
 
     if (armassp_cgne_w(x, A, b, &W, cf) < 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgne_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 154db4b..33e3f60 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -237,7 +237,7 @@ int armassp_cgnr(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
@@ -245,12 +245,12 @@ int armassp_cgnr(armas_dense_t * x,
 
     if (armassp_cgnr_w(x, A, b, &W, cf) < 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgnr_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index 8a0001a..74cf4cf 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -476,6 +476,10 @@ int armassp_gmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     int n = A->rows;
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
@@ -486,13 +490,13 @@ int armassp_gmres_w(armas_dense_t * x,
     }
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     // estimate of m
     int me = compute_m(n, armas_wbytes(wb) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
     DTYPE res = ZERO;
@@ -524,7 +528,7 @@ int armassp_gmres(armas_dense_t * x,
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
@@ -532,7 +536,7 @@ int armassp_gmres(armas_dense_t * x,
     int nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_gmres_w(x, A, b, &W, cf);
     armas_wrelease(&W);
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 8cffb5e..d0979cb 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -130,7 +130,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
         cf = armas_conf_default();
     if (!A) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     m = A->rows;
@@ -141,11 +141,11 @@ int armassp_pcgrad_w(armas_dense_t * x,
     }
     if (check_parms(x, A, b) == 0) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (armas_wbytes(W) < PCGRAD_WSIZE(m)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     if (A->rows == 0 || A->cols == 0)
         return 0;
@@ -247,18 +247,18 @@ int armassp_pcgrad(armas_dense_t * x,
     }
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
     // get working size
-    if (armassp_pcgrad_w(x, A, b, M, flags, &W, cf) < 0) {
-        return -1;
+    if ((stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf)) < 0) {
+        return stat;
     }
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf);
     armas_wrelease(&W);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index e026c5e..ec66ad2 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -281,25 +281,26 @@ int armassp_pgmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
     if (!A) {
-        return -1;
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
     }
 
     n = A->cols;
     m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
-    if (W->bytes == 0) {
+    if (W && W->bytes == 0) {
         // get working size
         W->bytes = GMRES_WSIZE(n, m);
         return 0;
     }
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     // estimate of m
     me = compute_m(n, armas_wbytes(W) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
@@ -385,7 +386,7 @@ int armassp_pgmres(armas_dense_t * x,       /*  */
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
@@ -393,7 +394,7 @@ int armassp_pgmres(armas_dense_t * x,       /*  */
     int nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_pgmres_w(x, A, b, M, &W, cf);
     armas_wrelease(&W);
-- 
2.43.0


From bfa241a46ffd0ec0e25c5272cb2db55cafa72c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 152/208] fix: iterative solvers accepted matrix in storage
 they cannot multiply with

---
 src/sparse/cgne.c   | 2 ++
 src/sparse/cgnr.c   | 2 ++
 src/sparse/cgrad.c  | 2 ++
 src/sparse/gmres.c  | 2 ++
 src/sparse/pcgrad.c | 2 ++
 src/sparse/pgmres.c | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index 205a84b..9c4d143 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -57,6 +57,8 @@ int check_parms(const armas_dense_t * x,
 {
     if (!A)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (!armas_isvector(x))
         return 0;
     if (!armas_isvector(b))
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 33e3f60..673bcb2 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -55,6 +55,8 @@ int check_parms(const armas_dense_t * x,
 {
     if (!A)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (!armas_isvector(x))
         return 0;
     if (!armas_isvector(b))
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index a158415..a9d6fba 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -51,6 +51,8 @@ int check_parms(const armas_dense_t * x,
 {
     if (!A)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (!armas_isvector(x))
         return 0;
     if (!armas_isvector(b))
diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index 74cf4cf..e623b22 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -431,6 +431,8 @@ int check_params(armas_dense_t * x,
 {
     if (!A || !x || !b)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (A->rows != A->cols)
         return 0;
     if (!armas_isvector(x))
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index d0979cb..d4d1502 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -70,6 +70,8 @@ int check_parms(const armas_dense_t * x,
 {
     if (!A)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (!armas_isvector(x))
         return 0;
     if (!armas_isvector(b))
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index ec66ad2..6e76b9c 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -222,6 +222,8 @@ int check_params(const armas_dense_t * x,
 {
     if (!A || !x || !b)
         return 0;
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return 0;
     if (A->rows != A->cols)
         return 0;
     if (!armas_isvector(x))
-- 
2.43.0


From 7fe8ae7f016f52b9eba861fc8d7d2ac15990eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 153/208] fix: incomplete factorization searched past the end
 for missing diagonal entry

---
 src/sparse/icholz.c | 6 ++++++
 src/sparse/iluz.c   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..d9fa8d1 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -232,6 +232,12 @@ int csc_illtz_upper(armas_sparse_t * A)
  */
 int armassp_icholz(armas_sparse_t * A, int flags)
 {
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return -1;
+    // all diagonal entries are needed
+    if (!armassp_hasdiag(A, 0))
+        return -1;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER)) {
 
     case ARMAS_UPPER:
diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index ca66bc0..a41c41e 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -140,6 +140,9 @@ int armassp_iluz(armas_sparse_t * L)
 {
     if (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC)
         return -1;
+    // all diagonal entries are needed
+    if (!armassp_hasdiag(L, 0))
+        return -1;
 
     if (L->kind == ARMASSP_CSR) {
         return csr_iluz(L);
-- 
2.43.0


From f5598392ffd0e2c59dc3f0c393a6893ad32a66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 154/208] fix: incomplete Cholesky factorization read past the
 last index

---
 src/sparse/icholz.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index d9fa8d1..e5469d7 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -76,7 +76,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -118,7 +118,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -166,7 +166,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -214,7 +214,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
-- 
2.43.0


From 76d45884f1a3f86a8a786f3f0be65aa45d701877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 155/208] fix: incomplete Cholesky factorization did not tell
 of matrix without one

---
 src/sparse/icholz.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index e5469d7..0457f59 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -65,6 +65,8 @@ int csr_illtz_lower(armas_sparse_t * A)
         // assert p0 points to diagonal entry; p0+1 start of a12^T
         assert(armassp_at(A, p0) == i);
 
+        if (armassp_value(A, p0) <= ZERO)
+            return -1;
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11; A22 = A22 - l21*l21^T
@@ -105,6 +107,8 @@ int csr_illtz_upper(armas_sparse_t * A)
         // assert p0 points to diagonal entry; p0+1 start of a12^T
         assert(armassp_at(A, p0) == i);
 
+        if (armassp_value(A, p0) <= ZERO)
+            return -1;
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
 
@@ -154,6 +158,8 @@ int csc_illtz_lower(armas_sparse_t * A)
         // assert p0 points to diagonal entry; p0+1 start of a12^T
         assert(armassp_at(A, p0) == i);
 
+        if (armassp_value(A, p0) <= ZERO)
+            return -1;
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11;
@@ -203,6 +209,8 @@ int csc_illtz_upper(armas_sparse_t * A)
         // assert p0 points to diagonal entry; p0+1 start of a12^T
         assert(armassp_at(A, p0) == i);
 
+        if (armassp_value(A, p0) <= ZERO)
+            return -1;
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
         // u12^T = u12^T/a11; A22 = A22 - u12*u12^T
@@ -242,18 +250,14 @@ int armassp_icholz(armas_sparse_t * A, int flags)
 
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_upper(A);
-        else
-            csc_illtz_upper(A);
-        break;
+            return csr_illtz_upper(A);
+        return csc_illtz_upper(A);
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_lower(A);
-        else
-            csc_illtz_lower(A);
+            return csr_illtz_lower(A);
+        return csc_illtz_lower(A);
     }
-    return 0;
 }
 
 
-- 
2.43.0


From 0e756e243727363af13ea62547e6e462da0a7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 156/208] fix: workspace of conjugate gradient solver for least
 squares was too small

---
 src/sparse/cgnr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 673bcb2..ee7ca7d 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,7 +47,7 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  (2*((n) + (m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
-- 
2.43.0


From 280715b57869cee4ff0fe1a5631b39127dd9198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 157/208] fix: conjugate gradient solver for least squares
 diverged from its solution when direction vanished in rounding

---
 src/sparse/cgnr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index ee7ca7d..670f10d 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -191,6 +191,11 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
         dot_z = armas_dot(&z, &z, cf);
         dot_p = armas_dot(&Ap, &Ap, cf);
+        if (dot_p == ZERO) {
+            // no direction left
+            dot_z1 = dot_z;
+            break;
+        }
         alpha = dot_z / dot_p;
 
         // x = x + alpha*p
@@ -209,6 +214,10 @@ int armassp_cgnr_w(armas_dense_t * x,
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
+        if (TWO * armas_dot(&p, &p, cf) < dot_z1) {
+            // rounding took orthogonality of z and previous p, start over from here
+            armas_copy(&p, &z, cf);
+        }
     }
 
     cf->numiters = niter;
-- 
2.43.0


From fbdc0e05b5c8eabe275c034b87b3beef7535199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 158/208] fix: character above 127 was the end of a string or
 buffer stream

---
 src/io/ios.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..d13f78a 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
-- 
2.43.0


From e89eef57bfb1091ba2564e547abfc662c8d33007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 159/208] fix: pushing character back to string stream wrote to
 the string

---
 src/io/ios.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index d13f78a..beaffa6 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -54,8 +54,12 @@ static
 void wb_ungetc(void *ptr, int c)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
-    if (wb->offset > 0)
-        wb->buf[--wb->offset] = c;
+    if (wb->offset > 0) {
+        // stream may be read-only, character is normally there already
+        wb->offset--;
+        if (wb->buf[wb->offset] != (char)c)
+            wb->buf[wb->offset] = c;
+    }
 }
 
 static
-- 
2.43.0


From b3be2674c287f9cf323061fd68f7796b94eca526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 160/208] fix: JSON reader accepted malformed numbers

---
 src/io/json_reader.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..5ac9b82 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -65,8 +65,12 @@
 enum {
     JSON_STATE_VALUE = 0,
     JSON_STATE_STRING,
+    JSON_STATE_SIGN,
+    JSON_STATE_ZERO,
     JSON_STATE_NUMBER,
+    JSON_STATE_POINT,
     JSON_STATE_EXP,
+    JSON_STATE_EXPSIGN,
     JSON_STATE_EXP1,
     JSON_STATE_ESCAPE,
     JSON_STATE_HEX1,
@@ -105,6 +109,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
         c = armas_ios_getchar(reader);
         if (c < 0) {
             switch (state) {
+            case JSON_STATE_ZERO:
             case JSON_STATE_NUMBER:
             case JSON_STATE_EXP1:
                 // we had one element; a number
@@ -190,6 +195,23 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             state = JSON_STATE_STRING;
             break;
 
+        case JSON_STATE_SIGN:
+            // must get at least one digit after sign
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = c == '0' ? JSON_STATE_ZERO : JSON_STATE_NUMBER;
+            break;
+
+        case JSON_STATE_POINT:
+            // must get at least one digit after decimal point
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = JSON_STATE_NUMBER;
+            break;
+
+        case JSON_STATE_ZERO:
         case JSON_STATE_NUMBER:
             switch (c) {
             case ',':
@@ -213,9 +235,11 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                     return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 is_frac = 1;
+                state = JSON_STATE_POINT;
                 break;
             default:
-                if (isdigit(c)) {
+                // no digits after leading zero
+                if (isdigit(c) && state != JSON_STATE_ZERO) {
                     *bp++ = c;
                 }
                 else {
@@ -231,6 +255,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case '-':
             case '+':
                 *bp++ = c;
+                state = JSON_STATE_EXPSIGN;
                 break;
             default:
                 if (isdigit(c)) {
@@ -244,6 +269,14 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             }
             break;
 
+        case JSON_STATE_EXPSIGN:
+            // one sign only
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = JSON_STATE_EXP1;
+            break;
+
         case JSON_STATE_EXP1:
             // now we have at least one digit after e|E
             switch (c) {
@@ -360,7 +393,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 }
                 if (isdigit(c) || c == '-') {
                     *bp++ = c;
-                    state = JSON_STATE_NUMBER;
+                    state = c == '-' ? JSON_STATE_SIGN : c == '0' ? JSON_STATE_ZERO : JSON_STATE_NUMBER;
                     break;
                 }
                 break;
-- 
2.43.0


From 3de9160ac91358e9b5fff73434dc68d8d988cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 161/208] fix: JSON reader skipped characters that start no
 token

---
 src/io/json_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 5ac9b82..30b9e82 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -396,7 +396,8 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                     state = c == '-' ? JSON_STATE_SIGN : c == '0' ? JSON_STATE_ZERO : JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                // no token starts with this
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From 757d73074dbc3fa7394916ad8c9c50f8defe32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 162/208] fix: JSON reader took hexadecimal escapes for
 decimal, refused form feed and accepted control characters in strings

---
 src/io/json_reader.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 30b9e82..265fa87 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -7,6 +7,7 @@
 
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 
 #include "armas.h"
@@ -130,6 +131,10 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             if (c == '\\') {
                 state = JSON_STATE_ESCAPE;
             }
+            else if (c < 0x20) {
+                // control characters must be escaped
+                return ARMAS_JSON_EINVAL;
+            }
             else {
                 *bp++ = c;
             }
@@ -146,6 +151,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case 'b':
                 *bp++ = '\b';
                 break;
+            case 'f':
+                *bp++ = '\f';
+                break;
             case 'n':
                 *bp++ = '\n';
                 break;
@@ -190,7 +198,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            c = (int)strtol(lit, (char **)0, 16) & 0xff;
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
-- 
2.43.0


From 15a3518c305eec5ef034091d60d2324a8b578551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 163/208] fix: JSON writer left control characters out of
 strings

---
 src/io/json_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..443d0d2 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -67,8 +67,14 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '"'));
                 break;
             default:
-                if (!iscntrl(*cp))
+                if ((unsigned char)*cp < 0x20) {
+                    n = snprintf(buf, sizeof(buf), "\\u%04x", (unsigned char)*cp);
+                    for (int i = 0; i < n; i++)
+                        JSON_ONERROR(armas_ios_putchar(writer, buf[i]));
+                }
+                else {
                     JSON_ONERROR(armas_ios_putchar(writer, *cp));
+                }
                 break;
             }
         }
-- 
2.43.0


From b3478e8c73a92f54850895c3ee7a05c080161ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 164/208] fix: JSON writer failed on characters above 127

---
 src/io/json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 443d0d2..ad62cfa 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -73,7 +73,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                         JSON_ONERROR(armas_ios_putchar(writer, buf[i]));
                 }
                 else {
-                    JSON_ONERROR(armas_ios_putchar(writer, *cp));
+                    JSON_ONERROR(armas_ios_putchar(writer, (unsigned char)*cp));
                 }
                 break;
             }
-- 
2.43.0


From e71991283b4a2b2477c0ec44a708df91dd170be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 165/208] fix: numbers written as JSON lost their last digits

---
 src/io/json_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index ad62cfa..3569739 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -20,7 +20,7 @@
  */
 int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostream_t *writer)
 {
-    char buf[64], *cp, *numformat = "%.14g";
+    char buf[64], *cp, *numformat = "%.17g";
     int n;
     double v;
 
@@ -96,7 +96,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             break;
         case sizeof(float):
             v = (double)(*((float *)ptr));
-            numformat = "%.8g";
+            numformat = "%.9g";
             break;
         default:
             return -1;
-- 
2.43.0


From 22e04081988c4d49f60533088191657b784f6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 166/208] fix: JSON writer wrote infinities and not-a-numbers

---
 src/io/json_writer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 3569739..a401139 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -102,11 +102,12 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             return -1;
         }
 
-        if (isfinite(v)) {
-            n = snprintf(buf, sizeof(buf), numformat, v);
-            for (int k = 0; k < n; k++)
-                JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
-        }
+        n = snprintf(buf, sizeof(buf), numformat, v);
+        // infinities and not-a-numbers have no JSON representation
+        if (!isdigit((unsigned char)buf[n-1]))
+            return -1;
+        for (int k = 0; k < n; k++)
+            JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
         break;
     case ARMAS_JSON_TRUE:
         JSON_ONERROR(armas_ios_putchar(writer, 't'));
-- 
2.43.0


From 30f5a8581dacc94466ead33bf17646a15a60d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 167/208] fix: JSON reader wrote to buffer of no length

---
 src/io/json_reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 265fa87..bbb875a 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -105,6 +105,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
     char lit[8], *cp, *bp;
 
     bp = buf;
+    if (len == 0)
+        return ARMAS_JSON_E2BIG;
+
     for (;;) {
         /* */
         c = armas_ios_getchar(reader);
-- 
2.43.0


From 93bcf0174097e64e7443a8a21d11c364c1294fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 168/208] fix: coordinate next to the last row or column was
 written outside of matrix read from JSON

---
 src/io/json_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..d0e7401 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -147,7 +147,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
-- 
2.43.0


From 94b44cc917700dfa34e1f00d9da50d11d29a8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 169/208] fix: JSON matrix reader took any member starting as a
 known one for it

---
 src/io/json_base.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index d0e7401..6854a85 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -263,25 +263,25 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
                 }
                 return -1;
             }
-            if (strncmp(iob, "rows", 4) == 0) {
+            if (strcmp(iob, "rows") == 0) {
                 if ((member_bits & HAVE_ROWS) != 0)
                     return -4;
                 state = MEMBER_ROW_SEP;
             }
-            else if (strncmp(iob, "cols", 4) == 0) {
+            else if (strcmp(iob, "cols") == 0) {
                 if ((member_bits & HAVE_COLS) != 0)
                     return -4;
                 state = MEMBER_COL_SEP;
             }
-            else if (strncmp(iob, "data", 4) == 0) {
+            else if (strcmp(iob, "data") == 0) {
                 state = MEMBER_DTA_SEP;
             }
-            else if (strncmp(iob, "nnz", 3) == 0) {
+            else if (strcmp(iob, "nnz") == 0) {
                 if ((member_bits & HAVE_NNZ) != 0)
                     return -4;
                 state = MEMBER_NNZ_SEP;
             }
-            else if (strncmp(iob, "flags", 5) == 0) {
+            else if (strcmp(iob, "flags") == 0) {
                 if ((member_bits & HAVE_FLAGS) != 0)
                     return -4;
                 state = MEMBER_FLG_SEP;
-- 
2.43.0


From 3991f6e79fc878b8df4b67489452f5fd1cf35e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 170/208] fix: JSON matrix reader took part of a number for
 size or index and accepted negative sizes

---
 src/io/json_base.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 6854a85..18c0efe 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -111,6 +111,17 @@ enum {
     MEMBER_DTA_VAL
 };
 
+/* Value of token as integer; -1 if not an integer or does not fit */
+static
+int armas_json_intval(int *val, const char *iob)
+{
+    const char *cp = iob[0] == '-' ? &iob[1] : iob;
+    if (strspn(cp, "0123456789") != strlen(cp) || strlen(cp) > 9)
+        return -1;
+    *val = atoi(iob);
+    return 0;
+}
+
 static
 int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *ios, char *iob, size_t ioblen)
 {
@@ -120,12 +131,14 @@ int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *io
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *row = atoi(iob);
+    if (armas_json_intval(row, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *col = atoi(iob);
+    if (armas_json_intval(col, iob) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
@@ -306,7 +319,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_ROW_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            rows = atoi(iob);
+            if (armas_json_intval(&rows, iob) < 0 || rows < 0)
+                return -1;
             member_bits |= HAVE_ROWS;
             state = MEMBER_SEP;
             break;
@@ -319,7 +333,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_COL_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            cols = atoi(iob);
+            if (armas_json_intval(&cols, iob) < 0 || cols < 0)
+                return -1;
             member_bits |= HAVE_COLS;
             state = MEMBER_SEP;
             break;
@@ -332,7 +347,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_NNZ_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            nnz = atoi(iob);
+            if (armas_json_intval(&nnz, iob) < 0)
+                return -1;
             member_bits |= HAVE_NNZ;
             state = MEMBER_SEP;
             break;
@@ -345,7 +361,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_FLG_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            flags = atoi(iob);
+            if (armas_json_intval(&flags, iob) < 0)
+                return -1;
             member_bits |= HAVE_FLAGS;
             state = MEMBER_SEP;
             break;
-- 
2.43.0


From fd30bd4baf4b7db788829a57ee719dbfcb6fdcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 171/208] fix: JSON matrix reader wrote to matrix it had no
 memory for

---
 src/io/json_base.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 18c0efe..e8eb32f 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -394,7 +394,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From eef4c510bfd56d292ddf5b488d6e6ab64a291341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:09 +0000
Subject: [PATCH 172/208] fix: Matrix Market banner with several blanks or
 carriage return was refused and words starting as general taken for it

---
 src/io/iomm.c   | 12 ++++--------
 src/sparse/io.c | 13 ++++---------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..54415e7 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -96,7 +96,7 @@ static struct mm_keys __mmkeys[] = (struct mm_keys []) {
     { "coordinate",      11, ARMAS_MM_COORDINATE },
     { "symmetric",       10, ARMAS_MM_SYMMETRIC },
     { "hermitian",       10, ARMAS_MM_HERMITIAN },
-    { "general",          7, ARMAS_MM_GENERAL },
+    { "general",          8, ARMAS_MM_GENERAL },
     { "%%matrixmarket",  15, ARMAS_MM_HEADER },
     { 0, 0, 0}
 };
@@ -158,17 +158,13 @@ int __mmread_banner(FILE *f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
-    if ((s = strchr(iob, '\n'))) {
-        *s = '\0';
-    }
-
     int ready = 0;
     code = 0;
-    s = iob;
-    for (n = 0, tok = strsep(&s, " "); tok && ready == 0; tok = strsep(&s, " "), n++) {
+    // words are separated by any number of blanks
+    for (n = 0, tok = strtok_r(iob, " \t\r\n", &s); tok && ready == 0; tok = strtok_r((char *)0, " \t\r\n", &s), n++) {
         nc = find_key(strlower(tok));
         switch (n) {
         case 0:
diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..0203393 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -55,7 +55,7 @@ static struct mm_keys __mmkeys[] = (struct mm_keys[]) {
     {"coordinate", 11, ARMAS_MM_COORDINATE},
     {"symmetric", 10, ARMAS_MM_SYMMETRIC},
     {"hermitian", 10, ARMAS_MM_HERMITIAN},
-    {"general", 7, ARMAS_MM_GENERAL},
+    {"general", 8, ARMAS_MM_GENERAL},
     {"%%matrixmarket", 15, ARMAS_MM_HEADER},
     {0, 0, 0}
 };
@@ -91,18 +91,13 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
-    if ((s = strchr(iob, '\n'))) {
-        *s = '\0';
-    }
-
     int ready = 0;
     code = 0;
-    s = iob;
-    for (n = 0, tok = strsep(&s, " "); tok && ready == 0;
-         tok = strsep(&s, " "), n++) {
+    // words are separated by any number of blanks
+    for (n = 0, tok = strtok_r(iob, " \t\r\n", &s); tok && ready == 0; tok = strtok_r((char *)0, " \t\r\n", &s), n++) {
         nc = find_key(strlower(tok));
         switch (n) {
         case 0:
-- 
2.43.0


From ad37eccf7103775e23b806366d5f19a25f97cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 173/208] fix: Matrix Market size line that is missing or
 malformed was taken for an empty matrix

---
 src/io/iomm.c   | 58 ++++++++++++++++++++++++++++++++++-------------
 src/sparse/io.c | 60 +++++++++++++++++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 33 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 54415e7..23d9fd2 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -8,6 +8,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "dtype.h"
 
@@ -204,6 +206,35 @@ int __mmread_banner(FILE *f, int *typecode)
     return 0;
 }
 
+/*
+ * Read integer, advance to the end of it. Negative if there is none.
+ */
+static
+int mmread_int(char **s, int *val)
+{
+    char *endptr;
+    long v;
+
+    errno = 0;
+    v = strtol(*s, &endptr, 10);
+    if (endptr == *s || (*endptr != '\0' && !isspace((unsigned char)*endptr)))
+        return -1;
+    if (errno != 0 || v > INT_MAX || v < INT_MIN)
+        return -1;
+    *s = endptr;
+    *val = (int)v;
+    return 0;
+}
+
+/*
+ * Test for nothing more than blanks.
+ */
+static
+int mmread_blank(const char *s)
+{
+    return s[strspn(s, " \t\r\n")] == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -212,30 +243,25 @@ static
 int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
-    char *cp, *endptr;
-    int nread;
+    char *cp;
+    int nread, err = -1;
     size_t ioblen = 0;
 
+    *m = *n = *nnz = 0;
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
+        if (iob[0] != '%' && !mmread_blank(iob))
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    if (nread != -1) {
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+        err = mmread_int(&cp, m) < 0 || mmread_int(&cp, n) < 0;
+        if (!err && (typecode & ARMAS_MM_COORDINATE) != 0)
+            err = mmread_int(&cp, nnz) < 0;
+        if (err || !mmread_blank(cp) || *m < 0 || *n < 0 || *nnz < 0)
+            err = -1;
     }
     free(iob);
-    return 0;
+    return err;
 }
 
 /**
diff --git a/src/sparse/io.c b/src/sparse/io.c
index 0203393..f491aed 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -26,6 +26,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "matrix.h"
 #include "sparse.h"
@@ -138,6 +140,35 @@ int armasio_mmread_banner(FILE * f, int *typecode)
     return 0;
 }
 
+/*
+ * Read integer, advance to the end of it. Negative if there is none.
+ */
+static
+int mmread_int(char **s, int *val)
+{
+    char *endptr;
+    long v;
+
+    errno = 0;
+    v = strtol(*s, &endptr, 10);
+    if (endptr == *s || (*endptr != '\0' && !isspace((unsigned char)*endptr)))
+        return -1;
+    if (errno != 0 || v > INT_MAX || v < INT_MIN)
+        return -1;
+    *s = endptr;
+    *val = (int)v;
+    return 0;
+}
+
+/*
+ * Test for nothing more than blanks.
+ */
+static
+int mmread_blank(const char *s)
+{
+    return s[strspn(s, " \t\r\n")] == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -145,31 +176,26 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 static
 int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
-    char *iob = (char *) 0;
-    char *cp, *endptr;
-    int nread;
+    char *iob = (char *)0;
+    char *cp;
+    int nread, err = -1;
     size_t ioblen = 0;
 
+    *m = *n = *nnz = 0;
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
+        if (iob[0] != '%' && !mmread_blank(iob))
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    if (nread != -1) {
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+        err = mmread_int(&cp, m) < 0 || mmread_int(&cp, n) < 0;
+        if (!err && (typecode & ARMAS_MM_COORDINATE) != 0)
+            err = mmread_int(&cp, nnz) < 0;
+        if (err || !mmread_blank(cp) || *m < 0 || *n < 0 || *nnz < 0)
+            err = -1;
     }
     free(iob);
-    return 0;
+    return err;
 }
 
 /**
-- 
2.43.0


From b8f3ad1f3b427dc18f4a69df7977869d27564447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 174/208] fix: Matrix Market entries that are malformed, out of
 range, missing or in excess were accepted

---
 src/io/iomm.c | 53 +++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 23d9fd2..223f579 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -61,24 +61,17 @@ DTYPE read_value(char *s)
 #define MM_DTYPE ARMAS_MM_REAL
 #define TYPE_STRING "real"
 
-#if FLOAT32
-#define FMT1 "%f"
-#define FMT3 "%d %d %f"
-#else
-#define FMT1 "%lf"
-#define FMT3 "%d %d %lf"
-#endif
-
+// Read value, advance to the end of it. Negative if there is none.
 static inline
-int read_value(const char *s, DTYPE *val)
+int read_value(char **s, DTYPE *val)
 {
-    return sscanf(s, FMT1, val);
-}
+    char *endptr;
 
-static inline
-int read_line(const char *s, int *row, int *col, DTYPE *val)
-{
-    return sscanf(s, FMT3, row, col, val);
+    *val = (DTYPE)strtod(*s, &endptr);
+    if (endptr == *s || (*endptr != '\0' && !isspace((unsigned char)*endptr)))
+        return -1;
+    *s = endptr;
+    return 0;
 }
 
 #endif
@@ -285,7 +278,7 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
 {
     int typecode;
     int m, n, nc, nnz, r, c, nelem, nread, k;
-    char *iobuf;
+    char *iobuf, *cp;
     size_t ioblen;
     DTYPE v;
 
@@ -318,13 +311,20 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
     c =  k = 0;
     r = -1;
     nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
-        if (*iobuf == '%')
+    while ((nread = getline(&iobuf, &ioblen, f)) != -1) {
+        if (*iobuf == '%' || mmread_blank(iobuf))
             continue;
+        if (k == nelem) {
+            // more entries than told
+            k = -1;
+            goto endloop;
+        }
+        cp = iobuf;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
-            //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
+            if (read_value(&cp, &v) < 0 || !mmread_blank(cp)) {
+                k = -1;
                 goto endloop;
+            }
 
             if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
                 // only lower triangular elements provided (n*(n+1)/2 elements)
@@ -343,13 +343,20 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             }
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
+            if (mmread_int(&cp, &r) < 0 || mmread_int(&cp, &c) < 0 || read_value(&cp, &v) < 0 || !mmread_blank(cp)) {
+                k = -1;
                 goto endloop;
+            }
             // indexing starting from 1
             r--; c--;
+            if (r < 0 || r >= A->rows || c < 0 || c >= A->cols
+                || ((typecode & ARMAS_MM_SYMMETRIC) != 0 && r < c)) {
+                // outside of matrix or of its stored triangle
+                k = -1;
+                goto endloop;
+            }
         }
-        if (r >= 0 && r < A->rows && c >= 0 && c < A->cols)
-            armas_set_unsafe(A, r, c, v);
+        armas_set_unsafe(A, r, c, v);
         k++;
     }
  endloop:
-- 
2.43.0


From 867a80cea6f3ae75eae2e8fe965c405b99052b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 175/208] fix: matrix of rejected Matrix Market file was not
 released

---
 src/io/iomm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 223f579..33eeaff 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -299,7 +299,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
@@ -365,8 +366,10 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem) {
+        armas_release(A);
         return -1;
+    }
 
     return typecode;
 }
-- 
2.43.0


From 0df519ef790c133b89b9caa2cb5301313b03057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 176/208] fix: reading of Matrix Market file did not tell of
 symmetric matrix

---
 src/io/iomm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 33eeaff..5068217 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -371,6 +371,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
+    if (flags)
+        *flags = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? ARMAS_SYMM : 0;
     return typecode;
 }
 
-- 
2.43.0


From 6469dde12c4c8b4c6fea2c860cbff0a6553f9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 177/208] fix: numbers written to Matrix Market files lost
 their last digits

---
 src/io/iomm.c   | 2 +-
 src/sparse/io.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 5068217..e30ef4f 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -392,7 +392,7 @@ int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
     for (j = 0; j < A->cols; j++) {
         k = (flags & ARMAS_SYMM) != 0 ? j : 0;
         for ( ; k < A->rows; k++) {
-            n += fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j));
+            n += fprintf(f, "%.16e\n", armas_get_unsafe(A, k, j));
         }
     }
     return n;
diff --git a/src/sparse/io.c b/src/sparse/io.c
index f491aed..06351e3 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -287,7 +287,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.16e\n", A->elems.ep[k].i, A->elems.ep[k].j,
                          A->elems.ep[k].val);
         }
         break;
@@ -296,7 +296,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", i, A->ix[k], A->elems.v[k]);
             }
         }
         break;
@@ -305,7 +305,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", A->ix[k], j, A->elems.v[k]);
             }
         }
         break;
-- 
2.43.0


From 45f28c6baaba9f255d7aa3a6e3f1879d10bd8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 178/208] fix: indexes of sparse matrix were written from zero
 to Matrix Market file

---
 src/sparse/io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 06351e3..242b352 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -287,7 +287,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.16e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.16e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
         }
         break;
@@ -296,7 +296,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.16e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
             }
         }
         break;
@@ -305,7 +305,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.16e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.16e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
             }
         }
         break;
-- 
2.43.0


From d3d5693faa7d4b706d976e5790d5e87578009378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 179/208] fix: sparse Matrix Market entries that are malformed,
 out of range, missing or in excess were accepted

---
 src/sparse/io.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 242b352..a18e724 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -227,6 +227,10 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
         return (armas_sparse_t *) 0;
     }
 
+    if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
+        return (armas_sparse_t *) 0;
+    }
+
     A = armassp_new(m, n, nnz, ARMASSP_COO);
     if (!A)
         return A;
@@ -235,25 +239,33 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     iobuf = (char *) 0;
     int nread, k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
+    while ((nread = getline(&iobuf, &ioblen, f)) != -1) {
         bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
+        if (*bp == '%' || mmread_blank(bp))
+            continue;
+        if (k == nnz || mmread_int(&bp, &m) < 0 || mmread_int(&bp, &n) < 0) {
+            k = -1;
+            break;
+        }
         v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
-#if 0
-        if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
-            armassp_append(A, n - 1, m - 1, v);
+        if (endptr == bp || !mmread_blank(endptr)
+            || m < 1 || m > A->rows || n < 1 || n > A->cols
+            || ((tc & ARMAS_MM_SYMMETRIC) != 0 && m < n)
+            || armassp_append(A, m - 1, n - 1, v) < 0) {
+            k = -1;
+            break;
         }
-#endif
         k++;
     }
     // getline allocates; we free it
     if (iobuf)
         free(iobuf);
 
+    if (k != nnz) {
+        // malformed, out of range, missing or excess entries
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
-- 
2.43.0


From 4d0b8fbe09f522bbec2069710d4d64cb1ecb6935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 180/208] fix: dgemv_, dger_, dsyr2_, dtrmv_ and dtrsm_ were
 not compiled and dsyr2k_ had another name

---
 src/compat/gemv.c                  | 4 ++--
 src/compat/ger.c                   | 2 +-
 src/compat/syr2.c                  | 2 +-
 src/compat/trmm.c                  | 2 +-
 src/compat/trmv.c                  | 2 +-
 src/compat/trsm.c                  | 4 ++--
 src/include/float64/names_compat.h | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..d3ccdef 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..84c0799 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..4b06f25 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..1d24047 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmmf) || defined(cblas_trmm)
+#if defined(blas_trmmf) || defined(cblas_trmm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..418c8fc 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..ed0b453 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From a360d1d6f4cdb528282423bde28432b981f20d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 181/208] fix: BLAS functions of matrix and vector read outside
 of vectors with negative increment

---
 src/compat/gemv.c    | 28 ++++------------------------
 src/compat/ger.c     | 28 ++++------------------------
 src/compat/symv.c    | 26 ++++----------------------
 src/compat/syr.c     | 12 ++----------
 src/compat/syr2.c    | 24 ++++--------------------
 src/compat/trmv.c    | 12 ++----------
 src/compat/trsv.c    | 12 ++----------
 src/include/compat.h | 14 ++++++++++++++
 8 files changed, 36 insertions(+), 120 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index d3ccdef..922b65a 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -38,18 +38,8 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     ylen = flags & ARMAS_TRANS ? *n : *m;
     xlen = flags & ARMAS_TRANS ? *m : *n;
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, *incx, X);
-    }
+    compat_vector(&y, ylen, Y, *incy);
+    compat_vector(&x, xlen, X, *incx);
     armas_mvmult(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -82,18 +72,8 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     }
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, incx, X);
-    }
+    compat_vector(&y, ylen, Y, incy);
+    compat_vector(&x, xlen, X, incx);
     armas_mvmult(beta, &y, alpha, &Aa, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/ger.c b/src/compat/ger.c
index 84c0799..f8a1fbd 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -31,18 +31,8 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
     armas_dense_t y, a, x;
 
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *m, 1, *m, X);
-    } else {
-        armas_make(&x, 1, *m, *incx, X);
-    }
+    compat_vector(&y, *n, Y, *incy);
+    compat_vector(&x, *m, X, *incx);
     armas_mvupdate(ONE, &a, *alpha, &x, &y, conf);
 }
 #endif
@@ -55,18 +45,8 @@ void cblas_ger(const enum CBLAS_ORDER order, const int M,
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t y, a, x;
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, N, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, M, 1, M, X);
-    } else {
-        armas_make(&x, 1, M, incx, X);
-    }
+    compat_vector(&y, N, Y, incy);
+    compat_vector(&x, M, X, incx);
 
     if (order == CblasRowMajor) {
         armas_make(&a, N, M, lda, A);
diff --git a/src/compat/symv.c b/src/compat/symv.c
index c5e1649..ae1a080 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -43,18 +43,8 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
     }
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&y, *n, Y, *incy);
+    compat_vector(&x, *n, X, *incx);
     armas_mvmult_sym(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -78,16 +68,8 @@ void cblas_symv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vector(&x, N, X, incx);
+    compat_vector(&y, N, Y, incy);
     armas_mvmult_sym(beta, &y, alpha, &Aa, &x, flags, &conf);
 }
 #endif
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 0d9dd7f..87f4eee 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -34,11 +34,7 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvupdate_sym(ONE, &a, *alpha, &x, flags, conf);
 }
 #endif
@@ -59,11 +55,7 @@ void cblas_syr(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     }
 
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_mvupdate_sym(ONE, &Aa, alpha, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 4b06f25..c1b7232 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -34,16 +34,8 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
-    if (*incy == 1) {
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        armas_make(&y, 1, *n, *incy, Y);
-    }
+    compat_vector(&x, *n, X, *incx);
+    compat_vector(&y, *n, Y, *incy);
     armas_mvupdate2_sym(ONE, &a, *alpha, &x, &y, flags, conf);
 }
 #endif
@@ -67,16 +59,8 @@ void cblas_syr2(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vector(&x, N, X, incx);
+    compat_vector(&y, N, Y, incy);
     armas_mvupdate2_sym(ONE, &Aa, alpha, &x, &y, flags, conf);
 }
 #endif
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 418c8fc..9b0a2b0 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -46,11 +46,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvmult_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvmult_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..80ed0a1 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -46,11 +46,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vector(&x, *n, X, *incx);
     armas_mvsolve_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vector(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvsolve_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/include/compat.h b/src/include/compat.h
index 1e08c94..e6a4c62 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -70,5 +70,19 @@ enum CBLAS_SIDE		{CblasLeft=141, CblasRight=142};
 
 #endif  /* FLOAT64 */
 
+#include "matrix.h"
+
+// Make x view of n element vector at X with increment incx; elements of vector
+// with negative increment run from the last one.
+static inline
+void compat_vector(armas_dense_t *x, int n, DTYPE *X, int incx)
+{
+    if (incx == 1) {
+        armas_make(x, n, 1, n, X);
+    } else {
+        armas_make(x, 1, n, incx, incx < 0 ? X - (long)(n - 1) * incx : X);
+    }
+}
+
 #endif  /* CONFIG_COMPAT */
 #endif  /* ARMAS_COMPAT_H */
-- 
2.43.0


From 7ae7b6d6681ba4748810f26e680dc79dd77ebabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 182/208] fix: conjugate transpose of real matrix was not a
 transpose in BLAS functions

---
 src/compat/gemm.c  | 8 ++++----
 src/compat/gemv.c  | 2 +-
 src/compat/syr2k.c | 2 +-
 src/compat/syrk.c  | 2 +-
 src/compat/trmm.c  | 4 ++--
 src/compat/trmv.c  | 2 +-
 src/compat/trsm.c  | 4 ++--
 src/compat/trsv.c  | 2 +-
 8 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..8bd18dd 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -36,9 +36,9 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     armas_make(&a, *m, *k, *lda, A);
     armas_make(&b, *k, *n, *ldb, B);
 
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+    if (toupper(*transb) != 'N')
         flags |= ARMAS_TRANSB;
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
@@ -56,7 +56,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -64,7 +64,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 922b65a..3caa29b 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..95a78ba 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..3974f3b 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 1d24047..0e5cb03 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 9b0a2b0..ec796d5 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index ed0b453..6cedc9a 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 80ed0a1..ade636e 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
-- 
2.43.0


From 2ef65602acfcc342df49b24b882253859ebab157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 183/208] fix: dgemm_ took dimensions of transposed operands
 for those of the operands

---
 src/compat/gemm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 8bd18dd..1426d8a 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,18 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
-
-    if (toupper(*transa) != 'N')
+    if (toupper(*transa) != 'N') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) != 'N')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) != 'N') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From 8ffe00c05a09991f002325e9cc6b23786423069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 184/208] fix: cblas_dgemm computed wrong product of matrices
 in row-major order

---
 src/compat/gemm.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1426d8a..fdcb9c9 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -78,22 +78,24 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
+        // C.T = op(B).T*op(A).T and rows of A, B and C are columns of their transposes
+        if (transa != CblasNoTrans) {
+            flags |= ARMAS_TRANSB;
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         } else {
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
+        if (transb != CblasNoTrans) {
+            flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From 219a9f13d986a8d6bab4feb33c38343f607ed0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 185/208] fix: cblas_dsymm took wrong dimension for the
 symmetric matrix in column-major order

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From f2fa66b4d7913b4210160515dcdf8cccaab06e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 186/208] fix: cblas_dtrmm and cblas_dtrsm had transpose and
 dimensions wrong for matrices in row-major order

---
 src/compat/trmm.c | 6 +++---
 src/compat/trsm.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0e5cb03..f642372 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6cedc9a..80fd329 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From 2139bbcc3d451593f15e2fac001c4490fec0ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 187/208] fix: dsyr2k_ used leading dimension of A for B

---
 src/compat/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 95a78ba..a05e681 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From bb8e63a3ec454a350914308f7fc70549347dbea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 188/208] fix: dscal_ had its arguments in wrong order

---
 src/compat/scal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..950a44f 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,7 +24,7 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
-- 
2.43.0


From a7d1d84b7b220f92ffe1d38600ab2e33b574e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 189/208] fix: dasum_, dnrm2_, dscal_ and idamax_ read outside
 of vector when increment is not positive

---
 src/compat/asum.c  | 4 ++++
 src/compat/iamax.c | 4 ++++
 src/compat/nrm2.c  | 8 ++++++--
 src/compat/scal.c  | 4 ++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/compat/asum.c b/src/compat/asum.c
index e606841..4d709b8 100644
--- a/src/compat/asum.c
+++ b/src/compat/asum.c
@@ -29,6 +29,8 @@ DTYPE blas_asumf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ DTYPE cblas_asum(const int N, DTYPE * X, const int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0 || incx <= 0)
+        return ZERO;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..fbd9f9e 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -29,6 +29,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return 0;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ int cblas_iamax(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0 || incx <= 0)
+        return 0;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/nrm2.c b/src/compat/nrm2.c
index cb1ac42..1db850d 100644
--- a/src/compat/nrm2.c
+++ b/src/compat/nrm2.c
@@ -29,10 +29,12 @@ DTYPE blas_nrm2f(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx < 0 ? -*incx : *incx, X);
     }
     return armas_nrm2(&x, conf);
 }
@@ -44,10 +46,12 @@ DTYPE cblas_nrm2(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0)
+        return ZERO;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
-        armas_make(&x, 1, N, incx, X);
+        armas_make(&x, 1, N, incx < 0 ? -incx : incx, X);
     }
     return armas_nrm2(&x, conf);
 }
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 950a44f..45300da 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -29,6 +29,8 @@ void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -45,6 +47,8 @@ void cblas_scal(const int N, const DTYPE alpha, DTYPE * X, const int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return;
     if (*incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
-- 
2.43.0


From 138a7e7726ff5d407d0caec9080b013620fc3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 190/208] fix: idamax_ returned index counted from zero

---
 src/compat/iamax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fbd9f9e..7f71845 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -36,7 +36,7 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
-- 
2.43.0


From 9f0e6da0bbe8ae60f4d5b3032ec55dd1fff33a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 191/208] fix: drotg_ did not return the rotated element and
 the reconstruction of the rotation

---
 src/compat/rot.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..cd03777 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -72,8 +72,25 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 #if defined(blas_rotgf)
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
-    DTYPE r;
-    armas_gvcompute(c, s, &r, *sa, *sb);
+    DTYPE r, z, a = *sa, b = *sb;
+
+    armas_gvcompute(c, s, &r, a, b);
+    if ((ABS(a) > ABS(b) ? a : b) * r < ZERO) {
+        // sign of r is that of the larger element
+        r = -r;
+        *c = -(*c);
+        *s = -(*s);
+    }
+    z = ONE;
+    if (ABS(a) > ABS(b)) {
+        z = *s;
+    } else if (*c != ZERO) {
+        z = ONE / *c;
+    }
+    if (a == ZERO && b == ZERO)
+        z = ZERO;
+    *sa = r;
+    *sb = z;
 }
 #endif
 
-- 
2.43.0


From ffa0d9084211e6691bb4e67cdaba1c3964aa2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 192/208] fix: symmetric rank 2k update read diagonal that it
 was to overwrite

---
 src/blas/syr2k.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index 0b10eba..5f346c9 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -66,7 +66,8 @@ void update_syr2k_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, 0);
@@ -161,7 +162,8 @@ void update_syr2k_trans_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, ARMAS_TRANS);
-- 
2.43.0


From c64fab49cf1fb892379f48e4595818ff209b8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 193/208] fix: BLAS functions read operands that are multiplied
 with zero

---
 src/compat/gemv.c  | 5 +++++
 src/compat/ger.c   | 2 ++
 src/compat/symv.c  | 4 ++++
 src/compat/syr.c   | 2 ++
 src/compat/syr2.c  | 2 ++
 src/compat/syr2k.c | 4 ++++
 src/compat/syrk.c  | 4 ++++
 src/compat/trmm.c  | 8 ++++++++
 8 files changed, 31 insertions(+)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 3caa29b..18f81f6 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -40,6 +40,11 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_make(&a, *m, *n, *lda, A);
     compat_vector(&y, ylen, Y, *incy);
     compat_vector(&x, xlen, X, *incx);
+    if (*alpha == ZERO) {
+        if (armas_size(&a) > 0)
+            armas_scale(&y, *beta, conf);
+        return;
+    }
     armas_mvmult(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/ger.c b/src/compat/ger.c
index f8a1fbd..89a79c1 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -33,6 +33,8 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
     armas_make(&a, *m, *n, *lda, A);
     compat_vector(&y, *n, Y, *incy);
     compat_vector(&x, *m, X, *incx);
+    if (*alpha == ZERO)
+        return;
     armas_mvupdate(ONE, &a, *alpha, &x, &y, conf);
 }
 #endif
diff --git a/src/compat/symv.c b/src/compat/symv.c
index ae1a080..95e00fc 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -45,6 +45,10 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
     armas_make(&a, *n, *n, *lda, A);
     compat_vector(&y, *n, Y, *incy);
     compat_vector(&x, *n, X, *incx);
+    if (*alpha == ZERO) {
+        armas_scale(&y, *beta, conf);
+        return;
+    }
     armas_mvmult_sym(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 87f4eee..5b22292 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -35,6 +35,8 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
 
     armas_make(&a, *n, *n, *lda, A);
     compat_vector(&x, *n, X, *incx);
+    if (*alpha == ZERO)
+        return;
     armas_mvupdate_sym(ONE, &a, *alpha, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index c1b7232..5a88d80 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -36,6 +36,8 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     armas_make(&a, *n, *n, *lda, A);
     compat_vector(&x, *n, X, *incx);
     compat_vector(&y, *n, Y, *incy);
+    if (*alpha == ZERO)
+        return;
     armas_mvupdate2_sym(ONE, &a, *alpha, &x, &y, flags, conf);
 }
 #endif
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index a05e681..9d0e3ad 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -44,6 +44,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
         armas_make(&a, *n, *k, *lda, A);
         armas_make(&b, *n, *k, *ldb, B);
     }
+    if (*alpha == ZERO) {
+        armas_mscale(&c, *beta, flags & (ARMAS_LOWER|ARMAS_UPPER), conf);
+        return;
+    }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
 #endif
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index 3974f3b..e43d95b 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -41,6 +41,10 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     } else {
         armas_make(&a, *n, *k, *lda, A);
     }
+    if (*alpha == ZERO) {
+        armas_mscale(&c, *beta, flags & (ARMAS_LOWER|ARMAS_UPPER), conf);
+        return;
+    }
     armas_update_sym(*beta, &c, *alpha, &a, flags, conf);
 }
 #endif
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index f642372..19d8ef9 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -50,6 +50,10 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
 
+    if (*alpha == ZERO) {
+        armas_mscale(&b, ZERO, 0, conf);
+        return;
+    }
     armas_mult_trm(&b, *alpha, &a, flags, conf);
 }
 #endif
@@ -101,6 +105,10 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         return;
     }
+    if (alpha == ZERO) {
+        armas_mscale(&Ba, ZERO, 0, &conf);
+        return;
+    }
     armas_mult_trm(&Ba, alpha, &Aa, flags, &conf);
 }
 #endif
-- 
2.43.0


From 5d7e6108b31eed8a469e29dbde9c0dca6a607395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 194/208] fix: BLAS functions did not scale the matrix when
 inner dimension is zero

---
 src/compat/gemm.c  | 10 ++++++++++
 src/compat/syr2k.c |  2 +-
 src/compat/syrk.c  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index fdcb9c9..b3247d2 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -46,6 +46,10 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
         armas_make(&b, *k, *n, *ldb, B);
     }
 
+    if (*k == 0) {
+        armas_mscale(&c, *beta, 0, conf);
+        return;
+    }
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
 #endif
@@ -94,11 +98,17 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
+        if (K == 0)
+            break;
         armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
         return;
     default:
         return;
     }
+    if (K == 0) {
+        armas_mscale(&Ca, beta, 0, &conf);
+        return;
+    }
     armas_mult(beta, &Ca, alpha, &Aa, &Ba, flags, &conf);
 }
 #endif
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 9d0e3ad..c057a60 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -44,7 +44,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
         armas_make(&a, *n, *k, *lda, A);
         armas_make(&b, *n, *k, *ldb, B);
     }
-    if (*alpha == ZERO) {
+    if (*alpha == ZERO || *k == 0) {
         armas_mscale(&c, *beta, flags & (ARMAS_LOWER|ARMAS_UPPER), conf);
         return;
     }
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index e43d95b..ac50441 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -41,7 +41,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     } else {
         armas_make(&a, *n, *k, *lda, A);
     }
-    if (*alpha == ZERO) {
+    if (*alpha == ZERO || *k == 0) {
         armas_mscale(&c, *beta, flags & (ARMAS_LOWER|ARMAS_UPPER), conf);
         return;
     }
-- 
2.43.0


From f80c0a9a4d8b3050944cdf21df209610b74dea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 195/208] fix: rank update of matrix read contents that it was
 to overwrite

---
 src/blas/ger.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/blas/ger.c b/src/blas/ger.c
index 2e9ec47..34a24d1 100644
--- a/src/blas/ger.c
+++ b/src/blas/ger.c
@@ -143,6 +143,15 @@ void update_ger_unb(
     armas_dense_t y0;
     armas_dense_t A0;
     register int j;
+    if (beta == ZERO) {
+        // old contents are not to be read
+        for (int c = 0; c < A->cols; c++) {
+            for (int r = 0; r < A->rows; r++) {
+                A->elems[r + c * A->step] = ZERO;
+            }
+        }
+        beta = ONE;
+    }
     for (j = 0; j < A->cols-3; j += 4) {
         armas_submatrix_unsafe(&A0, A, 0, j, A->rows, 4);
         armas_subvector_unsafe(&y0, Y, j, 4);
-- 
2.43.0


From 717f4dc057a64e77f809764251baeddfeb45fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 196/208] fix: scaled sum in extended precision lost high part
 of the result

---
 src/eblas/asum_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index 8876a82..efa780d 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -155,7 +155,7 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
 
     if (alpha != ONE) {
         twoprod(result, &q, alpha, h);
-        *result = q + alpha*l;
+        *result += q + alpha*l;
     } else {
         *result = h + l;
     }
-- 
2.43.0


From c5bebbd52874ccef3f31f912a9518576c087c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 197/208] fix: inner product in extended precision lost low
 part when terms cancel

---
 src/eblas/dot_ext.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ca430b7..0551632 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -99,10 +99,10 @@ void armas_ext_adot_unsafe(
     }
 
     twoprod(&h0, &p0, s0, alpha);
-    fastsum(&s0, &z0, *h, h0);
+    twosum(&s0, &z0, *h, h0);
     c0 = *l + p0 + alpha*c0 + z0;
     // protect against  h < l
-    fastsum(h, l, s0, c0);
+    twosum(h, l, s0, c0);
 }
 
 /**
@@ -150,7 +150,7 @@ void armas_ext_adot_dx_unsafe(
     twosum(&s, &z, *h, p);
     c = *l + q + alpha*c + z;
     // protect against  h < l
-    fastsum(h, l, s, c);
+    twosum(h, l, s, c);
 }
 
 /**
-- 
2.43.0


From f08b6ba8bb270d0582674cc40009a137731b129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 198/208] fix: symmetric update in extended precision wrote
 past end of the matrix

---
 src/eblas/syr_ext.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..c08f3d3 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,24 +38,26 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, v0;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
         for (int i = 0; i < A->rows; ++i) {
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
-            xk = armas_get_at(X, i);
+            armas_subvector_unsafe(&v0, Y, i, A->cols-i);
+            xk = armas_get_at_unsafe(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     case ARMAS_LOWER:
     default:
         for (int j = 0; j < A->cols; ++j) {
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
-            xk = armas_get_at(Y, j);
+            armas_subvector_unsafe(&v0, X, j, A->rows-j);
+            xk = armas_get_at_unsafe(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     }
-- 
2.43.0


From 409aa6f5eaf73d5fd10a93048d110bad5b448ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 199/208] fix: rank-2 update in extended precision updated
 upper triangle and dropped low part

---
 src/eblas/syr2_ext.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..0a1d51d 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -53,7 +53,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c0 += c1 + alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
                 q0 += c0;
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
@@ -83,7 +83,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c0 += c1 + alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
                 q0 += c0;
@@ -148,7 +148,7 @@ int armas_ext_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From a0c6bf0671f88c66a8a08adda450943c0ef6c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 200/208] fix: symmetric product in extended precision lost low
 part of the result

---
 src/eblas/symv_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index a8eac3d..26434ac 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -79,12 +79,14 @@ int armas_ext_mvmult_sym_unsafe(
                 twosum(&y0, &c0, y0, x0);
                 s0 += c0 + p0;
             }
-            twoprod(&y0, &p0, y0+s0, alpha);
+            twoprod(&y0, &p0, y0, alpha);
+            p0 += alpha*s0;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
             twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
+            p0 += s0;
 
             Y->elems[(i+0)*yinc] = y0 + p0;
         }
@@ -108,12 +110,14 @@ int armas_ext_mvmult_sym_unsafe(
             twosum(&y0, &c0, y0, x0);
             s0 += c0 + p0;
         }
-        twoprod(&y0, &p0, y0+s0, alpha);
+        twoprod(&y0, &p0, y0, alpha);
+        p0 += alpha*s0;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
         twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
+        p0 += s0;
 
         Y->elems[(i+0)*yinc] = y0 + p0;
     }
-- 
2.43.0


From 6c9139ba7654569aed68704a934b98a908d31ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 201/208] fix: triangular solver in extended precision used
 uninitialized workspace and dropped low part

---
 src/eblas/trsv_ext.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index eaea513..1d6a674 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -160,7 +160,7 @@ void trsv_ext_unb_lu(
 {
     register int i;
     armas_dense_t x0, dx0, a0;
-    DTYPE s0, u0, p0, r0, c0, ak, xk;
+    DTYPE s0, u0, p0, r0, ak, xk;
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
@@ -184,7 +184,6 @@ void trsv_ext_unb_lu(
         armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &x0, &dx0, &a0);
 
         if (unit) {
-            fastsum(&s0, &c0, s0, u0);
             armas_set_at_unsafe(X,  i, s0);
             armas_set_at_unsafe(dX, i, u0);
             continue;
@@ -333,8 +332,15 @@ int armas_ext_mvsolve_trm_w(
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
-    armas_make(&dX, A->cols, 1, A->cols, (DTYPE *)armas_wptr(wb));
+    if (N == 0)
+        return 0;
+
+    armas_make(&dX, N, 1, N, (DTYPE *)armas_wptr(wb));
+    for (int i = 0; i < N; ++i)
+        armas_set_at_unsafe(&dX, i, ZERO);
     armas_ext_mvsolve_trm_unsafe(x, &dX, alpha, A, flags);
+    for (int i = 0; i < N; ++i)
+        armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, i) + armas_get_at_unsafe(&dX, i));
     return 0;
 }
 
-- 
2.43.0


From d1271cbe1fa46d12071c86ed9212587a8adaf765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 202/208] fix: extended precision functions read contents that
 they were to overwrite

---
 src/eblas/axpy_ext.c | 9 ++++++++-
 src/eblas/gemv_ext.c | 8 ++++----
 src/eblas/symv_ext.c | 4 ++--
 src/eblas/syr2_ext.c | 4 ++--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/eblas/axpy_ext.c b/src/eblas/axpy_ext.c
index 0ab9ed9..3671ff5 100644
--- a/src/eblas/axpy_ext.c
+++ b/src/eblas/axpy_ext.c
@@ -72,6 +72,13 @@ int armas_ext_axpby_unsafe(
     yinc = Y->rows == 1 ? Y->step : 1;
     N = armas_size(X);
 
+    if (beta == ZERO) {
+        // do not read old values
+        for (i = 0; i < N; ++i)
+            Y->elems[i*yinc] = alpha*X->elems[i*xinc];
+        return 0;
+    }
+
     for (i = 0; i < N-1; i += 2) {
         twoprod(&x0, &p0, X->elems[(i+0)*xinc], alpha);
         twoprod(&x1, &p1, X->elems[(i+1)*xinc], alpha);
@@ -115,7 +122,7 @@ int armas_ext_axpby_dx_unsafe(
     N = armas_size(X);
 
     for (i = 0; i < N; ++i) {
-        twoprod(&y0, &c0, Y->elems[i*yinc], beta);
+        twoprod(&y0, &c0, beta == ZERO ? ZERO : Y->elems[i*yinc], beta);
         twoprod(&x0, &p0, X->elems[i*xinc], alpha);
         z0 = dx * X->elems[i*xinc];
         p0 += c0;
diff --git a/src/eblas/gemv_ext.c b/src/eblas/gemv_ext.c
index 114fba0..678793b 100644
--- a/src/eblas/gemv_ext.c
+++ b/src/eblas/gemv_ext.c
@@ -42,7 +42,7 @@ int armas_ext_mvmult_unsafe(
     if (flags & ARMAS_TRANS) {
         for (i = 0; i < nY; ++i) {
             armas_column(&a0, A, i);
-            twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+            twoprod(&y0, &c0, beta, beta == ZERO ? ZERO : armas_get_at_unsafe(Y, i));
             armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
             armas_set_at_unsafe(Y, i, y0+c0);
         }
@@ -51,7 +51,7 @@ int armas_ext_mvmult_unsafe(
 
     for (i = 0; i < nY; i++) {
         armas_row(&a0, A, i);
-        twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+        twoprod(&y0, &c0, beta, beta == ZERO ? ZERO : armas_get_at_unsafe(Y, i));
         armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
         armas_set_at_unsafe(Y, i, y0+c0);
     }
@@ -79,7 +79,7 @@ void armas_ext_mvmult_dx_unsafe(
 
     if (flags & ARMAS_TRANS) {
         for (i = 0; i < nY; ++i) {
-            twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+            twoprod(&y0, &c0, beta, beta == ZERO ? ZERO : armas_get_at_unsafe(Y, i));
             c0 += beta * armas_get_at_unsafe(dY, i);
             armas_column(&a0, A, i);
             armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
@@ -90,7 +90,7 @@ void armas_ext_mvmult_dx_unsafe(
     }
 
     for (i = 0; i < nY; ++i) {
-        twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+        twoprod(&y0, &c0, beta, beta == ZERO ? ZERO : armas_get_at_unsafe(Y, i));
         c0 += beta * armas_get_at_unsafe(dY, i);
         armas_row(&a0, A, i);
         armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index 26434ac..9bc581d 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -82,7 +82,7 @@ int armas_ext_mvmult_sym_unsafe(
             twoprod(&y0, &p0, y0, alpha);
             p0 += alpha*s0;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
-            twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
+            twoprod(&x0, &s0, beta == ZERO ? ZERO : Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
@@ -113,7 +113,7 @@ int armas_ext_mvmult_sym_unsafe(
         twoprod(&y0, &p0, y0, alpha);
         p0 += alpha*s0;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
-        twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
+        twoprod(&x0, &s0, beta == ZERO ? ZERO : Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index 0a1d51d..eb24ed9 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -59,7 +59,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 q0 += c0;
 
                 // p1 + q1 = beta*A[i,j]
-                twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
+                twoprod(&p1, &q1, beta, beta == ZERO ? ZERO : armas_get_unsafe(A, i, j));
                 twosum(&s, &c0, p1, p0);
                 armas_set_unsafe(A, i, j,  s + (c0 + q0 + q1));
             }
@@ -89,7 +89,7 @@ int armas_ext_mvupdate2_sym_unsafe(
                 q0 += c0;
 
                 // p1 + q1 = beta*A[i,j]
-                twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
+                twoprod(&p1, &q1, beta, beta == ZERO ? ZERO : armas_get_unsafe(A, i, j));
                 twosum(&s, &c0, p1, p0);
                 armas_set_unsafe(A, i, j,  s + (c0 + q0 + q1));
             }
-- 
2.43.0


From 2c205edb5395edb57e9a7aea81719bcd1fc971d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 203/208] fix: right side solver in extended precision used
 wrong elements

---
 src/eblas/trsm_ext.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index aa110bf..8eb0d96 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -384,7 +384,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
@@ -570,7 +570,7 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
+    int mflags = flags & ARMAS_UPPER ? ARMAS_TRANSB : 0;
     int NB = cache->NB;
 
     nI = A->cols < NB ? A->cols : NB;
-- 
2.43.0


From daaeca5cda72142957cafa4f4799780a663b281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 204/208] fix: matrix solver in extended precision wrote
 outside of its workspace

---
 src/eblas/trsm_ext.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 8eb0d96..dd47041 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -154,7 +154,7 @@ void solve_ext_blk_lu_llt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = (flags & ARMAS_UPPER) != 0 ? 1 : 0;
     int mflags = (flags & ARMAS_TRANS) != 0 ? ARMAS_TRANSA : 0;
-    int NB = dB->cols;
+    int NB = cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     cI = A->cols < NB ? 0 : A->cols-NB;
@@ -185,7 +185,6 @@ void solve_ext_blk_lu_llt(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lu_llt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -294,7 +293,7 @@ void solve_ext_blk_lut_ll(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? ARMAS_TRANS : 0;
-    int NB = cache->NB;
+    int NB = cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -325,7 +324,6 @@ void solve_ext_blk_lut_ll(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lut_ll(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -462,7 +460,6 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
 }
 
 /*
@@ -603,7 +600,6 @@ void solve_ext_blk_rut_rl(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_rut_rl(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -636,10 +632,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, dB->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -698,10 +694,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0,  0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -804,20 +800,27 @@ int armas_ext_solve_trm_w(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
+    // width of the largest panel of B
+    int right = (flags & ARMAS_RIGHT) != 0 ? 1 : 0;
+    int nmax = right ? min(B->rows, cache.MB) : min(B->cols, cache.NB);
+
     if (wb->bytes == 0) {
-        wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        wb->bytes = A->rows*nmax*sizeof(DTYPE);
         armas_cbuf_release(&cbuf);
         return 0;
     }
     int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
-    if (ncol < 4) {
+    if (ncol < 1) {
         armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
-    if (ncol > cache.NB)
-        ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    if (ncol > nmax)
+        ncol = nmax;
+    if (right)
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    else
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
     armas_cbuf_release(&cbuf);
     return 0;
-- 
2.43.0


From 23cfc7a23422c877a98da880cd52db4b98b1d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 205/208] fix: triangular product in extended precision overran
 the cache buffer

---
 src/eblas/trmm_ext.c | 50 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..f09456f 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -78,9 +78,10 @@ void trmm_ext_blk_upper(
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int NB = cache->NB;
+    int MB = cache->MB;
 
-    for (i = 0; i < A->rows; i += NB) {
-        nI = A->rows - i < NB ? A->rows - i : NB;
+    for (i = 0; i < A->rows; i += MB) {
+        nI = A->rows - i < MB ? A->rows - i : MB;
         armas_submatrix_unsafe(&A0, A, i, i+nI, nI, A->rows-i-nI);
         armas_submatrix_unsafe(&A1, A, i, i, nI, nI);
 
@@ -151,9 +152,10 @@ void trmm_ext_blk_u_trans(
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int NB = cache->NB;
+    int MB = cache->MB;
 
-    for (i = A->cols; i > 0; i -= NB) {
-        nI = i < NB ? i : NB;
+    for (i = A->cols; i > 0; i -= MB) {
+        nI = i < MB ? i : MB;
         armas_submatrix_unsafe(&A0, A, 0, i-nI, i-nI, nI);
         armas_submatrix_unsafe(&A1, A, i-nI, i-nI, nI, nI);
 
@@ -225,9 +227,10 @@ void trmm_ext_blk_lower(
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int NB = cache->NB;
+    int MB = cache->MB;
 
-    for (i = A->cols; i > 0; i -= NB) {
-        nI = i < NB ? i : NB;
+    for (i = A->cols; i > 0; i -= MB) {
+        nI = i < MB ? i : MB;
         armas_submatrix_unsafe(&A0, A, i-nI, 0, nI, i-nI);
         armas_submatrix_unsafe(&A1, A, i-nI, i-nI, nI, nI);
 
@@ -299,10 +302,11 @@ void trmm_ext_blk_l_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int NB = cache->NB;
+    int MB = cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
-    for (i = 0; i < A->cols; i += NB) {
-        nI = A->cols - i < NB ? A->cols - i : NB;
+    for (i = 0; i < A->cols; i += MB) {
+        nI = A->cols - i < MB ? A->cols - i : MB;
         armas_submatrix_unsafe(&A0, A, i+nI, i, A->rows-i-nI, nI);
         armas_submatrix_unsafe(&A1, A, i,    i, nI, nI);
 
@@ -374,6 +378,7 @@ void trmm_ext_blk_r_upper(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int NB = cache->NB;
+    int MB = cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -382,8 +387,8 @@ void trmm_ext_blk_r_upper(
         armas_submatrix_unsafe(&A0, A, 0,    i-nI, i-nI, nI);
         armas_submatrix_unsafe(&A1, A, i-nI, i-nI, nI, nI);
 
-        for (j = 0; j < B->rows; j += NB) {
-            nJ = B->rows - j < NB ? B->rows - j : NB;
+        for (j = 0; j < B->rows; j += MB) {
+            nJ = B->rows - j < MB ? B->rows - j : MB;
             armas_submatrix_unsafe(&B0, B, j, 0, nJ, i-nI);
             armas_submatrix_unsafe(&B1, B, j, i-nI, nJ, nI);
             armas_make(&dB, nJ, nI, cache->ab_step, cache->dC);
@@ -449,6 +454,7 @@ void trmm_ext_blk_r_lower(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int NB = cache->NB;
+    int MB = cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -456,8 +462,8 @@ void trmm_ext_blk_r_lower(
         armas_submatrix_unsafe(&A0, A, i+nI, i, A->cols-i-nI, nI);
         armas_submatrix_unsafe(&A1, A, i,    i, nI, nI);
 
-        for (j = 0; j < B->rows; j += NB) {
-            nJ = B->rows - j < NB ? B->rows - j : NB;
+        for (j = 0; j < B->rows; j += MB) {
+            nJ = B->rows - j < MB ? B->rows - j : MB;
             armas_submatrix_unsafe(&B0, B, j, i+nI, nJ, A->cols-i-nI);
             armas_submatrix_unsafe(&B1, B, j, i, nJ, nI);
             armas_make(&dB, nJ, nI, cache->ab_step, cache->dC);
@@ -523,6 +529,7 @@ void trmm_ext_blk_ru_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int NB = cache->NB;
+    int MB = cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -530,8 +537,8 @@ void trmm_ext_blk_ru_trans(
         armas_submatrix_unsafe(&A0, A, i, i+nI, A->cols-i-nI, nI);
         armas_submatrix_unsafe(&A1, A, i, i, nI, nI);
 
-        for (j = 0; j < B->rows; j += NB) {
-            nJ = B->rows - j < NB ? B->rows - j : NB;
+        for (j = 0; j < B->rows; j += MB) {
+            nJ = B->rows - j < MB ? B->rows - j : MB;
             armas_submatrix_unsafe(&B0, B, j, i+nI, nJ, A->cols-i-nI);
             armas_submatrix_unsafe(&B1, B, j, i, nJ, nI);
             armas_make(&dB, nJ, nI, cache->ab_step, cache->dC);
@@ -597,6 +604,7 @@ void trmm_ext_blk_rl_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int NB = cache->NB;
+    int MB = cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -604,8 +612,8 @@ void trmm_ext_blk_rl_trans(
         armas_submatrix_unsafe(&A0, A, i-nI, 0, nI, i-nI);
         armas_submatrix_unsafe(&A1, A, i-nI, i-nI, nI, nI);
 
-        for (j = 0; j < B->rows; j += NB) {
-            nJ = B->rows - j < NB ? B->rows - j : NB;
+        for (j = 0; j < B->rows; j += MB) {
+            nJ = B->rows - j < MB ? B->rows - j : MB;
             armas_submatrix_unsafe(&B0, B, j, 0, nJ, i-nI);
             armas_submatrix_unsafe(&B1, B, j, i-nI, nJ, nI);
             armas_make(&dB, nJ, nI, cache->ab_step, cache->dC);
@@ -630,7 +638,7 @@ void trmm_ext_unb_unsafe(
     int i, nJ;
     armas_dense_t dB, B0;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = mcache->NB;
+    int NB = flags & ARMAS_RIGHT ? mcache->MB : mcache->NB;
 
     if (flags & ARMAS_RIGHT) {
         for (i = 0; i < B->rows; i += NB) {
@@ -686,7 +694,9 @@ void armas_ext_mult_trm_unsafe(
     int flags,
     cache_t *mcache)
 {
-    if (A->cols < mcache->NB) {
+    // intermediate results must fit into the cache
+    int nmax = flags & ARMAS_RIGHT ? mcache->NB : mcache->MB;
+    if (A->cols <= nmax) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, mcache);
         return;
     }
@@ -783,10 +793,6 @@ int armas_ext_mult_trm(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
-    if (cf->optflags & ARMAS_ONAIVE) {
-        trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
-        return 0;
-    }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
     armas_cbuf_release(&cbuf);
     return 0;
-- 
2.43.0


From 39be8dc5cf91035d2ace907acb504b8dfcb94ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 206/208] fix: symmetric product in extended precision overran
 the cache buffer

---
 src/eblas/symm_ext.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..0467f9b 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -48,17 +48,18 @@ void mult_ext_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // A is the right operand here
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_ext_mult_inner(C, dC, alpha, &Bcpy, &Acpy, cache->rb);
@@ -190,6 +191,8 @@ void armas_ext_mult_symm_right(
 {
     int flags1, flags2;
     register int nR, nC, ic, ir, r, c, nr, nc;
+    // diagonal block must fit to rows of the cache
+    int NB = mcache->NB < mcache->KB ? mcache->NB : mcache->KB;
     armas_dense_t A0, B0, C0, dC;
 
     if (alpha == 0.0) {
@@ -221,8 +224,8 @@ void armas_ext_mult_symm_right(
     flags1 |= (flags & ARMAS_UPPER) != 0 ? 0 : ARMAS_TRANSB;
     flags2 |= (flags & ARMAS_UPPER) != 0 ? ARMAS_TRANSB : 0;
 
-    for (ic = 0; ic < C->cols; ic += mcache->NB) {
-        nC = C->cols - ic < mcache->NB ? C->cols - ic : mcache->NB;
+    for (ic = 0; ic < C->cols; ic += NB) {
+        nC = C->cols - ic < NB ? C->cols - ic : NB;
 
         // for all rows of C, B ...
         for (ir = 0; ir < C->rows; ir += mcache->MB) {
-- 
2.43.0


From 8655285eb4ea91c0c4277dd6970d17577ac6b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:39 +0000
Subject: [PATCH 207/208] fix: matrix solver in extended precision lost low
 part of unit diagonal solution

---
 src/eblas/trsm_ext.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index dd47041..6a62502 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -87,6 +87,7 @@ void solve_ext_lu_llt(
         bk = armas_get_unsafe(Bc, Ac->cols-1, j);
         twoprod(&bk, &dk, alpha, bk);
         dk = dk + alpha * armas_get_unsafe(dB, Ac->cols-1, j);
+        twosum(&bk, &dk, bk, dk);
         if (!unit) {
             ak = armas_get_unsafe(Ac, Ac->cols-1, Ac->cols-1);
             approx_twodiv(&s0, &r0, bk, ak);
@@ -227,6 +228,7 @@ void solve_ext_lut_ll(
         bk = armas_get_unsafe(Bc, 0, j);
         twoprod(&bk, &dk, alpha, bk);
         dk = dk + alpha * armas_get_unsafe(dB, 0, j);
+        twosum(&bk, &dk, bk, dk);
         if (!unit) {
             ak = armas_get_unsafe(Ac, 0, 0);
             approx_twodiv(&s0, &r0, bk, ak);
@@ -363,6 +365,7 @@ void solve_ext_ru_rlt(
         bk = armas_get_unsafe(Bc, j, 0);
         twoprod(&bk, &dk, alpha, bk);
         dk = dk + alpha * armas_get_unsafe(dB, j, 0);
+        twosum(&bk, &dk, bk, dk);
         if (!unit) {
             ak = armas_get_unsafe(Ac, 0, 0);
             approx_twodiv(&s0, &r0, bk, ak);
@@ -500,6 +503,7 @@ void solve_ext_rut_rl(
         bk = armas_get_unsafe(Bc, j, Ac->cols-1);
         twoprod(&bk, &dk, alpha, bk);
         dk = dk + alpha * armas_get_unsafe(dB, j, Ac->cols-1);
+        twosum(&bk, &dk, bk, dk);
         if (!unit) {
             ak = armas_get_unsafe(Ac, Ac->cols-1, Ac->cols-1);
             approx_twodiv(&s0, &r0, bk, ak);
-- 
2.43.0


From 119c55030360807c1ab6c076e28056d50d2ac152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 208/208] fix: scaled sum in extended precision lost low part
 when terms cancel

---
 src/eblas/asum_ext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index efa780d..8e51d01 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -154,6 +154,8 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
     }
 
     if (alpha != ONE) {
+        // terms may have cancelled in high part
+        twosum(&h, &l, h, l);
         twoprod(result, &q, alpha, h);
         *result += q + alpha*l;
     } else {
-- 
2.43.0

