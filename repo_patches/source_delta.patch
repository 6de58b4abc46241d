From f3fac986be76c1ac5bce4d8556aaa82ddfd671e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:06 +0000
Subject: [PATCH 01/28] fix: dctTV transforms: provide the normal operator AtAx

The AtAx field of the l1c_AxFuns struct was left uninitialised by
l1c_setup_dctTV_transforms(), although every transform set has to provide it:
a caller such as l1c_l1qc_newton() jumped through a garbage pointer.
---
 src/dct_tv_transforms.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..f82deae 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void RtRx(double* x, double* z);
+static void AtAv(double* v, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -31,6 +33,7 @@ static double _alp_v;
 
 static l1c_AxFuns ax_funs_local;
 static double* u;
+static double* y_work; // Intermediate observation vector, for AtAx.
 static l1c_int _inc_TVH, _inc_TVV;
 static unsigned jobs;
 
@@ -132,9 +135,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   }
 
   u = l1c_malloc_double(_p);
+  y_work = l1c_malloc_double(n);
 
-  if (!u) {
-    return L1C_OUT_OF_MEMORY;
+  if (!u || !y_work) {
+    status = L1C_OUT_OF_MEMORY;
+    goto fail;
   }
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
@@ -148,6 +153,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -157,6 +163,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -167,12 +174,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
 fail:
   l1c_free_double(u);
+  l1c_free_double(y_work);
   return status;
 }
 
 static void destroy() {
   ax_funs_local.destroy();
   l1c_free_double(u);
+  l1c_free_double(y_work);
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(_m, x, 1, z, 1); }
@@ -238,6 +247,16 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+static void RtRx(double* x, double* z) {
+  Rx(x, y_work);
+  Rty(y_work, z);
+}
+
+static void AtAv(double* v, double* z) {
+  Av(v, y_work);
+  Aty(y_work, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From d82d22e31e8c72907fb0f4db55519760977d01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:51 +0000
Subject: [PATCH 02/28] fix: dct set-ups: reject pixel counts that overflow,
 keep a live dctTV set on rejection

---
 src/dct_transforms.c    |  6 ++++++
 src/dct_tv_transforms.c | 26 +++++++++++++++++---------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/dct_transforms.c b/src/dct_transforms.c
index cd8d858..937c05d 100644
--- a/src/dct_transforms.c
+++ b/src/dct_transforms.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include "l1c.h"
+#include <limits.h>
 
 /* Helper Routines*/
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx);
@@ -50,6 +51,11 @@ int l1c_setup_dct_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The number of pixels must fit in an l1c_int. */
+  if ((long long)mrow * mcol > INT_MAX) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
   }
diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index f82deae..7bb0690 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "l1c.h"
 #include <cblas.h>
+#include <limits.h>
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -72,16 +73,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                BpMode bp_mode,
                                l1c_int* pix_idx,
                                l1c_AxFuns* ax_funs) {
-  jobs = 0;
   int status = L1C_SUCCESS;
-  _mrow = mrow;
-  _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
-  _alp_v = alp_v;
-  _alp_h = alp_h;
-  _inc_TVV = 0;
-  _inc_TVH = 0;
 
   if (n <= 0 || mrow <= 0 || mcol <= 0 || alp_v < 0 || alp_h < 0) {
     return L1C_INVALID_ARGUMENT;
@@ -91,10 +83,26 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The length of the stacked coefficient vector must fit in an l1c_int. */
+  if ((long long)mrow * mcol > INT_MAX / (1 + (alp_v > 0) + (alp_h > 0))) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The arguments are good: only now touch the state of a set already in use. */
+  jobs = 0;
+  _mrow = mrow;
+  _mcol = mcol;
+  _m = mrow * mcol;
+  _p = _m;
+  _alp_v = alp_v;
+  _alp_h = alp_h;
+  _inc_TVV = 0;
+  _inc_TVH = 0;
+
   /* For a matrix A=[M1; M2], ||A|| = ||A^TA||^1/2 = ||M_1^TM_1  +  M_2^TM_2||^1/2
     Thus,
     ||A|| <= \sqrt{ ||M_1||^2 + ||M_2||^2 }
-- 
2.43.0


From 6ea41d92661d2fdb3d376974028ce27a80734f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:26 +0000
Subject: [PATCH 03/28] fix: preconditioned CG: compare the starting guess by
 its residual norm r'r, not r'M r

---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..81a4e99 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1); /* delta is r'*z here, not r'*r */
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 1f28b491a5d2a5b174240994e2b16de5b6cbbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 04/28] fix: nesta: starting mu takes the absolute value of all
 p analysis coefficients

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..94e757b 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -301,7 +301,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From 6865f0c62b072513b2f8df0367cd5f25213a0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 05/28] fix: nesta: print nothing when verbose is 0

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 94e757b..c1bbbf6 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -371,7 +371,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From 04a7ad895bfd976bd17d702553c37ffc3ef35035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 06/28] fix: nesta: align the window of objective values as
 l1c_init_vec requires

---
 src/nesta.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index c1bbbf6..158ea98 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -43,11 +43,8 @@
    fvals initialized to zero.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
-  double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
-
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
-    fvals[i] = 0.0;
-  }
+  /* l1c_init_vec(), used to reset the window, requires DALIGN alignment. */
+  double* fvals = l1c_calloc_double(L1C_NESTA_NMEAN);
 
   struct l1c_fmean_fifo fifo = {.f_vals = fvals, .n_total = 0, .next = fvals};
   return fifo;
@@ -457,6 +454,6 @@ int l1c_nesta(l1c_int m,
 
   cblas_dcopy(m, NP->xk, 1, xk, 1);
   l1c_free_nesta_problem(NP);
-  free(fbar_fifo.f_vals);
+  l1c_free_double(fbar_fifo.f_vals);
   return status;
 }
-- 
2.43.0


From df67cbc0ec3b00e18598e7da30e553b13bd7080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 07/28] fix: nesta: release the problem when set-up or the
 window allocation fails

---
 src/nesta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nesta.c b/src/nesta.c
index 158ea98..a48469e 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -381,10 +381,15 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
-- 
2.43.0


From c3beb40ab17bc03f0f0fafb3b1cc7a1682feb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 08/28] fix: l1qc: do not release an uninitialised problem when
 the first allocation fails

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From 7c49d68ad0c58ee99e5366d273f4972437156523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 09/28] fix: l1qc: report the Newton iterations performed when
 a round runs to its limit

---
 src/l1qc_newton.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 5d094d5..0cb0061 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -517,6 +517,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
       }
 
       lb_res.total_cg_iter += cg_results.cgiter;
+      lb_res.total_newton_iter++;
 
       /* -------------- Line Search --------------------------- */
       ls_params.s = _l1c_l1qc_find_max_step(&l1qc_prob);
@@ -574,8 +575,6 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
     } /* Newton iter*/
 
     /* ----- Update tau ------ */
-    lb_res.total_newton_iter += iter;
-
     params.tau = params.tau * params.mu;
     l1qc_prob.tau = params.tau;
 
-- 
2.43.0


From 40fb8e5316cd7f28af51edccf83dcfb0f807feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 10/28] fix: l1qc: work rows hold n-vectors, make them long
 enough when n > m

---
 src/l1qc_newton.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 0cb0061..46d50c1 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -379,7 +379,8 @@ int _l1c_l1qcProb_new(l1c_l1qcProb* Prb,
   Prb->sig12 = l1c_calloc_double(m);
   Prb->ntgu = l1c_calloc_double(m);
   Prb->gradf = l1c_calloc_double(2 * m);
-  Prb->DWORK7 = l1c_calloc_double_2D(7, m);
+  /* The rows also hold vectors of length n. */
+  Prb->DWORK7 = l1c_calloc_double_2D(7, m > n ? m : n);
 
   if (!Prb->r || !Prb->fu1 || !Prb->fu2 || !Prb->w1p || !Prb->dx || !Prb->du ||
       !Prb->sig11 || !Prb->sig12 || !Prb->ntgu || !Prb->gradf || !Prb->DWORK7) {
-- 
2.43.0


From 9625cb47da9292b504d50b39d75ee4d9704be7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 11/28] fix: l1qc: no barrier rounds for a zero starting point
 instead of an undefined conversion

---
 src/l1qc_newton.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 46d50c1..51f86db 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -309,7 +309,8 @@ int _l1c_l1qc_newton_init(l1c_int m, double* x, double* u, l1c_L1qcOpts* params)
   /* If user has set lbiter, dont compute a different one. */
   if (params->lbiter == 0) {
     tmp = log(2 * (double)m + 1) - log(params->lbtol) - log(params->tau);
-    params->lbiter = (int)ceil(tmp / log(params->mu));
+    /* tmp is -inf for x = 0, which does not convert to an int. */
+    params->lbiter = tmp > 0 ? (int)ceil(tmp / log(params->mu)) : 0;
   }
   return 0;
 }
-- 
2.43.0


From 16ebc0cde602abb901bf3efbfbdce9eb8362f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 12/28] fix: dct1: forget released buffers and plans so that a
 failing setup does not release them twice

---
 src/dct1.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..1b68c8c 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -169,6 +169,9 @@ static void dct_destroy() {
   l1c_free_double(dct_y);
   fftw_destroy_plan(dct_plan_EMx);
   fftw_destroy_plan(dct_plan_MtEty);
+  /* A later setup which fails half way must not release these again. */
+  dct_Ety_sparse = dct_x = dct_y = NULL;
+  dct_plan_EMx = dct_plan_MtEty = NULL;
 #if defined(HAVE_FFTW3_THREADS)
   fftw_cleanup_threads();
 #endif
-- 
2.43.0


From fa90bcd0dae7aa5e810edb7bfa5a4eebe653b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 13/28] fix: dct2: release what was allocated when the setup
 fails

---
 src/dct2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..aa63685 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -188,7 +188,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
@@ -199,6 +199,9 @@ static void dct2_destroy() {
 
   fftw_destroy_plan(dct2_plan_EMx);
   fftw_destroy_plan(dct2_plan_MtEty);
+  /* A later setup which fails half way must not release these again. */
+  dct2_Ety_sparse = dct2_x = dct2_y = NULL;
+  dct2_plan_EMx = dct2_plan_MtEty = NULL;
 #if defined(HAVE_FFTW3_THREADS)
   fftw_cleanup_threads();
 #endif
-- 
2.43.0


From 3cc9f0c269b2db1a7b26427d878cb9f4692fb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:46 +0000
Subject: [PATCH 14/28] fix: bregman: normalise the change by the new image, as
 documented

---
 src/bregman.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bregman.c b/src/bregman.c
index b43ffc9..4815f65 100644
--- a/src/bregman.c
+++ b/src/bregman.c
@@ -395,7 +395,7 @@ int l1c_breg_anistropic_TV(l1c_int n,
     for (int k = 1; k <= max_jac_iter; k++) {
       breg_anis_guass_seidel(n, m, uk, rhs, mu, lambda);
     }
-    dnrm_err = l1c_dnrm2_rel_err(N, uk, uk_1);
+    dnrm_err = l1c_dnrm2_rel_err(N, uk_1, uk);
 
     /* Compute Dyu_b = Del_y*u + b. */
     l1c_Dx(n, m, 1.0, uk, Dxu_b);
-- 
2.43.0


From 502af8bbbf0a84566c135139dad158d001325273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:07 +0000
Subject: [PATCH 15/28] fix: l1qc_dct: print the timing summary through the
 replaceable print function

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From 1ea54f1bbe4aa660b2ca5ba7fe682b49dcba5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 16/28] fix: json_utils: unknown file length and short reads
 are errors without a leak

---
 src/json_utils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..b32cdef 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -2,6 +2,7 @@
 
 #include <cjson/cJSON.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,7 +20,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,6 +31,11 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
+  if (file_len < 0 || file_len == LONG_MAX) {
+    fprintf(stderr, "Error finding the length of %s\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
   *file_data = calloc(file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
@@ -45,6 +51,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 5b6c30e5b1cec361078eb030ae5514b01d33dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 17/28] fix: json_utils: report text that does not parse

---
 src/json_utils.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index b32cdef..0baf4ea 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -67,12 +67,9 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   free(file_data);
 
-  if (data_json == NULL) {
-    const char* error_ptr = cJSON_GetErrorPtr();
-    if (error_ptr != NULL) {
-      fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
-    }
+  if (*data_json == NULL) {
+    fprintf(stderr, "Error parsing %s\n", fname);
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From 6b5c8efa7f588c5a695edfb1f23432d80e9d2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 18/28] fix: json_utils: check the allocation of an integer
 array

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index 0baf4ea..026bb9f 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -164,6 +164,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x && *N > 0) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From 6a2ff006471087b7af3cd148bfff80e69b33baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 19/28] fix: python: hand the returned objects over instead of
 leaking a reference

Py_BuildValue's "O" takes a reference of its own, so the one the binding
held was never released: every call leaked its result.
---
 interfaces/python/l1cPy.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..c721f65 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +319,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return uk_out_npA;
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +460,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From 6167fc34aa6c082e622db4073bddc9875b886062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 20/28] fix: python: release the first buffer when the second
 cannot be allocated

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index c721f65..aa71eaf 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -298,7 +298,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From 0de2605f578b3348ea4d7bc7c38fab948513c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 21/28] fix: python: nesta_dctTV releases its transforms

---
 interfaces/python/l1cPy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index aa71eaf..54d85fb 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -447,6 +447,8 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
 
+  ax_funs.destroy();
+
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
 
-- 
2.43.0


From 6434ce99a263a6452fd19d4b2b21c5a24b069860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:21 +0000
Subject: [PATCH 22/28] fix: python: reject image sizes whose product overflows
 an int

---
 interfaces/python/l1cPy.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 54d85fb..6c8adb7 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include <cblas.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "l1c.h"
@@ -181,6 +182,10 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    PyErr_SetString(PyExc_ValueError, "Invalid image size.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
@@ -415,6 +420,10 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    PyErr_SetString(PyExc_ValueError, "Invalid image size.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
-- 
2.43.0


From fab4da195203f68ee50403157802176a7cbdd252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 23/28] fix: mex: denoise non-square images with the right
 dimensions

The column-major image was handed to the row-major solver with its rows
and columns the wrong way round, and an m by n image came back n by m.
---
 interfaces/mex/breg_anistropic_TV_mex.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..abb571e 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -43,7 +43,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* check that f is a matrix, at least 3 by 3. */
   _mex_assert_2Darray_with_size(prhs, 0, 3, 3);
 
-  /*Matlab give us column major order.*/
+  /* Matlab gives us column major order: in the row-major order of the solver, that is
+     the transposed image. */
   M = (l1c_int)mxGetN(prhs[0]);
   N = (l1c_int)mxGetM(prhs[0]);
   f = mxGetPr(prhs[0]);
@@ -63,13 +64,13 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From fa38f2d434b5b2bc6b151532f167b13525c355da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 24/28] fix: mex: breg_anistropic_TV releases its buffers and
 reports a failure

mexErrMsgIdAndTxt does not return, so the buffer that could be allocated
was leaked, and a failure of the solver left the output undefined.
---
 interfaces/mex/breg_anistropic_TV_mex.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index abb571e..059b38b 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -34,6 +34,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   l1c_int i = 0, N = 0, M = 0;
   /*--- Defaults --- */
   int max_iter = 1000, max_jac_iter = 1;
+  int stat = 0;
 
   _mex_assert_num_outputs(nlhs, 1);
   _mex_assert_num_inputs(nrhs, 4);
@@ -60,13 +61,12 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
-    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+    stat = L1C_OUT_OF_MEMORY;
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
-    plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
@@ -82,4 +82,9 @@ exit:
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
+  /* This does not return, so release our memory first. */
+  if (stat) {
+    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+  }
+
 } /* ------- mexFunction ends here ----- */
-- 
2.43.0


From 3c94416c1d63ac0ff8f5b225608ef420096333c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 25/28] fix: mex: nesta_dctTV checks its index buffer before
 use and releases the transforms

The buffer was checked only after it had been written, and the transforms
were not released when the other buffers could not be allocated.
---
 interfaces/mex/nesta_dctTV_mex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..3e55f58 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (NULL == pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -126,7 +130,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   x0 = l1c_malloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
+    ax_funs.destroy();
     status = L1C_OUT_OF_MEMORY;
     goto exit1;
   }
-- 
2.43.0


From 7a6bf159f48a0b4fdc9ef0d0b756be89e7ab9167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 26/28] fix: mex: l1qc_dct honours the dct_mode option

---
 interfaces/mex/l1qc_dct_mex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..fbfb98b 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -91,6 +91,11 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   l1qc_opts.newton_max_iter =
       (int)_mex_get_double_from_struct_or_fail(prhs, 4, "newton_max_iter");
   l1qc_opts.cg_maxiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "cgmaxiter");
+  /* Older options structs may not have this field. */
+  if (mxGetField(prhs[4], 0, "dct_mode")) {
+    l1qc_opts.dct_mode =
+        (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
+  }
   l1qc_opts.lbiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "lbiter");
 
   if (l1qc_opts.verbose > 0) {
-- 
2.43.0


From ba9b235e7a6591b91000029b60a1fae304557711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:02 +0000
Subject: [PATCH 27/28] fix: mex: reject image sizes whose product overflows an
 int

---
 interfaces/mex/l1qc_dct_mex.c    | 4 ++++
 interfaces/mex/nesta_dctTV_mex.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index fbfb98b..f5cf90d 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -3,6 +3,7 @@
  so that, for this function, we get matlabs definition of fprintf
 */
 #include "mex.h"
+#include <limits.h>
 #include <math.h>
 #ifdef L1C_MEX_MATLAB
 #include "matrix.h"
@@ -59,6 +60,9 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   /* -------- Check mcol -------------*/
   mcol = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 1);
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    mexErrMsgIdAndTxt("l1c:incompatible_dimensions", "Invalid image size.");
+  }
   mtot = mcol * mrow;
 
   /* -------- Check b -------------*/
diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 3e55f58..c9cf7eb 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -1,4 +1,5 @@
 #include "config.h"
+#include <limits.h>
 #include <math.h>
 
 #include <stdlib.h>
@@ -42,6 +43,9 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   mrow = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 0);
   mcol = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 1);
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    mexErrMsgIdAndTxt("l1c:incompatible_dimensions", "Invalid image size.");
+  }
   mtot = mcol * mrow;
 
   /* -------- Check b -------------*/
-- 
2.43.0


From abb48a30405a727c4667cff2a85b85652891ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:51 +0000
Subject: [PATCH 28/28] fix: l1qc_dct: the size product is formed after the
 sizes are checked

---
 src/l1qc_dct.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index dcda0c8..0e5c204 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -40,7 +40,6 @@ int l1qc_dct(int mrow,
   tv_start = l1c_get_time();
 
   int status = 0;
-  int mtot = mrow * mcol;
   l1c_AxFuns ax_funs;
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, opts.dct_mode, pix_idx, &ax_funs);
@@ -51,6 +50,9 @@ int l1qc_dct(int mrow,
     goto exit0;
   }
 
+  /* The setup has checked that this does not overflow. */
+  int mtot = mrow * mcol;
+
   /* l1c_l1qc_newton requires eta and b aligned to DALIGN.
      Pointer address from caller probably wont be properly aligned.  */
   double* eta_0 = l1c_calloc_double(mtot);
-- 
2.43.0

