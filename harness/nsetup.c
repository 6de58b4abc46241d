/* C17: starting values and geometric schedule. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
#define MAXN 12
static int n, m, p;
static double AT[MAXN], C[MAXN], B[MAXN];
static void ax(double* x, double* y) { for (int i = 0; i < n; i++) y[i] = 0; }
static void aty(double* y, double* x) { for (int i = 0; i < n; i++) vp_same(y[i], B[i], "back-projection of the measurements"); for (int i = 0; i < m; i++) x[i] = AT[i]; }
static void rty(double* y, double* x) { for (int i = 0; i < m; i++) x[i] = -5; }
static void wz(double* z, double* x) { for (int i = 0; i < m; i++) x[i] = -7; }
static void wtx(double* x, double* z) { for (int i = 0; i < m; i++) vp_same(x[i], AT[i], "analysis of the back-projection"); for (int i = 0; i < p; i++) z[i] = C[i]; }
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m"); p = vp_param("p");
  double* b = l1c_malloc_double(n);
  for (int i = 0; i < n; i++) B[i] = b[i] = vp_real(-10, 10);
  for (int i = 0; i < m; i++) AT[i] = vp_real(-10, 10);
  int w = vp_param("which"), from = vp_param("from"), to = vp_param("to");
  for (int i = 0; i < p; i++) C[i] = i >= from && i < to ? vp_real(-10, 10) : ((i * 7) % 5 - 2) * 0.25;
  vp_assume(fabs(C[w]) >= 0.5);
  l1c_AxFuns a = {0};
  a.n = n; a.m = m; a.p = p; a.norm_W = vp_real(0.5, 4);
  a.Ax = ax; a.Aty = aty; a.AtAx = wz; a.Rx = ax; a.Rty = rty; a.Wz = wz; a.Wtx = wtx; a.Mx = wz; a.Mty = wz;
  int miss = vp_param("missing");
  if (miss == 1) a.Wz = 0;
  if (miss == 2) a.Wtx = 0;
  if (miss == 3) a.Rx = 0;
  if (miss == 4) a.Rty = 0;
  l1c_NestaOpts o = {0};
  o.mu = vp_real(1e-4, 0.5); o.tol = vp_real(1e-6, 0.5); o.sigma = vp_real(0.01, 1); o.n_continue = vp_param("ncont"); o.verbose = 0;
  double bm = -1, bt = -1;
  l1c_NestaProb* NP = _l1c_NestaProb_new(a);
  if (!NP) vp_end();
  int rc = l1c_nesta_setup(NP, &bm, &bt, b, a, &o);
  if (miss) {
    vp_check(rc != 0, "missing operator is rejected");
    vp_reach("rejected");
  } else {
    vp_check(rc == 0, "status");
    double mx = 0;
    for (int i = 0; i < p; i++) mx = fabs(C[i]) > mx ? fabs(C[i]) : mx;
    vp_close(NP->mu_j, 0.9 * mx, "starting smoothing");
    vp_close(NP->tol_j, 0.1, "starting tolerance");
    double mu = NP->mu_j, tol = NP->tol_j;
    for (int k = 0; k < o.n_continue; k++) { mu = mu * bm; tol = tol * bt; }
    vp_close(mu, o.mu, "final smoothing is the requested one");
    vp_close(tol, o.tol, "final tolerance is the requested one");
    vp_check(bm > 0 && bt > 0, "factors are positive");
    vp_close(NP->L, a.norm_W * a.norm_W, "Lipschitz constant");
    vp_same(NP->sigma, o.sigma, "noise level");
    for (int i = 0; i < m; i++) { vp_close(NP->xo[i], AT[i], "first centre is the back-projection"); vp_close(NP->Atb[i], AT[i], "stored back-projection"); }
    vp_reach("done");
  }
  for (int i = 0; i < n; i++) vp_same(b[i], B[i], "measurements unchanged");
  l1c_free_nesta_problem(NP);
  l1c_free_double(b);
  vp_check(vp_live() == 0, "nothing left allocated");
}
