/* C16: smoothed objective and its gradient. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
#define MAXN 40
static int n, m, p;
static double W[MAXN][MAXN];
static void rx(double* x, double* y) { for (int i = 0; i < n; i++) y[i] = x[i]; }
static void rty(double* y, double* x) { for (int i = 0; i < m; i++) x[i] = i < n ? y[i] : 0.0; }
/* abstract dictionary: any coefficients for the point, any image of the clipped ones */
static int absd;
static double C[MAXN], U[MAXN], XP[MAXN], GW[MAXN];
static void awz(double* z, double* x) { for (int j = 0; j < p; j++) vp_close(z[j], U[j], "dictionary gets the clipped coefficients"); for (int i = 0; i < m; i++) x[i] = GW[i]; }
static void awtx(double* x, double* z) { for (int i = 0; i < m; i++) vp_same(x[i], XP[i], "coefficients are those of the current point"); for (int j = 0; j < p; j++) z[j] = C[j]; }
static void wz(double* z, double* x) {
  if (absd) { awz(z, x); return; } for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < p; j++) s = s + W[i][j] * z[j]; x[i] = s; } }
static void wtx(double* x, double* z) {
  if (absd) { awtx(x, z); return; } for (int j = 0; j < p; j++) { double s = 0; for (int i = 0; i < m; i++) s = s + W[i][j] * x[i]; z[j] = s; } }
void vp_main(void) {
  n = 1; m = vp_param("m"); p = vp_param("p");
  int symw = vp_param("symw");
  for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) W[i][j] = i == j ? 1.0 : 0.0;
  double *b = l1c_malloc_double(n), X[MAXN], mu = 0, c[MAXN], u[MAXN], f = 0, g[MAXN];
  b[0] = 2.0;
  l1c_AxFuns a = {0};
  a.n = n; a.m = m; a.p = p; a.norm_W = 1;
  a.Ax = rx; a.Aty = rty; a.Rx = rx; a.Rty = rty; a.Wz = wz; a.Wtx = wtx; a.Mx = wz; a.Mty = wtx;
  l1c_NestaOpts o = {0};
  o.mu = 0.1; o.tol = 0.01; o.sigma = 0.1; o.n_continue = 2;
  double bm, bt;
  l1c_NestaProb* NP = _l1c_NestaProb_new(a);
  if (!NP) vp_end();
  vp_check(l1c_nesta_setup(NP, &bm, &bt, b, a, &o) == 0, "set-up");
  for (int i = 0; i < m; i++)
    for (int j = 0; j < p; j++) W[i][j] = i + j < symw ? vp_real(-3, 3) : (i * 5 + j * 3) % 7 - 2.5;
  for (int i = 0; i < m; i++) X[i] = NP->xk[i] = vp_real(-10, 10);
  mu = vp_real(0.001, 5);
  NP->mu_j = mu;
  if (vp_param("abs")) {
    int wf = vp_param("wfrom"), wt = vp_param("wto"); /* outside the window: fixed zones */
    for (int j = 0; j < p; j++) C[j] = j >= wf && j < wt ? vp_real(-20, 20) : j % 4 == 0 ? 6.0 + j : j % 4 == 1 ? mu * 0.5 : j % 4 == 2 ? -7.0 - j : mu * -0.25;
    for (int i = 0; i < m; i++) { XP[i] = X[i]; GW[i] = vp_real(-20, 20); }
    for (int j = 0; j < p; j++) U[j] = C[j] > mu ? 1.0 : C[j] < -mu ? -1.0 : C[j] / mu;
    absd = 1;
  }
  wtx(X, c);
  l1c_nesta_feval(NP);
  int in = 0;
  for (int j = 0; j < p; j++) {
    if (c[j] > mu) { u[j] = 1; f = f + c[j] - mu / 2; }
    else if (c[j] < -mu) { u[j] = -1; f = f - c[j] - mu / 2; }
    else { u[j] = c[j] / mu; f = f + c[j] * c[j] / (2 * mu); in++; }
  }
  vp_close(NP->fx, f, "smoothed objective");
  wz(u, g);
  for (int i = 0; i < m; i++) {
    vp_close(NP->gradf[i], g[i], "gradient");
    if (vp_symbolic() && !absd) vp_close(NP->gradf[i], vp_deriv(f, X[i]), "gradient is the derivative");
    vp_same(NP->xk[i], X[i], "point unchanged");
  }
  vp_same(b[0], 2.0, "measurements unchanged");
  vp_reach(in == p ? "quadratic" : in == 0 ? "linear" : "mixed");
  l1c_free_nesta_problem(NP);
  l1c_free_double(b);
  vp_check(vp_live() == 0, "nothing left allocated");
}
