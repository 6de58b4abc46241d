/* C15: NESTA projection against the closed-form minimiser and against the optimality conditions. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
#define MAXN 40
static int n, m, p, ready;
static double A[MAXN][MAXN];
static void ax(double* x, double* y) { for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < m; j++) s = s + A[i][j] * x[j]; y[i] = s; } }
static void aty(double* y, double* x) { for (int j = 0; j < m; j++) { double s = 0; for (int i = 0; i < n; i++) s = s + A[i][j] * y[i]; x[j] = s; } }
static void atax(double* x, double* z) { double t[MAXN]; ax(x, t); aty(t, z); }
static void wz(double* z, double* x) { for (int i = 0; i < m; i++) x[i] = z[i]; }
static void wtx(double* x, double* z) { for (int i = 0; i < p; i++) z[i] = 1.0; }
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m"); p = vp_param("p");
  int kind = vp_param("kind"), regime = vp_param("regime");
  if (kind == 0) { /* sampling of coordinates: row i picks one */
    for (int i = 0; i < n; i++) A[i][(2 * i + 1) % m == 0 ? 0 : (i * 2) % m] = 1.0;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = j == m - 1 - i ? 1.0 : 0.0;
  } else if (kind == 1) { /* every unit row of length two (and its orthogonal), from a symbolic angle; rest zero */
    double t = vp_real(-5, 5), q = 1 + t * t, c = (1 - t * t) / q, s = 2 * t / q;
    A[0][0] = c; A[0][1] = s;
    if (n > 1) { A[1][0] = -s; A[1][1] = c; }
  } else { /* fixed rotations with rational entries */
    static const double R3[3][3] = {{2, 1, 2}, {-2, 2, 1}, {1, 2, -2}};
    static const double R4[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, 1, -1, -1}, {1, -1, -1, 1}};
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = m == 3 ? R3[i][j] / 3 : R4[i][j] / 2;
  }
  double *b = l1c_malloc_double(n), *xx = l1c_malloc_double(m), *g = l1c_malloc_double(m), *v = l1c_malloc_double(m);
  double B[MAXN], X[MAXN], G[MAXN], q[MAXN], Aq[MAXN], r[MAXN], t[MAXN], Av[MAXN];
  /* the free variables are the unconstrained minimiser q, the gradient and the residual r of q; centre and measurements follow */
  double sigma = vp_real(0.01, 8), mu = vp_real(0.01, 4), nw = vp_real(0.5, 3), L = nw * nw / mu, rho2 = 0;
  for (int i = 0; i < m; i++) { q[i] = vp_real(-10, 10); G[i] = g[i] = vp_real(-10, 10); X[i] = xx[i] = q[i] + G[i] / L; v[i] = 77; }
  ax(q, Aq);
  for (int i = 0; i < n; i++) { r[i] = regime == 2 ? (i == n - 1 ? -sigma : 0.0) : n <= 4 || i == 0 || i == n - 1 ? vp_real(-10, 10) : 0.01 * (i % 3 - 1); B[i] = b[i] = Aq[i] - r[i]; rho2 = rho2 + r[i] * r[i]; }
  l1c_AxFuns ax_funs = {0};
  ax_funs.n = n; ax_funs.m = m; ax_funs.p = p; ax_funs.norm_W = nw;
  ax_funs.Ax = ax; ax_funs.Aty = aty; ax_funs.AtAx = atax; ax_funs.Rx = ax; ax_funs.Rty = aty; ax_funs.Wz = wz; ax_funs.Wtx = wtx;
  ax_funs.Mx = wz; ax_funs.Mty = wz;
  l1c_NestaOpts o = {0};
  o.mu = 0.1; o.tol = 0.01; o.sigma = sigma; o.n_continue = 2;
  double bm, bt;
  l1c_NestaProb* NP = _l1c_NestaProb_new(ax_funs);
  if (!NP) vp_end();
  vp_check(l1c_nesta_setup(NP, &bm, &bt, b, ax_funs, &o) == 0, "set-up");
  NP->mu_j = mu;
  for (int i = 0; i < m; i++) { NP->dwork1[i] = 5 + i; NP->dwork2[i] = -3 - i; } /* stale scratch must not matter */
  if (regime == 0) vp_assume(rho2 < sigma * sigma);
  else if (regime == 1) vp_assume(rho2 > sigma * sigma);
  l1c_nesta_project(NP, xx, g, v);
  if (regime != 1) {
    for (int i = 0; i < m; i++) vp_close(v[i], q[i], "unconstrained minimiser when feasible");
    vp_reach("inactive");
  } else {
    double rho = sqrt(rho2), w2 = 0;
    aty(r, t);
    for (int i = 0; i < m; i++) vp_close(v[i], q[i] - (1 - sigma / rho) * t[i], "projected minimiser");
    /* optimality: on the boundary, and stationary with a non-negative multiplier */
    if (vp_param("kkt")) {
      ax(v, Av);
      for (int i = 0; i < n; i++) { Av[i] = Av[i] - B[i]; w2 = w2 + Av[i] * Av[i]; }
      vp_close(w2, sigma * sigma, "on the boundary of the constraint set");
      aty(Av, t);
      for (int i = 0; i < m; i++) vp_close(L * (v[i] - X[i]) + G[i] + L * (rho / sigma - 1) * t[i], 0, "stationary");
      vp_check(rho / sigma - 1 >= 0, "multiplier is not negative");
    }
    vp_reach("active");
  }
  for (int i = 0; i < n; i++) vp_same(b[i], B[i], "measurements unchanged");
  for (int i = 0; i < m; i++) { vp_same(xx[i], X[i], "centre unchanged"); vp_same(g[i], G[i], "gradient unchanged"); }
  l1c_free_nesta_problem(NP);
  l1c_free_double(b); l1c_free_double(xx); l1c_free_double(g); l1c_free_double(v);
  vp_check(vp_live() == 0, "nothing left allocated");
}
