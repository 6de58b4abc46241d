/* C17: the driver.  Objective/gradient evaluation and the projection (C15, C16) are replaced by arbitrary outcomes; everything else is the real code. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
#define MAXN 4
#define MAXK 40
static int n, m, p, K, fevals, round_, k, proj, cap;
static double AT[MAXN], B[MAXN], xo[MAXN], x[MAXN], g[MAXN], gs[MAXN], y[MAXN], z[MAXN], hist[12050], MU[8], TOL[8], muf, tolf, mu0;
static int ncont, stopnow, maxk_seen, gsym;
static void ax(double* a, double* b) { for (int i = 0; i < n; i++) b[i] = 0; }
static void aty(double* a, double* b) { for (int i = 0; i < m; i++) b[i] = AT[i]; }
static void wz(double* a, double* b) { for (int i = 0; i < m; i++) b[i] = 0; }
static void wtx(double* a, double* b) { for (int i = 0; i < p; i++) b[i] = i == p - 1 ? -2.5 : 1.0; }
/* what the rule says after evaluation k of this round */
static int should_stop(void) {
  double s = 0;
  int c = k < 10 ? k : 10;
  if (k == 0) return 0;
  for (int i = k - c; i < k; i++) s = s + hist[i];
  s = s / c;
  double d = hist[k] - s;
  if (d < 0) d = -d;
  return d / s < TOL[round_];
}
void l1c_nesta_feval(l1c_NestaProb* NP) {
  if (round_ < 0 || stopnow || k >= L1C_NESTA_MAX_INNER_ITER - 1) { /* a new round begins */
    round_++;
    vp_check(round_ < ncont, "no more continuation rounds than configured");
    k = 0;
    if (round_ > 0) for (int i = 0; i < m; i++) xo[i] = x[i];
    for (int i = 0; i < m; i++) gs[i] = 0;
  } else k++;
  vp_check(proj == 0, "both projections are made before the next evaluation");
  vp_close(NP->mu_j, MU[round_], "smoothing of this round");
  vp_close(NP->tol_j, TOL[round_], "tolerance of this round");
  TOL[round_] = NP->tol_j; /* same up to rounding */
  for (int i = 0; i < m; i++) vp_close(NP->xk[i], x[i], "evaluated at the combined iterate");
  double f;
  if (cap) f = k % 2 ? 5.0 : 1.0;
  else if (k >= K) { /* keep the run short: the exact mean stops */
    double s = 0;
    int c = k < 10 ? k : 10;
    for (int i = k - c; i < k; i++) s = s + hist[i];
    f = c ? s / c : 1.0;
  } else f = vp_param("conc") ? ((k * 5 + 3) % 7) + 1.0 : vp_real(0.01, 100);
  hist[k] = f;
  NP->fx = f;
  for (int i = 0; i < m; i++) { g[i] = gsym ? vp_real(-10, 10) : (double)((i + k) % 3) - 1; NP->gradf[i] = g[i]; gs[i] = gs[i] + 0.5 * (k + 1) * g[i]; }
  if (maxk_seen < k) maxk_seen = k;
  fevals++;
  proj = 2;
  stopnow = should_stop();
}
void l1c_nesta_project(l1c_NestaProb* NP, double* xx, double* gg, double* vk) {
  vp_check(proj > 0, "two projections per evaluation");
  int isz = vk == NP->zk;
  vp_check(isz || vk == NP->yk, "projection result goes to an iterate");
  for (int i = 0; i < m; i++) {
    vp_close(xx[i], isz ? xo[i] : x[i], isz ? "second centre: start of the round" : "first centre: current point");
    vp_close(gg[i], isz ? gs[i] : g[i], isz ? "weighted sum of gradients" : "current gradient");
  }
  for (int i = 0; i < m; i++) { double v = gsym ? vp_real(-10, 10) : (double)((i * 3 + k + isz) % 5) - 2; vk[i] = v; if (isz) z[i] = v; else y[i] = v; }
  proj--;
  if (proj == 0) { double t = 2.0 / (k + 3); for (int i = 0; i < m; i++) x[i] = t * z[i] + (1 - t) * y[i]; }
}
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m"); p = vp_param("p"); K = vp_param("K"); ncont = vp_param("ncont"); cap = vp_param("cap"); gsym = vp_param("gsym");
  double *b = l1c_malloc_double(n), *xk = l1c_malloc_double(m);
  for (int i = 0; i < n; i++) B[i] = b[i] = vp_real(-10, 10);
  for (int i = 0; i < m; i++) { AT[i] = x[i] = xo[i] = gsym ? vp_real(-10, 10) : i + 1; xk[i] = 99; }
  l1c_AxFuns a = {0};
  a.n = n; a.m = m; a.p = p; a.norm_W = 1;
  a.Ax = ax; a.Aty = aty; a.AtAx = wz; a.Rx = ax; a.Rty = aty; a.Wz = wz; a.Wtx = wtx; a.Mx = wz; a.Mty = wz;
  l1c_NestaOpts o = {0};
  mu0 = 0.9 * 2.5;
  muf = 0.01; tolf = cap ? 1e-9 : ncont == 1 ? vp_real(1e-3, 0.4) : 0.004;
  o.mu = muf; o.tol = tolf; o.sigma = 0.1; o.n_continue = ncont; o.verbose = vp_param("verbose");
  for (int r = 0; r < ncont; r++) {
    MU[r] = mu0 * pow(muf / mu0, (double)(r + 1) / ncont);
    TOL[r] = ncont == 1 ? tolf : 0.1 * pow(tolf / 0.1, (double)(r + 1) / ncont);
  }
  round_ = -1;
  int rc = l1c_nesta(m, xk, n, b, a, o);
  vp_check(rc == 0, "status");
  vp_check(proj == 0, "iteration completed");
  vp_check(round_ == ncont - 1, "all continuation rounds are performed");
  vp_check(stopnow || k == L1C_NESTA_MAX_INNER_ITER - 1, "stops only when the rule says so");
  for (int i = 0; i < m; i++) vp_close(xk[i], x[i], "returned vector is the last combined iterate");
  for (int i = 0; i < n; i++) vp_same(b[i], B[i], "measurements unchanged");
  vp_reach(cap ? "cap" : maxk_seen > 10 ? "long" : "short");
  l1c_free_double(b); l1c_free_double(xk);
  vp_check(vp_live() == 0, "nothing left allocated");
  if (!o.verbose) vp_check(vp_output_count() == 0, "nothing printed");
}
