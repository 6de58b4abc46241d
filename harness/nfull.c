/* C17: the whole solver with its real parts on fixed data, for every tolerance; compared with an independent implementation of the method. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "nesta.h"
#include "vp.h"
#define N 2
#define M 4
#define P 6
#define MAXIT 200
static const double H[4][4] = {{.5, .5, .5, .5}, {.5, -.5, .5, -.5}, {.5, .5, -.5, -.5}, {.5, -.5, -.5, .5}};
static int seed;
static double W(int i, int j) { return j < 4 ? (i == j ? 1.0 : 0.0) : 0.25 * ((i * 3 + j + seed) % 3 - 1); }
static void ax(double* x, double* y) { for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < M; j++) s = s + H[i + seed % 2][j] * x[j]; y[i] = s; } }
static void aty(double* y, double* x) { for (int j = 0; j < M; j++) { double s = 0; for (int i = 0; i < N; i++) s = s + H[i + seed % 2][j] * y[i]; x[j] = s; } }
static void atax(double* x, double* z) { double t[N]; ax(x, t); aty(t, z); }
static void wz(double* z, double* x) { for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < P; j++) s = s + W(i, j) * z[j]; x[i] = s; } }
static void wtx(double* x, double* z) { for (int j = 0; j < P; j++) { double s = 0; for (int i = 0; i < M; i++) s = s + W(i, j) * x[i]; z[j] = s; } }
static double b0[N], L = 1.6 * 1.6;
static void proj(const double* c, const double* g, double Lm, double sg, double* v) {
  double r[N], t[M], rho = 0;
  for (int i = 0; i < M; i++) v[i] = c[i] - g[i] / Lm;
  ax(v, r);
  for (int i = 0; i < N; i++) { r[i] = r[i] - b0[i]; rho = rho + r[i] * r[i]; }
  rho = sqrt(rho);
  if (rho <= sg) return;
  aty(r, t);
  for (int i = 0; i < M; i++) v[i] = v[i] - (1 - sg / rho) * t[i];
}
void vp_main(void) {
  seed = vp_param("seed");
  int nc = vp_param("ncont"), maxk = vp_param("maxk");
  double *b = l1c_malloc_double(N), *x = l1c_malloc_double(M);
  for (int i = 0; i < N; i++) b0[i] = b[i] = (seed * 3 + i * 5) % 7 - 2.75;
  for (int i = 0; i < M; i++) x[i] = 50;
  l1c_AxFuns a = {0};
  a.n = N; a.m = M; a.p = P; a.norm_W = 1.6;
  a.Ax = ax; a.Aty = aty; a.AtAx = atax; a.Rx = ax; a.Rty = aty; a.Wz = wz; a.Wtx = wtx; a.Mx = wz; a.Mty = wtx;
  l1c_NestaOpts o = {0};
  o.mu = 0.05; o.sigma = 0.25; o.n_continue = nc; o.verbose = 0;
  o.tol = nc == 1 ? vp_real(1e-7, 0.3) : 0.01 * (1 + seed % 3);
  /* the method */
  double c[P], u[P], mu0 = 0, xo[M], xk[M], y[M], z[M], g[M], gs[M], h[MAXIT], mu, tol;
  aty(b0, xo);
  wtx(xo, c);
  for (int j = 0; j < P; j++) mu0 = fabs(c[j]) > mu0 ? fabs(c[j]) : mu0;
  mu0 = 0.9 * mu0;
  for (int i = 0; i < M; i++) xk[i] = xo[i];
  for (int r = 1; r <= nc; r++) {
    mu = mu0 * pow(o.mu / mu0, (double)r / nc);
    tol = nc == 1 ? o.tol : 0.1 * pow(o.tol / 0.1, (double)r / nc);
    for (int i = 0; i < M; i++) gs[i] = 0;
    for (int k = 0;; k++) {
      double f = 0, s = 0, d;
      if (k >= maxk) { vp_assume(0); }
      wtx(xk, c);
      for (int j = 0; j < P; j++) {
        double m_ = fabs(c[j]);
        if (m_ >= mu) { u[j] = c[j] > 0 ? 1 : -1; f = f + m_ - mu / 2; } else { u[j] = c[j] / mu; f = f + c[j] * c[j] / (2 * mu); }
      }
      wz(u, g);
      proj(xk, g, L / mu, o.sigma, y);
      for (int i = 0; i < M; i++) gs[i] = gs[i] + 0.5 * (k + 1) * g[i];
      proj(xo, gs, L / mu, o.sigma, z);
      for (int i = 0; i < M; i++) xk[i] = 2.0 / (k + 3) * z[i] + (k + 1.0) / (k + 3) * y[i];
      h[k] = f;
      if (k) {
        int q = k < 10 ? k : 10;
        for (int i = k - q; i < k; i++) s = s + h[i];
        s = s / q;
        d = fabs(f - s) / s;
        if (d < tol * (1 - 1e-9)) break;
        vp_assume(d > tol * (1 + 1e-9)); /* not within rounding of the threshold */
      }
    }
    for (int i = 0; i < M; i++) xo[i] = xk[i];
  }
  int rc = l1c_nesta(M, x, N, b, a, o);
  vp_check(rc == 0, "status");
  double r[N], s = 0;
  for (int i = 0; i < M; i++) vp_close(x[i], xk[i], "result of the method");
  ax(x, r);
  for (int i = 0; i < N; i++) { s = s + (r[i] - b0[i]) * (r[i] - b0[i]); vp_same(b[i], b0[i], "measurements unchanged"); }
  vp_le(s, o.sigma * o.sigma, "returned vector satisfies the constraint");
  vp_check(vp_output_count() == 0, "nothing printed");
  l1c_free_double(b); l1c_free_double(x);
  vp_check(vp_live() == 0, "nothing left allocated");
  vp_reach("done");
}
