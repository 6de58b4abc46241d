/* C11: both line searches against their definition, for an arbitrary objective (fresh value per evaluation). */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "l1qc_newton.h"
#include "linesearch.h"
#include "vp.h"
#define MAXN 80
static int m, two, evals, maxev, special;
static double fval[64], X0[MAXN], U0[MAXN], DX[MAXN], DU[MAXN], S, BETA;
static int dummy;
/* kinds of objective values: 0 finite, 1 +inf, 2 nan, 3 -inf */
static double next(void* d, double* x, double* u) {
  double st = S, v;
  vp_check(d == &dummy, "objective receives the caller's data");
  for (int i = 0; i < evals; i++) st = st * BETA;
  for (int i = 0; i < m; i++) {
    vp_close(x[i], X0[i] + st * DX[i], "trial point x");
    if (two) vp_close(u[i], U0[i] + st * DU[i], "trial point u");
  }
  int k = special < 0 ? 0 : evals < 4 ? (special >> (2 * evals)) & 3 : evals == 31 ? special >> 8 : 0;
  if (k == 1) v = INFINITY;
  else if (k == 2) v = NAN;
  else if (k == 3) v = -INFINITY;
  else v = vp_real(-100, 100);
  vp_check(evals < 32, "at most 32 trials");
  fval[evals++] = v;
  return v;
}
static double f1(void* d, double* x) { return next(d, x, 0); }
void vp_main(void) {
  m = vp_param("m"); two = vp_param("two"); special = vp_param("special");
  int fixed = vp_param("fixed");
  double *x = l1c_malloc_double(m), *u = l1c_malloc_double(m), *dx = l1c_malloc_double(m), *du = l1c_malloc_double(m);
  double** w = l1c_malloc_double_2D(2, m);
  for (int i = 0; i < m; i++) {
    X0[i] = x[i] = vp_real(-10, 10); U0[i] = u[i] = vp_real(-10, 10);
    DX[i] = dx[i] = vp_real(-10, 10); DU[i] = du[i] = vp_real(-10, 10);
  }
  double f0 = vp_real(-100, 100), fx = f0, g = vp_real(-50, 50);
  LSParams p;
  p.alpha = vp_real(0.001, 0.5);
  p.beta = BETA = fixed ? 0.5 : vp_real(0.05, 0.95);
  p.s = S = fixed ? 0.75 : vp_real(0.01, 1);
  LSStat st;
  if (two) st = l1c_linesearch_xu(m, x, u, dx, du, &fx, g, &dummy, next, p, w);
  else st = l1c_linesearch(m, x, dx, &fx, g, &dummy, f1, p, w[0]);
  /* the definition */
  double step = S;
  int ok = 0, k;
  for (k = 0; k < evals; k++) {
    double fl = f0 + p.alpha * step * g;
    if (fval[k] <= fl) { ok = 1; break; }
    step = step * BETA;
  }
  if (ok) {
    vp_check(evals == k + 1, "stops at the first sufficient decrease");
    vp_check(st.status == 0, "success is reported");
    vp_close(st.step, step, "reported step");
    vp_check(st.iter == k + 1, "reported iterations");
    vp_close(st.flin, f0 + p.alpha * step * g, "reported linear model");
    vp_same(fx, fval[k], "objective value is the accepted one");
    for (int i = 0; i < m; i++) {
      vp_close(x[i], X0[i] + step * DX[i], "x is the accepted point");
      if (two) vp_close(u[i], U0[i] + step * DU[i], "u is the accepted point");
    }
    vp_reach("accepted");
  } else {
    vp_check(evals == 32, "fails only after 32 trials");
    vp_check(st.status != 0, "failure is reported");
    vp_check(st.iter == 32, "reported iterations");
    vp_same(fx, f0, "objective value unchanged on failure");
    for (int i = 0; i < m; i++) {
      vp_same(x[i], X0[i], "x unchanged on failure");
      if (two) vp_same(u[i], U0[i], "u unchanged on failure");
    }
    vp_reach("failed");
  }
  for (int i = 0; i < m; i++) {
    vp_same(dx[i], DX[i], "direction unchanged");
    vp_same(du[i], DU[i], "direction unchanged");
  }
  l1c_free_double(x); l1c_free_double(u); l1c_free_double(dx); l1c_free_double(du);
  l1c_free_double_2D(2, w);
}
