/* C19: every vector kernel against its definition. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "l1c_math.h"
#include "vcl_math.h"
#include "vp.h"
#define MAXN 4200
#define PAD 5
enum { K_AXPBY, K_INIT, K_MUL, K_AXPBYZ, K_AXPYZ, K_NORM1, K_SUM, K_LOGSUM, K_RELERR, K_ERR, K_MAX, K_ABS, K_ABSIN, K_VLOGSUM, K_VSUM, K_VMULADD, K_MACRO };
static int n, pad, from, to, big;
static double lo, hi;
/* concrete filler; entries from..to-1 are arbitrary */
static double val(int i, int which) {
  if (i >= from && i < to) return vp_real(lo, hi);
  if (lo > 0) return big == 1 ? 1e120 : big == 2 ? 1e-120 : 0.5 + ((i * 7 + which * 3) % 11) * 0.25;
  return ((i * 7 + which * 3) % 11) * 0.5 - 2.25;
}
static double* mk(double* keep, int which) {
  double* a = l1c_malloc_double(n + pad > 0 ? n + pad : 1);
  for (int i = 0; i < n; i++) keep[i] = a[i] = val(i, which);
  for (int i = n; i < n + pad; i++) a[i] = 1000 + i;
  return a;
}
static void unchanged(const double* a, const double* keep, const char* l) {
  for (int i = 0; i < n; i++) vp_same(a[i], keep[i], l);
  for (int i = n; i < n + pad; i++) vp_same(a[i], 1000 + i, "nothing beyond the requested length is written");
}
static void out(const double* a, const double* want) {
  for (int i = 0; i < n; i++) vp_close(a[i], want[i], "result");
  for (int i = n; i < n + pad; i++) vp_same(a[i], 1000 + i, "nothing beyond the requested length is written");
}
void vp_main(void) {
  static double X[MAXN], Y[MAXN], Z[MAXN], W[MAXN];
  int k = vp_param("kernel");
  n = vp_param("n"); pad = vp_param("pad") ? PAD : 0;
  from = vp_param("from"); to = vp_param("to"); big = vp_param("big");
  lo = -1000; hi = 1000;
  if (k == K_LOGSUM || k == K_VLOGSUM) { lo = 0.001; hi = 1000; }
  double *x = mk(X, 0), *y = mk(Y, 1), *z = mk(Z, 2);
  double a = vp_real(-50, 50), b = vp_real(-50, 50), s = 0;
  switch (k) {
  case K_AXPBY:
    for (int i = 0; i < n; i++) W[i] = a * X[i] + b * Y[i];
    __l1c_daxpby(n, a, x, b, y); out(y, W); unchanged(x, X, "x unchanged"); unchanged(z, Z, "z unchanged"); break;
  case K_MACRO:
    for (int i = 0; i < n; i++) W[i] = a * X[i] + b * Y[i];
    l1c_daxpby(n, a, x, b, y); out(y, W); unchanged(x, X, "x unchanged"); break;
  case K_INIT:
    for (int i = 0; i < n; i++) W[i] = a;
    l1c_init_vec(n, x, a); out(x, W); break;
  case K_MUL:
    for (int i = 0; i < n; i++) W[i] = X[i] * Y[i];
    l1c_dxmuly_z(n, x, y, z); out(z, W); unchanged(x, X, "x unchanged"); unchanged(y, Y, "y unchanged"); break;
  case K_AXPBYZ:
    for (int i = 0; i < n; i++) W[i] = a * X[i] + b * Y[i];
    l1c_daxpby_z(n, a, x, b, y, z); out(z, W); unchanged(x, X, "x unchanged"); unchanged(y, Y, "y unchanged"); break;
  case K_AXPYZ:
    for (int i = 0; i < n; i++) W[i] = a * X[i] + Y[i];
    l1c_daxpy_z(n, a, x, y, z); out(z, W); unchanged(x, X, "x unchanged"); unchanged(y, Y, "y unchanged"); break;
  case K_NORM1:
    for (int i = 0; i < n; i++) s = s + fabs(X[i]);
    vp_close(l1c_dnorm1(n, x), s, "1-norm"); unchanged(x, X, "x unchanged"); break;
  case K_SUM:
    for (int i = 0; i < n; i++) s = s + X[i];
    vp_close(l1c_dsum(n, x), s, "sum"); unchanged(x, X, "x unchanged"); break;
  case K_VSUM:
    for (int i = 0; i < n; i++) s = s + X[i];
    vp_close(vcl_sum(n, x), s, "sum"); unchanged(x, X, "x unchanged"); break;
  case K_LOGSUM: case K_VLOGSUM: {
    double al = vp_param("neg") ? -1.0 : vp_real(0.01, 20);
    if (vp_param("neg")) for (int i = 0; i < n; i++) x[i] = X[i] = -X[i];
    for (int i = 0; i < n; i++) s = s + log(al * X[i]);
    vp_close(k == K_LOGSUM ? l1c_dlogsum(n, al, x) : vcl_logsum(n, al, x), s, "sum of logarithms"); unchanged(x, X, "x unchanged"); break;
  }
  case K_RELERR: case K_ERR: {
    double d = 0, r;
    for (int i = 0; i < n; i++) { d = d + (X[i] - Y[i]) * (X[i] - Y[i]); s = s + Y[i] * Y[i]; }
    if (k == K_RELERR) { vp_assume(s >= 0.01); r = l1c_dnrm2_rel_err(n, x, y); vp_close(r * r * s, d, "relative error"); }
    else { r = l1c_dnrm2_err(n, x, y); vp_close(r * r, d, "error norm"); }
    vp_check(r >= 0, "norms are not negative");
    unchanged(x, X, "x unchanged"); unchanged(y, Y, "y unchanged"); break;
  }
  case K_MAX: {
    double r = l1c_max_vec(n, x);
    if (n <= 0) vp_check(vp_is_nan(r), "maximum of nothing is NaN");
    else {
      int in = 0;
      for (int i = 0; i < n; i++) { vp_check(r >= X[i], "maximum is not exceeded"); if (r == X[i]) in = 1; }
      vp_check(in, "maximum is an element");
    }
    unchanged(x, X, "x unchanged"); break;
  }
  case K_ABS: case K_ABSIN:
    for (int i = 0; i < n; i++) W[i] = fabs(X[i]);
    l1c_abs_vec(n, x, k == K_ABS ? y : x); out(k == K_ABS ? y : x, W);
    if (k == K_ABS) unchanged(x, X, "x unchanged");
    break;
  case K_VMULADD:
    for (int i = 0; i < n; i++) W[i] = X[i] * Y[i] + Z[i];
    vcl_dxMy_pz(n, x, y, z); out(z, W); unchanged(x, X, "x unchanged"); unchanged(y, Y, "y unchanged"); break;
  }
  vp_reach("done");
  l1c_free_double(x); l1c_free_double(y); l1c_free_double(z);
}
