/* C21: verbosity: what is printed, through which function, and that results do not depend on it. */
#include <math.h>
#include <stdarg.h>
#include <stdlib.h>
#include "l1c.h"
#include "l1c_logging.h"
#include "l1qc_newton.h"
#include "vp.h"
#define MAXI 64
static int seen[MAXI], calls, other, calls2;
/* replacement print function: a line that starts with an integer field is a status line of that iteration */
static int rec(const char* f, ...) {
  calls++;
  const char* p = f;
  while (*p == ' ') p++;
  if (p[0] == '%' && (p[1] == 'd' || ((p[1] == '3' || p[1] == '2') && p[2] == 'd'))) {
    va_list a;
    va_start(a, f);
    int k = va_arg(a, int);
    va_end(a);
    vp_check(k >= 1 && k < MAXI, "iteration number printed");
    seen[k]++;
  } else other++;
  return 1;
}
static int rec2(const char* f, ...) { calls2++; return 1; }
static int N;
static void apply(l1c_int n, double* p, double* q, void* d) {
  for (int i = 0; i < n; i++) {
    double s = 0;
    for (int j = 0; j < n; j++) s = s + (i == j ? 3.0 + i * 7 : (i - j == 1 || j - i == 1) ? -1.0 : 0.5) * p[j];
    q[i] = s;
  }
}
static const double H[4][4] = {{.5, .5, .5, .5}, {.5, -.5, .5, -.5}, {.5, .5, -.5, -.5}, {.5, -.5, -.5, .5}};
static void ax(double* x, double* y) { for (int i = 0; i < 2; i++) { double s = 0; for (int j = 0; j < 4; j++) s = s + H[i + 1][j] * x[j]; y[i] = s; } }
static void aty(double* y, double* x) { for (int j = 0; j < 4; j++) { double s = 0; for (int i = 0; i < 2; i++) s = s + H[i + 1][j] * y[i]; x[j] = s; } }
static void atax(double* x, double* z) { double t[2]; ax(x, t); aty(t, z); }
static void id(double* x, double* z) { for (int j = 0; j < 4; j++) z[j] = x[j]; }
static int V, CV, fevals;
static double out[2][12];
static int iters[2];
static void run(int slot, int what, int v, int cv, double tol, int maxit) {
  double *x = l1c_malloc_double(12), *b = l1c_malloc_double(12), *md = l1c_malloc_double(12), **w = l1c_malloc_double_2D(5, 12);
  l1c_AxFuns a = {0};
  a.n = 2; a.m = 4; a.p = 4; a.q = 4; a.norm_W = 1; a.Ax = ax; a.Aty = aty; a.AtAx = atax; a.Rx = ax; a.Rty = aty; a.Mx = id; a.Mty = id; a.Wz = id; a.Wtx = id;
  for (int i = 0; i < 12; i++) { x[i] = 0.5 - (i % 2); b[i] = (i % 3) - 1.25; md[i] = 0.25 + 0.5 * i; }
  if (what <= 1) {
    l1c_CgParams par = {.verbose = v, .max_iter = maxit, .tol = tol};
    l1c_CgResults res;
    if (what) l1c_cgsolve_diag_precond(N, x, b, md, w, apply, NULL, &res, par);
    else l1c_cgsolve(N, x, b, w, apply, NULL, &res, par);
    iters[slot] = res.cgiter;
  } else if (what == 2) {
    l1c_NestaOpts o = {0};
    o.mu = 0.05; o.sigma = 0.25; o.n_continue = vp_param("ncont"); o.tol = tol; o.verbose = v;
    b[0] = 1.25; b[1] = -2.75;
    vp_check(l1c_nesta(4, x, 2, b, a, o) == 0, "status");
  } else if (what == 3) {
    l1c_L1qcOpts o = {0};
    double t[2];
    for (int j = 0; j < 4; j++) x[j] = 0.3 + (j % 3) * 0.7 * (j % 2 ? -1 : 1);
    ax(x, t);
    b[0] = t[0] + 0.03; b[1] = t[1] - 0.02;
    o.epsilon = 0.1; o.mu = 10; o.newton_max_iter = 4; o.l1_tol = 0.001; o.newton_tol = 0.001; o.lbiter = vp_param("ncont"); o.lbtol = 0.05; o.cg_tol = 0.0001; o.cg_maxiter = 50; o.verbose = v; o.cg_verbose = cv;
    l1c_LBResult r = l1c_l1qc_newton(4, x, 2, b, o, a);
    vp_check(r.status == 0, "status");
    out[slot][10] = r.l1; out[slot][11] = r.total_newton_iter + 1000.0 * r.total_cg_iter;
  } else {
    l1c_L1qcOpts o = {0};
    int ix[2] = {2, 1};
    l1c_LBResult r;
    b[0] = 1.25; b[1] = -0.75;
    o.epsilon = 0.1; o.mu = 10; o.newton_max_iter = 2; o.l1_tol = 0.05; o.newton_tol = 0.05; o.lbiter = 1; o.lbtol = 0.05; o.cg_tol = 0.001; o.cg_maxiter = 10; o.dct_mode = dct1; o.verbose = v; o.cg_verbose = cv;
    vp_check(l1qc_dct(4, 1, x, 2, b, ix, o, &r) == 0, "status");
  }
  for (int i = 0; i < (what <= 1 ? N : 4); i++) out[slot][i] = x[i];
  l1c_free_double(x); l1c_free_double(b); l1c_free_double(md); l1c_free_double_2D(5, w);
}
void vp_main(void) {
  int what = vp_param("what"), maxit = vp_param("maxit");
  N = vp_param("n");
  vp_set_threads(1);
  double tol = what <= 1 ? vp_real(1e-9, 0.5) : what == 2 ? 0.01 : 0;
  V = vp_param("v") == -99 ? vp_int(-2147483647 - 1, 2147483647) : vp_param("v");
  CV = vp_param("cv") == -99 ? vp_int(-2147483647 - 1, 2147483647) : vp_param("cv");
  int o0 = vp_output_count();
  run(0, what, 0, 0, tol, maxit);
  vp_check(vp_output_count() == o0, "silent at verbosity zero (default print function)");
  l1c_printf_t* old = l1c_replace_printf(rec);
  vp_check(old != NULL && old != rec, "replacing returns the previous function");
  vp_check(l1c_replace_printf(rec2) == rec, "replacing returns the previous function");
  vp_check(l1c_replace_printf(rec) == rec2, "replacing returns the previous function");
  vp_check(calls == 0 && calls2 == 0, "replacing prints nothing");
  run(1, what, V, CV, tol, maxit);
  for (int i = 0; i < 12; i++) vp_same(out[1][i], out[0][i], "result does not depend on verbosity");
  vp_check(iters[0] == iters[1], "iterations do not depend on verbosity");
  vp_check(vp_output_count() == o0, "everything goes through the replacement");
  vp_check(calls2 == 0, "a function that was replaced is not called");
  if (what <= 2 || CV <= 0) if (V <= 0) { vp_check(calls == 0, "silent at verbosity zero"); vp_reach("silent"); }
  if (what <= 1) {
    for (int k = 1; k < MAXI; k++) {
      int want = 0;
      if (k <= iters[1] && V > 0) want = k % V == 0;
      vp_check(seen[k] == want, "a status line for exactly every v-th iteration");
    }
    vp_check(other <= 1, "one header");
  } else if (what == 2 && vp_param("ncont") == 1) {
    int last = 0;
    for (int k = 1; k < MAXI; k++) if (seen[k]) { vp_check(V > 0 && k % V == 0 && seen[k] == 1, "a status line only at every v-th iteration"); last = k; }
    if (V > 0) for (int k = 1; k < last; k++) if (k % V == 0) vp_check(seen[k] == 1, "a status line at every v-th iteration");
    if (V == 1) vp_check(last > 2, "status lines");
  }
  if (what >= 2 && V > 0) vp_check(calls > 0, "output above zero");
  if (calls) vp_reach("printed");
  vp_check(l1c_replace_printf(old) == rec, "replacing returns the previous function");
}
