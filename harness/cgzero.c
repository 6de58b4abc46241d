/* C10: zero right-hand side with zero guess, and a guess that already solves the system, are returned unchanged. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "vp.h"
static int N;
static double ent(int i, int j) { return i == j ? 4.0 + i : (i - j == 1 || j - i == 1) ? -1.0 : 0.5; }
static void apply(l1c_int n, double* p, double* q, void* d) {
  (void)d;
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s = s + ent(i, j) * p[j]; q[i] = s; }
}
void vp_main(void) {
  N = vp_param("n");
  int pre = vp_param("pre"), zero = vp_param("zero");
  double *x = l1c_malloc_double(N), *b = l1c_malloc_double(N), *md = l1c_malloc_double(N), **w = l1c_malloc_double_2D(5, N), x0[8], b0[8];
  for (int i = 0; i < N; i++) { x0[i] = x[i] = zero ? 0.0 : vp_real(-4, 4); md[i] = vp_real(0.1, 3); }
  apply(N, x, b, 0);
  for (int i = 0; i < N; i++) b0[i] = b[i];
  if (!zero) vp_assume(x0[0] >= 0.5);
  l1c_CgParams par = {0, vp_param("maxit"), 1e-3};
  l1c_CgResults res;
  int rc = pre ? l1c_cgsolve_diag_precond(N, x, b, md, w, apply, 0, &res, par) : l1c_cgsolve(N, x, b, w, apply, 0, &res, par);
  vp_check(rc == 0, "status");
  for (int i = 0; i < N; i++) { vp_close(x[i], x0[i], "converged guess is returned"); vp_same(b[i], b0[i], "right-hand side unchanged"); }
  if (!zero) vp_close(res.cgres, 0.0, "residual of a solution");
  vp_check(res.cgiter <= par.max_iter, "iteration limit");
  vp_reach("done");
  l1c_free_double(x); l1c_free_double(b); l1c_free_double(md); l1c_free_double_2D(5, w);
}
