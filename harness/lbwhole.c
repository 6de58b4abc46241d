/* C14: complete solver runs on fixed data with symbolic tolerances and radius. */
#include "lbprob.h"
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m");
  mkA(0);
  double *b = l1c_malloc_double(n), *x = l1c_malloc_double(m), t[MAXN];
  for (int j = 0; j < m; j++) x[j] = X[j] = 0.3 + (j % 3) * 0.7 * (j % 2 ? -1 : 1);
  ax(x, t);
  for (int i = 0; i < n; i++) b[i] = B[i] = t[i] - (i % 2 ? 0.02 : -0.03);
  EPS = 0.1;
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.mu = 10; o.newton_max_iter = vp_param("nmax"); o.l1_tol = vp_real(0.0001, 0.1); o.newton_tol = vp_real(0.0001, 0.1); o.lbiter = 0; o.lbtol = 0.05; o.cg_tol = 0.0001; o.cg_maxiter = 50;
  o.warm_start_cg = vp_param("warm");
  double l0 = 0, l = 0;
  for (int j = 0; j < m; j++) l0 = l0 + fabs(X[j]);
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, mkfuns());
  vp_check(r.status == 0, "success");
  ax(x, t);
  double q = 0;
  for (int i = 0; i < n; i++) { q = q + (t[i] - B[i]) * (t[i] - B[i]); vp_same(b[i], B[i], "measurements unchanged"); }
  vp_check(q <= EPS * EPS, "returned vector satisfies the constraint");
  for (int j = 0; j < m; j++) l = l + fabs(x[j]);
  vp_close(r.l1, l, "l1 value is the norm of the returned vector");
  vp_check(l <= l0 + 1e-6, "l1 norm does not get worse");
  if (vp_param("nmax") > 20) vp_check(r.total_newton_iter > 0 && r.total_cg_iter > 0, "work was done");
  vp_reach("done");
  l1c_free_double(b); l1c_free_double(x);
  vp_check(vp_live() == 0, "nothing left allocated");
}
