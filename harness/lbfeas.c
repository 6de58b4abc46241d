/* C14: the real driver, step bound and line search with an arbitrary direction and arbitrary (finite) functional values:
   what is returned satisfies the constraint. */
#include "lbprob.h"
static double dx0, du0, rho, X0, acc;
static int trials, sg;
double _l1c_l1qc_f_eval(void* d, double* x, double* u) {
  l1c_l1qcProb* P = d;
  P->r[0] = x[0] - P->b[0];
  P->fu1[0] = x[0] - u[0];
  P->fu2[0] = -x[0] - u[0];
  P->fe_val = -1;
  int k = trials++ >= vp_param("halve");
  return P->f_val = k ? -100 : vp_real(-100, 100);
}
int _l1c_l1qc_descent_dir(l1c_l1qcProb* P, l1c_CgParams par, l1c_CgResults* res) {
  P->dx[0] = dx0; P->du[0] = du0; P->gradf[0] = 0; P->gradf[1] = 1;
  res->cgiter = 1; res->cgres = 0;
  return 0;
}
void vp_main(void) {
  n = 1; m = 1; A[0][0] = 1; sg = vp_param("sign");
  double *b = l1c_malloc_double(1), *x = l1c_malloc_double(1);
  x[0] = X0 = sg * vp_real(0.5, 8);
  R[0] = vp_real(-3, 3);
  dx0 = vp_param("vs") * vp_real(0.01, 5); du0 = vp_real(-5, 5); rho = vp_real(0.01, 20);
  double end = R[0] + rho * dx0;
  EPS = vp_param("vs") * end;
  vp_assume(EPS > 0.01); vp_assume(EPS * EPS - R[0] * R[0] > 0.001);
  b[0] = X0 - R[0];
  double b0 = b[0];
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.mu = 4; o.newton_tol = 0; o.newton_max_iter = 2; o.l1_tol = 0; o.lbiter = 1; o.lbtol = 0.1; o.cg_tol = 0.25; o.cg_maxiter = 31;
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, mkfuns());
  vp_check(r.status == 0, "success");
  double e = x[0] - b0;
  vp_check(e < EPS && -e < EPS, "returned vector satisfies the constraint");
  vp_close(r.l1, fabs(x[0]), "l1 value");
  vp_reach(x[0] == X0 ? "no step" : "stepped");
  l1c_free_double(b); l1c_free_double(x);
}
