/* C12: functional at any point: not a number (hence never accepted by the line search) outside the feasible set; gradient by differentiation of the code's own value */
#include "lbprob.h"
int l1c_cgsolve(l1c_int N, double* x, double* b, double** W, void (*f)(l1c_int, double*, double*, void*), void* d, l1c_CgResults* res, l1c_CgParams par) { res->cgres = 0; res->cgiter = 0; return 0; }
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m");
  mkA(vp_param("symA"));
  int mode = vp_param("mode");
  double* b;
  if (mode == 0) { b = mkpoint(-20); vp_assume(FE < -0.001 || FE > 0.001); }
  else {
    b = l1c_malloc_double(n);
    double q = 0;
    for (int i = 0; i < m; i++) { X[i] = vp_real(-3, 3); U[i] = vp_real(-1, 9); vp_assume(U[i] - X[i] >= 0.1); vp_assume(U[i] + X[i] >= 0.1); }
    ax(X, R);
    for (int i = 0; i < n; i++) { B[i] = b[i] = vp_real(-5, 5); R[i] = R[i] - B[i]; q = q + R[i] * R[i]; }
    EPS = vp_real(0.1, 10); TAU = vp_real(0.5, 1000); FE = (q - EPS * EPS) / 2;
    vp_assume(FE <= -0.01);
  }
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.tau = TAU;
  l1c_l1qcProb P;
  if (_l1c_l1qcProb_new(&P, m, n, b, o, mkfuns())) vp_end();
  double *x = l1c_malloc_double(m), *u = l1c_malloc_double(m);
  int bad = 0;
  for (int i = 0; i < m; i++) { x[i] = X[i]; u[i] = U[i]; if (!mode) { vp_assume(S1[i] > 0.001 || S1[i] < -0.001); vp_assume(S2[i] > 0.001 || S2[i] < -0.001); if (S1[i] < 0 || S2[i] < 0) bad = 1; } }
  if (FE > 0) bad = 1;
  double f = _l1c_l1qc_f_eval(&P, x, u);
  if (bad) { vp_check(!(f <= 1e300), "infeasible points are never acceptable"); vp_reach("infeasible"); }
  else { vp_check(vp_is_finite(f), "feasible points have a finite value"); vp_reach("feasible"); }
  if (mode) {
    l1c_CgParams par = {.verbose = 0, .max_iter = 3, .tol = 0.1};
    l1c_CgResults res = {0};
    _l1c_l1qc_descent_dir(&P, par, &res);
    if (vp_symbolic())
      for (int i = 0; i < m; i++) { vp_close(P.gradf[i], vp_deriv(f, X[i]), "gradient in x is the derivative"); vp_close(P.gradf[m + i], vp_deriv(f, U[i]), "gradient in u is the derivative"); }
  }
  _l1c_l1qcProb_delete(&P);
  l1c_free_double(x); l1c_free_double(u); l1c_free_double(b);
}
