/* C12: functional, gradient, reduced Hessian, elimination.  The linear solver is replaced by an arbitrary outcome. */
#include "lbprob.h"
static double a[MAXN], gx[MAXN], gu[MAXN], Huu[MAXN], Hxu[MAXN], DX[MAXN], cgr;
static int solves, cgit, mx, vb;
static double tolr;
int l1c_cgsolve(l1c_int N, double* x, double* b, double** W, void (*f)(l1c_int, double*, double*, void*), void* d, l1c_CgResults* res, l1c_CgParams par) {
  solves++;
  vp_check(N == m, "system size");
  vp_check(par.max_iter == mx && par.tol == tolr && par.verbose == vb, "solver parameters are passed on");
  for (int i = 0; i < m; i++) vp_close(b[i], -TAU * (gx[i] - Hxu[i] / Huu[i] * gu[i]), "right-hand side of the reduced system");
  double *z = l1c_malloc_double(m), *y = l1c_malloc_double(m), Z[MAXN], t[MAXN], az = 0;
  for (int i = 0; i < m; i++) { Z[i] = z[i] = vp_real(-5, 5); y[i] = 123; az = az + a[i] * Z[i]; }
  f(m, z, y, d);
  atax(Z, t);
  for (int i = 0; i < m; i++) {
    double i1 = 1 / S1[i], i2 = 1 / S2[i];
    double hxx = (i1 * i1 + i2 * i2) * Z[i] - t[i] / FE + a[i] * az / (FE * FE); /* times tau */
    vp_close(y[i], hxx - TAU * Hxu[i] * Hxu[i] / Huu[i] * Z[i], "reduced Hessian product");
    vp_same(z[i], Z[i], "Hessian product leaves its argument unchanged");
  }
  for (int i = 0; i < m; i++) x[i] = DX[i];
  for (int j = 0; j < 4; j++) for (int i = 0; i < m; i++) W[j][i] = -9; /* the solver's scratch */
  res->cgres = cgr; res->cgiter = cgit;
  l1c_free_double(z); l1c_free_double(y);
  return 0;
}
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m");
  mkA(vp_param("symA"));
  double* b = mkpoint(1e-4);
  vp_assume(FE < -0.01);
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.tau = TAU;
  l1c_l1qcProb P;
  if (_l1c_l1qcProb_new(&P, m, n, b, o, mkfuns())) vp_end();
  double *x = l1c_malloc_double(m), *u = l1c_malloc_double(m), want = 0, lg = 0;
  for (int i = 0; i < m; i++) { x[i] = X[i]; u[i] = U[i]; want = want + U[i]; lg = lg + log(S1[i]) + log(S2[i]); }
  lg = lg + log(-FE);
  double f = _l1c_l1qc_f_eval(&P, x, u);
  vp_close(f, want - lg / TAU, "barrier functional");
  vp_close(P.f_val, want - lg / TAU, "stored functional value");
  aty(R, a);
  for (int i = 0; i < m; i++) {
    double i1 = 1 / S1[i], i2 = 1 / S2[i];
    gx[i] = (i1 - i2 - a[i] / FE) / TAU;
    gu[i] = 1 - (i1 + i2) / TAU;
    Huu[i] = (i1 * i1 + i2 * i2) / TAU;
    Hxu[i] = (i2 * i2 - i1 * i1) / TAU;
    DX[i] = vp_real(-5, 5);
  }
  cgr = vp_real(0, 3); cgit = vp_int(0, 1000); mx = 37; tolr = 0.125; vb = 0;
  l1c_CgParams par = {.verbose = vb, .max_iter = mx, .tol = tolr};
  l1c_CgResults res = {0};
  int rc = _l1c_l1qc_descent_dir(&P, par, &res);
  vp_check(solves == 1, "one linear solve");
  for (int i = 0; i < m; i++) {
    vp_close(P.gradf[i], gx[i], "gradient in x");
    vp_close(P.gradf[i + m], gu[i], "gradient in u");
    vp_close(P.dx[i], DX[i], "step is the solver's solution");
  }
  if (cgr > 0.5) { vp_check(rc != 0, "failed linear solve is reported"); vp_reach("failed"); }
  else {
    vp_check(rc == 0, "status");
    for (int i = 0; i < m; i++) vp_close(P.du[i] * Huu[i], -gu[i] - Hxu[i] * DX[i], "step in the bounds");
    vp_reach("solved");
  }
  vp_check(res.cgiter == cgit, "solver result is passed back");
  vp_same(res.cgres, cgr, "solver result is passed back");
  for (int i = 0; i < n; i++) vp_same(b[i], B[i], "measurements unchanged");
  for (int i = 0; i < m; i++) { vp_same(x[i], X[i], "point unchanged"); vp_same(u[i], U[i], "point unchanged"); }
  _l1c_l1qcProb_delete(&P);
  l1c_free_double(x); l1c_free_double(u); l1c_free_double(b);
  vp_check(vp_live() == 0, "nothing left allocated");
}
