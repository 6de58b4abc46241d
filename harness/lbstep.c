/* C13: maximum step.  The point and the direction are given by their slacks, slack rates, residual r, its rate v = A dx and
   the step rho at which |r + rho v| reaches epsilon; every strictly feasible point and every direction arises this way. */
#include "lbprob.h"
static double D1[MAXN], D2[MAXN], DX[MAXN], DU[MAXN], V[MAXN], AX[MAXN], rho;
static int phase;
static void mockax(double* x, double* y) {
  for (int i = 0; i < m; i++) vp_same(x[i], phase ? DX[i] : X[i], "operator is applied to the point, then the direction");
  for (int i = 0; i < n; i++) y[i] = phase ? V[i] : AX[i];
}
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m");
  int dir = vp_param("dir"); /* 0 zero direction, 1 general, 2 the residual does not move */
  double *b = l1c_malloc_double(n), vv = 0, rv = 0, rr = 0, ee = 0;
  for (int i = 0; i < m; i++) {
    int at = vp_param("at"), sy = at < 0 || at == i; /* at >= 0: only this entry is symbolic */
    S1[i] = sy ? vp_real(1e-10, 20) : 2 + i % 9; S2[i] = sy ? vp_real(1e-10, 20) : 9 - i % 8;
    X[i] = (S2[i] - S1[i]) / 2; U[i] = (S1[i] + S2[i]) / 2;
    D1[i] = dir == 0 ? 0.0 : sy ? vp_real(-20, 20) : 0.5; D2[i] = dir == 0 ? 0.0 : sy ? vp_real(-20, 20) : -2 - (i % 8) * 0.25;
    DX[i] = (D2[i] - D1[i]) / 2; DU[i] = (D1[i] + D2[i]) / 2;
  }
  rho = dir == 1 ? vp_real(0.01, 50) : 1.0;
  for (int i = 0; i < n; i++) {
    int sr = n <= 3 || i < 2; /* long residuals: two symbolic entries */
    R[i] = sr ? vp_real(-5, 5) : 0.25 * (i % 3); V[i] = dir != 1 ? 0.0 : sr ? vp_real(-5, 5) : 0.5 - 0.25 * (i % 2);
    b[i] = B[i] = (double)(i * 3) - 1.5; AX[i] = B[i] + R[i];
    rr = rr + R[i] * R[i]; rv = rv + R[i] * V[i]; vv = vv + V[i] * V[i];
    double e = R[i] + rho * V[i];
    ee = ee + e * e;
  }
  if (dir == 1) {
    EPS = sqrt(ee);
    vp_assume(vv >= 0.0001);
    vp_assume(2 * rv + rho * vv >= 0.001); /* strictly feasible: |r| < epsilon */
  } else {
    EPS = vp_real(0.1, 10);
    vp_assume(rr - EPS * EPS < -0.01);
  }
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.tau = 10;
  l1c_AxFuns fu = mkfuns();
  fu.Ax = mockax;
  l1c_l1qcProb P;
  if (_l1c_l1qcProb_new(&P, m, n, b, o, fu)) vp_end();
  double *x = l1c_malloc_double(m), *u = l1c_malloc_double(m);
  for (int i = 0; i < m; i++) { x[i] = X[i]; u[i] = U[i]; }
  _l1c_l1qc_f_eval(&P, x, u);
  for (int i = 0; i < m; i++) { P.dx[i] = DX[i]; P.du[i] = DU[i]; }
  phase = 1;
  double t = _l1c_l1qc_find_max_step(&P);
  double w = 1;
  int cone = 0;
  for (int i = 0; i < m; i++) {
    if (D1[i] < 0) { double d = S1[i] / -D1[i]; if (d < w) w = d; }
    if (D2[i] < 0) { double d = S2[i] / -D2[i]; if (d < w) w = d; }
  }
  if (dir == 1 && rho < w) { w = rho; cone = 1; vp_reach("cone binds"); }
  if (w == 1) vp_reach("full step");
  vp_close(t, 0.99 * w, "0.99 of the distance to the first constraint");
  vp_check(t > 0, "positive step");
  vp_check(t <= 0.99, "at most 0.99");
  if (dir == 1) {
    vp_check(t < rho, "quadratic constraint is not reached");
    if (vp_param("strict")) vp_check(rr + 2 * t * rv + t * t * vv < ee, "quadratic constraint stays satisfied");
  }
  for (int i = 0; i < m; i++) {
    vp_check(S1[i] + t * D1[i] > 0, "first slack stays positive");
    vp_check(S2[i] + t * D2[i] > 0, "second slack stays positive");
    vp_same(P.dx[i], DX[i], "direction unchanged"); vp_same(P.du[i], DU[i], "direction unchanged");
    vp_same(x[i], X[i], "point unchanged"); vp_same(u[i], U[i], "point unchanged");
  }
  vp_reach("done");
  _l1c_l1qcProb_delete(&P);
  l1c_free_double(x); l1c_free_double(u); l1c_free_double(b);
}
