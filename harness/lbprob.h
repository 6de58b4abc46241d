/* shared: a log-barrier problem at an arbitrary strictly feasible point, given by its slacks and residual */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "l1qc_newton.h"
#include "vp.h"
#define MAXN 40
int _l1c_l1qcProb_new(l1c_l1qcProb* Prb, l1c_int m, l1c_int n, double* b, l1c_L1qcOpts params, l1c_AxFuns ax_funs);
void _l1c_l1qcProb_delete(l1c_l1qcProb* Prb);
static int n, m;
static double A[MAXN][MAXN], B[MAXN], X[MAXN], U[MAXN], S1[MAXN], S2[MAXN], R[MAXN], EPS, TAU, FE;
static void ax(double* x, double* y) { for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < m; j++) s = s + A[i][j] * x[j]; y[i] = s; } }
static void aty(double* y, double* x) { for (int j = 0; j < m; j++) { double s = 0; for (int i = 0; i < n; i++) s = s + A[i][j] * y[i]; x[j] = s; } }
static void atax(double* x, double* z) { double t[MAXN]; ax(x, t); aty(t, z); }
static void none(double* x, double* z) { vp_check(0, "only the measurement operators are used"); }
static void mkA(int sym) {
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) A[i][j] = i + j < sym ? vp_real(-3, 3) : (double)((i * 5 + j * 3) % 7) - 2.5;
}
static l1c_AxFuns mkfuns(void) {
  l1c_AxFuns a = {0};
  a.n = n; a.m = m; a.p = m; a.norm_W = 1;
  a.Ax = ax; a.Aty = aty; a.AtAx = atax; a.Rx = none; a.Rty = none; a.Wz = none; a.Wtx = none; a.Mx = none; a.Mty = none;
  return a;
}
/* feas: 0 anything goes, 1 strictly feasible */
static double* mkpoint(double lo) {
  double *b = l1c_malloc_double(n), t[MAXN];
  for (int i = 0; i < m; i++) {
    int sy = m <= 8 || i == 0 || i == m / 2 || i == m - 1; /* long vectors: three symbolic entries */
    S1[i] = sy ? vp_real(lo, 20) : 1.0 + i % 5; S2[i] = sy ? vp_real(lo, 20) : 4.0 - i % 3;
    X[i] = (S2[i] - S1[i]) / 2; U[i] = (S1[i] + S2[i]) / 2;
  }
  ax(X, t);
  double q = 0;
  for (int i = 0; i < n; i++) { R[i] = n <= 4 || i < 2 || i == n - 1 ? vp_real(-5, 5) : 0.125 * (i % 3); B[i] = b[i] = t[i] - R[i]; q = q + R[i] * R[i]; }
  EPS = vp_real(0.1, 10);
  TAU = vp_real(0.5, 1000);
  FE = (q - EPS * EPS) / 2;
  return b;
}
