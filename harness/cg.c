/* C10: conjugate gradients.
   op 0: every application of the operator returns a fresh arbitrary vector with positive curvature (any operator at all):
         the recurrences, the stopping rule, the best-iterate bookkeeping and the counts are compared with the method's definition.
   op 1: symmetric positive-definite matrix with symbolic entries; op 2: fixed matrix, op 3: everything fixed but the tolerance and the iteration limit.  There the reported residual is compared with
         the true residual of the returned vector. */
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "vp.h"
#define MAXN 40
#define MAXC 24
static int N, op, calls;
static double P[MAXC][MAXN], Q[MAXC][MAXN], A[MAXN][MAXN];
static int tag;
static double dot(int n, const double* a, const double* b) { double s = 0; for (int i = 0; i < n; i++) s = s + a[i] * b[i]; return s; }
static void apply(l1c_int n, double* p, double* q, void* d) {
  vp_check(n == N && d == &tag, "operator gets its size and data");
  vp_check(calls < MAXC, "operator applications");
  for (int i = 0; i < N; i++) P[calls][i] = p[i];
  for (int i = 0; i < N; i++) {
    if (op == 0) q[i] = vp_real(-8, 8);
    else { double s = 0; for (int j = 0; j < N; j++) s = s + A[i][j] * p[j]; q[i] = s; }
    Q[calls][i] = q[i];
  }
  if (op == 0 && calls > 0) vp_assume(dot(N, P[calls], Q[calls]) >= 0.125);
  calls++;
}
void vp_main(void) {
  int pre = vp_param("pre"), maxit = vp_param("maxit"), x0zero = vp_param("x0zero"), verbose = vp_param("verbose"), tolk = vp_param("tolk");
  N = vp_param("n"); op = vp_param("op");
  double *x = l1c_malloc_double(N), *b = l1c_malloc_double(N), *md = l1c_malloc_double(N), **w = l1c_malloc_double_2D(5, N);
  double x0[MAXN], b0[MAXN], m0[MAXN];
  int sym = vp_param("sym"); /* how many entries of b, x0 and md are arbitrary */
  for (int i = 0; i < N; i++) {
    b0[i] = b[i] = i < sym ? vp_real(-4, 4) : (i % 3) - 1.25;
    x0[i] = x[i] = x0zero ? 0.0 : i < sym && op != 2 ? vp_real(-4, 4) : 0.5 - (i % 2);
    m0[i] = md[i] = pre ? (i < sym && op != 2 ? vp_real(0.0625, 4) : 0.25 + 0.5 * i) : 1.0;
  }
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) A[i][j] = i == j ? 3.0 + i * (op == 3 ? 7 : 1) : (i - j == 1 || j - i == 1) ? -1.0 : 0.5;
  if (op == 1) {
    for (int i = 0; i < N; i++) A[i][i] = vp_real(2, 5);
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) A[i][j] = A[j][i] = vp_real(-1, 1) / N;
  }
  vp_assume(dot(N, b, b) >= 0.01);
  l1c_CgParams par;
  par.verbose = verbose;
  if (op == 3) maxit = vp_int(0, maxit);
  par.max_iter = maxit;
  par.tol = tolk == 0 ? 0.0 : tolk == 1 ? vp_real(1e-9, 0.5) : tolk == 3 ? 0.04 : 1e9; /* never, maybe, at once */
  l1c_CgResults res;
  res.cgres = -1; res.cgiter = -1;
  int rc;
  if (pre) rc = l1c_cgsolve_diag_precond(N, x, b, md, w, apply, &tag, &res, par);
  else rc = l1c_cgsolve(N, x, b, w, apply, &tag, &res, par);
  vp_check(rc == 0, "status");
  vp_check(calls >= 1, "initial residual computed");
  for (int i = 0; i < N; i++) { vp_same(b[i], b0[i], "right-hand side unchanged"); vp_same(md[i], m0[i], "preconditioner unchanged"); }
  vp_check(res.cgiter == calls - 1, "reported iterations are those performed");
  vp_check(res.cgiter <= maxit, "iteration limit");
  /* the method, replayed on the recorded operator applications */
  double r[MAXN], p[MAXN], z[MAXN], xx[MAXN], bx[MAXN], nb = dot(N, b0, b0), best, delta, first;
  for (int i = 0; i < N; i++) {
    vp_same(P[0][i], x0[i], "operator first applied to the guess");
    r[i] = b0[i] - Q[0][i]; z[i] = m0[i] * r[i]; p[i] = z[i]; xx[i] = x0[i]; bx[i] = x0[i];
  }
  delta = dot(N, r, z);
  first = best = sqrt(dot(N, r, r) / nb);
  int stopped = 0;
  for (int k = 1; k < calls; k++) {
    vp_check(!stopped, "stops once the residual is below the tolerance");
    for (int i = 0; i < N; i++) vp_close(P[k][i], p[i], "search direction");
    double al = delta / dot(N, p, Q[k]), d2, rel;
    for (int i = 0; i < N; i++) { xx[i] = xx[i] + al * p[i]; r[i] = r[i] - al * Q[k][i]; z[i] = m0[i] * r[i]; }
    d2 = dot(N, r, z);
    for (int i = 0; i < N; i++) p[i] = z[i] + (d2 / delta) * p[i];
    delta = d2;
    rel = sqrt(dot(N, r, r) / nb);
    if (rel < best) { best = rel; for (int i = 0; i < N; i++) bx[i] = xx[i]; }
    if (rel < par.tol) stopped = 1;
  }
  if (!stopped) vp_check(calls == maxit + 1, "runs to the iteration limit otherwise");
  for (int i = 0; i < N; i++) vp_close(x[i], bx[i], "returned vector is the best iterate");
  vp_close(res.cgres, best, "reported residual");
  if (op) {
    double t[MAXN];
    for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s = s + A[i][j] * x[j]; t[i] = b0[i] - s; }
    vp_close(res.cgres * res.cgres * nb, dot(N, t, t), "reported residual is the true one");
  }
  vp_check(res.cgres <= first, "not worse than the starting guess");
  vp_reach(stopped ? "converged" : "limit");
  l1c_free_double(x); l1c_free_double(b); l1c_free_double(md); l1c_free_double_2D(5, w);
}
