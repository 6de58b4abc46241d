/* C18: building blocks of the split-Bregman denoiser at every pixel, and the whole iteration against the documented one. */
#include <math.h>
#include <stdlib.h>
#include "bregman.h"
#include "TV.h"
#include "vp.h"
#define MAXP 1100
void breg_hess_eval(l1c_int n, l1c_int m, double* x, double* y, double mu, double lambda, double* dwork1, double* dwork2);
static int n, m, N;
static double *vec(void) { return l1c_malloc_double(N); }
static int symf(int i) { int s = vp_param("sym"); if (s >= 100) return i == s - 100; return s < 0 || (s > 0 && (i % s) == 0); }
static double* arb(double lo, double hi) { double* v = vec(); for (int i = 0; i < N; i++) v[i] = symf(i) ? vp_real(lo, hi) : ((i * 7 + 3) % 11 - 5) * 0.5; return v; }
static double shr(double x, double g) { double a = fabs(x) - g; if (!(a > 0)) return 0; return x > 0 ? a : -a; }
/* neighbours of pixel (i,j): sum and number */
static double nb(const double* u, int i, int j, int* c) {
  double s = 0;
  *c = 0;
  if (j > 0) { s = s + u[i * m + j - 1]; ++*c; }
  if (j < m - 1) { s = s + u[i * m + j + 1]; ++*c; }
  if (i > 0) { s = s + u[(i - 1) * m + j]; ++*c; }
  if (i < n - 1) { s = s + u[(i + 1) * m + j]; ++*c; }
  return s;
}
static void gs(double* u, const double* rhs, double mu, double la) {
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
    int c;
    double s = nb(u, i, j, &c);
    u[i * m + j] = (rhs[i * m + j] + la * s) / (mu + c * la);
  }
}
/* y = a*D^T z added, d = D u */
static void dt(int hor, double a, const double* z, double* y) {
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
    if (!(hor ? j < m - 1 : i < n - 1)) continue;
    int k = i * m + j, q = hor ? k + 1 : k + m;
    y[q] = y[q] + a * z[k]; y[k] = y[k] - a * z[k];
  }
}
static double df(int hor, const double* u, int k) {
  int i = k / m, j = k % m;
  if (hor) return j < m - 1 ? u[k + 1] - u[k] : 0.0;
  return i < n - 1 ? u[k + m] - u[k] : 0.0;
}
static void rhsref(const double* f, const double* dx, const double* bx, const double* dy, const double* by, double mu, double la, double* r) {
  double t[MAXP];
  for (int i = 0; i < N; i++) r[i] = mu * f[i];
  for (int i = 0; i < N; i++) t[i] = dx[i] - bx[i];
  dt(1, la, t, r);
  for (int i = 0; i < N; i++) t[i] = dy[i] - by[i];
  dt(0, la, t, r);
}
static void save(const double* v, double* o) { for (int i = 0; i < N; i++) o[i] = v[i]; }
static void cmp(const double* a, const double* b, const char* l) { for (int i = 0; i < N; i++) vp_close(a[i], b[i], l); }
static void kept(const double* a, const double* b) { for (int i = 0; i < N; i++) vp_same(a[i], b[i], "inputs unchanged"); }

/* the method as documented, on concrete or symbolic data; returns rounds done */
static double lev[8]; /* relative change of each round */
static int method(const double* f, double* u, double mu, double tol, int maxit, int sweeps, int* margin) {
  double dx[MAXP] = {0}, dy[MAXP] = {0}, bx[MAXP] = {0}, by[MAXP] = {0}, r[MAXP], old[MAXP] = {0}, la = 2 * mu;
  save(f, u);
  for (int k = 0; k < maxit; k++) {
    double num = 0, den = 0;
    rhsref(f, dx, bx, dy, by, mu, la, r);
    for (int q = 0; q < sweeps; q++) gs(u, r, mu, la);
    for (int i = 0; i < N; i++) {
      double tx = df(1, u, i) + bx[i], ty = df(0, u, i) + by[i];
      dx[i] = shr(tx, 1 / la); dy[i] = shr(ty, 1 / la);
      bx[i] = tx - dx[i]; by[i] = ty - dy[i];
      num = num + (u[i] - old[i]) * (u[i] - old[i]); den = den + u[i] * u[i];
      old[i] = u[i];
    }
    if (margin) {
      double e = sqrt(num) / sqrt(den);
      vp_assume(!(fabs(e - tol) <= 1e-9)); /* not within rounding of the threshold */
      if (e < tol) { *margin = k + 1; return k + 1; }
    }
  }
  return maxit;
}
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m"); N = n * m;
  int what = vp_param("what");
  BregFuncs bf = breg_get_functions();
  double sv[6][MAXP], ex[MAXP];
  vp_set_threads(1);
  if (what == 0) { /* soft threshold */
    double *x = vec(), *d = vec(), g = vp_real(0, 4);
    for (int i = 0; i < N; i++) { x[i] = symf(i) ? vp_real(-5, 5) : ((i * 7 + 3) % 11 - 5) * 0.5; d[i] = 99; }
    save(x, sv[0]);
    bf.breg_shrink1(N, x, d, g);
    for (int i = 0; i < N; i++) ex[i] = shr(sv[0][i], g);
    cmp(d, ex, "soft threshold"); kept(x, sv[0]);
  } else if (what == 1) {
    double *x = arb(-5, 5), *y = arb(-5, 5), *z = vec();
    save(x, sv[0]); save(y, sv[1]);
    bf.breg_mxpy_z(N, x, y, z);
    for (int i = 0; i < N; i++) ex[i] = y[i] - x[i];
    cmp(z, ex, "y - x"); kept(x, sv[0]); kept(y, sv[1]);
  } else if (what == 2) { /* one Gauss-Seidel sweep */
    double mu = vp_param("coef") ? vp_real(0.1, 10) : 1.25, la = vp_param("coef") == 2 ? 2 * mu : vp_param("coef") ? vp_real(0.1, 10) : 2.5;
    double *u = arb(-5, 5), *rhs = arb(-5, 5);
    save(u, ex); save(rhs, sv[0]);
    bf.breg_anis_guass_seidel(n, m, u, rhs, mu, la);
    gs(ex, sv[0], mu, la);
    cmp(u, ex, "Gauss-Seidel sweep"); kept(rhs, sv[0]);
  } else if (what == 3) { /* right-hand side */
    double mu = vp_real(0.1, 10), la = vp_real(0.1, 10);
    double *f = arb(-5, 5), *dx = arb(-5, 5), *bx = arb(-5, 5), *dy = arb(-5, 5), *by = arb(-5, 5), *r = vec(), *w1 = vec(), *w2 = vec();
    save(f, sv[0]); save(dx, sv[1]); save(bx, sv[2]); save(dy, sv[3]); save(by, sv[4]);
    bf.breg_anis_rhs(n, m, f, dx, bx, dy, by, r, mu, la, w1, w2);
    rhsref(sv[0], sv[1], sv[2], sv[3], sv[4], mu, la, ex);
    cmp(r, ex, "right-hand side");
    kept(f, sv[0]); kept(dx, sv[1]); kept(bx, sv[2]); kept(dy, sv[3]); kept(by, sv[4]);
  } else if (what == 4) { /* inverse diagonal */
    double mu = vp_real(0.1, 10), la = vp_real(0.1, 10), *D = vec();
    bf.hess_inv_diag(n, m, mu, la, D);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { int c; nb(D, i, j, &c); ex[i * m + j] = 1 / (mu + c * la); }
    cmp(D, ex, "inverse diagonal");
  } else if (what == 5) { /* Jacobi sweep */
    double la = vp_real(0.1, 10), *u = arb(-5, 5), *rhs = arb(-5, 5), *D = arb(-5, 5), *w = vec();
    save(u, sv[0]); save(rhs, sv[1]); save(D, sv[2]);
    bf.breg_anis_jacobi(n, m, u, w, rhs, D, la);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { int c; ex[i * m + j] = sv[2][i * m + j] * (sv[1][i * m + j] + la * nb(sv[0], i, j, &c)); }
    cmp(u, ex, "Jacobi sweep"); kept(rhs, sv[1]); kept(D, sv[2]);
  } else if (what == 6) { /* Hessian product */
    double mu = vp_real(0.1, 10), la = vp_real(0.1, 10), *x = arb(-5, 5), *y = vec(), *w1 = vec(), *w2 = vec();
    save(x, sv[0]);
    breg_hess_eval(n, m, x, y, mu, la, w1, w2);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { int c; double s = nb(sv[0], i, j, &c); ex[i * m + j] = (mu + c * la) * sv[0][i * m + j] - la * s; }
    cmp(y, ex, "Hessian product"); kept(x, sv[0]);
  } else { /* the whole denoiser */
    int pat = vp_param("pat"), maxit = vp_param("maxit"), sweeps = vp_param("sweeps"), symtol = vp_param("symtol"), symmu = vp_param("symmu"), stop = 0;
    double *f = vec(), *u = vec(), dl = vp_paramd("delta");
    double mu = symmu ? vp_real(vp_paramd("mulo"), vp_paramd("muhi")) : vp_paramd("mu"), tol = symtol ? vp_real(1e-6, 2.0) : vp_paramd("tol");
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      int k = i * m + j;
      f[k] = pat == 0 ? 1.0 : pat == 1 ? 20.0 * i + 7.0 * j : pat == 2 ? (j > m / 2 ? 30.0 : 2.0) : pat == 3 ? (i > n / 2 ? -30.0 : 2.0) + (j > 0 ? 9.0 : 0) : ((k * 7 + 3) % 11 - 5) * 0.75;
      if (pat != 1 && pat != 4) f[k] = f[k] + 0.02 * i + 0.03125 * j; /* signs of all differences known */
      if (symf(k)) f[k] = f[k] + vp_real(-dl, dl);
      u[k] = 77;
    }
    save(f, sv[0]);
    int live = vp_live();
    int st = l1c_breg_anistropic_TV(n, m, u, f, mu, tol, maxit, sweeps);
    vp_check(st == 0, "status");
    vp_check(vp_live() == live, "working memory released");
    method(sv[0], ex, mu, tol, maxit, sweeps, vp_param("usetol") ? &stop : NULL);
    cmp(u, ex, "denoised image");
    kept(f, sv[0]);
    if (stop) vp_reach("converged");
  }
  vp_reach("done");
}
