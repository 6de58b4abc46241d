/* Native side of the harness API: values come from a replay file. */
#define _GNU_SOURCE
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <omp.h>
#include "vp.h"

void vp_main(void);
static struct { char kind; double d; long i; } in[100000];
static int nin, pos;
static struct { char name[64]; char val[64]; } par[256];
static int npar;
static double tolscale = 0.25;
static double deftol = 1e-7;
static int verbose;

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void __real_free(void*);
extern int __real_posix_memalign(void**, size_t, size_t);

static void out(const char* s) { (void)!write(2, s, strlen(s)); }
static void fail(const char* what, const char* label, double a, double b) {
  char buf[600];
  snprintf(buf, sizeof buf, "VPFAIL %s: %s (%.17g vs %.17g)\n", what, label, a, b);
  out(buf);
  _exit(77);
}
static double next_real(void) {
  if (pos >= nin || in[pos].kind != 'r') { out("VPDESYNC real\n"); _exit(79); }
  return in[pos++].d;
}
static int next_int(void) {
  if (pos >= nin || in[pos].kind == 'r') { out("VPDESYNC int\n"); _exit(79); }
  return (int)in[pos++].i;
}
double vp_real(double lo, double hi) { double v = next_real(); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int vp_int(int lo, int hi) { (void)lo; (void)hi; return next_int(); }
int vp_pick(int lo, int hi) { (void)lo; (void)hi; return next_int(); }
int vp_fork(int x) { return x; }
static const char* getpar(const char* n) {
  for (int i = 0; i < npar; i++) if (!strcmp(par[i].name, n)) return par[i].val;
  out("VPDESYNC param\n"); _exit(79);
}
int vp_param(const char* n) { return atoi(getpar(n)); }
double vp_paramd(const char* n) { return atof(getpar(n)); }
void vp_assume(int c) { if (!c) { out("VPASSUME false\n"); _exit(78); } }
void vp_check(int c, const char* l) { if (!c) fail("check", l, 0, 1); }
void vp_close_tol(double a, double b, double tol, const char* l) {
  if (a == b || (isnan(a) && isnan(b))) return;
  double s = fabs(b) > 1 ? fabs(b) * 1e-9 : 0;
  if (!(fabs(a - b) <= tolscale * tol + s)) fail("close", l, a, b);
}
void vp_close(double a, double b, const char* l) { vp_close_tol(a, b, deftol, l); }
void vp_le(double a, double b, const char* l) {
  if (!(a <= b + tolscale * deftol + fabs(b) * 1e-9)) fail("le", l, a, b);
}
void vp_same(double a, double b, const char* l) {
  if (a == b || (isnan(a) && isnan(b))) return;
  if (fabs(a - b) <= 1e-11 * (fabs(a) + fabs(b))) return; /* rounding-level difference */
  fail("same", l, a, b);
}
void vp_reach(const char* l) { if (verbose) { out("VPREACH "); out(l); out("\n"); } }
void vp_end(void) { out("VPOK\n"); _exit(0); }
int vp_symbolic(void) { return 0; }
int vp_is_nan(double x) { return isnan(x); }
int vp_is_finite(double x) { return isfinite(x); }
double vp_deriv(double fx, double x) { (void)fx; (void)x; return 0; }
void vp_trace(const char* l, double v) { fprintf(stderr, "TRACE %s %.17g\n", l, v); }
void vp_tracei(const char* l, int v) { fprintf(stderr, "TRACE %s %d\n", l, v); }
void vp_set_threads(int n) { omp_set_num_threads(n); }

/* ---- allocation control (calls from the library and harness are wrapped at link time) */
static int fault, nalloc, fired;
static struct { void* p; size_t n; int live; } blk[200000];
static int nblk;
void vp_fault_arm(int k) { fault = k; nalloc = 0; }
int vp_fault_fired(void) { return fired; }
int vp_alloc_count(void) { return nalloc; }
int vp_live(void) { int c = 0; for (int i = 0; i < nblk; i++) c += blk[i].live; return c; }
static int should_fail(void) {
  nalloc++;
  if (fault && nalloc == fault) { fired = 1; return 1; }
  return 0;
}
static void* track(void* p, size_t n) {
  if (p && nblk < 200000) { blk[nblk].p = p; blk[nblk].n = n; blk[nblk].live = 1; nblk++; }
  return p;
}
static int untrack(void* p) {
  for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p && blk[i].live) { blk[i].live = 0; return 1; }
  return 0;
}
void* __wrap_malloc(size_t n) {
  if (should_fail() || n > ((size_t)1 << 40)) return NULL;
  void* p = __real_malloc(n);
  if (p) if (!getenv("VP_NOFILL")) memset(p, 0xFF, n < (1u << 26) ? n : (1u << 26));
  return track(p, n);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (should_fail() || (b && a > ((size_t)1 << 40) / b)) return NULL;
  return track(__real_calloc(a, b), a * b);
}
int __wrap_posix_memalign(void** pp, size_t al, size_t n) {
  if (should_fail() || n > ((size_t)1 << 40)) return 12;
  void* p = NULL;
  int r = __real_posix_memalign(&p, al, n);
  if (r) return r;
  if (!getenv("VP_NOFILL")) memset(p, 0xFF, n < (1u << 26) ? n : (1u << 26));
  *pp = track(p, n);
  return 0;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  void* p = NULL;
  if (should_fail()) return NULL;
  if (__real_posix_memalign(&p, al, n)) return NULL;
  if (!getenv("VP_NOFILL")) memset(p, 0xFF, n < (1u << 26) ? n : (1u << 26));
  return track(p, n);
}
void __wrap_free(void* p) {
  if (!p) return;
  if (!untrack(p)) { out("VPFAIL memory: free of a block that is not live\n"); _exit(77); }
  __real_free(p);
}
int vp_writable(const void* p, long n) {
  const char* c = p;
  for (int i = 0; i < nblk; i++)
    if (blk[i].live && c >= (char*)blk[i].p && c + n <= (char*)blk[i].p + blk[i].n) return 1;
  return 0;
}
int vp_aligned(const void* p, int n) { return ((uintptr_t)p) % (unsigned)n == 0; }
void* vp_assume_aligned(const void* p, size_t a, ...) {
  if (((uintptr_t)p) % a) { out("VPFAIL alignment: pointer assumed aligned is not\n"); _exit(77); }
  return (void*)p;
}
/* ---- plans */
typedef void* plan_t;
#define NPLAN 4096
static struct { plan_t p; int live, n, dest; double *i, *o; } plans[NPLAN];
static int nplans;
/* touch every element a library routine is about to use, so that the sanitizers see the access */
static void rd(const double* x, long n, long inc) {
  volatile double t;
  if (inc < 0) x += (1 - n) * inc;
  for (long k = 0; k < n; k++) t = ((const volatile double*)x)[k * inc];
  (void)t;
}
static void wr(double* x, long n, long inc) {
  if (inc < 0) x += (1 - n) * inc;
  for (long k = 0; k < n; k++) ((volatile double*)x)[k * inc] = ((volatile double*)x)[k * inc];
}
extern plan_t __real_fftw_plan_r2r_1d(int, double*, double*, int, unsigned);
extern plan_t __real_fftw_plan_r2r_2d(int, int, double*, double*, int, int, unsigned);
extern plan_t __real_fftw_plan_r2r(int, const int*, double*, double*, const int*, unsigned);
extern void __real_fftw_execute_r2r(plan_t, double*, double*);
extern void __real_fftw_destroy_plan(plan_t);
#define EST (1U << 6)
#define WISDOM_ONLY (1U << 21)
/* planned with FFTW_ESTIMATE for speed; a measuring planner overwrites its arrays (in practice with zeros) */
static plan_t ptrack(plan_t p, long n, double* i, double* o, unsigned f) {
  if (p && !(f & (EST | WISDOM_ONLY))) for (long k = 0; k < n; k++) i[k] = o[k] = 0;
  if (p && nplans < NPLAN) {
    plans[nplans].p = p; plans[nplans].live = 1; plans[nplans].n = (int)n; plans[nplans].i = i; plans[nplans].o = o; plans[nplans].dest = (f & 1) && i != o;
    nplans++; track(p, 1);
  }
  return p;
}
plan_t __wrap_fftw_plan_r2r_1d(int n, double* i, double* o, int k, unsigned f) {
  if (should_fail()) return NULL;
  return ptrack(__real_fftw_plan_r2r_1d(n, i, o, k, EST), n, i, o, f);
}
plan_t __wrap_fftw_plan_r2r_2d(int n0, int n1, double* i, double* o, int k0, int k1, unsigned f) {
  if (should_fail()) return NULL;
  return ptrack(__real_fftw_plan_r2r_2d(n0, n1, i, o, k0, k1, EST), (long)n0 * n1, i, o, f);
}
plan_t __wrap_fftw_plan_r2r(int r, const int* n, double* i, double* o, const int* k, unsigned f) {
  long t = 1;
  for (int a = 0; a < r; a++) t *= n[a];
  if (should_fail()) return NULL;
  return ptrack(__real_fftw_plan_r2r(r, n, i, o, k, EST), t, i, o, f);
}
static void runplan(plan_t p, double* i, double* o, int own) {
  for (int q = nplans - 1; q >= 0; q--)
    if (plans[q].p == p && plans[q].live) {
      if (own) { i = plans[q].i; o = plans[q].o; }
      else if (((uintptr_t)i ^ (uintptr_t)plans[q].i) & 15 || ((uintptr_t)o ^ (uintptr_t)plans[q].o) & 15) { out("VPFAIL alignment: fftw_execute_r2r: array alignment differs from the plan's\n"); _exit(77); }
      else if ((i == o) != (plans[q].i == plans[q].o)) { out("VPFAIL check: fftw_execute_r2r: in-place-ness differs from the plan\n"); _exit(77); }
      rd(i, plans[q].n, 1); wr(o, plans[q].n, 1);
      __real_fftw_execute_r2r(p, i, o);
      if (plans[q].dest) for (int k = 0; k < plans[q].n; k++) i[k] = 0.0 / 0.0; /* FFTW_DESTROY_INPUT */
      return;
    }
  out("VPFAIL memory: fftw_execute on a dead or invalid plan\n");
  _exit(77);
}
void __wrap_fftw_execute_r2r(plan_t p, double* i, double* o) { runplan(p, i, o, 0); }
void __wrap_fftw_execute(plan_t p) { runplan(p, NULL, NULL, 1); }
/* ---- BLAS: touch, then the real routine */
#define W(r, f, args, call, ...) extern r __real_##f args; r __wrap_##f args { __VA_ARGS__; return __real_##f call; }
W(double, cblas_ddot, (int n, const double* x, int ix, const double* y, int iy), (n, x, ix, y, iy), rd(x, n, ix); rd(y, n, iy))
W(double, cblas_dnrm2, (int n, const double* x, int ix), (n, x, ix), rd(x, n, ix))
W(double, cblas_dasum, (int n, const double* x, int ix), (n, x, ix), rd(x, n, ix))
W(size_t, cblas_idamax, (int n, const double* x, int ix), (n, x, ix), rd(x, n, ix))
W(void, cblas_dcopy, (int n, const double* x, int ix, double* y, int iy), (n, x, ix, y, iy), rd(x, n, ix); wr(y, n, iy))
W(void, cblas_dswap, (int n, double* x, int ix, double* y, int iy), (n, x, ix, y, iy), wr(x, n, ix); wr(y, n, iy))
W(void, cblas_dscal, (int n, double a, double* x, int ix), (n, a, x, ix), wr(x, n, ix))
W(void, cblas_daxpy, (int n, double a, const double* x, int ix, double* y, int iy), (n, a, x, ix, y, iy), rd(x, n, ix); wr(y, n, iy))
W(void, cblas_daxpby, (int n, double a, const double* x, int ix, double b, double* y, int iy), (n, a, x, ix, b, y, iy), rd(x, n, ix); wr(y, n, iy))
static void gv(int order, int tr, int m, int n, const double* A, int lda, const double* x, int ix, double* y, int iy) {
  int row = order == 101, lx = tr == 111 ? n : m, ly = tr == 111 ? m : n;
  if (lda < (row ? n : m) || lda < 1) { out("VPFAIL check: cblas_dgemv: leading dimension too small\n"); _exit(77); }
  for (int k = 0; k < (row ? m : n); k++) rd(A + (long)k * lda, row ? n : m, 1);
  rd(x, lx, ix); wr(y, ly, iy);
}
W(void, cblas_dgemv, (int o, int t, int m, int n, double al, const double* A, int lda, const double* x, int ix, double be, double* y, int iy), (o, t, m, n, al, A, lda, x, ix, be, y, iy), gv(o, t, m, n, A, lda, x, ix, y, iy))
void __wrap_fftw_destroy_plan(plan_t p) {
  if (!p) return;
  for (int i = nplans - 1; i >= 0; i--)
    if (plans[i].p == p && plans[i].live) { plans[i].live = 0; untrack(p); __real_fftw_destroy_plan(p); return; }
  out("VPFAIL memory: fftw_destroy_plan on a dead or invalid plan\n");
  _exit(77);
}
/* ---- output counting */
static int outcount, errcount;
int vp_output_count(void) { return outcount; }
int vp_stderr_count(void) { return errcount; }
int __wrap_printf(const char* f, ...) { (void)f; outcount++; return 1; }
int __wrap_vprintf(const char* f, va_list a) { (void)f; (void)a; outcount++; return 1; }
int __wrap_puts(const char* s) { (void)s; outcount++; return 1; }
int __wrap_putchar(int c) { (void)c; outcount++; return c; }
int __wrap_fprintf(FILE* f, const char* m, ...) { (void)m; if (f == stdout) outcount++; else errcount++; return 1; }
int __wrap_fputs(const char* s, FILE* f) { (void)s; if (f == stdout) outcount++; else errcount++; return 1; }
int __wrap_fputc(int c, FILE* f) { if (f == stdout) outcount++; else errcount++; return c; }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { (void)p; (void)s; if (f == stdout) outcount++; else errcount++; return n; }
int __wrap_fflush(FILE* f) { (void)f; return 0; }

int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  char kind[8], name[128], val[128];
  if (!f) return 80;
  while (fscanf(f, "%7s %127s %127s", kind, name, val) == 3) {
    if (kind[0] == 'P') {
      snprintf(par[npar].name, 64, "%.63s", name);
      snprintf(par[npar].val, 64, "%.63s", val);
      if (!strcmp(name, "vp_race_i")) setenv("VP_RACE_I", val, 1);
      if (!strcmp(name, "vp_race_j")) setenv("VP_RACE_J", val, 1);
      npar++;
    } else if (kind[0] == 'T') deftol = atof(val);
    else {
      in[nin].kind = kind[0];
      in[nin].d = atof(val);
      in[nin].i = strtol(val, 0, 10);
      nin++;
    }
  }
  fclose(f);
  verbose = argc > 2;
  alarm(25);
  vp_main();
  out("VPOK\n");
  _exit(0);
}
