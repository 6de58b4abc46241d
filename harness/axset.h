/* Reference model of a transform set, straight from the documentation, and helpers to set the real one up. */
#ifndef AXSET_H
#define AXSET_H
#include <math.h>
#include <stdlib.h>
#include "l1c.h"
#include "vp.h"
enum { S_DCT1, S_DCT2, S_DCT, S_TV, S_MAT };
enum { O_MX, O_MTY, O_AX, O_ATY, O_ATAX, O_RX, O_RTY, O_WZ, O_WTX, NOPS };
typedef struct {
  int set, n, mrow, mcol, m, p;       /* p: stacked length for the TV set */
  int two_d, bp, tvv, tvh;
  double av, ah;
  int* idx;
  double* A;                          /* matrix set */
} Ref;

/* orthonormal DCT-II matrix entry C[k][j] */
static double dctC(int N, int k, int j) {
  double s = k == 0 ? sqrt(1.0 / N) : sqrt(2.0 / N);
  double c = cos(3.14159265358979323846 * (j + 0.5) * k / N);
  if (c < 1e-14 && c > -1e-14) c = 0.0;
  return s * c;
}
/* y = M x (inverse transform), x = M^T y when t */
static void refM(const Ref* r, int t, const double* x, double* y) {
  if (!r->two_d) {
    for (int i = 0; i < r->m; i++) {
      double s = 0;
      for (int k = 0; k < r->m; k++) s = s + (t ? dctC(r->m, i, k) : dctC(r->m, k, i)) * x[k];
      y[i] = s;
    }
    return;
  }
  double* w = malloc(r->m * sizeof(double));
  for (int a = 0; a < r->mrow; a++) /* along each row */
    for (int j = 0; j < r->mcol; j++) {
      double s = 0;
      for (int k = 0; k < r->mcol; k++) s = s + (t ? dctC(r->mcol, j, k) : dctC(r->mcol, k, j)) * x[a * r->mcol + k];
      w[a * r->mcol + j] = s;
    }
  for (int j = 0; j < r->mcol; j++) /* down each column */
    for (int a = 0; a < r->mrow; a++) {
      double s = 0;
      for (int k = 0; k < r->mrow; k++) s = s + (t ? dctC(r->mrow, a, k) : dctC(r->mrow, k, a)) * w[k * r->mcol + j];
      y[a * r->mcol + j] = s;
    }
  free(w);
}
static void refR(const Ref* r, const double* x, double* y) { for (int i = 0; i < r->n; i++) y[i] = x[r->idx[i]]; }
static void refRt(const Ref* r, const double* y, double* x) {
  for (int i = 0; i < r->m; i++) x[i] = 0.0;
  for (int i = 0; i < r->n; i++) x[r->idx[i]] = y[i];
}
/* forward difference along rows/columns, and its transpose added with weight a */
static void refD(const Ref* r, int hor, int t, double a, const double* z, double* y) {
  for (int i = 0; i < r->mrow; i++)
    for (int j = 0; j < r->mcol; j++) {
      int k = i * r->mcol + j, nx = hor ? k + 1 : k + r->mcol;
      if (!(hor ? j < r->mcol - 1 : i < r->mrow - 1)) continue;
      if (!t) y[k] = y[k] + a * (z[nx] - z[k]);
      else { y[nx] = y[nx] + a * z[k]; y[k] = y[k] - a * z[k]; }
    }
}
/* dictionary [M, av*Dy, ah*Dx] */
static void refW(const Ref* r, int t, const double* v, double* y) {
  int o = r->m;
  if (!t) {
    refM(r, 0, v, y);
    if (r->tvv) { refD(r, 0, 0, r->av, v + o, y); o += r->m; }
    if (r->tvh) refD(r, 1, 0, r->ah, v + o, y);
  } else {
    refM(r, 1, v, y);
    for (int i = r->m; i < r->p; i++) y[i] = 0.0;
    if (r->tvv) { refD(r, 0, 1, r->av, v, y + o); o += r->m; }
    if (r->tvh) refD(r, 1, 1, r->ah, v, y + o);
  }
}
static void copyv(int n, const double* x, double* y) { for (int i = 0; i < n; i++) y[i] = x[i]; }
/* input and output lengths of each operator */
static void dims(const Ref* r, int op, int* ni, int* no) {
  int synth = r->set == S_TV && r->bp == synthesis, ana = r->set == S_TV && r->bp == analysis;
  int M = synth ? r->p : r->m; /* columns of A */
  switch (op) {
  case O_MX: *ni = M; *no = r->m; break;
  case O_MTY: *ni = r->m; *no = M; break;
  case O_AX: *ni = M; *no = r->n; break;
  case O_ATY: *ni = r->n; *no = M; break;
  case O_ATAX: *ni = M; *no = M; break;
  case O_RX: *ni = r->m; *no = r->n; break;
  case O_RTY: *ni = r->n; *no = r->m; break;
  case O_WZ: *ni = ana ? r->p : r->m; *no = r->m; break;
  default: *ni = r->m; *no = ana ? r->p : r->m;
  }
}
static void refA(const Ref* r, const double* x, double* y) {
  if (r->set == S_MAT) {
    for (int i = 0; i < r->n; i++) {
      double s = 0;
      for (int j = 0; j < r->m; j++) s = s + r->A[i * r->m + j] * x[j];
      y[i] = s;
    }
    return;
  }
  if (r->set == S_TV && r->bp == analysis) { refR(r, x, y); return; }
  double* w = malloc(r->m * sizeof(double));
  if (r->set == S_TV) refW(r, 0, x, w); else refM(r, 0, x, w);
  refR(r, w, y);
  free(w);
}
static void refAt(const Ref* r, const double* y, double* x) {
  if (r->set == S_MAT) {
    for (int j = 0; j < r->m; j++) {
      double s = 0;
      for (int i = 0; i < r->n; i++) s = s + r->A[i * r->m + j] * y[i];
      x[j] = s;
    }
    return;
  }
  if (r->set == S_TV && r->bp == analysis) { refRt(r, y, x); return; }
  double* w = malloc(r->m * sizeof(double));
  refRt(r, y, w);
  if (r->set == S_TV) refW(r, 1, w, x); else refM(r, 1, w, x);
  free(w);
}
static void refop(const Ref* r, int op, const double* in, double* out) {
  int tv = r->set == S_TV, ana = tv && r->bp == analysis, mat = r->set == S_MAT;
  switch (op) {
  case O_MX: if (mat || ana) copyv(r->m, in, out); else if (tv) refW(r, 0, in, out); else refM(r, 0, in, out); break;
  case O_MTY: if (mat || ana) copyv(r->m, in, out); else if (tv) refW(r, 1, in, out); else refM(r, 1, in, out); break;
  case O_AX: refA(r, in, out); break;
  case O_ATY: refAt(r, in, out); break;
  case O_ATAX: {
    double* w = malloc(r->n * sizeof(double));
    refA(r, in, w);
    refAt(r, w, out);
    free(w);
    break;
  }
  case O_RX: if (mat) refA(r, in, out); else refR(r, in, out); break;
  case O_RTY: if (mat) refAt(r, in, out); else refRt(r, in, out); break;
  case O_WZ: if (ana) refW(r, 0, in, out); else copyv(r->m, in, out); break;
  default: if (ana) refW(r, 1, in, out); else copyv(r->m, in, out);
  }
}
static void realop(const l1c_AxFuns* f, int op, double* in, double* out) {
  switch (op) {
  case O_MX: f->Mx(in, out); break;
  case O_MTY: f->Mty(in, out); break;
  case O_AX: f->Ax(in, out); break;
  case O_ATY: f->Aty(in, out); break;
  case O_ATAX: f->AtAx(in, out); break;
  case O_RX: f->Rx(in, out); break;
  case O_RTY: f->Rty(in, out); break;
  case O_WZ: f->Wz(in, out); break;
  default: f->Wtx(in, out);
  }
}
/* run one operator on fresh arbitrary data; out starts with arbitrary old contents */
static void exercise(const Ref* r, const l1c_AxFuns* f, int op, int check) {
  int ni, no;
  dims(r, op, &ni, &no);
  double *in = l1c_malloc_double(ni), *out = l1c_malloc_double(no);
  double *in0 = malloc(ni * sizeof(double)), *exp = malloc(no * sizeof(double));
  for (int i = 0; i < ni; i++) in0[i] = in[i] = vp_real(-10, 10);
  for (int i = 0; i < no; i++) out[i] = vp_real(-10, 10);
  realop(f, op, in, out);
  if (check) {
    refop(r, op, in0, exp);
    for (int i = 0; i < no; i++) vp_close(out[i], exp[i], "operator equals its definition");
    for (int i = 0; i < ni; i++) vp_close(in[i], in0[i], "input preserved");
  }
  l1c_free_double(in);
  l1c_free_double(out);
  free(in0);
  free(exp);
}
/* sample positions: 0 arbitrary distinct, 1 fixed spread pattern, 2 all in reverse order, 3 arbitrary increasing */
static int* mkidx(int n, int m, int mode) {
  int* ix = malloc(n * sizeof(int));
  for (int i = 0; i < n; i++) {
    if (mode == 1) ix[i] = (i * 7 + 3) % m;
    else if (mode == 2) ix[i] = m - 1 - i;
    else {
      ix[i] = vp_fork(vp_int(0, m - 1));
      for (int j = 0; j < i; j++) vp_assume(mode == 3 ? ix[i] > ix[j] : ix[i] != ix[j]);
    }
  }
  if (mode == 1)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++)
        if (ix[i] == ix[j]) { ix[i] = (ix[i] + 1) % m; j = -1; }
  return ix;
}
static int setup(Ref* r, l1c_AxFuns* f, int mode) {
  switch (r->set) {
  case S_DCT1: return l1c_dct1_setup(r->n, r->m, r->idx, f);
  case S_DCT2: return l1c_dct2_setup(r->n, r->mrow, r->mcol, r->idx, f);
  case S_DCT: return l1c_setup_dct_transforms(r->n, r->mrow, r->mcol, mode, r->idx, f);
  case S_TV: return l1c_setup_dctTV_transforms(r->n, r->mrow, r->mcol, r->av, r->ah, mode, r->bp, r->idx, f);
  default: return l1c_setup_matrix_transforms(r->n, r->m, r->A, f);
  }
}
static void mkref(Ref* r, int set, int n, int mrow, int mcol, int mode, int bp, int tvv, int tvh, int idxmode) {
  r->set = set; r->n = n; r->mrow = mrow; r->mcol = mcol; r->m = mrow * mcol;
  r->bp = bp; r->tvv = tvv; r->tvh = tvh;
  r->av = tvv ? vp_real(0.01, 20) : 0.0;
  r->ah = tvh ? vp_real(0.01, 20) : 0.0;
  r->p = r->m * (1 + tvv + tvh);
  r->two_d = set == S_DCT2 || ((set == S_DCT || set == S_TV) && mrow > 1 && mcol > 1 && mode != dct1);
  r->A = NULL;
  r->idx = NULL;
  if (set == S_MAT) {
    r->A = malloc(n * r->m * sizeof(double));
    for (int i = 0; i < n * r->m; i++) r->A[i] = vp_real(-5, 5);
  } else r->idx = mkidx(n, r->m, idxmode);
}
static void rmref(Ref* r) { free(r->A); free(r->idx); }
static void check_sizes(const Ref* r, const l1c_AxFuns* f) {
  vp_check(f->n == r->n, "reported number of measurements");
  vp_check(f->q == r->m, "reported signal length");
  if (r->set == S_TV && r->bp == synthesis) {
    vp_check(f->m == r->p, "reported columns of A");
  } else {
    vp_check(f->m == r->m, "reported columns of A");
    vp_check(f->p == r->p, "reported columns of W");
  }
  vp_check(f->data == NULL, "data field is NULL");
  if (r->set == S_DCT1 || r->set == S_DCT2 || r->set == S_DCT) vp_same(f->norm_W, 1.0, "reported norm of the dictionary");
}
#endif
