/* C20: parallel regions of single kernels; vector lengths and image heights are symbolic. */
#include <math.h>
#include <stdlib.h>
#include "config.h"
#include "l1c.h"
#include "l1c_math.h"
#include "TV.h"
#include "bregman.h"
#include "l1qc_newton.h"
#include "vp.h"
enum { R_DX, R_DXT, R_DXTDX, R_DY, R_DYT, R_DYTDY, R_SHRINK, R_MXPY, R_MXPY_IN, R_AXPBY, R_INIT, R_MUL, R_AXPBYZ, R_AXPYZ, R_LOGSUM, R_HESS };
#define NMAX 4096
void vp_main(void) {
  int op = vp_param("op"), m = vp_param("m");
  BregFuncs bf = breg_get_functions();
  vp_set_threads(2);
  int n = vp_int(m > 0 ? 2 : 1, m > 0 ? NMAX / m : NMAX);
  if (m < 0) m = vp_int(2, 64);
  int N = op <= R_DYTDY ? n * m : n;
  vp_assume(N <= NMAX);
  double *x = l1c_malloc_double(NMAX), *y = l1c_malloc_double(NMAX), *z = l1c_malloc_double(NMAX);
  if (!vp_symbolic()) for (int i = 0; i < NMAX; i++) { x[i] = 1 + i % 5; y[i] = 2 - i % 3; z[i] = i; }
  switch (op) {
  case R_DX: l1c_Dx(n, m, 2.5, x, y); break;
  case R_DXT: l1c_DxT(n, m, 2.5, x, y); break;
  case R_DXTDX: l1c_DxTDx(n, m, 2.5, x, y); break;
  case R_DY: l1c_Dy(n, m, 2.5, x, y); break;
  case R_DYT: l1c_DyT(n, m, 2.5, x, y); break;
  case R_DYTDY: l1c_DyTDy(n, m, 2.5, x, y); break;
  case R_SHRINK: bf.breg_shrink1(N, x, y, 0.5); break;
  case R_MXPY: bf.breg_mxpy_z(N, x, y, z); break;
  case R_MXPY_IN: bf.breg_mxpy_z(N, x, y, y); break;
  case R_AXPBY: __l1c_daxpby(N, 2.0, x, 3.0, y); break;
  case R_INIT: l1c_init_vec(N, x, 2.0); break;
  case R_MUL: l1c_dxmuly_z(N, x, y, z); break;
  case R_AXPBYZ: l1c_daxpby_z(N, 2.0, x, 3.0, y, z); break;
  case R_AXPYZ: l1c_daxpy_z(N, 2.0, x, y, z); break;
  case R_LOGSUM: (void)l1c_dlogsum(N, 2.0, x); break;
  case R_HESS: {
    l1c_l1qcProb p = {0};
    double *a[8];
    for (int i = 0; i < 8; i++) { a[i] = l1c_malloc_double(2 * NMAX); if (!vp_symbolic()) for (int j = 0; j < 2 * NMAX; j++) a[i][j] = 1 + j % 3; }
    p.m = N; p.tau = 10; p.fe_val = -1; p.fu1 = a[0]; p.fu2 = a[1]; p.gradf = a[2]; p.w1p = a[3]; p.sig11 = a[4]; p.sig12 = a[5]; p.ntgu = a[6]; p.epsilon = 1;
    _l1c_l1qc_hess_grad(&p, y, a[7]);
    break;
  }
  }
  vp_reach("done");
}
