/* C20: every parallel region met by whole solver runs and operators. */
#include <math.h>
#include <stdlib.h>
#include "config.h"
#include "l1c.h"
#include "l1c_math.h"
#include "bregman.h"
#include "l1qc_newton.h"
#include "axset.h"
enum { W_BREG, W_L1QC, W_NESTA, W_CG, W_PCG, W_OPS, W_L1QCDCT, W_BREGK };
static int N;
static void spd(l1c_int n, double* p, double* q, void* d) {
  for (int i = 0; i < n; i++) {
    double s = 0;
    for (int j = 0; j < n; j++) s = s + (i == j ? 3.0 + i * 7 : (i - j == 1 || j - i == 1) ? -1.0 : 0.5) * p[j];
    q[i] = s;
  }
}
void vp_main(void) {
  int what = vp_param("what"), n = vp_param("n"), r = vp_param("mrow"), c = vp_param("mcol"), set = vp_param("set"), mode = vp_param("mode"), bp = vp_param("bp");
  int tvv = vp_param("tvv"), tvh = vp_param("tvh");
  N = r * c;
  double *x = l1c_malloc_double(4 * N), *y = l1c_malloc_double(4 * N), *z = l1c_malloc_double(4 * N), **w = l1c_malloc_double_2D(5, 4 * N);
  for (int i = 0; i < 4 * N; i++) { x[i] = 0.25 + (i % 3) * 0.5; y[i] = (i % 4) - 1.25; z[i] = 1 + i % 5; }
  vp_set_threads(8);
  l1c_AxFuns f;
  Ref ref;
  if (what == W_NESTA || what == W_OPS || what == W_L1QC) {
    mkref(&ref, set, n, r, c, mode, bp, tvv, tvh, 1);
    if (tvv) ref.av = 0.75;
    if (tvh) ref.ah = 1.25;
    if (ref.A) for (int i = 0; i < n * N; i++) ref.A[i] = (i % 7) * 0.5 - 1;
    vp_check(setup(&ref, &f, mode) == 0, "setup succeeds");
  }
  if (what == W_BREG) {
    l1c_breg_anistropic_TV(r, c, x, y, 0.5, 0.0001, 2, 2);
  } else if (what == W_BREGK) {
    BregFuncs bf = breg_get_functions();
    for (int i = 0; i < 4 * N; i++) w[0][i] = 0.25;
    bf.breg_anis_jacobi(r, c, x, y, z, w[0], 0.75);
    for (int k = 0; k < 2; k++) bf.breg_anis_guass_seidel(r, c, x, y, 0.5, 0.25);
    for (int i = 0; i < 4 * N; i++) w[0][i] = w[1][i] = i % 3;
    bf.breg_anis_rhs(r, c, x, y, z, w[0], w[1], w[2], 0.5, 0.25, w[3], w[4]);
    bf.hess_inv_diag(r, c, 0.5, 0.25, z);
  } else if (what == W_L1QC) {
    l1c_L1qcOpts o = {0};
    f.Ax(x, y);
    for (int i = 0; i < n; i++) y[i] += i % 2 ? 0.02 : -0.03;
    o.epsilon = 0.5; o.mu = 10; o.newton_max_iter = 2; o.l1_tol = 0.001; o.newton_tol = 0.001; o.lbiter = 1; o.lbtol = 0.05; o.cg_tol = 0.001; o.cg_maxiter = 20;
    (void)l1c_l1qc_newton(f.m, x, n, y, o, f);
  } else if (what == W_L1QCDCT) {
    l1c_L1qcOpts o = {0};
    l1c_LBResult res;
    int ix[64];
    for (int i = 0; i < n; i++) ix[i] = i;
    o.epsilon = 0.5; o.mu = 10; o.newton_max_iter = 1; o.l1_tol = 0.05; o.newton_tol = 0.05; o.lbiter = 1; o.lbtol = 0.05; o.cg_tol = 0.001; o.cg_maxiter = 10; o.dct_mode = mode;
    l1qc_dct(r, c, x, n, y, ix, o, &res);
  } else if (what == W_NESTA) {
    l1c_NestaOpts o = {0};
    o.mu = 0.5; o.sigma = 0.25; o.n_continue = 1; o.tol = 0.25;
    (void)l1c_nesta(f.m, x, n, y, f, o);
  } else if (what == W_OPS) {
    if (f.Mx) f.Mx(x, y);
    if (f.Mty) f.Mty(y, x);
    f.Ax(x, y);
    f.Aty(y, x);
    f.AtAx(x, z);
    if (f.Rx) f.Rx(x, y);
    if (f.Rty) f.Rty(y, x);
    if (f.Wz) f.Wz(z, x);
    if (f.Wtx) f.Wtx(x, z);
  } else {
    l1c_CgParams par = {.verbose = 0, .max_iter = 3, .tol = 1e-6};
    l1c_CgResults res;
    if (what == W_PCG) l1c_cgsolve_diag_precond(N, x, y, z, w, spd, NULL, &res, par);
    else l1c_cgsolve(N, x, y, w, spd, NULL, &res, par);
  }
  vp_reach("done");
}
