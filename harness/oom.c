/* C08: the k-th allocation or plan request of a call fails, for arbitrary k. */
#include "axset.h"
#include "bregman.h"
#include "nesta.h"
enum { W_NEWTON = 10, W_NESTA, W_BREG, W_L1QCDCT, W_MEM2D };
static Ref r, r0;
static l1c_AxFuns fx;
static double *b, *x, *bb;
static int nn, mm, mode, what, prow, pcol;
static const double B0[9] = {1.25, -0.5, 2.0, 0.75, -1.5, 0.25, 1.0, -2.0, 0.5};
static l1c_L1qcOpts qo(void) {
  l1c_L1qcOpts o = {0};
  o.epsilon = 0.1; o.mu = 10; o.newton_max_iter = 3; o.l1_tol = 0.05; o.newton_tol = 0.05; o.lbiter = 1; o.lbtol = 0.05; o.cg_tol = 0.001; o.cg_maxiter = 10;
  o.dct_mode = mode;
  return o;
}
/* one call of the function under test; returns its status */
static int call(void) {
  l1c_LBResult lr = {0};
  switch (what) {
  case W_NEWTON: lr = l1c_l1qc_newton(mm, x, nn, b, qo(), fx); return lr.status;
  case W_NESTA: {
    l1c_NestaOpts o = {0};
    o.mu = 0.1; o.sigma = 0.25; o.n_continue = 1; o.tol = 0.2;
    return l1c_nesta(mm, x, nn, b, fx, o);
  }
  case W_BREG: return l1c_breg_anistropic_TV(prow, pcol, x, bb, 1.5, 0.01, 2, 1);
  case W_L1QCDCT: return l1qc_dct(prow, pcol, x, nn, b, r.idx, qo(), &lr);
  case W_MEM2D: {
    double** d = vp_param("cal") ? l1c_calloc_double_2D(3, 4) : l1c_malloc_double_2D(3, 4);
    if (!d) return L1C_OUT_OF_MEMORY;
    l1c_free_double_2D(3, d);
    return 0;
  }
  default: return setup(&r, &fx, mode);
  }
}
void vp_main(void) {
  what = vp_param("what"); mode = vp_param("mode"); nn = vp_param("n"); prow = vp_param("mrow"); pcol = vp_param("mcol"); mm = prow * pcol;
  int isset = what <= S_MAT, solver = what == W_NEWTON || what == W_NESTA, earlier = vp_param("earlier");
  vp_set_threads(1);
  mkref(&r, isset ? what : S_DCT, nn, prow, pcol, mode, vp_param("bp"), vp_param("tvv"), vp_param("tvh"), 1);
  b = l1c_malloc_double(nn); x = l1c_malloc_double(mm); bb = l1c_malloc_double(mm);
  for (int i = 0; i < nn; i++) b[i] = B0[i];
  for (int i = 0; i < mm; i++) { bb[i] = B0[i]; x[i] = 0; }
  if (solver) {
    vp_check(setup(&r, &fx, mode) == 0, "transform for the solver");
    fx.Aty(b, x);
  }
  if (earlier && isset) { /* an earlier set-up, used and released */
    vp_check(setup(&r, &fx, mode) == 0, "earlier set-up");
    if (earlier == 2) exercise(&r, &fx, O_AX, 0);
    fx.destroy();
  } else if (earlier) vp_check(call() == 0, "earlier call");
  int live = vp_live(), k = vp_int(1, 60);
  vp_fault_arm(k);
  int st = call();
  int cnt = vp_alloc_count();
  vp_fault_arm(0);
  if (vp_fault_fired()) {
    vp_reach("fault");
    vp_check(st != 0, "failure is reported by a non-zero status");
    vp_check(vp_live() == live, "a failed call releases everything it allocated");
    vp_reach("failed call");
  } else {
    vp_reach("no fault");
    vp_check(st == 0, "status without a fault");
    vp_check(cnt < 60, "fault range covers every request");
    if (isset) fx.destroy();
    vp_check(vp_live() == live, "a successful call leaves nothing allocated");
    vp_end();
  }
  /* enough memory again */
  if (solver || what == W_L1QCDCT) for (int i = 0; i < mm; i++) x[i] = 0;
  if (solver) fx.Aty(b, x);
  vp_check(call() == 0, "a later call works");
  if (isset) {
    int live2 = vp_live();
    exercise(&r, &fx, O_AX, 1);
    exercise(&r, &fx, O_ATY, 1);
    vp_check(vp_live() == live2, "operators keep nothing");
    fx.destroy();
  }
  vp_check(vp_live() == live, "a later call leaves nothing allocated");
  vp_reach("retry");
}
