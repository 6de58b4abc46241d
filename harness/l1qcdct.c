/* C25: l1qc_dct around an arbitrary solver outcome. */
#include "axset.h"
#include "l1qc_newton.h"
static Ref r;
static int called, dead;
static double b0[64], sol[64];
static l1c_L1qcOpts want;
static l1c_LBResult ret;
l1c_LBResult l1c_l1qc_newton(l1c_int m, double* x, l1c_int n, double* b, l1c_L1qcOpts o, l1c_AxFuns f) {
  double e[64];
  called++;
  vp_check(called == 1, "solver called once");
  vp_check(m == r.m && n == r.n, "solver gets the sizes");
  vp_check(vp_aligned(x, 64) && vp_aligned(b, 64), "solver gets aligned vectors");
  refop(&r, O_ATY, b0, e);
  for (int i = 0; i < m; i++) vp_close(x[i], e[i], "solver starts from the adjoint of the measurements");
  for (int i = 0; i < n; i++) vp_same(b[i], b0[i], "solver gets the measurements");
  vp_same(o.epsilon, want.epsilon, "option epsilon"); vp_same(o.mu, want.mu, "option mu"); vp_same(o.lbtol, want.lbtol, "option lbtol"); vp_same(o.tau, want.tau, "option tau");
  vp_same(o.newton_tol, want.newton_tol, "option newton_tol"); vp_same(o.l1_tol, want.l1_tol, "option l1_tol"); vp_same(o.cg_tol, want.cg_tol, "option cg_tol");
  vp_check(o.lbiter == want.lbiter, "option lbiter"); vp_check(o.newton_max_iter == want.newton_max_iter, "option newton_max_iter"); vp_check(o.verbose == want.verbose, "option verbose");
  vp_check(o.cg_verbose == want.cg_verbose, "option cg_verbose"); vp_check(o.cg_maxiter == want.cg_maxiter, "option cg_maxiter"); vp_check(o.warm_start_cg == want.warm_start_cg, "option warm_start_cg");
  vp_check(o.dct_mode == want.dct_mode, "option dct_mode");
  check_sizes(&r, &f);
  if (vp_param("op") >= 0) exercise(&r, &f, vp_param("op"), 1);
  for (int i = 0; i < m; i++) x[i] = sol[i] = vp_real(-10, 10);
  for (int i = 0; i < n; i++) b[i] = vp_real(-10, 10); /* the solver may use its copy as it likes */
  return ret;
}
void vp_main(void) {
  int mode = vp_param("mode"), bad = vp_param("bad");
  vp_set_threads(1);
  mkref(&r, S_DCT, vp_param("n"), vp_param("mrow"), vp_param("mcol"), mode, analysis, 0, 0, vp_param("idxmode"));
  double *raw = malloc((r.n + 1) * sizeof(double)), *b = raw + vp_param("shift"), *x = l1c_malloc_double(r.m + 2), x0[64], e[64];
  int ix[64];
  for (int i = 0; i < r.n; i++) { b0[i] = b[i] = vp_real(-10, 10); ix[i] = r.idx[i]; }
  for (int i = 0; i < r.m + 2; i++) x0[i] = x[i] = vp_real(-10, 10);
  if (bad == 1) ix[r.n - 1] = vp_int(r.m, 2147483647);
  if (bad == 2) ix[0] = vp_int(-2147483647 - 1, -1);
  l1c_L1qcOpts o = {0};
  o.epsilon = vp_real(0.1, 5); o.mu = vp_real(1, 20); o.lbtol = vp_real(0.001, 1); o.tau = vp_real(1, 100); o.newton_tol = vp_real(0.001, 1); o.l1_tol = vp_real(0, 1); o.cg_tol = vp_real(0, 1);
  o.lbiter = vp_int(0, 50); o.newton_max_iter = vp_int(0, 50); o.verbose = vp_param("verbose"); o.cg_verbose = vp_int(0, 9); o.cg_maxiter = vp_int(0, 500); o.warm_start_cg = vp_int(0, 2);
  o.dct_mode = mode;
  want = o;
  ret.l1 = vp_real(0, 100); ret.total_newton_iter = vp_int(0, 1000); ret.total_cg_iter = vp_int(1, 1000); ret.status = vp_param("fail") ? vp_int(-100000, 100000) : 0;
  if (vp_param("fail")) vp_assume(ret.status != 0);
  l1c_LBResult lr;
  lr.l1 = -5; lr.total_newton_iter = -6; lr.total_cg_iter = -7; lr.status = -8;
  int live = vp_live();
  int big = bad == 6 ? vp_int(46341, 2147483647) : 0, big2 = bad == 6 ? vp_int(46341, 2147483647) : 0;
  int st = l1qc_dct(bad == 6 ? big : bad == 3 ? vp_int(-2147483647 - 1, 0) : r.mrow, bad == 6 ? big2 : bad == 4 ? vp_int(-2147483647 - 1, 0) : r.mcol, x, bad == 5 ? vp_int(-2147483647 - 1, 0) : r.n, b, ix, o, &lr);
  for (int i = 0; i < r.n; i++) { vp_same(b[i], b0[i], "measurements unchanged"); if (!bad) vp_check(ix[i] == r.idx[i], "positions unchanged"); }
  vp_check(vp_live() == live, "everything released");
  for (int i = r.m; i < r.m + 2; i++) vp_same(x[i], x0[i], "writes only rows*columns outputs");
  if (bad) {
    vp_check(st != 0, "bad arguments are reported");
    vp_check(called == 0, "no solve on bad arguments");
    for (int i = 0; i < r.m; i++) vp_same(x[i], x0[i], "output untouched");
    vp_reach("rejected");
    vp_end();
  }
  vp_check(called == 1, "solver called");
  vp_check(st == ret.status, "status is the solver's");
  vp_same(lr.l1, ret.l1, "statistics"); vp_check(lr.total_newton_iter == ret.total_newton_iter && lr.total_cg_iter == ret.total_cg_iter && lr.status == ret.status, "statistics");
  if (st == 0) {
    refop(&r, O_MX, sol, e);
    for (int i = 0; i < r.m; i++) vp_close(x[i], e[i], "output is the synthesis of the solution");
    vp_reach("solved");
  } else {
    for (int i = 0; i < r.m; i++) vp_same(x[i], x0[i], "output untouched when there is no solution");
    vp_reach("failed");
  }
}
