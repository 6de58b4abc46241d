/* C14/C21: the constrained l1 driver with arbitrary outcomes of direction, step bound and line search, against a reference state machine. */
#include "lbprob.h"
#include "linesearch.h"
static double mu, ntol, l1tol, tau, DX[MAXN], DU[MAXN], GX[MAXN], GU[MAXN], CX[MAXN], CU[MAXN], step, smax, gd, l1p;
static int rounds, it, fresh = 1, newton, cgtot, warm, nmax, evalok, phase, over, maybe, dirs, nfail, conc;
static double half = 10;
static double evtau;
static double *xp, *up;
static void point(double* x, double* u) {
  for (int i = 0; i < m; i++) { vp_close(x[i], CX[i], "current point"); vp_close(u[i], CU[i], "current bounds"); }
}
double _l1c_l1qc_f_eval(void* d, double* x, double* u) {
  l1c_l1qcProb* P = d;
  if (!up) {
    up = u;
    for (int i = 0; i < m; i++) {
      if (!vp_param("zero")) { vp_check(u[i] > CX[i] && u[i] > -CX[i], "initial bounds strictly dominate the starting point"); }
      CU[i] = u[i];
    }
  }
  point(x, u);
  evalok = 1;
  for (int i = 0; i < n; i++) P->r[i] = 7;
  for (int i = 0; i < m; i++) { P->fu1[i] = -1; P->fu2[i] = -2; }
  P->fe_val = -3; P->f_val = 11 + rounds;
  evtau = P->tau;
  return P->f_val;
}
int _l1c_l1qc_descent_dir(l1c_l1qcProb* P, l1c_CgParams par, l1c_CgResults* res) {
  vp_check(phase == 0, "direction, step bound, line search in turn");
  phase = 1;
  vp_check(par.max_iter == 31 && par.tol == 0.25 && par.verbose == 0, "linear solver options");
  if (maybe && !(P->tau == tau)) over = 1;
  maybe = 0;
  int first = over || fresh;
  if (over) { tau = tau * mu; over = 0; it = 0; rounds++; for (int i = 0; i < m; i++) DX[i] = 0; vp_check(evalok, "functional re-evaluated at the start of a round"); }
  if (fresh) { fresh = 0; rounds++; it = 0; for (int i = 0; i < m; i++) DX[i] = 0; vp_check(evalok, "functional evaluated at the start"); }
  vp_close(P->tau, tau, "barrier parameter of the round");
  if (first) vp_close(evtau, tau, "functional is evaluated with the parameter of the round");
  vp_close(P->epsilon, EPS, "constraint radius");
  it++; newton++;
  vp_check(it <= nmax, "Newton steps of a round are bounded");
  for (int i = 0; i < m; i++) {
    double want = warm == 0 ? 0 : warm == 1 ? DX[i] : step * DX[i];
    vp_close(P->dx[i], it == 1 ? 0 : want, "warm start of the linear solver");
  }
  for (int i = 0; i < m; i++) {
    DX[i] = P->dx[i] = conc ? -9.0 : vp_real(-5, 5); DU[i] = P->du[i] = conc ? 1.0 : vp_real(-5, 5);
    P->gradf[i] = GX[i] = (double)(i + 1); P->gradf[i + m] = GU[i] = (double)(i - 2);
  }
  int c = conc ? dirs % 7 : vp_int(0, 40);
  res->cgiter = c; cgtot += c; res->cgres = 0.1;
  return 0;
}
double _l1c_l1qc_find_max_step(l1c_l1qcProb* P) {
  vp_check(phase == 1, "direction, step bound, line search in turn");
  phase = 2;
  return smax = conc ? 0.5 : vp_real(0.01, 0.99);
}
LSStat l1c_linesearch_xu(l1c_int M, double* x, double* u, double* dx, double* du, double* fx0, double g, void* data,
                         double (*fe)(void*, double*, double*), LSParams ls, double** W) {
  l1c_l1qcProb* P = data;
  LSStat st = {0};
  vp_check(phase == 2, "direction, step bound, line search in turn");
  phase = 0;
  vp_check(M == m && x == xp && fe == _l1c_l1qc_f_eval && fx0 == &P->f_val, "line search works on the current problem");
  vp_close(ls.s, smax, "line search starts at the step bound");
  vp_check(ls.alpha > 0 && ls.alpha < 0.5 && ls.beta > 0 && ls.beta < 1, "line-search constants");
  gd = 0;
  for (int i = 0; i < m; i++) {
    gd = gd + GX[i] * DX[i] + GU[i] * DU[i];
    vp_close(dx[i], DX[i], "direction"); vp_close(du[i], DU[i], "direction");
  }
  vp_close(g, gd, "directional derivative");
  point(x, u);
  st.flin = 0; st.iter = 3;
  int ok = conc ? 1 : dirs < vp_param("maxdir") ? vp_pick(0, 1) : 0;
  dirs++; half = half / 2;
  evalok = 0;
  if (!ok) { nfail++; st.status = 1; st.step = 0; step = 0; over = 1; vp_reach("line search failed"); goto done; }
  st.status = 0; st.step = step = conc ? 0.25 : vp_real(0.001, 0.99);
  double l = 0;
  for (int i = 0; i < m; i++) {
    l = l + (x[i] = CX[i] = conc ? half : vp_real(0.1, 10));
    u[i] = CU[i] = CX[i] + 1;
  }
  vp_assume(gd < -0.001); vp_assume(gd > -90);
  if (-gd / 2 < ntol) { over = 1; vp_reach("gradient small"); }
  else {
    double r = l1p - l; /* |l1p - l| / l < l1tol */
    if (it > 1 && (r < 0 ? -r : r) < l1tol * l) { over = 1; vp_reach("l1 stalls"); }
    else vp_reach("continue");
    l1p = l;
  }
done:
  if (it >= nmax) over = 1;
  if (it + 1 >= nmax) maybe = 1;
  return st;
}
void vp_main(void) {
  n = vp_param("n"); m = vp_param("m"); nmax = vp_param("nmax"); conc = vp_param("conc"); /* long runs: fixed outcomes, every norm half the one before */ warm = vp_param("warm");
  mkA(0);
  double *b = l1c_malloc_double(n), *x = l1c_malloc_double(m), t[MAXN], rr = 0, l = 0, x0[MAXN];
  int big = vp_param("big"), zero = vp_param("zero"), symx = vp_param("symx");
  for (int i = 0; i < m; i++) {
    x0[i] = CX[i] = x[i] = zero ? 0.0 : symx ? vp_real(-20, 20) : (i % 2 ? -1.0 : 1.0) * (0.5 + 0.25 * i);
    l = l + fabs(x[i]);
  }
  if (symx) { if (big) vp_assume(l >= 2 * m + 1); else { vp_assume(l < 2 * m + 1); vp_assume(l >= 0.01); } }
  tau = l > 0 && l < 2 * m + 1 ? (2 * m + 1) / l : zero ? INFINITY : 1.0;
  ax(CX, t);
  EPS = vp_real(0.1, 4);
  for (int i = 0; i < n; i++) { R[i] = vp_param("symr") ? vp_real(-5, 5) : 0.05; b[i] = B[i] = t[i] - R[i]; rr = rr + R[i] * R[i]; }
  l1c_L1qcOpts o = {0};
  o.epsilon = EPS; o.mu = mu = conc ? 2 : vp_param("symmu") ? vp_real(1.5, 20) : 4; o.newton_tol = ntol = vp_real(0.01, 1); o.newton_max_iter = nmax; o.l1_tol = l1tol = vp_real(0.001, 1);
  o.lbiter = vp_param("lbiter"); o.lbtol = 0.1; o.cg_tol = 0.25; o.cg_maxiter = 31; o.warm_start_cg = warm; o.verbose = vp_param("verbose"); o.cg_verbose = 0;
  o.tau = 999; /* ignored */
  int want = o.lbiter;
  if (!want) { /* rounds until the duality gap (2m+1)/tau falls below the tolerance */
    double v = vp_real(-4, 2);
    o.lbtol = exp(v);
    double k = (log(2.0 * m + 1) - v - log(tau)) / log(mu);
    want = 0;
    while (k > want) want++;
  }
  xp = x;
  int o1 = vp_output_count(), e1 = vp_stderr_count();
  l1c_LBResult r = l1c_l1qc_newton(m, x, n, b, o, mkfuns());
  double s = 0;
  for (int i = 0; i < m; i++) { vp_close(x[i], CX[i], "returned point is the last accepted one"); s = s + fabs(CX[i]); }
  vp_close(r.l1, s, "l1 value is the norm of the returned vector");
  for (int i = 0; i < n; i++) vp_same(b[i], B[i], "measurements unchanged");
  if (rr > EPS * EPS) {
    vp_check(r.status == L1C_INFEASIBLE_START, "infeasible start is reported");
    vp_check(newton == 0 && !up, "no work on an infeasible start");
    for (int i = 0; i < m; i++) vp_same(x[i], x0[i], "guess untouched");
    vp_check(r.total_newton_iter == 0 && r.total_cg_iter == 0, "totals are zero");
    vp_reach("infeasible");
  } else {
    vp_check(r.status == 0, "success is reported");
    vp_check(r.total_newton_iter == newton, "Newton total");
    vp_check(r.total_cg_iter == cgtot, "linear-solver total");
    if (zero) vp_check(newton == 0, "zero start returns at once");
    else if (nmax > 1) { vp_check(rounds == want, "number of barrier rounds"); if (want) vp_check(over || maybe, "last round ended by its rule"); }
    vp_reach("solved");
  }
  if (!o.verbose && !nfail) vp_check(vp_output_count() == o1, "silent at verbosity zero");
  l1c_free_double(x); l1c_free_double(b);
  vp_check(vp_live() == 0, "nothing left allocated");
}
