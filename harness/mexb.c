/* C24: the Matlab/Octave gateways against a model of the gateway interface and of the core. */
#include <stdarg.h>
#include "vp.h"
#define mexFunction gate_l1qc
#include "interfaces/mex/l1qc_dct_mex.c"
#undef mexFunction
#define mexFunction gate_nesta
#include "interfaces/mex/nesta_dctTV_mex.c"
#undef mexFunction
#define mexFunction gate_breg
#include "interfaces/mex/breg_anistropic_TV_mex.c"
#undef mexFunction
#include "interfaces/mex/l1c_mex_utils.c"
enum { F_L1QC, F_BREG, F_NESTA };
#define MAXA 64
#define MAXE 80
static mxArray pool[MAXA];
static double store[MAXA][MAXE + 2], given[MAXA][MAXE];
static int npool, nin, fn, live0;
static mxArray* mk(mxClassID c, size_t m, size_t n) {
  mxArray* a = &pool[npool];
  a->cls = c; a->m = m; a->n = n; a->third = 1; a->pr = store[npool] + 1; a->nf = 0; a->str = NULL;
  npool++;
  return a;
}
static int slot(const mxArray* a) { return (int)(a - pool); }
size_t mxGetM(const mxArray* a) { return a->m; }
size_t mxGetN(const mxArray* a) { return a->n * a->third; }
size_t mxGetNumberOfElements(const mxArray* a) { return a->m * a->n * a->third; }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->third > 1 ? 3 : 2; }
double* mxGetPr(const mxArray* a) { return a->pr; }
double* mxGetDoubles(const mxArray* a) { return a->cls == mxDOUBLE_CLASS ? a->pr : NULL; }
void* mxGetData(const mxArray* a) { return a->pr; }
int32_t* mxGetInt32s(const mxArray* a) { return (int32_t*)a->pr; }
double mxGetScalar(const mxArray* a) { vp_check(a->cls == mxDOUBLE_CLASS && mxGetNumberOfElements(a) > 0, "a scalar is taken from a non-empty double"); return a->pr[0]; }
mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsInt32(const mxArray* a) { return a->cls == mxINT32_CLASS; }
bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS; }
bool mxIsComplex(const mxArray* a) { return false; }
bool mxIsScalar(const mxArray* a) { return mxGetNumberOfElements(a) == 1; }
bool mxIsEmpty(const mxArray* a) { return mxGetNumberOfElements(a) == 0; }
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* k) {
  vp_check(a->cls == mxSTRUCT_CLASS && i < mxGetNumberOfElements(a), "fields are read from an existing structure");
  for (int f = 0; f < a->nf; f++) if (!strcmp(a->fname[f], k)) return a->fval[f];
  return NULL;
}
void mxSetField(mxArray* a, mwIndex i, const char* k, mxArray* v) {
  for (int f = 0; f < a->nf; f++) if (!strcmp(a->fname[f], k)) { a->fval[f] = v; return; }
  vp_check(0, "only existing fields are set");
}
int mxGetString(const mxArray* a, char* buf, mwSize len) {
  if (a->cls != mxCHAR_CLASS) return 1;
  mwSize i = 0;
  for (; i + 1 < len && a->str[i]; i++) buf[i] = a->str[i];
  if (len) buf[i] = 0;
  return a->str[i] != 0;
}
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) {
  vp_check(m * n <= MAXE && c == mxREAL, "size of the output");
  mxArray* a = mk(mxDOUBLE_CLASS, m, n);
  for (int i = 0; i < MAXE; i++) a->pr[i] = 0;
  return a;
}
mxArray* mxCreateDoubleScalar(double d) { mxArray* a = mxCreateDoubleMatrix(1, 1, mxREAL); a->pr[0] = d; return a; }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** names) {
  mxArray* a = mk(mxSTRUCT_CLASS, m, n);
  a->nf = nf;
  for (int i = 0; i < nf; i++) { a->fname[i] = names[i]; a->fval[i] = NULL; }
  return a;
}
void mxDestroyArray(mxArray* a) { vp_check(slot(a) >= nin, "caller's arrays are not destroyed"); }
int mexPrintf(const char* f, ...) { return 0; }
/* ---------------------------------------------------------------- scenario */
static int valid, maybe, core_calls, setups, destroys, core_status, setup_status, verbose_wild;
static int mrow, mcol, n, n2, bp, fmiss, fbad, fbadkind, nopt;
static double xs[MAXE], val_l1;
static int val_nit, val_cg, val_st;
static mxArray *st, *plhs[4];
static const mxArray* prhs[6];
static double fieldv(const char* k) { for (int f = 0; f < st->nf; f++) if (!strcmp(st->fname[f], k)) return given[slot(st->fval[f])][0]; return 0; }
static void balance(void) {
  vp_check(vp_live() == live0, "temporary memory is released");
  vp_check(destroys == setups, "the transform set is released exactly once");
  for (int i = 0; i < nin; i++)
    if (pool[i].cls == mxDOUBLE_CLASS) for (size_t j = 0; j < pool[i].m * pool[i].n * pool[i].third && j < MAXE; j++) vp_same(pool[i].pr[j], given[i][j], "caller's arrays are not modified");
}
_Noreturn void mexErrMsgIdAndTxt(const char* id, const char* f, ...) {
  vp_check(!valid || maybe || vp_fault_fired() || core_status || setup_status, "valid arguments are accepted");
  vp_check(valid || maybe || (!core_calls && !setups), "bad arguments are rejected before the core runs");
  balance();
  vp_reach("error");
  vp_end();
  for (;;) ;
}
_Noreturn void mexErrMsgTxt(const char* f) { mexErrMsgIdAndTxt("", f); }
static void positions(l1c_int* ix) { for (int i = 0; i < n; i++) vp_check(ix[i] == (int)given[3][i] - 1, "one-based positions become zero-based"); }
static void ran(void) { core_calls++; vp_check(core_calls == 1, "the core runs once"); vp_check(valid || maybe, "the core only runs on valid arguments"); }
int l1qc_dct(int r, int c, double* x, int cn, double* b, l1c_int* ix, l1c_L1qcOpts o, l1c_LBResult* lb) {
  ran();
  vp_check(fn == F_L1QC, "the right core function is called");
  vp_check(r == mrow && c == mcol && cn == n, "sizes reach the core");
  for (int i = 0; i < n; i++) vp_same(b[i], given[2][i], "measurements reach the core");
  positions(ix);
  vp_check(vp_writable(x, 8 * (long)mrow * mcol), "room for the image");
  vp_same(o.epsilon, fieldv("epsilon"), "epsilon"); vp_same(o.mu, fieldv("mu"), "mu"); vp_same(o.lbtol, fieldv("lbtol"), "lbtol"); vp_same(o.tau, fieldv("tau"), "tau");
  vp_same(o.newton_tol, fieldv("newton_tol"), "newton_tol"); vp_same(o.l1_tol, fieldv("l1_tol"), "l1_tol"); vp_same(o.cg_tol, fieldv("cgtol"), "cgtol");
  vp_same((double)o.newton_max_iter, fieldv("newton_max_iter"), "newton_max_iter"); vp_same((double)o.cg_maxiter, fieldv("cgmaxiter"), "cgmaxiter"); vp_same((double)o.lbiter, fieldv("lbiter"), "lbiter");
  vp_same((double)o.verbose, fieldv("verbose"), "verbose"); vp_same((double)o.warm_start_cg, fieldv("warm_start_cg"), "warm_start_cg"); vp_same((double)(int)o.dct_mode, fmiss == 12 ? 1 : fieldv("dct_mode"), "dct_mode");
  vp_check(o.cg_verbose == 0, "options without a field");
  for (int i = 0; i < r * c; i++) x[i] = xs[i];
  lb->l1 = val_l1; lb->total_newton_iter = val_nit; lb->total_cg_iter = val_cg; lb->status = val_st;
  return core_status;
}
static int tr;
int l1c_breg_anistropic_TV(l1c_int r, l1c_int c, double* u, double* f, double mu, double tol, int mi, int mj) {
  ran();
  vp_check(fn == F_BREG, "the right core function is called");
  tr = !(r == mcol && c == mrow); /* the core stores by rows, the caller by columns: either the transposed image or transposed memory */
  vp_check(!tr || (r == mrow && c == mcol), "dimensions of the image");
  vp_check(vp_aligned(u, 64) && vp_aligned(f, 64), "arrays handed to the core are aligned");
  vp_check(vp_writable(u, 8 * (long)r * c), "room for the image");
  for (int i = 0; i < mrow; i++) for (int j = 0; j < mcol; j++) vp_same(tr ? f[i * c + j] : f[j * c + i], given[0][j * mrow + i], "image reaches the core");
  vp_same(mu, given[1][0], "mu"); vp_same(tol, given[2][0], "tol"); vp_same((double)mi, given[3][0], "max_iter"); vp_check(mj == 1, "sweeps");
  if (core_status) return core_status;
  for (int i = 0; i < r * c; i++) u[i] = xs[i];
  return 0;
}
static int stacked, refused; /* length of the vector the solver works on */
static void destroy(void) { destroys++; }
static void mx(double* a, double* b) {
  vp_check(destroys == 0 && core_calls == 1, "synthesis runs on a live set, after the solver");
  vp_check(vp_writable(a, 8 * (long)stacked), "the synthesis is given a full coefficient vector");
  for (int i = 0; i < mrow * mcol; i++) b[i] = refused ? 0 : 2 * a[i] - 1; /* any map will do: it tells x from M x */
}
int l1c_setup_dctTV_transforms(l1c_int cn, l1c_int r, l1c_int c, double av, double ah, DctMode dm, BpMode bm, l1c_int* ix, l1c_AxFuns* f) {
  vp_check(fn == F_NESTA, "the right set-up is called");
  vp_check(valid || maybe, "the core only runs on valid arguments");
  vp_check(r == mrow && c == mcol && cn == n, "sizes reach the set-up");
  positions(ix);
  vp_same(av, fieldv("alpha_v"), "alpha_v"); vp_same(ah, fieldv("alpha_h"), "alpha_h");
  vp_same((double)(int)dm, fieldv("dct_mode"), "dct_mode"); vp_check((int)bm == bp, "bp_mode");
  if (setup_status) return setup_status;
  setups++;
  l1c_AxFuns z = {0};
  stacked = r * c;
  if (bm == synthesis) { if (av > 0) stacked += r * c; if (ah > 0) stacked += r * c; }
  z.n = n; z.m = stacked; z.p = r * c; z.q = r * c; z.destroy = destroy; z.Mx = mx;
  *f = z;
  return 0;
}
int l1c_nesta(l1c_int m, double* x, l1c_int cn, double* b, l1c_AxFuns f, l1c_NestaOpts o) {
  ran();
  vp_check(fn == F_NESTA && setups == 1 && destroys == 0, "the solver runs on a live transform set");
  vp_check((m == mrow * mcol || m == f.m) && f.m == stacked && cn == n && f.n == n && f.destroy == destroy, "sizes and transforms reach the core");
  vp_check(vp_aligned(x, 64) && vp_aligned(b, 64), "arrays handed to the core are aligned");
  vp_check(vp_writable(x, 8 * (long)m), "room for the image");
  for (int i = 0; i < n; i++) vp_same(b[i], given[2][i], "measurements reach the core");
  vp_same(o.sigma, fieldv("sigma"), "sigma"); vp_same(o.mu, fieldv("mu"), "mu"); vp_same(o.tol, fieldv("tol"), "tol");
  vp_same((double)o.n_continue, fieldv("n_continue"), "n_continue"); vp_same((double)o.verbose, fieldv("verbose"), "verbose");
  if (m != f.m) { vp_reach("length refused"); refused = 1; return core_status = L1C_INVALID_ARGUMENT; } /* as the solver does */
  for (int i = 0; i < m; i++) x[i] = i < mrow * mcol ? xs[i] : 5;
  return core_status;
}
static mxArray* vec(int kind, int len, int pos) {
  /* kind: 0 column, 1 row, 2 matrix, 3 three-dimensional, 4 wrong class */
  mxArray* a = mk(kind == 4 ? mxINT32_CLASS : mxDOUBLE_CLASS, kind == 0 || kind == 4 ? len : kind == 1 ? 1 : 2, kind == 0 || kind == 4 ? 1 : kind == 1 ? len : kind == 2 ? len : 1);
  if (kind == 3) a->third = len;
  if (kind >= 2) valid = 0;
  for (int i = 0; i < MAXE && (size_t)i < mxGetNumberOfElements(a); i++) {
    double v;
    if (pos) { int p = i < 4 ? vp_int(-2147483647, 2147483647) : 1 + (int)((i * 7) % ((long)mrow * mcol)); v = (double)p; if (p < 1 || p > mrow * mcol) valid = 0; } else v = vp_real(-100, 100);
    given[slot(a)][i] = v;
    if (kind == 4) ((int*)a->pr)[i] = pos ? (int)v : 0; else a->pr[i] = v;
  }
  return a;
}
static mxArray* scal(int bad, double v) { /* bad: 1 not a scalar, 2 empty, 3 wrong class */
  mxArray* a = mk(bad == 3 ? mxCHAR_CLASS : mxDOUBLE_CLASS, bad == 2 ? 0 : 1, bad == 1 ? 2 : 1);
  a->str = "x";
  a->pr[0] = v; given[slot(a)][0] = v;
  if (bad == 1) { a->pr[1] = v; given[slot(a)][1] = v; }
  if (bad) valid = 0;
  return a;
}

static void addf(const char* k, double v) {
  int i = nopt++;
  if (fmiss == i) { valid = 0; return; }
  st->fname[st->nf] = k; st->fval[st->nf] = scal(fbad == i ? fbadkind : 0, v); st->nf++;
}
void vp_main(void) {
  static const char* modes[] = {"analysis", "synthesis", "analysisX", "synthesisX", "ana", "", "Synthesis"};
  fn = vp_param("fn");
  int nrhs = vp_param("nrhs"), nlhs = vp_param("nlhs"), abad = vp_param("abad"), abk = vp_param("abk"), sk = vp_param("skind"), mode = vp_param("mode");
  fmiss = vp_param("fmiss"); fbad = vp_param("fbad"); fbadkind = vp_param("fbadkind");
  valid = 1;
  int rlo = vp_param("rlo"), rhi = vp_param("rhi"), clo = vp_param("clo"), chi = vp_param("chi");
  if (vp_param("huge")) {
    static const int sz[] = {2, 3, 46341, 65536, 65537, 1 << 24, 2147483647};
    int one = sz[vp_pick(0, 6)], other = vp_int(1, 2147483647);
    vp_assume((long)one * other > 2147483647L);
    mrow = vp_param("huge") == 1 ? one : other; mcol = vp_param("huge") == 1 ? other : one;
    valid = 0;
  } else { mrow = vp_pick(rlo, rhi); mcol = vp_pick(clo, chi); }
  if (fn == F_BREG) {
    int bk = vp_param("bkind");
    mxArray* a = mk(bk == 4 ? mxINT32_CLASS : mxDOUBLE_CLASS, mrow, bk == 3 ? 3 : mcol);
    if (bk == 3) a->third = 2;
    if (bk) valid = 0;
    for (int i = 0; i < ((long)mrow * mcol > 20 ? MAXE : 20); i++) { given[0][i] = vp_real(-100, 100); a->pr[i] = given[0][i]; }
    prhs[0] = a;
    prhs[1] = scal(abad == 1 ? abk : 0, vp_real(-100, 100));
    prhs[2] = scal(abad == 2 ? abk : 0, vp_real(-100, 100));
    prhs[3] = scal(abad == 3 ? abk : 0, (double)vp_int(-5, 100000));
    if (mrow < 3 || mcol < 3) valid = 0;
    if (nrhs < 4 || nlhs < 1) valid = 0;
  } else {
    n = vp_pick(vp_param("nlo"), vp_param("nhi"));
    n2 = vp_param("diffn") ? vp_pick(0, 4) : n;
    prhs[0] = scal(abad == 1 ? abk : 0, (double)mrow);
    prhs[1] = scal(abad == 2 ? abk : 0, (double)mcol);
    int huge = vp_param("huge"), keep = valid;
    prhs[2] = vec(vp_param("bkind"), n, 0);
    prhs[3] = vec(vp_param("pkind"), n2, !huge);
    if (huge) valid = keep && 0;
    st = mk(sk == 3 ? mxDOUBLE_CLASS : mxSTRUCT_CLASS, sk == 2 ? 0 : 1, sk == 1 ? 2 : 1);
    prhs[4] = st;
    if (sk) valid = 0;
    int vb = vp_int(-5, 100);
    if (fn == F_L1QC) {
      addf("epsilon", vp_real(-100, 100)); addf("mu", vp_real(-100, 100)); addf("lbtol", vp_real(-100, 100)); addf("tau", vp_real(-100, 100)); addf("lbiter", (double)vp_int(-5, 1000));
      addf("newton_tol", vp_real(-100, 100)); addf("newton_max_iter", (double)vp_int(-5, 100000)); addf("verbose", (double)vb); addf("l1_tol", vp_real(-100, 100)); addf("cgtol", vp_real(-100, 100));
      addf("cgmaxiter", (double)vp_int(-5, 100000)); addf("warm_start_cg", (double)vp_int(0, 2)); addf("dct_mode", (double)vp_int(1, 2));
    } else {
      addf("sigma", vp_real(-100, 100)); addf("mu", vp_real(-100, 100)); addf("tol", vp_real(-100, 100)); addf("alpha_v", vp_real(-100, 100)); addf("alpha_h", vp_real(-100, 100));
      addf("verbose", (double)vb); addf("n_continue", (double)vp_int(-5, 1000)); addf("dct_mode", (double)vp_int(1, 2));
      if (mode < 8) {
        mxArray* s = mk(mode == 7 ? mxDOUBLE_CLASS : mxCHAR_CLASS, 1, mode == 7 ? 1 : strlen(modes[mode]));
        s->str = mode == 7 ? "" : modes[mode];
        st->fname[st->nf] = "bp_mode"; st->fval[st->nf] = s; st->nf++;
        bp = mode == 0 ? analysis : synthesis;
      }
      if (mode > 1) valid = 0;
      if (nlhs < 2) valid = 0;
    }
    if (nrhs < 5 || nlhs < 1) valid = 0;
    if (n != n2 || n <= 0 || mrow <= 0 || mcol <= 0) valid = 0;
    if (valid && mrow * mcol < n) valid = 0;
    maybe = valid && (n == 1 || n == mrow * mcol); /* a single measurement or all of them: may be refused */
    if (fn == F_L1QC && fmiss == 12 && !sk) maybe = 1; /* an options structure without a transform selection: may be refused or default */
  }
  int cf = vp_param("corefail");
  core_status = cf == 1 ? vp_int(1, 100000) : 0;
  setup_status = cf == 2 ? L1C_OUT_OF_MEMORY : cf == 3 ? L1C_DCT_INIT_FAILURE : cf == 4 ? L1C_INVALID_ARGUMENT : 0;
  for (int i = 0; i < (!vp_param("huge") && (long)mrow * mcol > 20 ? MAXE : 20); i++) xs[i] = vp_real(-100, 100);
  val_l1 = vp_real(0, 100); val_nit = vp_int(0, 1000); val_cg = vp_int(0, 1000); val_st = vp_int(0, 255);
  nin = npool; live0 = vp_live();
  if (vp_param("oom")) vp_fault_arm(vp_param("oom"));
  (fn == F_L1QC ? gate_l1qc : fn == F_BREG ? gate_breg : gate_nesta)(nlhs, plhs, nrhs, prhs);
  vp_fault_arm(0);
  vp_check(valid || maybe, "bad arguments raise an error");
  vp_check(!vp_fault_fired(), "running out of memory raises an error");
  vp_check(!setup_status && !(fn == F_BREG && core_status), "a failing set-up or denoiser raises an error");
  vp_check(core_calls == 1, "the core runs");
  balance();
  mxArray* x = plhs[0];
  vp_check(x && slot(x) >= nin && x->cls == mxDOUBLE_CLASS, "a new array is returned");
  if (fn == F_L1QC) {
    vp_check((int)x->m == mrow * mcol && x->n == 1, "shape of the output");
    if (!core_status) for (int i = 0; i < mrow * mcol; i++) vp_same(x->pr[i], xs[i], "result of the core is returned");
    if (nlhs == 2) {
      mxArray* s = plhs[1];
      vp_check(s && s->cls == mxSTRUCT_CLASS && s->m == 1 && s->n == 1, "statistics structure");
      mxArray *a = mxGetField(s, 0, "l1"), *b = mxGetField(s, 0, "total_newton_iter"), *c = mxGetField(s, 0, "total_cg_iter"), *d = mxGetField(s, 0, "status");
      vp_check(a && b && c && d, "all statistics are present");
      if (!core_status) { vp_same(a->pr[0], val_l1, "l1"); vp_same(b->pr[0], (double)val_nit, "total_newton_iter"); vp_same(c->pr[0], (double)val_cg, "total_cg_iter"); }
      vp_same(d->pr[0], (double)(core_status ? core_status : val_st), "status");
    }
  } else {
    vp_check((int)x->m == mrow && (int)x->n == mcol, "shape of the output");
    if (fn == F_BREG) for (int i = 0; i < mrow; i++) for (int j = 0; j < mcol; j++) vp_same(x->pr[j * mrow + i], tr ? xs[i * mcol + j] : xs[j * mrow + i], "result of the core is returned");
    else {
      for (int i = 0; i < mrow * mcol; i++) vp_same(x->pr[i], 2 * xs[i] - 1, "synthesis of the solution is returned");
      vp_check(plhs[1] && plhs[1]->m == 1 && plhs[1]->n == 1, "status is returned");
      vp_same(plhs[1]->pr[0], (double)core_status, "status");
    }
  }
  vp_reach("result");
}
