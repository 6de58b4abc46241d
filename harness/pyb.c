/* C23: the Python binding against a model of the interpreter API and of the core. */
#include <stdarg.h>
#include "vp.h"
#include "interfaces/python/l1cPy.c"
enum { K_ARRAY = 1, K_DICT, K_TUPLE, K_FLOAT, K_INT, K_OTHER, K_MODULE, K_EXC };
enum { F_L1QC, F_BREG, F_NESTA };
#define MAXO 64
#define MAXE 80
/* ---------------------------------------------------------------- objects */
static PyArrayObject arr[MAXO];
static double store[MAXO][MAXE + 2];     /* data lives one element in: eight-byte but not sixteen-byte aligned */
static struct { PyObject ob; int n; const char* key[8]; PyObject* it[8]; double d; int i; } box[MAXO];
static int narr, nbox, errs, apicalls, fail_at;
static PyObject exc[6];
PyObject *PyExc_TypeError = &exc[0], *PyExc_RuntimeError = &exc[1], *PyExc_IndexError = &exc[2], *PyExc_ValueError = &exc[3], *PyExc_MemoryError = &exc[4], *PyExc_OverflowError = &exc[5];
PyObject vp_none = {1000, K_OTHER, 0};
static PyModuleDef* module;
PyObject* PyModule_Create(PyModuleDef* d) { module = d; return &vp_none; }
void vp_import_array(void) {}
void PyErr_SetString(PyObject* e, const char* m) { vp_check(e >= exc && e < exc + 6, "a known exception type is raised"); errs = 1; }
PyObject* PyErr_Format(PyObject* e, const char* m, ...) { PyErr_SetString(e, m); return NULL; }
PyObject* PyErr_NoMemory(void) { errs = 1; return NULL; }
PyObject* PyErr_Occurred(void) { return errs ? &exc[0] : NULL; }
void vp_incref(PyObject* o) { vp_check(o->ob_refcnt > 0, "no reference is taken to a released object"); o->ob_refcnt++; }
void vp_decref(PyObject* o) {
  vp_check(o != NULL, "release of a null reference");
  if (!o) return;
  vp_check(o->ob_refcnt > 0, "nothing is released twice");
  o->ob_refcnt--;
  if (o->ob_refcnt > 0) return;
  if (o->kind == K_ARRAY) for (int i = 0; i < MAXE; i++) store[o->slot][i + 1] = 1e300; /* the memory is gone */
  if (o->kind == K_TUPLE || o->kind == K_DICT) for (int i = 0; i < box[o->slot].n; i++) vp_decref(box[o->slot].it[i]);
}
static int api_fails(void) { apicalls++; if (apicalls == fail_at) { errs = 1; return 1; } return 0; }
static PyArrayObject* newarr(int nd, const npy_intp* dims, int type, int input) {
  PyArrayObject* a = &arr[narr];
  a->ob.ob_refcnt = 1; a->ob.kind = K_ARRAY; a->ob.slot = narr;
  a->nd = nd; a->type = type; a->input = input;
  for (int i = 0; i < nd; i++) a->dims[i] = dims[i];
  a->data = store[narr] + 1;
  narr++;
  return a;
}
static long count(PyArrayObject* a) { long n = 1; for (int i = 0; i < a->nd; i++) n *= a->dims[i]; return n; }
int PyArray_NDIM(PyArrayObject* a) { vp_check(a->ob.ob_refcnt > 0, "no use of a released array"); return a->nd; }
npy_intp PyArray_DIM(PyArrayObject* a, int i) { vp_check(i < a->nd, "dimension index exists"); return a->dims[i]; }
npy_intp* PyArray_DIMS(PyArrayObject* a) { return a->dims; }
npy_intp PyArray_SIZE(PyArrayObject* a) { return count(a); }
void* PyArray_DATA(PyArrayObject* a) { vp_check(a->ob.ob_refcnt > 0, "no use of a released array"); return a->data; }
/* the caller's arguments: values as given, and how they convert */
typedef struct { PyObject* o; int conv; double v[MAXE]; } Arg;
static Arg args[2];
static double given_as(int type, double v) { return type == NPY_INT ? (double)(int)v : v; }
PyObject* PyArray_FROM_OTF(PyObject* o, int type, int flags) {
  if (o == NULL) { errs = 1; return NULL; }
  if (api_fails()) return NULL;
  if (o->kind == K_ARRAY && !((PyArrayObject*)o)->input) { vp_incref(o); return o; }
  for (int k = 0; k < 2; k++) {
    if (args[k].o != o) continue;
    if (args[k].conv == 2) { errs = 1; return NULL; }
    PyArrayObject* in = (PyArrayObject*)o;
    if (args[k].conv == 0 && type == in->type && (flags & NPY_ARRAY_IN_ARRAY) == NPY_ARRAY_IN_ARRAY && !(flags & NPY_ARRAY_ENSURECOPY)) { vp_incref(o); return o; }
    PyArrayObject* a = newarr(in->nd, in->dims, type, 0);
    long n = count(a);
    for (long i = 0; i < n; i++) {
      long j = (flags & NPY_ARRAY_C_CONTIGUOUS) ? i : n - 1 - i; /* without the flag the layout is not what C code expects */
      if (type == NPY_INT) ((int*)a->data)[i] = (int)args[k].v[j];
      else ((double*)a->data)[i] = args[k].v[j];
    }
    return (PyObject*)a;
  }
  vp_check(0, "only the caller's objects are converted");
  return NULL;
}
PyObject* PyArray_SimpleNew(int nd, npy_intp* dims, int type) {
  if (api_fails()) return NULL;
  return (PyObject*)newarr(nd, dims, type, 0);
}
PyObject* PyArray_ZEROS(int nd, npy_intp* dims, int type, int f) {
  PyObject* o = PyArray_SimpleNew(nd, dims, type);
  if (o) for (int i = 0; i < MAXE; i++) store[o->slot][i + 1] = 0;
  return o;
}
static PyObject* newbox(int kind) {
  box[nbox].ob.ob_refcnt = 1; box[nbox].ob.kind = kind; box[nbox].ob.slot = nbox; box[nbox].n = 0;
  return &box[nbox++].ob;
}
static PyObject* put(PyObject* b, const char* key, PyObject* it) { int n = box[b->slot].n++; box[b->slot].key[n] = key; box[b->slot].it[n] = it; return b; }
PyObject* Py_BuildValue(const char* f, ...) {
  va_list a;
  va_start(a, f);
  int fails = api_fails();
  PyObject *top[8], *dict = NULL;
  int n = 0, bad = 0, expect_key = 0;
  const char* key = NULL;
  for (; *f; f++) {
    PyObject* it = NULL;
    switch (*f) {
    case '{': dict = newbox(K_DICT); expect_key = 1; continue;
    case '}': top[n++] = dict; dict = NULL; continue;
    case '(': case ')': case ',': case ' ': case ':': continue;
    case 's': if (dict && expect_key) { key = va_arg(a, const char*); expect_key = 0; continue; } it = newbox(K_OTHER); (void)va_arg(a, const char*); break;
    case 'd': it = newbox(K_FLOAT); box[it->slot].d = va_arg(a, double); break;
    case 'i': it = newbox(K_INT); box[it->slot].i = va_arg(a, int); break;
    case 'O': it = va_arg(a, PyObject*); if (it) vp_incref(it); else bad = 1; break;
    case 'N': it = va_arg(a, PyObject*); if (!it) bad = 1; break;
    default: vp_check(0, "known format character"); continue;
    }
    if (it) { if (dict) { put(dict, key, it); expect_key = 1; } else top[n++] = it; }
  }
  va_end(a);
  if (fails || bad) { errs = 1; for (int i = 0; i < n; i++) vp_decref(top[i]); return NULL; }
  if (n == 1) return top[0];
  PyObject* t = newbox(K_TUPLE);
  for (int i = 0; i < n; i++) put(t, NULL, top[i]);
  return t;
}
PyObject* vp_tuple_pack(int n, ...) {
  va_list a;
  if (api_fails()) return NULL;
  PyObject* t = newbox(K_TUPLE);
  va_start(a, n);
  for (int i = 0; i < n; i++) { PyObject* o = va_arg(a, PyObject*); vp_incref(o); put(t, NULL, o); }
  va_end(a);
  return t;
}
/* ---------------------------------------------------------------- the call */
typedef struct { const char* name; char t; int given; double d; int i; PyObject* o; } Opt;
static Opt pos[4], opt[16];
static int npos, nopt, parse_ok;
int PyArg_ParseTupleAndKeywords(PyObject* a, PyObject* k, const char* f, char** kw, ...) {
  va_list ap;
  va_start(ap, kw);
  int p = 0, optional = 0, used = 0;
  for (; *f; f++) {
    if (*f == '|') { optional = 1; continue; }
    if (*f == '$' || *f == ':') continue;
    Opt* v = NULL;
    if (!kw[p]) { errs = 1; va_end(ap); return 0; }
    if (p < npos) v = &pos[p];
    else for (int i = 0; i < nopt; i++) if (!strcmp(opt[i].name, kw[p])) v = &opt[i];
    void* dst = va_arg(ap, void*);
    p++;
    if (!v || !v->given) { if (!optional) { errs = 1; va_end(ap); return 0; } continue; }
    used++;
    if (*f == 'i') { if (v->t != 'i') { errs = 1; va_end(ap); return 0; } *(int*)dst = v->i; }
    else if (*f == 'd') *(double*)dst = v->t == 'i' ? (double)v->i : v->d;
    else if (*f == 'O') *(PyObject**)dst = v->o;
    else vp_check(0, "known format character");
  }
  va_end(ap);
  int want = 0;
  for (int i = 0; i < npos; i++) want += pos[i].given;
  for (int i = 0; i < nopt; i++) want += opt[i].given;
  if (used != want || !parse_ok) { errs = 1; return 0; } /* unexpected keyword or argument */
  return 1;
}
/* ---------------------------------------------------------------- model of the core */
static int fn, mrow, mcol, n, n2, core_calls, core_status, setups, destroys, wrote, core_ok;
static double val_l1, xs[MAXE], b_seen[MAXE];
static int val_nit, val_cg, val_st;
static double optd(const char* s, double dflt) { for (int i = 0; i < nopt; i++) if (!strcmp(opt[i].name, s)) return opt[i].given ? opt[i].d : dflt; vp_check(0, "option"); return 0; }
static int opti(const char* s, int dflt) { for (int i = 0; i < nopt; i++) if (!strcmp(opt[i].name, s)) return opt[i].given ? opt[i].i : dflt; vp_check(0, "option"); return 0; }
static int idx_bad(void) { for (int i = 0; i < n2; i++) if (args[1].v[i] < 0 || args[1].v[i] >= mrow * mcol) return 1; return 0; }
static void data(int cn, double* b, int* ix) {
  vp_check(cn == n, "number of samples");
  for (int i = 0; i < n; i++) vp_same(b[i], args[0].v[i], "measurements reach the core");
  for (int i = 0; i < n; i++) vp_check(ix[i] == (int)args[1].v[i], "sample positions reach the core");
}
int l1qc_dct(int r, int c, double* x, int cn, double* b, l1c_int* ix, l1c_L1qcOpts o, l1c_LBResult* lb) {
  core_calls++;
  vp_check(fn == F_L1QC, "the right core function is called");
  vp_check(r == mrow && c == mcol, "image size reaches the core");
  data(cn, b, ix);
  vp_check(vp_writable(x, 8 * (long)mrow * mcol), "room for the image");
  vp_same(o.epsilon, optd("epsilon", .01), "epsilon"); vp_same(o.mu, optd("mu", 10), "mu"); vp_same(o.lbtol, optd("lbtol", 1e-3), "lbtol");
  vp_same(o.newton_tol, optd("newton_tol", 1e-3), "newton_tol"); vp_check(o.newton_max_iter == opti("newton_max_iter", 50), "newton_max_iter");
  vp_check(o.verbose == opti("verbose", 0), "verbose"); vp_same(o.l1_tol, optd("l1_tol", 1e-5), "l1_tol"); vp_same(o.cg_tol, optd("cgtol", 1e-8), "cgtol");
  vp_check(o.cg_maxiter == opti("cgmaxiter", 200), "cgmaxiter"); vp_check((int)o.dct_mode == opti("dct_mode", 1), "dct_mode");
  vp_check(o.lbiter == 0 && o.cg_verbose == 0 && o.warm_start_cg == 0, "options without a keyword");
  if (r <= 0 || c <= 0 || n <= 0 || idx_bad()) return 16;
  if (core_status) return core_status;
  for (int i = 0; i < r * c; i++) x[i] = xs[i];
  lb->l1 = val_l1; lb->total_newton_iter = val_nit; lb->total_cg_iter = val_cg; lb->status = val_st;
  core_ok = 1;
  return 0;
}
int l1c_breg_anistropic_TV(l1c_int r, l1c_int c, double* u, double* f, double mu, double tol, int mi, int mj) {
  core_calls++;
  vp_check(fn == F_BREG, "the right core function is called");
  vp_check(r == mrow && c == mcol, "image size reaches the core");
  vp_check(vp_aligned(u, 64) && vp_aligned(f, 64), "arrays handed to the core are aligned");
  vp_check(vp_writable(u, 8 * (long)r * c), "room for the image");
  for (int i = 0; i < r * c; i++) vp_same(f[i], args[0].v[i], "image reaches the core");
  vp_same(mu, optd("mu", 10), "mu"); vp_same(tol, optd("tol", 0.001), "tol");
  vp_check(mi == opti("max_iter", 1000) && mj == opti("max_jac_iter", 1), "iteration limits");
  if (core_status) return core_status;
  for (int i = 0; i < r * c; i++) u[i] = xs[i];
  core_ok = 1;
  return 0;
}
static int stacked; /* length of the vector the solver works on */
static void destroy(void) { destroys++; }
static void mx(double* a, double* b) { vp_check(0, "not needed"); }
int l1c_setup_dctTV_transforms(l1c_int cn, l1c_int r, l1c_int c, double av, double ah, DctMode dm, BpMode bm, l1c_int* ix, l1c_AxFuns* f) {
  vp_check(fn == F_NESTA, "the right set-up is called");
  vp_check(r == mrow && c == mcol && cn == n, "sizes reach the set-up");
  for (int i = 0; i < n; i++) vp_check(ix[i] == (int)args[1].v[i], "sample positions reach the core");
  vp_same(av, optd("alpha_v", 0), "alpha_v"); vp_same(ah, optd("alpha_h", 0), "alpha_h");
  vp_check((int)dm == opti("dct_mode", 1), "dct_mode"); vp_check((int)bm == opti("bp_mode", 1), "bp_mode");
  if (r <= 0 || c <= 0 || n <= 0 || idx_bad()) return 16;
  if (core_status < 0) return 64;
  setups++;
  l1c_AxFuns z = {0};
  stacked = r * c;
  if (bm == synthesis) { if (av > 0) stacked += r * c; if (ah > 0) stacked += r * c; }
  z.n = n; z.m = stacked; z.p = r * c; z.q = r * c; z.destroy = destroy; z.Mx = mx;
  *f = z;
  return 0;
}
int l1c_nesta(l1c_int m, double* x, l1c_int cn, double* b, l1c_AxFuns f, l1c_NestaOpts o) {
  core_calls++;
  vp_check(fn == F_NESTA && setups == 1 && destroys == 0, "the solver runs on a live transform set");
  vp_check((m == mrow * mcol || m == f.m) && f.m == stacked && cn == n && f.n == n, "sizes reach the core");
  vp_check(f.destroy == destroy, "transform set reaches the core");
  vp_check(vp_aligned(x, 64) && vp_aligned(b, 64), "arrays handed to the core are aligned");
  for (int i = 0; i < n; i++) vp_same(b[i], args[0].v[i], "measurements reach the core");
  vp_same(o.sigma, optd("sigma", 0.01), "sigma"); vp_same(o.mu, optd("mu", 1e-5), "mu"); vp_same(o.tol, optd("tol", 1e-5), "tol");
  vp_check(o.n_continue == opti("n_continue", 5), "n_continue"); vp_check(o.verbose == opti("verbose", 5), "verbose");
  core_ok = 1;
  if (m != f.m) { /* as the solver does */
    vp_reach("length refused");
    for (int i = 0; i < mrow * mcol; i++) xs[i] = x[i];
    return core_status = L1C_INVALID_ARGUMENT;
  }
  for (int i = 0; i < m; i++) vp_same(x[i], 0, "start value");
  for (int i = 0; i < m; i++) x[i] = i < mrow * mcol ? xs[i] : 5;
  return core_status > 0 ? core_status : 0;
}
/* ---------------------------------------------------------------- scenario */
static void addd(const char* s, int mask) { Opt* o = &opt[nopt]; o->name = s; o->t = 'd'; o->given = (mask >> nopt) & 1; if (o->given) o->d = vp_real(-1000, 1000); nopt++; }
static void addi(const char* s, int mask, int lo, int hi) { Opt* o = &opt[nopt]; o->name = s; o->t = 'i'; o->given = (mask >> nopt) & 1; if (o->given) o->i = vp_int(lo, hi); nopt++; }
static PyObject* mkarg(int k, int nd, npy_intp d0, npy_intp d1, int type, int conv) {
  npy_intp dims[3] = {d0, d1, 1};
  PyArrayObject* a = newarr(nd, dims, type, 1);
  long c = count(a);
  if (conv == 2) a->ob.kind = K_OTHER;
  args[k].o = &a->ob; args[k].conv = conv;
  for (long i = 0; i < c; i++) {
    args[k].v[i] = type == NPY_INT ? (double)vp_pick(vp_param("ilo"), vp_param("ihi")) : vp_real(-100, 100);
    if (type == NPY_INT) ((int*)a->data)[i] = (int)args[k].v[i]; else ((double*)a->data)[i] = args[k].v[i];
  }
  return &a->ob;
}
static PyObject* field(PyObject* d, const char* k) {
  for (int i = 0; i < box[d->slot].n; i++) if (!strcmp(box[d->slot].key[i], k)) return box[d->slot].it[i];
  vp_check(0, "result field present");
  return NULL;
}
static void check_image(PyObject* o) {
  PyArrayObject* a = (PyArrayObject*)o;
  vp_check(o->kind == K_ARRAY && !a->input, "a new array is returned");
  vp_check(a->nd == 2 && a->dims[0] == mrow && a->dims[1] == mcol && a->type == NPY_DOUBLE, "shape of the result");
  vp_check(o->ob_refcnt == 1, "result array has one reference");
  for (int i = 0; i < mrow * mcol; i++) vp_same(((double*)a->data)[i], xs[i], "result of the core is returned");
}
void vp_main(void) {
  const char* names[] = {"l1qc_dct", "breg_anistropic_TV", "nesta_dctTV"};
  fn = vp_param("fn");
  int mask = vp_param("mask"), bnd = vp_param("bnd"), pnd = vp_param("pnd"), conv = vp_param("conv");
  PyInit__l1cPy_module();
  PyMethodDef* m = NULL;
  for (int i = 0; module->m_methods[i].ml_name; i++) if (!strcmp(module->m_methods[i].ml_name, names[fn])) m = &module->m_methods[i];
  vp_check(m != NULL && m->ml_flags == (METH_VARARGS | METH_KEYWORDS), "the function is exported with keywords");
  parse_ok = !vp_param("badparse");
  if (vp_param("huge")) {
    static const int sz[] = {2, 3, 46341, 65536, 65537, 1 << 24, 2147483647};
    int one = sz[vp_pick(0, 6)], other = vp_int(1, 2147483647);
    vp_assume((long)one * other > 2147483647L);
    mrow = vp_param("huge") == 1 ? one : other; mcol = vp_param("huge") == 1 ? other : one;
  }
  else { mrow = vp_pick(vp_param("mlo"), vp_param("mhi")); mcol = vp_pick(vp_param("mlo"), vp_param("mhi")); }
  n = vp_pick(vp_param("nlo"), vp_param("nhi"));
  n2 = vp_param("diffn") ? vp_pick(0, 3) : n;
  int valid = parse_ok && conv != 2 && conv != 3 && !vp_param("huge");
  if (fn == F_BREG) {
    npos = 1;
    pos[0].o = mkarg(0, bnd, mrow, mcol, NPY_DOUBLE, conv); pos[0].t = 'O'; pos[0].given = 1;
    addd("mu", mask); addd("tol", mask); addi("max_iter", mask, -5, 100000); addi("max_jac_iter", mask, -5, 100000);
    valid = valid && bnd == 2 && mrow >= 3 && mcol >= 3;
  } else {
    npos = 4;
    pos[0].t = pos[1].t = 'i'; pos[0].i = mrow; pos[1].i = mcol; pos[2].t = pos[3].t = 'O';
    pos[2].o = mkarg(0, bnd, n, 1, NPY_DOUBLE, conv == 3 ? 0 : conv); pos[3].o = mkarg(1, pnd, n2, 1, NPY_INT, conv == 3 ? 2 : conv == 2 ? 0 : conv);
    for (int i = 0; i < 4; i++) pos[i].given = 1;
    if (fn == F_L1QC) {
      addd("epsilon", mask); addd("mu", mask); addd("lbtol", mask); addd("newton_tol", mask); addi("newton_max_iter", mask, -5, 100000); addi("verbose", mask, -5, 100000);
      addd("l1_tol", mask); addd("cgtol", mask); addi("cgmaxiter", mask, -5, 100000); addi("dct_mode", mask, -3, 6);
    } else {
      addd("alpha_v", mask); addd("alpha_h", mask); addd("sigma", mask); addd("mu", mask); addd("tol", mask); addi("n_continue", mask, -5, 100000); addi("verbose", mask, -5, 100000);
      addi("dct_mode", mask, -3, 6); addi("bp_mode", mask, -3, 6);
      int bm = opti("bp_mode", 1);
      if (bm != 1 && bm != 2) valid = 0;
    }
    int dm = opti("dct_mode", 1);
    if (dm != 1 && dm != 2) valid = 0;
    if (bnd != 1 || pnd != 1 || n != n2 || n <= 0 || mrow <= 0 || mcol <= 0) valid = 0;
    if (valid && mrow * mcol < n) valid = 0;
    if (valid && idx_bad()) valid = 0;
  }
  core_status = vp_param("corefail") == 0 ? 0 : vp_param("corefail") < 0 ? -1 : vp_int(1, 1000);
  if (!vp_param("huge")) for (int i = 0; i < MAXE && i < mrow * mcol; i++) xs[i] = vp_real(-100, 100);
  val_l1 = vp_real(0, 100); val_nit = vp_int(0, 1000); val_cg = vp_int(0, 1000); val_st = vp_int(0, 255);
  fail_at = vp_param("apifail");
  int live = vp_live(), in0 = narr;
  if (vp_param("oom")) vp_fault_arm(vp_param("oom"));
  PyObject* r = ((PyCFunctionWithKeywords)(void (*)(void))m->ml_meth)(NULL, NULL, NULL);
  vp_fault_arm(0);
  int broke = vp_fault_fired() || (fail_at && apicalls >= fail_at);
  vp_check(vp_live() == live, "all buffers are released");
  vp_check(destroys == setups, "the transform set is released exactly once");
  vp_check(core_calls <= 1, "the core runs once");
  for (int i = 0; i < in0; i++) {
    vp_check(arr[i].ob.ob_refcnt == 1, "references to the caller's objects are balanced");
    Arg* g = &args[i];
    if (g->conv != 2) for (long j = 0; j < count(&arr[i]); j++) vp_same(arr[i].type == NPY_INT ? (double)((int*)arr[i].data)[j] : ((double*)arr[i].data)[j], g->v[j], "caller's arrays are not modified");
  }
  if (r) {
    vp_check(!errs, "no exception together with a result");
    vp_check(valid && !broke && core_ok, "a result only for valid arguments and a completed run");
    vp_check(r->ob_refcnt == 1, "result has one reference");
    if (fn == F_BREG) check_image(r);
    else {
      vp_check(r->kind == K_TUPLE && box[r->slot].n == 2, "a pair is returned");
      check_image(box[r->slot].it[0]);
      PyObject* s = box[r->slot].it[1];
      vp_check(s->ob_refcnt == 1, "second item has one reference");
      if (fn == F_L1QC) {
        vp_check(s->kind == K_DICT, "statistics are a dictionary");
        vp_same(box[field(s, "l1")->slot].d, val_l1, "l1"); vp_check(box[field(s, "total_newton_iter")->slot].i == val_nit, "total_newton_iter");
        vp_check(box[field(s, "total_cg_iter")->slot].i == val_cg, "total_cg_iter"); vp_check(box[field(s, "status")->slot].i == val_st, "status");
      } else vp_check(s->kind == K_INT && box[s->slot].i == (core_status > 0 ? core_status : 0), "status");
    }
    vp_decref(r);
    vp_reach("result");
  } else {
    vp_check(errs, "failure raises an exception");
    vp_check(!valid || broke || core_status != 0, "valid arguments are accepted");
    if (!broke && fn == F_NESTA) vp_check(!valid || core_status < 0, "a solver status is returned, not raised");
    vp_reach("exception");
  }
  for (int i = in0; i < narr; i++) vp_check(arr[i].ob.ob_refcnt == 0, "no array is leaked");
  for (int i = 0; i < nbox; i++) vp_check(box[i].ob.ob_refcnt == 0, "no object is leaked");
}
