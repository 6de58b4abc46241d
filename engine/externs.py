"""Models of the environment: libc, libm, BLAS, FFTW, OpenMP runtime, and the harness API (vp_*)."""
import math
import z3
import values as V
import exec as X
from exec import (Ptr, NULL, UNDEF, Poly, fadd, fsub, fmul, fdiv, fneg, fcmp, select, f_abs, f_sqrt, f_log, f_exp,
                  f_pow, BoolInt, Cond, asb, c_z3, c_and, c_or, c_not, bvval, fromz, canon, gepc, BV, PathEnd, INF,
                  NAN, NINF, icmp_slt, icmp_eq, Unsupported, Limit, Violation)

EXT = {}
INTRIN = {}


def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d


def intrin(*names):
    def d(f):
        for n in names: INTRIN[n] = f
        return f
    return d


# ================================================================ harness API
@ext("vp_real")
def vp_real(E, lo, hi): return E.in_real(lo, hi)


@ext("vp_int")
def vp_int(E, lo, hi): return E.in_int(lo, hi)


@ext("vp_pick")
def vp_pick(E, lo, hi): return E.pick(E.conc(lo), E.conc(hi))


@ext("vp_fork")
def vp_fork(E, x): return E.conc(x)


@ext("vp_param")
def vp_param(E, name):
    n = E.cstr(name)
    if n not in E.params: raise Unsupported("missing harness parameter " + n)
    return int(E.params[n])


@ext("vp_paramd")
def vp_paramd(E, name):
    return float(E.params[E.cstr(name)])


def tobool(E, c):
    if c is UNDEF: return UNDEF
    if type(c) is int: return c != 0
    if type(c) is BoolInt: return c.c
    if type(c) in (bool, Cond): return c
    return c_z3(c != 0)


@ext("vp_assume")
def vp_assume(E, c): E.assume(tobool(E, c))


@ext("vp_check")
def vp_check(E, c, label): E.check(tobool(E, c), E.cstr(label))


@ext("vp_close")
def vp_close(E, a, b, label): E.close(a, b, E.cstr(label))


@ext("vp_close_tol")
def vp_close_tol(E, a, b, tol, label): E.close(a, b, E.cstr(label), tol)


@ext("vp_le")
def vp_le(E, a, b, label): E.leq(a, b, E.cstr(label))


@ext("vp_same")
def vp_same(E, a, b, label):
    """bit-for-bit the same value: exact equality in the model"""
    if a is UNDEF and b is UNDEF: return
    if a is UNDEF or b is UNDEF: E.err("uninitialised", E.cstr(label))
    if type(a) is float and type(b) is float and a != a and b != b: return
    E.check(fcmp("oeq", a, b), E.cstr(label))


@ext("vp_reach")
def vp_reach(E, label): E.path_reach.append(E.cstr(label))


@ext("vp_symbolic")
def vp_symbolic(E): return 1


@ext("vp_is_nan")
def vp_is_nan(E, x): return 1 if (type(x) is float and x != x) else 0


@ext("vp_is_finite")
def vp_is_finite(E, x):
    if x is UNDEF: E.err("uninitialised", "vp_is_finite")
    return 0 if (type(x) is float and x - x != 0.0) else 1


@ext("vp_is_init")
def vp_is_init(E, x): return 0 if x is UNDEF else 1


@ext("vp_deriv")
def vp_deriv(E, fx, x, *rest):
    """d fx / d x, x a symbolic input (natively: supplied by the harness through finite differences)"""
    if fx is UNDEF or x is UNDEF: E.err("uninitialised", "vp_deriv")
    if type(fx) is float: return 0.0
    if type(x) is not Poly: raise Unsupported("vp_deriv wrt non-symbol")
    (m, c), = x.t.items()
    return X.finish(V.deriv(fx, m[0][0]))


@ext("vp_end")
def vp_end(E):
    E.end_path()
    raise PathEnd()


@ext("vp_fault_arm")
def vp_fault_arm(E, k):
    """the k-th allocation (1-based) from now on fails; k may be symbolic; 0 = none"""
    E.fault = k
    E.nalloc = 0


@ext("vp_fault_fired")
def vp_fault_fired(E): return E.userdata.get("fired", 0)


@ext("vp_alloc_count")
def vp_alloc_count(E): return E.nalloc


@ext("vp_live")
def vp_live(E):
    return sum(1 for o in E.heap if o.alive)


@ext("vp_output_count")
def vp_output_count(E): return E.outcount


@ext("vp_trace")
def vp_trace(E, label, v):
    print("TRACE", E.cstr(label), v)


@ext("vp_tracei")
def vp_tracei(E, label, v):
    print("TRACE", E.cstr(label), v)


@ext("vp_fill")
def vp_fill(E, p, n): return None


@ext("vp_writable")
def vp_writable(E, p, n):
    """1 if [p, p+n) is inside one live object"""
    if p is UNDEF or p.obj is None or not p.obj.alive: return 0
    o = p.obj
    if type(o.size) is int and type(n) is int:
        return 1 if p.off >= 0 and p.off + n <= o.size else 0
    c = c_z3(z3.And(z3.ULE(bvval(n, 64) + bvval(p.off, 64), bvval(o.size, 64))))
    return BoolInt(c, 32) if type(c) is Cond else int(c)


@ext("vp_aligned")
def vp_aligned(E, p, n):
    a = X._addr(p)
    if type(a) is int: return 1 if a % n == 0 else 0
    return 0


@ext("vp_heap_alive")
def vp_heap_alive(E, p):
    if p is UNDEF or p.obj is None: return 0
    return 1 if p.obj.alive else 0


@ext("vp_set_threads")
def vp_set_threads(E, n): E.nthreads = E.conc(n)


# ================================================================ allocation
def should_fail(E):
    E.nalloc += 1
    E.nalloc_total += 1
    k = E.fault
    if k is None or (type(k) is int and k == 0): return False
    c = icmp_eq(k, E.nalloc)
    if E.branch(c):
        E.userdata["fired"] = 1
        return True
    return False


def heap_new(E, size, name, align=16, fill=None):
    if type(size) is BoolInt: size = fromz(bvval(size, 64))
    if size is UNDEF: E.err("uninitialised", "allocation size")
    if type(size) is int and (size < 0 or size > 1 << 40):
        # enormous request: fails like a real allocator
        return NULL
    if type(size) is not int:
        huge = c_z3(z3.UGT(size, z3.BitVecVal(1 << 40, 64)))
        if E.branch(huge): return NULL
        if E.cfg.get("conc_alloc", False):
            size = E.conc(size)
    o = E.new_obj(size, "heap", "%s#%d" % (name, len(E.heap)), align, fill)
    E.heap.append(o)
    return Ptr(o, 0)


@ext("malloc", "PyMem_Malloc", "PyMem_RawMalloc")
def malloc(E, n):
    if should_fail(E): return NULL
    return heap_new(E, n, "malloc")


@ext("calloc")
def calloc(E, n, s):
    if should_fail(E): return NULL
    if type(n) is int and type(s) is int:
        t = X.u(n, 64) * X.u(s, 64)
        if t > 1 << 40: return NULL
        return heap_new(E, t, "calloc", 16, 0)
    zn, zs = bvval(n, 64), bvval(s, 64)
    if E.branch(c_z3(z3.Not(z3.BVMulNoOverflow(zn, zs, False)))): return NULL
    return heap_new(E, fromz(zn * zs), "calloc", 16, 0)


@ext("aligned_alloc", "_mm_malloc_rev", "memalign")
def aligned_alloc(E, a, n):
    if should_fail(E): return NULL
    return heap_new(E, n, "aligned_alloc", max(16, E.conc(a)))


@ext("_mm_malloc")
def mm_malloc(E, n, a): return aligned_alloc(E, a, n)


@ext("posix_memalign")
def posix_memalign(E, pp, a, n):
    a = E.conc(a)
    if a % 8 or a & (a - 1) or a == 0: return 22
    if should_fail(E): return 12
    p = heap_new(E, n, "posix_memalign", max(16, a))
    if p.obj is None: return 12
    E.store(pp, 8, p)
    return 0


@ext("realloc")
def realloc(E, p, n):
    if p.obj is None: return malloc(E, n)
    if should_fail(E): return NULL
    q = heap_new(E, n, "realloc")
    if q.obj is not None:
        E.memcpy(q, p, min(p.obj.size, q.obj.size))
        free(E, p)
    return q


@ext("free", "_mm_free", "PyMem_Free")
def free(E, p):
    if p is UNDEF: E.err("uninitialised", "free of uninitialised pointer")
    if p.obj is None:
        if type(p.off) is int and p.off == 0: return
        E.err("memory", "free of invalid pointer")
    o = p.obj
    if o.kind != "heap": E.err("memory", "free of non-heap object %s" % o.name)
    if type(p.off) is not int or p.off != 0: E.err("memory", "free of interior pointer")
    if not o.alive: E.err("memory", "double free of %s" % o.name)
    o.alive = False


# ================================================================ memory/string
@ext("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
def memcpy(E, d, s, n, *_):
    E.memcpy(d, s, n)
    return d


@ext("memset", "__memset_chk")
def memset(E, d, v, n, *_):
    E.memset(d, v, n)
    return d


@intrin("memcpy", "memmove", "memcpy.inline")
def i_memcpy(E, d, s, n, *_): E.memcpy(d, s, n)


@intrin("memset")
def i_memset(E, d, v, n, *_): E.memset(d, v, n)


@ext("strlen")
def strlen(E, s): return len(E.cstr(s))


@ext("strcmp")
def strcmp(E, a, b):
    a, b = E.cstr(a), E.cstr(b)
    return (a > b) - (a < b)


@ext("strcasecmp")
def strcasecmp(E, a, b):
    a, b = E.cstr(a).lower(), E.cstr(b).lower()
    return (a > b) - (a < b)


@ext("strncmp")
def strncmp(E, a, b, n):
    a, b = E.cstr(a)[:n], E.cstr(b)[:n]
    return (a > b) - (a < b)


@ext("memcmp")
def memcmp(E, a, b, n):
    n = E.conc(n)
    for i in range(n):
        x = E.conc(E.load_i(gepc(a, i), 1, 8)) & 255
        y = E.conc(E.load_i(gepc(b, i), 1, 8)) & 255
        if x != y: return 1 if x > y else -1
    return 0


@ext("strcpy")
def strcpy(E, d, s):
    E.memcpy(d, s, len(E.cstr(s)) + 1)
    return d


@ext("strncpy")
def strncpy(E, d, s, n):
    b = E.cstr(s)[:n]
    for i in range(E.conc(n)):
        E.store(gepc(d, i), 1, canon(ord(b[i]), 8) if i < len(b) else 0)
    return d


@ext("strchr")
def strchr(E, s, c):
    b = E.cstr(s)
    i = b.find(chr(c & 255))
    return NULL if i < 0 else gepc(s, i)


@ext("abort")
def abort_(E): E.err("abort", "abort() called")


@ext("exit", "_exit")
def exit_(E, c): E.err("abort", "exit() called")


@ext("__assert_fail")
def assert_fail(E, *a): E.err("abort", "assertion failed: " + E.cstr(a[0]))


@ext("abs")
def abs_(E, x):
    if type(x) is int:
        if x == -(1 << 31): E.ub("abs(INT_MIN)")
        return abs(x)
    return fromz(z3.If(x < 0, -x, x))


# ================================================================ output
def scan_fmt(E, fmt, args):
    """touch the arguments (uninitialised values passed to printf are reported)"""
    for a in args:
        if a is UNDEF: E.err("uninitialised", "uninitialised value printed")


@ext("printf", "__printf_chk", "l1c_default_printf")
def printf(E, fmt, *args):
    E.outcount += 1
    scan_fmt(E, fmt, args)
    return 1


@ext("puts", "perror")
def puts(E, s):
    E.outcount += 1
    return 1


@ext("putchar")
def putchar(E, c):
    E.outcount += 1
    return c


@ext("vprintf")
def vprintf(E, *a):
    E.outcount += 1
    return 1


@ext("fprintf")
def fprintf(E, f, fmt, *args):
    name = f.obj.data if f is not UNDEF and f.obj is not None else None
    if name == "@stdout": E.outcount += 1
    elif name == "@stderr": E.userdata["stderr"] = E.userdata.get("stderr", 0) + 1
    scan_fmt(E, fmt, args)
    return 1


@ext("fputs")
def fputs(E, s, f): return fprintf(E, f, s)


@ext("fputc", "putc")
def fputc(E, c, f): return fprintf(E, f, None)


@ext("fwrite")
def fwrite(E, p, s, n, f):
    fprintf(E, f, None)
    return n


@ext("fflush")
def fflush(E, f): return 0


@ext("snprintf", "sprintf")
def snprintf(E, d, *a):
    if len(a) and type(a[0]) is int:
        if a[0] > 0: E.store(d, 1, 0)
    else:
        E.store(d, 1, 0)
    return 0


@ext("vp_stderr_count")
def vp_stderr_count(E): return E.userdata.get("stderr", 0)


# ================================================================ libm
def reg1(names, f):
    for n in names: EXT[n] = f


reg1(["sqrt"], lambda E, x: f_sqrt(x))
reg1(["fabs"], lambda E, x: f_abs(x))
reg1(["log"], lambda E, x: f_log(x))
reg1(["exp"], lambda E, x: f_exp(x))
reg1(["pow"], lambda E, x, y: f_pow(x, y))
INTRIN["sqrt"] = EXT["sqrt"]
INTRIN["fabs"] = EXT["fabs"]
INTRIN["log"] = EXT["log"]
INTRIN["exp"] = EXT["exp"]
INTRIN["pow"] = EXT["pow"]


@intrin("powi")
def powi(E, x, n): return f_pow(x, float(E.conc(n)))


@ext("log10")
def log10(E, x):
    if type(x) is float and x > 0: return math.log10(x)
    return fdiv(f_log(x), math.log(10.0))


@ext("log2")
def log2(E, x):
    if type(x) is float and x > 0: return math.log2(x)
    return fdiv(f_log(x), math.log(2.0))


@ext("log1p")
def log1p(E, x): return f_log(fadd(1.0, x))


@ext("cbrt")
def cbrt(E, x):
    if type(x) is float: return math.copysign(abs(x) ** (1 / 3), x)
    raise Unsupported("cbrt")


def fn1(name, pyf):
    def f(E, x):
        if type(x) is float:
            try: return pyf(x)
            except (ValueError, OverflowError): return NAN
        if x is UNDEF: return UNDEF
        return V.mk_fn(name, x)
    EXT[name] = f
    INTRIN[name] = f


fn1("cos", math.cos)
fn1("sin", math.sin)
fn1("tan", math.tan)
fn1("atan", math.atan)


def sym_floor(E, x, up):
    if type(x) is float:
        if x - x != 0.0: return x
        return float(math.ceil(x) if up else math.floor(x))
    if x is UNDEF: return UNDEF
    if x.is_const():
        c = x.const()
        return float(math.ceil(c) if up else math.floor(c))
    p = X.pneg(x) if up else x
    # bounded case split on the integer value (exact, decided by forking)
    lim = E.cfg.get("floor_range", 24)
    for k in range(-lim, lim + 1):
        # k <= p < k+1
        lo = V.cond_cmp(">=", X.psub(p, X.to_poly(float(k))))
        hi = V.cond_cmp("<", X.psub(p, X.to_poly(float(k + 1))))
        if E.branch(c_and(lo, hi)):
            return float(-k if up else k)
    raise Limit("floor/ceil of a symbolic value outside +-%d" % lim)


@ext("floor")
def floor(E, x): return sym_floor(E, x, False)


@ext("ceil")
def ceil(E, x): return sym_floor(E, x, True)


INTRIN["floor"] = floor
INTRIN["ceil"] = ceil


@ext("trunc", "rint", "nearbyint", "round", "lround")
def trunc(E, x):
    if type(x) is float: return float(math.trunc(x))
    raise Unsupported("trunc/round of symbolic")


INTRIN["trunc"] = trunc


@ext("fmax")
def fmax(E, a, b):
    if type(a) is float and a != a: return b
    if type(b) is float and b != b: return a
    return select(fcmp("ogt", a, b), a, b, 0)


@ext("fmin")
def fmin(E, a, b):
    if type(a) is float and a != a: return b
    if type(b) is float and b != b: return a
    return select(fcmp("olt", a, b), a, b, 0)


INTRIN["maxnum"] = fmax
INTRIN["minnum"] = fmin
INTRIN["maximum"] = fmax
INTRIN["minimum"] = fmin


@ext("copysign")
def copysign(E, x, y):
    if type(y) is float:
        a = f_abs(x)
        return fneg(a) if math.copysign(1.0, y) < 0 else a
    a = f_abs(x)
    return select(fcmp("olt", y, 0.0), fneg(a), a, 0)


INTRIN["copysign"] = copysign


@ext("fma")
def fma(E, a, b, c): return fadd(fmul(a, b), c)


def vmap(f):
    def g(E, *a):
        if type(a[0]) is tuple:
            return tuple(f(E, *xs) for xs in zip(*a))
        return f(E, *a)
    return g


INTRIN["fma"] = INTRIN["fmuladd"] = vmap(fma)
INTRIN["fabs"] = vmap(EXT["fabs"])
INTRIN["sqrt"] = vmap(EXT["sqrt"])


@ext("hypot")
def hypot(E, a, b): return f_sqrt(fadd(fmul(a, a), fmul(b, b)))


@ext("isnan", "__isnan")
def isnan_(E, x):
    if x is UNDEF: E.err("uninitialised", "isnan")
    return 1 if type(x) is float and x != x else 0


@ext("isinf", "__isinf")
def isinf_(E, x): return 1 if type(x) is float and x in (INF, NINF) else 0


@ext("__finite", "finite")
def finite_(E, x): return 0 if type(x) is float and x - x != 0 else 1


@intrin("is.fpclass")
def is_fpclass(E, x, mask):
    if x is UNDEF: return UNDEF
    if type(x) is float:
        if x != x: b = 3
        elif x == NINF: b = 4
        elif x == INF: b = 512
        elif x == 0: b = 32 if math.copysign(1, x) < 0 else 64
        elif x < 0: b = 8
        else: b = 256
        return bool(mask & b)
    fin = mask & (8 | 16 | 32 | 64 | 128 | 256)
    if fin == 0: return False
    if fin == (8 | 16 | 32 | 64 | 128 | 256): return True
    r = False
    if mask & 8: r = c_or(r, fcmp("olt", x, 0.0))
    if mask & 256: r = c_or(r, fcmp("ogt", x, 0.0))
    if mask & (32 | 64): r = c_or(r, fcmp("oeq", x, 0.0))
    return r


# integer intrinsics
def _mm(op):
    def f(E, a, b):
        if type(a) is int and type(b) is int:
            return {"smax": max, "smin": min}[op](a, b) if op[0] == "s" else \
                (max if op == "umax" else min)(a, b, key=lambda x: X.u(x, 64))
        za = a if isinstance(a, BV) else bvval(a, b.size())
        zb = bvval(b, za.size())
        c = {"smax": za > zb, "smin": za < zb, "umax": z3.UGT(za, zb), "umin": z3.ULT(za, zb)}[op]
        return fromz(z3.If(c, za, zb))
    INTRIN[op] = f


for _o in ("smax", "smin", "umax", "umin"): _mm(_o)


@intrin("abs")
def i_abs(E, x, p): return abs_(E, x)


def _ov(E, a, b, name):
    w = int(name.rsplit(".i", 1)[1])
    op = name.split(".")[1]
    if type(a) is int and type(b) is int:
        s = op[0] == "s"
        x, y = (a, b) if s else (X.u(a, w), X.u(b, w))
        r = {"add": x + y, "sub": x - y, "mul": x * y}[op[1:]]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return (canon(r, w), not (lo <= r <= hi))
    za, zb = bvval(a, w), bvval(b, w)
    if op == "smul": ok = z3.And(z3.BVMulNoOverflow(za, zb, True), z3.BVMulNoUnderflow(za, zb)); r = za * zb
    elif op == "sadd": ok = z3.And(z3.BVAddNoOverflow(za, zb, True), z3.BVAddNoUnderflow(za, zb)); r = za + zb
    elif op == "ssub": ok = z3.And(z3.BVSubNoOverflow(za, zb), z3.BVSubNoUnderflow(za, zb, True)); r = za - zb
    elif op == "umul": ok = z3.BVMulNoOverflow(za, zb, False); r = za * zb
    elif op == "uadd": ok = z3.BVAddNoOverflow(za, zb, False); r = za + zb
    else: ok = z3.BVSubNoUnderflow(za, zb, False); r = za - zb
    return (fromz(r), c_not(c_z3(ok)))


_ov.want_name = True
for _o in ("smul", "sadd", "ssub", "umul", "uadd", "usub"): INTRIN[_o + ".with.overflow"] = _ov
INTRIN["expect"] = lambda E, a, b: a
INTRIN["stacksave"] = lambda E: NULL
INTRIN["stackrestore"] = lambda E, p: None
INTRIN["objectsize"] = lambda E, *a: -1
INTRIN["trap"] = lambda E: E.err("abort", "trap")
INTRIN["ubsantrap"] = lambda E, *a: E.err("abort", "trap")
INTRIN["va_end"] = lambda E, p: None
INTRIN["vector.reduce.fadd"] = lambda E, s, v: _vsum(s, v)
INTRIN["ctpop"] = lambda E, x: bin(X.u(x, 64)).count("1")


def _vsum(s, v):
    for x in v: s = fadd(s, x)
    return s


@intrin("va_start")
def va_start(E, p):
    va = E.vacur[-1]
    o = E.new_obj(8 * len(va) + 8, "stack", "varargs", 16)
    for i, (ty, v) in enumerate(va):
        o.cells[8 * i] = (8, v)
        if type(v) is BV or isinstance(v, BV):
            if v.size() < 64: o.cells[8 * i] = (v.size() // 8, v)
        if type(v) is BoolInt: o.cells[8 * i] = (v.w // 8, v)
        if type(v) is int and ty == ("i", 32): o.cells[8 * i] = (4, v)
    q = E.new_obj(176, "stack", "regsave", 16)
    E.store(p, 4, 48)
    E.store(gepc(p, 4), 4, 176)
    E.store(gepc(p, 8), 8, Ptr(o, 0))
    E.store(gepc(p, 16), 8, Ptr(q, 0))


@intrin("va_copy")
def va_copy(E, d, s): E.memcpy(d, s, 24)


# AVX helpers used by the vector class library
@intrin("x86.sse3.hadd.pd")
def hadd_pd(E, a, b): return (fadd(a[0], a[1]), fadd(b[0], b[1]))


@intrin("x86.avx.hadd.pd.256")
def hadd_pd256(E, a, b): return (fadd(a[0], a[1]), fadd(b[0], b[1]), fadd(a[2], a[3]), fadd(b[2], b[3]))


# ================================================================ BLAS
def ld(E, p, i): return E.load_f(gepc(p, 8 * i))
def st(E, p, i, v): E.store(gepc(p, 8 * i), 8, v)


def off0(n, inc): return 0 if inc >= 0 else (1 - n) * inc


def rng(E, n, *incs):
    n = E.conc(n)
    incs = [E.conc(i) for i in incs]
    st_ = [off0(n, i) for i in incs]
    for k in range(max(0, n)):
        yield [s + k * i for s, i in zip(st_, incs)]


@ext("cblas_ddot")
def ddot(E, n, x, ix, y, iy):
    s = 0.0
    for i, j in rng(E, n, ix, iy): s = fadd(s, fmul(ld(E, x, i), ld(E, y, j)))
    return s


@ext("cblas_daxpy")
def daxpy(E, n, a, x, ix, y, iy):
    for i, j in rng(E, n, ix, iy): st(E, y, j, fadd(ld(E, y, j), fmul(a, ld(E, x, i))))


@ext("cblas_daxpby", "catlas_daxpby")
def daxpby(E, n, a, x, ix, b, y, iy):
    for i, j in rng(E, n, ix, iy): st(E, y, j, fadd(fmul(b, ld(E, y, j)), fmul(a, ld(E, x, i))))


@ext("cblas_dcopy")
def dcopy(E, n, x, ix, y, iy):
    for i, j in rng(E, n, ix, iy): st(E, y, j, ld(E, x, i))


@ext("cblas_dswap")
def dswap(E, n, x, ix, y, iy):
    for i, j in rng(E, n, ix, iy):
        a, b = ld(E, x, i), ld(E, y, j)
        st(E, x, i, b); st(E, y, j, a)


@ext("cblas_dscal")
def dscal(E, n, a, x, ix):
    if type(a) is float and a == 0.0:
        # the installed BLAS (OpenBLAS) stores zeros for alpha = 0, whatever x holds
        for (i,) in rng(E, n, ix): st(E, x, i, 0.0)
        return
    for (i,) in rng(E, n, ix): st(E, x, i, fmul(a, ld(E, x, i)))


@ext("cblas_dnrm2")
def dnrm2(E, n, x, ix):
    s = 0.0
    for (i,) in rng(E, n, ix):
        v = ld(E, x, i)
        s = fadd(s, fmul(v, v))
    return f_sqrt(s)


@ext("cblas_dasum")
def dasum(E, n, x, ix):
    s = 0.0
    for (i,) in rng(E, n, ix): s = fadd(s, f_abs(ld(E, x, i)))
    return s


@ext("cblas_idamax")
def idamax(E, n, x, ix):
    best, bi = None, 0
    for k, (i,) in enumerate(rng(E, n, ix)):
        v = f_abs(ld(E, x, i))
        if best is None: best = v
        elif E.branch(fcmp("ogt", v, best)): best, bi = v, k
    return bi


@ext("cblas_dgemv")
def dgemv(E, order, trans, m, n, alpha, A, lda, x, ix, beta, y, iy):
    m, n, lda = E.conc(m), E.conc(n), E.conc(lda)
    ix, iy = E.conc(ix), E.conc(iy)
    tr = trans != 111
    row = order == 101
    rows, cols = (n, m) if tr else (m, n)
    if lda < max(1, (n if row else m)): E.err("check", "cblas_dgemv: leading dimension too small")
    ox, oy = off0(cols, ix), off0(rows, iy)
    res = []
    for r in range(rows):
        s = 0.0
        for c in range(cols):
            i, j = (c, r) if tr else (r, c)
            a = ld(E, A, i * lda + j if row else j * lda + i)
            s = fadd(s, fmul(a, ld(E, x, ox + c * ix)))
        s = fmul(alpha, s)
        if not (type(beta) is float and beta == 0.0):
            s = fadd(s, fmul(beta, ld(E, y, oy + r * iy)))
        res.append(s)
        # BLAS writes as it goes; aliasing of x and y is a caller error
    for r in range(rows): st(E, y, oy + r * iy, res[r])


@ext("cblas_dger")
def dger(E, order, m, n, alpha, x, ix, y, iy, A, lda):
    for i in range(m):
        for j in range(n):
            k = i * lda + j if order == 101 else j * lda + i
            st(E, A, k, fadd(ld(E, A, k), fmul(alpha, fmul(ld(E, x, i * ix), ld(E, y, j * iy)))))


@ext("cblas_dgemm")
def dgemm(E, order, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc):
    row = order == 101
    for i in range(m):
        for j in range(n):
            s = 0.0
            for l in range(k):
                ai, aj = (i, l) if ta == 111 else (l, i)
                bi, bj = (l, j) if tb == 111 else (j, l)
                a = ld(E, A, ai * lda + aj if row else aj * lda + ai)
                b = ld(E, B, bi * ldb + bj if row else bj * ldb + bi)
                s = fadd(s, fmul(a, b))
            c = i * ldc + j if row else j * ldc + i
            s = fmul(alpha, s)
            if not (type(beta) is float and beta == 0.0): s = fadd(s, fmul(beta, ld(E, C, c)))
            st(E, C, c, s)


# ================================================================ FFTW
REDFT00, REDFT01, REDFT10, REDFT11 = 3, 4, 5, 6   # fftw_r2r_kind values
_dct = {}


def dct_mat(kind, n):
    k = (kind, n)
    m = _dct.get(k)
    if m is None:
        if kind == REDFT10:
            m = [[2 * math.cos(math.pi * (j + 0.5) * i / n) for j in range(n)] for i in range(n)]
        elif kind == REDFT01:
            m = [[1.0 if j == 0 else 2 * math.cos(math.pi * j * (i + 0.5) / n) for j in range(n)] for i in range(n)]
        elif kind == REDFT11:
            m = [[2 * math.cos(math.pi * (j + 0.5) * (i + 0.5) / n) for j in range(n)] for i in range(n)]
        else:
            raise Unsupported("fftw kind %d" % kind)
        # exact zeros
        m = [[0.0 if abs(v) < 1e-14 else v for v in r] for r in m]
        _dct[k] = m
    return m


def new_plan(E, dims, kinds, i, o, flags=64):
    if should_fail(E): return NULL
    for d in dims:
        if type(d) is int and d <= 0: return NULL
    dims = [E.conc(d) for d in dims]
    tot = 1
    for d in dims: tot *= d
    for p in (i, o):
        E.access(p, 8 * tot, "fftw plan array")
    ob = E.new_obj(64, "plan", "fftw_plan#%d" % E.objser, 16)
    flags = E.conc(flags)
    if not flags & ((1 << 6) | (1 << 21)):   # a measuring planner overwrites its arrays (in practice with zeros)
        for p in (i, o):
            for k in range(tot): st(E, p, k, 0.0)
    ob.data = (dims, [E.conc(k) for k in kinds], i, o, bool(flags & 1))
    E.heap.append(ob)
    return Ptr(ob, 0)


@ext("fftw_plan_r2r_1d")
def fftw_plan_r2r_1d(E, n, i, o, k, flags): return new_plan(E, [n], [k], i, o, flags)


@ext("fftw_plan_r2r_2d")
def fftw_plan_r2r_2d(E, n0, n1, i, o, k0, k1, flags): return new_plan(E, [n0, n1], [k0, k1], i, o, flags)


@ext("fftw_plan_r2r")
def fftw_plan_r2r(E, rank, n, i, o, k, flags):
    dims = [E.load_i(gepc(n, 4 * a), 4, 32) for a in range(rank)]
    ks = [E.load_i(gepc(k, 4 * a), 4, 32) for a in range(rank)]
    return new_plan(E, dims, ks, i, o, flags)


def run_plan(E, pl, i, o):
    if pl is UNDEF: E.err("uninitialised", "fftw_execute on uninitialised plan")
    if pl.obj is None: E.err("memory", "fftw_execute on NULL plan")
    if pl.obj.kind != "plan": E.err("memory", "fftw_execute on a non-plan pointer")
    if not pl.obj.alive: E.err("memory", "fftw_execute on destroyed plan")
    dims, kinds, pi, po, destroy = pl.obj.data
    inplace_plan = pi.obj is po.obj and pi.off == po.off
    if i is None: i, o = pi, po
    elif (i.obj is o.obj and i.off == o.off) != inplace_plan:
        E.err("check", "fftw_execute_r2r: in-place-ness differs from the plan")
    else:
        # new-array execution requires the alignment the plan was made for
        if (X._addr(i) - X._addr(pi)) % 16 or (X._addr(o) - X._addr(po)) % 16:
            E.err("alignment", "fftw_execute_r2r: array alignment differs from the plan's")
    n = 1
    for d in dims: n *= d
    x = [ld(E, i, k) for k in range(n)]
    if len(dims) == 1:
        y = matvec(dct_mat(kinds[0], dims[0]), x)
    elif len(dims) == 2:
        a, b = dims
        M0, M1 = dct_mat(kinds[0], a), dct_mat(kinds[1], b)
        rows = [matvec(M1, x[r * b:(r + 1) * b]) for r in range(a)]
        y = [None] * n
        for c in range(b):
            col = matvec(M0, [rows[r][c] for r in range(a)])
            for r in range(a): y[r * b + c] = col[r]
    else:
        raise Unsupported("fftw rank")
    for k in range(n): st(E, o, k, y[k])
    if destroy and not inplace_plan:   # FFTW_DESTROY_INPUT
        for k in range(n): st(E, i, k, float("nan"))


def matvec(M, x):
    out = []
    for row in M:
        s = 0.0
        for a, v in zip(row, x): s = fadd(s, fmul(a, v))
        out.append(s)
    return out


@ext("fftw_execute")
def fftw_execute(E, pl): run_plan(E, pl, None, None)


@ext("fftw_execute_r2r")
def fftw_execute_r2r(E, pl, i, o): run_plan(E, pl, i, o)


@ext("fftw_destroy_plan")
def fftw_destroy_plan(E, pl):
    if pl is UNDEF: E.err("uninitialised", "fftw_destroy_plan on uninitialised plan")
    if pl.obj is None: return
    if pl.obj.kind != "plan": E.err("memory", "fftw_destroy_plan on a non-plan pointer")
    if not pl.obj.alive: E.err("memory", "fftw_destroy_plan called twice on a plan")
    pl.obj.alive = False


@ext("fftw_init_threads")
def fftw_init_threads(E): return 1


@ext("fftw_plan_with_nthreads", "fftw_cleanup", "fftw_cleanup_threads", "fftw_forget_wisdom", "fftw_set_timelimit",
     "fftw_make_planner_thread_safe")
def fftw_nop(E, *a): return None


@ext("fftw_malloc", "fftw_alloc_real")
def fftw_malloc(E, n): return malloc(E, n)


EXT["fftw_alloc_real"] = lambda E, n: malloc(E, 8 * n if type(n) is int else fromz(n * 8))
EXT["fftw_free"] = free


# ================================================================ OpenMP runtime
@ext("omp_get_max_threads", "omp_get_num_procs")
def omp_get_max_threads(E): return E.nthreads


@ext("omp_get_num_threads")
def omp_get_num_threads(E): return E.userdata.get("team", 1)


@ext("omp_get_thread_num")
def omp_get_thread_num(E):
    if E.race is not None: return E.race.thread_num()
    return E.userdata.get("tid", 0)


@ext("omp_in_parallel")
def omp_in_parallel(E): return 1 if E.userdata.get("team", 1) > 1 else 0


@ext("__kmpc_barrier")
def kmp_barrier(E, *a):
    if E.race is not None: E.race.barrier()


@ext("__kmpc_for_static_fini", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_8u")
def kmp_fini(E, *a):
    if E.race is not None: E.race.fini()


@ext("__kmpc_critical", "__kmpc_critical_with_hint")
def kmp_critical(E, loc, tid, lock, *a):
    if E.race is not None: E.race.lock(id(lock.obj))


@ext("__kmpc_end_critical", "__kmpc_end_reduce_nowait", "__kmpc_end_reduce")
def kmp_end_critical(E, *a):
    if E.race is not None: E.race.unlock()


@ext("omp_set_num_threads", "__kmpc_push_num_threads", "__kmpc_flush",
     "__kmpc_push_proc_bind", "omp_set_dynamic", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel",
     "__kmpc_end_master", "__kmpc_end_single", "__kmpc_end_masked", "omp_set_nested",
     "__kmpc_ordered", "__kmpc_end_ordered", "__kmpc_taskwait")
def kmp_nop(E, *a):
    return None


@ext("omp_get_wtime")
def omp_get_wtime(E): return 0.0


@ext("__kmpc_global_thread_num")
def kmpc_gtid(E, loc): return E.userdata.get("tid", 0)


@ext("__kmpc_master", "__kmpc_single", "__kmpc_masked")
def kmpc_master(E, loc, tid, *a): return 1 if E.userdata.get("tid", 0) == 0 else 0


@ext("__kmpc_fork_call")
def kmpc_fork(E, loc, n, fn, *args):
    if E.race is not None: raise Unsupported("parallel region inside a parallel region")
    mode = E.cfg.get("race")
    if mode and E.userdata.get("team", 1) == 1:
        import race
        if E.dpos >= len(E.prefix): race.analyse(E, fn, args)
        if mode == "sym": return       # sizes are symbolic: the region is analysed, not executed
    if E.userdata.get("team", 1) > 1:
        team, tids = 1, [0]
    else:
        team, tids = E.nthreads, range(E.nthreads)
    save = (E.userdata.get("team", 1), E.userdata.get("tid", 0))
    for t in tids:
        E.userdata["team"], E.userdata["tid"] = team, t
        g = E.new_obj(4, "stack", "gtid", 4)
        g.cells[0] = (4, t)
        b = E.new_obj(4, "stack", "btid", 4)
        b.cells[0] = (4, 0)
        E.icall(fn, (Ptr(g, 0), Ptr(b, 0)) + args)
    E.userdata["team"], E.userdata["tid"] = save


def static_init(E, plast, plb, pub, pst, incr, chunk, sched, size, signed):
    w = size * 8
    if E.race is not None and E.race.static_init(plb, pub, pst, plast, incr, size): return
    lb = E.conc(E.load_i(plb, size, w), 512)
    ub = E.conc(E.load_i(pub, size, w), 512)
    incr = E.conc(incr)
    T = E.userdata.get("team", 1)
    t = E.userdata.get("tid", 0)
    if incr > 0: trip = (ub - lb) // incr + 1 if ub >= lb else 0
    else: trip = (lb - ub) // (-incr) + 1 if lb >= ub else 0
    if sched == 33 or sched == 45:   # static chunked
        chunk = max(1, E.conc(chunk))
        nlb = lb + t * chunk * incr
        nub = nlb + (chunk - 1) * incr
        E.store(plb, size, nlb); E.store(pub, size, nub)
        E.store(pst, size, chunk * T * incr)
        last = trip > 0 and ((trip - 1) // chunk) % T == t
        if plast.obj is not None: E.store(plast, 4, int(last))
        return
    # static (34): contiguous blocks
    q, r = divmod(trip, T)
    a = t * q + min(t, r)
    c = q + (1 if t < r else 0)
    if c == 0:
        E.store(plb, size, ub + incr if incr > 0 else ub + incr)
        E.store(pub, size, ub)
        if plast.obj is not None: E.store(plast, 4, 0)
    else:
        E.store(plb, size, lb + a * incr)
        E.store(pub, size, lb + (a + c - 1) * incr)
        if plast.obj is not None: E.store(plast, 4, int(a + c == trip))
    E.store(pst, size, trip * incr if trip else incr)


@ext("__kmpc_for_static_init_4")
def fsi4(E, loc, gtid, sched, plast, plb, pub, pst, incr, chunk): static_init(E, plast, plb, pub, pst, incr, chunk, sched, 4, True)


@ext("__kmpc_for_static_init_4u")
def fsi4u(E, loc, gtid, sched, plast, plb, pub, pst, incr, chunk): static_init(E, plast, plb, pub, pst, incr, chunk, sched, 4, False)


@ext("__kmpc_for_static_init_8")
def fsi8(E, loc, gtid, sched, plast, plb, pub, pst, incr, chunk): static_init(E, plast, plb, pub, pst, incr, chunk, sched, 8, True)


@ext("__kmpc_for_static_init_8u")
def fsi8u(E, loc, gtid, sched, plast, plb, pub, pst, incr, chunk): static_init(E, plast, plb, pub, pst, incr, chunk, sched, 8, False)


@ext("__kmpc_dispatch_init_4", "__kmpc_dispatch_init_4u", "__kmpc_dispatch_init_8")
def dispatch_init(E, loc, gtid, sched, lb, ub, stx, chunk):
    if E.race is not None: return E.race.dispatch_init(lb, ub, 32)
    E.userdata["disp"] = [E.conc(lb), E.conc(ub), E.conc(stx), max(1, E.conc(chunk))]
    E.userdata.setdefault("dispshared", {})


@ext("__kmpc_dispatch_next_4", "__kmpc_dispatch_next_4u")
def dispatch_next(E, loc, gtid, plast, plb, pub, pst):
    if E.race is not None: return E.race.dispatch_next(plast, plb, pub, pst)
    # thread 0 executes everything (one legal schedule); races are decided separately
    d = E.userdata.get("disp")
    if d is None or E.userdata.get("tid", 0) != 0: return 0
    lb, ub, s, c = d
    if lb > ub: 
        E.userdata["disp"] = None
        return 0
    E.store(plb, 4, lb); E.store(pub, 4, min(ub, lb + c - 1)); E.store(pst, 4, s)
    d[0] = lb + c
    if plast.obj is not None: E.store(plast, 4, int(lb + c > ub))
    return 1


@ext("__kmpc_reduce_nowait", "__kmpc_reduce")
def kmpc_reduce(E, *a):
    if E.race is not None: E.race.lock("reduction")
    return 1


# ================================================================ misc
@ext("clock_gettime")
def clock_gettime(E, c, ts):
    E.store(ts, 8, 0); E.store(gepc(ts, 8), 8, 0)
    return 0


@ext("clock", "time")
def clock(E, *a): return 0


@ext("gettimeofday")
def gettimeofday(E, tv, tz):
    E.store(tv, 8, 0); E.store(gepc(tv, 8), 8, 0)
    return 0


@ext("getenv")
def getenv(E, n): return NULL


@ext("__errno_location")
def errno_loc(E):
    p = E.userdata.get("errno")
    if p is None:
        o = E.new_obj(4, "global", "errno", 4, fill=0)
        p = E.userdata["errno"] = Ptr(o, 0)
    return p


@ext("strerror")
def strerror(E, e):
    o = E.new_obj(6, "global", "strerror", 1, fill=0)
    for i, c in enumerate(b"error\0"): E.store(Ptr(o, i), 1, c)
    return Ptr(o, 0)
