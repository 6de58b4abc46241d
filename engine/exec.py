"""Symbolic executor: memory, arithmetic, forking, solver interface."""
import math
import struct
import time
import sys
from fractions import Fraction
import random
import z3
import values as V
from values import (UNDEF, Poly, Cond, cond_cmp, c_not, c_and, c_or, c_xor, c_z3, padd, psub, pmul, pneg, pscale,
                    to_poly, finish, recip_poly, mk_ite, mk_abs, mk_sqrt, frac, TooBig)
from codegen import CG, Unsupported
from ir import canon

BV = z3.BitVecRef
INF = float("inf")
NINF = -INF
NAN = float("nan")


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg
        super().__init__("%s: %s" % (kind, msg))


class Limit(Exception):
    pass


class Obj:
    __slots__ = ("addr", "size", "cells", "fill", "alive", "kind", "name", "fn", "ro", "align", "data", "serial")

    def __init__(self, addr, size, kind, name, fill=None):
        self.addr = addr
        self.size = size
        self.cells = {}
        self.fill = fill
        self.alive = True
        self.kind = kind
        self.name = name
        self.fn = None
        self.ro = False
        self.align = 1
        self.data = None
        self.serial = 0

    def __repr__(self):
        return "<%s %s size=%s>" % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "Ptr(%r,%s)" % (self.obj, self.off)


NULL = Ptr(None, 0)


class BitsOf:
    """a double (symbolic) carried in an integer register/cell"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class BoolInt:
    """integer 0/1 (or 0/-1 if neg) made from a condition"""
    __slots__ = ("c", "w")

    def __init__(self, c, w):
        self.c = c
        self.w = w

    def bv(self):
        return z3.If(V.cond_z(self.c), z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))


def bvval(x, w):
    t = type(x)
    if t is int:
        return z3.BitVecVal(x, w)
    if t is BoolInt:
        b = x.bv()
        if x.w < w: return z3.ZeroExt(w - x.w, b)
        if x.w > w: return z3.Extract(w - 1, 0, b)
        return b
    if t is bool:
        return z3.BitVecVal(int(x), w)
    if isinstance(x, BV):
        return x
    if t is Cond:
        return BoolInt(x, w).bv()
    raise Unsupported("integer operand %r" % (x,))


def fromz(b):
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return canon(b.as_long(), b.size())
    return b


E = None  # current engine


# ------------------------------------------------------------------ integer ops
def _nsw_ok(op, a, b, w):
    if op == "add":
        return z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
    if op == "sub":
        return z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
    return z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))


def make_arith(op, w, nsw):
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    m = (1 << w) - 1
    import operator
    py = {"add": operator.add, "sub": operator.sub, "mul": operator.mul}[op]

    def f(a, b):
        if type(a) is int and type(b) is int:
            r = py(a, b)
            if lo <= r <= hi:
                return r
            if nsw:
                E.ub("signed overflow: %d %s %d (i%d)" % (a, op, b, w))
            r &= m
            return r - m - 1 if r > hi else r
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == "mul" and ((type(a) is int and a == 0) or (type(b) is int and b == 0)):
            return 0
        za, zb = bvval(a, w), bvval(b, w)
        if op == "mul" and nsw and type(a) is not int and type(b) is not int:
            r = E.product(za, zb, w)
            if r is not None: return r
        if nsw:
            E.obligation(c_z3(_nsw_ok(op, za, zb, w)), "signed overflow in %s" % op, ub=True)
        return fromz(py(za, zb))
    return f


def u(x, w):
    return x & ((1 << w) - 1)


def make_div(op, w):
    def f(a, b):
        if a is UNDEF or b is UNDEF:
            E.err("uninitialised", "division on uninitialised value")
        if type(a) is int and type(b) is int:
            if b == 0:
                E.err("division", "integer division by zero")
            if op == "udiv":
                return canon(u(a, w) // u(b, w), w)
            if op == "urem":
                return canon(u(a, w) % u(b, w), w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if op == "sdiv":
                if q == 1 << (w - 1):
                    E.ub("signed overflow in sdiv")
                return canon(q, w)
            return canon(a - q * b, w)
        za, zb = bvval(a, w), bvval(b, w)
        E.obligation(c_z3(zb != 0), "integer division by zero", ub=True)
        if op == "sdiv":
            if type(a) is int and a >= 0 and type(b) is not int and w in (32, 64):
                r = E.quotient(a, zb, w)
                if r is not None: return r
            E.obligation(c_z3(z3.BVSDivNoOverflow(za, zb)), "signed overflow in sdiv", ub=True)
            return fromz(za / zb)
        if op == "srem":
            return fromz(z3.SRem(za, zb))
        if op == "udiv":
            return fromz(z3.UDiv(za, zb))
        return fromz(z3.URem(za, zb))
    return f


def make_bit(op, w):
    def f(a, b):
        if type(a) is int and type(b) is int:
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return canon(a ^ b, w)
            if op == "shl": return canon(a << u(b, w), w) if u(b, w) < w else UNDEF
            if op == "lshr": return canon(u(a, w) >> u(b, w), w) if u(b, w) < w else UNDEF
            if op == "ashr": return a >> u(b, w) if u(b, w) < w else UNDEF
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is bool: a = int(a)
        if type(b) is bool: b = int(b)
        if op == "and":
            if (type(a) is int and a == 0) or (type(b) is int and b == 0):
                return 0
            if type(a) is BoolInt and type(b) is BoolInt:
                return BoolInt(c_and(a.c, b.c), w)
            if type(a) is BoolInt and type(b) is int and b & 1: return a
        elif op == "or":
            if type(b) is int and b == 0: return a
            if type(a) is int and a == 0: return b
            if type(a) is BoolInt and type(b) is BoolInt:
                return BoolInt(c_or(a.c, b.c), w)
        elif op == "xor":
            if type(a) is BoolInt and type(b) is BoolInt:
                return BoolInt(c_xor(a.c, b.c), w)
            if type(a) is BoolInt and type(b) is int and b == 1:
                return BoolInt(c_not(a.c), w)
        if type(a) is BitsOf or type(b) is BitsOf:
            # sign manipulation on the bits of a double
            x, k = (a, b) if type(a) is BitsOf else (b, a)
            if type(k) is int:
                if op == "and" and u(k, 64) == (1 << 63) - 1: return BitsOf(f_abs(x.v))
                if op == "xor" and u(k, 64) == 1 << 63: return BitsOf(fneg(x.v))
                if op == "and" and u(k, 64) == (1 << 64) - 1: return x
            raise Unsupported("bit operation on symbolic double")
        za, zb = bvval(a, w), bvval(b, w)
        r = {"and": lambda: za & zb, "or": lambda: za | zb, "xor": lambda: za ^ zb, "shl": lambda: za << zb,
             "lshr": lambda: z3.LShR(za, zb), "ashr": lambda: za >> zb}[op]()
        return fromz(r)
    return f


def asb(x):
    if x is True or x is False or type(x) is Cond: return x
    if x is UNDEF: return x
    if type(x) is int: return bool(x & 1)
    if type(x) is BoolInt: return x.c
    raise Unsupported("i1 %r" % (x,))


def and_1(a, b):
    a, b = asb(a), asb(b)
    if a is False or b is False: return False
    if a is UNDEF or b is UNDEF: return UNDEF
    return c_and(a, b)


def or_1(a, b):
    a, b = asb(a), asb(b)
    if a is True or b is True: return True
    if a is UNDEF or b is UNDEF: return UNDEF
    return c_or(a, b)


def xor_1(a, b):
    a, b = asb(a), asb(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    return c_xor(a, b)


add_1 = sub_1 = xor_1
mul_1 = and_1


def _ic(op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    # BoolInt fast paths
    if type(a) is BoolInt and type(b) is int:
        t = {"eq": 1 == b, "ne": 1 != b, "slt": 1 < b, "sle": 1 <= b, "sgt": 1 > b, "sge": 1 >= b}[op]
        f = {"eq": 0 == b, "ne": 0 != b, "slt": 0 < b, "sle": 0 <= b, "sgt": 0 > b, "sge": 0 >= b}[op]
        if t == f: return t
        return a.c if t else c_not(a.c)
    if type(b) is BoolInt and type(a) is int:
        sw = {"eq": "eq", "ne": "ne", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}[op]
        return _ic(sw, b, a)
    if type(a) in (bool, Cond) or type(b) in (bool, Cond):
        a, b = asb(a), asb(b)
        x = c_xor(a, b)
        return c_not(x) if op == "eq" else x
    if isinstance(a, BV): w = a.size()
    elif isinstance(b, BV): w = b.size()
    elif type(a) is BoolInt: w = a.w
    elif type(a) is BitsOf or type(b) is BitsOf:
        x, y = E.unbits(a), E.unbits(b)
        r = fcmp("oeq", x, y)
        return r if op == "eq" else c_not(r)
    else: w = b.w
    za, zb = bvval(a, w), bvval(b, w)
    return c_z3({"eq": za == zb, "ne": za != zb, "slt": za < zb, "sle": za <= zb, "sgt": za > zb, "sge": za >= zb}[op])


def icmp_eq(a, b):
    if type(a) is int and type(b) is int: return a == b
    return _ic("eq", a, b)


def icmp_ne(a, b):
    if type(a) is int and type(b) is int: return a != b
    return _ic("ne", a, b)


def icmp_slt(a, b):
    if type(a) is int and type(b) is int: return a < b
    return _ic("slt", a, b)


def icmp_sle(a, b):
    if type(a) is int and type(b) is int: return a <= b
    return _ic("sle", a, b)


def icmp_sgt(a, b):
    if type(a) is int and type(b) is int: return a > b
    return _ic("sgt", a, b)


def icmp_sge(a, b):
    if type(a) is int and type(b) is int: return a >= b
    return _ic("sge", a, b)


def _iu(op, a, b, w):
    if type(a) is int and type(b) is int:
        a, b = u(a, w), u(b, w)
        return {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[op]
    if a is UNDEF or b is UNDEF: return UNDEF
    za, zb = bvval(a, w), bvval(b, w)
    return c_z3({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[op](za, zb))


def icmp_ult(a, b, w): return _iu("ult", a, b, w)
def icmp_ule(a, b, w): return _iu("ule", a, b, w)
def icmp_ugt(a, b, w): return _iu("ugt", a, b, w)
def icmp_uge(a, b, w): return _iu("uge", a, b, w)


def _addr(p):
    if p is UNDEF: return UNDEF
    if p.obj is None: return p.off
    if type(p.off) is int:
        return p.obj.addr + p.off
    return fromz(z3.BitVecVal(p.obj.addr, 64) + p.off)


def _pc(op, a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    x, y = _addr(a), _addr(b)
    if op[0] == "u": return _iu(op, x, y, 64)
    return {"eq": icmp_eq, "ne": icmp_ne, "slt": icmp_slt, "sgt": icmp_sgt, "sle": icmp_sle, "sge": icmp_sge}[op](x, y)


def pcmp_eq(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a.obj is b.obj and type(a.off) is int and type(b.off) is int:
        return a.off == b.off
    return _pc("eq", a, b)


def pcmp_ne(a, b): return notb(pcmp_eq(a, b))


def notb(x):
    if x is UNDEF: return UNDEF
    return c_not(x)


def pcmp_ult(a, b): return _pc("ult", a, b)
def pcmp_ule(a, b): return _pc("ule", a, b)
def pcmp_ugt(a, b): return _pc("ugt", a, b)
def pcmp_uge(a, b): return _pc("uge", a, b)
def pcmp_slt(a, b): return _pc("slt", a, b)


def gepc(p, c):
    if p is UNDEF: E.err("uninitialised", "pointer arithmetic on uninitialised pointer")
    o = p.off
    return Ptr(p.obj, o + c if type(o) is int else fromz(o + c))


def _idx64(i):
    if type(i) is int: return i
    if i is UNDEF: E.err("uninitialised", "uninitialised value used as index")
    if type(i) is BoolInt: return fromz(bvval(i, 64))
    if i.size() < 64: return fromz(z3.SignExt(64 - i.size(), i))
    return i


def gep1(p, c, i, s):
    if type(i) is int and p is not UNDEF:
        o = p.off
        if type(o) is int:
            return Ptr(p.obj, o + c + i * s)
    if p is UNDEF: E.err("uninitialised", "pointer arithmetic on uninitialised pointer")
    i = _idx64(i)
    r = (bvval(p.off, 64) + bvval(i, 64) * s + c)
    return Ptr(p.obj, fromz(r))


def gepn(p, c, terms):
    for i, s in terms:
        p = gep1(p, 0, i, s)
    return gepc(p, c) if c else p


# ------------------------------------------------------------------ casts
def cast_sext(x, w1, w2):
    if type(x) is int:
        return x
    if x is UNDEF: return UNDEF
    if w1 == 1:
        x = asb(x)
        if x is True: return -1
        if x is False: return 0
        return fromz(z3.If(V.cond_z(x), z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2)))
    if type(x) is BoolInt: return BoolInt(x.c, w2)
    r = fromz(z3.SignExt(w2 - w1, bvval(x, w1)))
    if type(r) is not int: E.sext_of[r.get_id()] = (r, x, w1)
    return r


def cast_zext(x, w1, w2):
    if type(x) is int:
        return x if x >= 0 else x + (1 << w1)
    if x is UNDEF: return UNDEF
    if w1 == 1:
        x = asb(x)
        if x is True: return 1
        if x is False: return 0
        return BoolInt(x, w2)
    if type(x) is BoolInt: return BoolInt(x.c, w2)
    return fromz(z3.ZeroExt(w2 - w1, bvval(x, w1)))


def cast_trunc(x, w1, w2):
    if w2 == 1:
        if x is UNDEF: return UNDEF
        if type(x) is int: return bool(x & 1)
        if type(x) is BoolInt: return x.c
        return c_z3(z3.Extract(0, 0, bvval(x, w1)) == 1)
    if type(x) is int:
        return canon(x, w2)
    if x is UNDEF: return UNDEF
    if type(x) is BoolInt: return BoolInt(x.c, w2)
    return fromz(z3.Extract(w2 - 1, 0, bvval(x, w1)))


def cast_sitofp(x, w1, w2, signed=True):
    if type(x) is int:
        return float(x if signed else u(x, w1))
    if x is UNDEF: return UNDEF
    if type(x) in (bool, Cond, BoolInt):
        c = asb(x)
        if w1 == 1 and signed:
            return select(c, -1.0, 0.0, 0)
        return select(c, 1.0, 0.0, 0)
    a = V.REG.get("i2r", (x.get_id(), signed), ())
    a.extra = (x, signed)
    return V.atom_poly(a)


def cast_uitofp(x, w1, w2):
    return cast_sitofp(x, w1, w2, False)


def cast_fptosi(x, w1, w2, signed=True):
    if x is UNDEF: return UNDEF
    if type(x) is float:
        if x != x or x in (INF, NINF):
            E.ub("float to int conversion of non-finite value")
            return canon(1 << (w2 - 1), w2)
        t = math.trunc(x)
        if signed and not (-(1 << (w2 - 1)) <= t < (1 << (w2 - 1))):
            E.ub("float to int conversion out of range")
        return canon(t, w2)
    # symbolic: an i2r atom converts back exactly
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = V.REG.atoms[m[0][0]]
            if a.kind == "i2r" and a.extra[0].size() == w2:
                return a.extra[0]
    if x.is_const():
        return canon(math.trunc(x.const()), w2)
    return E.real_to_int(x, w2)


def cast_fptoui(x, w1, w2): return cast_fptosi(x, w1, w2, False)
def cast_fpext(x, w1, w2): return x


def cast_fptrunc(x, w1, w2):
    if type(x) is float and w2 == 32:
        try:
            return struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError:
            return math.copysign(INF, x)
    return x


# ------------------------------------------------------------------ double ops
def fadd(a, b):
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return a + b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if ta is float:
        if a == 0.0: return b
        if a - a != 0.0: return a
        r = finish(padd(b, to_poly(a)))
        if a > 0 and type(r) is Poly and V.is_nn(b): r.nn = True
        return r
    if tb is float:
        if b == 0.0: return a
        if b - b != 0.0: return b
        r = finish(padd(a, to_poly(b)))
        if b > 0 and type(r) is Poly and V.is_nn(a): r.nn = True
        return r
    r = finish(padd(a, b))
    if type(r) is Poly and V.is_nn(a) and V.is_nn(b): r.nn = True
    return r


def fsub(a, b):
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return a - b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if ta is float:
        if a - a != 0.0: return a
        return finish(psub(to_poly(a), b))
    if tb is float:
        if b == 0.0: return a
        if b - b != 0.0: return -b
        return finish(psub(a, to_poly(b)))
    return finish(psub(a, b))


def fneg(a):
    if type(a) is float: return -a
    if a is UNDEF: return a
    return pneg(a)


def fmul(a, b):
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return a * b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if tb is float:
        a, b, ta, tb = b, a, tb, ta
    if ta is float:
        if a == 1.0: return b
        if a == 0.0: return 0.0
        if a - a != 0.0:
            if a != a: return a
            if E.branch(cond_cmp("==", b)): return NAN
            return a if E.branch(cond_cmp(">", b)) else -a
        r = finish(pscale(b, frac(a)))
        if a > 0 and b.nn and type(r) is Poly: r.nn = True
        return E.post_mul(r)
    r = finish(pmul(a, b))
    if type(r) is Poly and (a is b or a == b or V.is_nn(a) and V.is_nn(b)): r.nn = True
    return E.post_mul(r)


def fdiv(a, b):
    ta, tb = type(a), type(b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if tb is float:
        if ta is float:
            if b == 0.0:
                if a == 0.0 or a != a: return NAN
                return math.copysign(INF, a) * math.copysign(1.0, b)
            try:
                return a / b
            except OverflowError:
                return math.copysign(INF, a) * math.copysign(1.0, b)
        if b == 0.0:
            if E.branch(cond_cmp("==", a)): return NAN
            return INF if E.branch(cond_cmp(">", a)) else NINF
        if b != b: return b
        if b - b != 0.0: return 0.0
        r = finish(pscale(a, 1 / frac(b)))
        if b > 0 and a.nn and type(r) is Poly: r.nn = True
        return r
    if E.branch(cond_cmp("==", b)):
        # b == 0 on this path (sign of zero unknown: +0)
        return fdiv(a, 0.0)
    if ta is float:
        if a == 0.0: return 0.0
        if a - a != 0.0:
            if a != a: return a
            return a if E.branch(cond_cmp(">", b)) else -a
        return finish(pscale(recip_poly(b), frac(a)))
    q = V.exact_div(a, b) if len(b.t) <= 60 and len(a.t) <= 400 else None
    r = finish(q if q is not None else pmul(a, recip_poly(b)))
    if type(r) is Poly and V.is_nn(a) and V.is_nn(b): r.nn = True
    return r


def frem(a, b):
    if type(a) is float and type(b) is float:
        try: return math.fmod(a, b)
        except ValueError: return NAN
    raise Unsupported("frem on symbolic")


_neg = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def fcmp(pr, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if pr == "true": return True
    if pr == "false": return False
    ta, tb = type(a), type(b)
    ordered = pr[0] == "o"
    if ta is float and tb is float:
        nan = a != a or b != b
        if pr == "ord": return not nan
        if pr == "uno": return nan
        if nan: return not ordered
        k = pr[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[k]
    if ta is float and a - a != 0.0 or tb is float and b - b != 0.0:
        x, y = (a if ta is float else 0.0), (b if tb is float else 0.0)
        nan = x != x or y != y
        if pr == "ord": return not nan
        if pr == "uno": return nan
        if nan: return not ordered
        k = pr[1:]
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": False, "ne": True}[k]
    if pr == "ord": return True
    if pr == "uno": return False
    if ta is float: a = to_poly(a)
    if tb is float: b = to_poly(b)
    sa, sb = _sqrt_of(a), _sqrt_of(b)
    if sa is not None or sb is not None:
        # compare squares where both sides are known non-negative
        if sa is None and _cnn(a): sa = pmul(a, a)
        if sb is None and _cnn(b): sb = pmul(b, b)
        if sa is not None and sb is not None: a, b = sa, sb
    if not b.t and a.nn or not a.t and b.nn:
        k = pr[1:]
        if not b.t and k in ("lt", "ge"): return k == "ge"
        if not a.t and k in ("gt", "le"): return k == "le"
    return cond_cmp(_neg[pr[1:]], psub(a, b))


def _cnn(p):
    return p.const() >= 0 if p.is_const() else V.is_nn(p)


def _sqrt_of(p):
    """p = c*sqrt(q) with c > 0: returns c^2 q"""
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if c <= 0 or len(m) != 1 or m[0][1] != 1: return None
    a = V.REG.atoms[m[0][0]]
    if a.kind != "sqrt": return None
    return pscale(a.args[0], c * c)


def select(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if c is UNDEF: E.err("uninitialised", "select on uninitialised value")
    k = E.known.get(c.key())
    if k is not None:
        return a if k else b
    ta, tb = type(a), type(b)
    if ta is tuple:
        return tuple(select(c, x, y, w) for x, y in zip(a, b))
    if ta in (float, Poly) or tb in (float, Poly):
        if E.fork_select and not (ta is float and tb is float and a == b): return a if E.branch(c) else b
        try:
            return mk_ite(c, a, b)
        except V.Special:
            return a if E.branch(c) else b
    if ta is Ptr or tb is Ptr:
        if ta is Ptr and tb is Ptr and a.obj is b.obj and type(a.off) is int and a.off == b.off:
            return a
        return a if E.branch(c) else b
    if w == 1:
        a, b = asb(a), asb(b)
        if a is UNDEF or b is UNDEF:
            return a if E.branch(c) else b
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if a is UNDEF or b is UNDEF:
        return a if E.branch(c) else b
    if ta is int and tb is int and a == 1 and b == 0: return BoolInt(c, w)
    if ta is int and tb is int and a == 0 and b == 1: return BoolInt(c_not(c), w)
    if ta is int and tb is int and a == b: return a
    if ta is BitsOf or tb is BitsOf:
        return a if E.branch(c) else b
    return fromz(z3.If(V.cond_z(c), bvval(a, w), bvval(b, w)))


def f_abs(x):
    if type(x) is float: return abs(x)
    if x is UNDEF: return x
    if x.is_const(): return finish(Poly({(): abs(x.const())}))
    if E.fork_select: return x if E.branch(fcmp("oge", x, 0.0)) else fneg(x)
    return mk_abs(x)


def f_sqrt(x):
    if type(x) is float:
        if x != x: return x
        if x < 0: return NAN
        if x == INF: return x
        return math.sqrt(x)
    if x is UNDEF: return x
    q = V.poly_root(x)
    if q is not None: return q if E.branch(cond_cmp(">=", q)) else pneg(q)
    if not x.nn and E.branch(cond_cmp("<", x)): return NAN
    return finish(mk_sqrt(x))


def f_log(x):
    if type(x) is float:
        if x != x: return x
        if x < 0: return NAN
        if x == 0: return NINF
        if x == INF: return x
        return math.log(x)
    if x is UNDEF: return x
    if E.branch(cond_cmp("<", x)): return NAN
    if E.branch(cond_cmp("==", x)): return NINF
    return log_poly(x)


def log_poly(p):
    """log of Poly known > 0; products of positive atoms are not split (kept canonical)"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        # exp(q) -> q
        if c == 1 and len(m) == 1 and m[0][1] == 1 and V.REG.atoms[m[0][0]].kind == "exp":
            return V.REG.atoms[m[0][0]].args[0]
    a = V.REG.get("log", p.key(), (p,))
    return V.atom_poly(a)


def f_exp(x):
    if type(x) is float:
        if x != x: return x
        try: return math.exp(x)
        except OverflowError: return INF
    if x is UNDEF: return x
    # exp(log(p)/k) -> k-th root of p ; exp(log p) -> p ; exp(c*log p + c' log q)
    num = Fraction(1)
    ok = True
    rs = []
    for m, c in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and V.REG.atoms[m[0][0]].kind == "log":
            rs.append((V.REG.atoms[m[0][0]].args[0], c))
        else:
            ok = False
    if ok and rs:
        r = to_poly(1.0)
        for p, c in rs:
            base = p if c > 0 else recip_poly(p)
            c = abs(c)
            # floating 1/k coefficients: recover small rational
            cr = c.limit_denominator(1000)
            if abs(cr - c) > Fraction(1, 10**14):
                ok = False
                break
            r = pmul(r, root_poly(V.ppow(base, cr.numerator), cr.denominator))
        if ok:
            return finish(r)
    a = V.REG.get("exp", x.key(), (x,))
    return V.atom_poly(a)


def root_poly(p, k):
    if k == 1: return p
    if k == 2: return to_poly(mk_sqrt(p))
    if p.is_const():
        c = float(p.const()) ** (1.0 / k)
        return to_poly(c)
    a = V.REG.get("root", (p.key(), k), (p,))
    a.extra = k
    return V.atom_poly(a)


def f_pow(x, y):
    if type(x) is float and type(y) is float:
        try: return math.pow(x, y)
        except OverflowError: return INF
        except (ValueError, ZeroDivisionError): return NAN if x < 0 else INF
    if x is UNDEF or y is UNDEF: return UNDEF
    if type(y) is float and y == int(y) and abs(y) <= 16:
        n = int(y)
        r = 1.0
        for _ in range(abs(n)): r = fmul(r, x)
        return r if n >= 0 else fdiv(1.0, r)
    if type(y) is float and y == 0.5: return f_sqrt(x)
    # x > 0: exp(y*log(x))
    return f_exp(fmul(y, f_log(x)))


def vecop(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))


def insertval(a, v, idx):
    a = list(a)
    if len(idx) == 1:
        a[idx[0]] = v
    else:
        a[idx[0]] = insertval(a[idx[0]], v, idx[1:])
    return tuple(a)


def shuffle(a, b, m):
    n = len(a)
    return tuple(UNDEF if i is UNDEF else (a[i] if i < n else b[i - n]) for i in m)


def bitseq(a, b):
    if type(a) is int and type(b) is int: return a == b
    if type(a) is BitsOf and type(b) is BitsOf and a.v == b.v: return True
    return icmp_eq(a, b)


# ------------------------------------------------------------------ linking
class Lazy:
    __slots__ = ("link", "mod", "name", "fn")

    def __init__(self, link, mod, name):
        self.link = link
        self.mod = mod
        self.name = name
        self.fn = None

    def __call__(self, *a, **k):
        fn = self.fn
        if fn is None:
            fn = self.fn = self.link.resolve_callable(self.mod, self.name)
        return fn(*a, **k)


DEFAULT_OVERRIDES = {}


def vec4_log(E, p):
    """Vec4d logarithm of the vendored vector class library (bit tricks and a rational approximation): modelled as log per lane"""
    return tuple(f_log(E.load_f(gepc(p, 8 * i))) for i in range(4))


DEFAULT_OVERRIDES["_ZN3vclL3logERKNS_5Vec4dE"] = vec4_log


class Link:
    def __init__(self, mods, externs, overrides=None):
        self.mods = mods
        self.modidx = {id(m): i for i, m in enumerate(mods)}
        self.externs = externs
        self.overrides = dict(DEFAULT_OVERRIDES)
        self.overrides.update(overrides or {})
        self.defs = {}
        self.gdefs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if f.lines is not None and not f.internal:
                    self.defs.setdefault(n, (m, f))
            for n, g in m.globals.items():
                if not g[3] and g[1] is not None:
                    self.gdefs.setdefault(n, (m, g))
        self.compiled = {}
        self.lazies = {}
        self.fobjs = {}
        self.missing = set()

    def find(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and f.lines is not None and f.internal:
            return mod, f
        return self.defs.get(name)

    def is_defined(self, mod, name):
        return self.find(mod, name) is not None

    def callable(self, mod, name):
        k = (id(mod), name)
        l = self.lazies.get(k)
        if l is None:
            l = self.lazies[k] = Lazy(self, mod, name)
        return l

    def resolve_callable(self, mod, name):
        if name[1:] in self.overrides:
            fn = self.overrides[name[1:]]
            return lambda *a, **k: fn(E, *a, **k)
        r = self.find(mod, name)
        if r is None:
            a = mod.aliases.get(name)
            if a is not None and a[0] == "glob":
                return self.resolve_callable(mod, a[1])
            fn = self.externs.get(name[1:])
            if fn is None:
                def bad(*a, **k):
                    E.unsupported("call to unknown external function " + name)
                return bad
            return lambda *a, **k: fn(E, *a, **k)
        return self.compile(*r)

    def compile(self, mod, f):
        k = (id(mod), f.name)
        fn = self.compiled.get(k)
        if fn is None:
            cg = CG(self, mod, f)
            src = cg.generate()
            ns = dict(NS)
            ns.update(cg.ns)
            ns["E"] = E
            ns["MODI"] = self.modidx[id(mod)]
            ns["FNAME"] = f.name[1:]
            ns["branch"] = E.branch
            ns["load_f"] = E.load_f
            ns["load_p"] = E.load_p
            ns["load_i"] = E.load_i
            ns["store"] = E.store
            try:
                exec(compile(src, "<%s>" % f.name, "exec"), ns)
            except SyntaxError as e:
                raise Unsupported("codegen %s: %s\n%s" % (f.name, e, src))
            fn = self.compiled[k] = ns["F"]
        return fn


NS = dict(UNDEF=UNDEF, NULL=NULL, NAN=NAN, INF=INF, NINF=NINF)
for _n in ("fadd fsub fmul fdiv frem fneg fcmp select vecop insertval shuffle bitseq gepc gep1 gepn and_1 or_1 xor_1 add_1 "
           "sub_1 mul_1 icmp_eq icmp_ne icmp_slt icmp_sle icmp_sgt icmp_sge icmp_ult icmp_ule icmp_ugt icmp_uge "
           "pcmp_eq pcmp_ne pcmp_ult pcmp_ule pcmp_ugt pcmp_uge pcmp_slt cast_sext cast_zext cast_trunc cast_sitofp "
           "cast_uitofp cast_fptosi cast_fptoui cast_fpext cast_fptrunc").split():
    NS[_n] = globals()[_n]
for _w in (8, 16, 32, 64, 128):
    for _o in ("add", "sub", "mul"):
        NS["%s_%d" % (_o, _w)] = make_arith(_o, _w, False)
        NS["%s_%d_nsw" % (_o, _w)] = make_arith(_o, _w, True)
    for _o in ("sdiv", "udiv", "srem", "urem"):
        NS["%s_%d" % (_o, _w)] = make_div(_o, _w)
    for _o in ("and", "or", "xor", "shl", "lshr", "ashr"):
        NS["%s_%d" % (_o, _w)] = make_bit(_o, _w)


class Assertion:
    __slots__ = ("cond", "label", "kind", "diff", "tol")

    def __init__(self, cond, label, kind="check", diff=None, tol=None):
        self.cond = cond
        self.label = label
        self.kind = kind
        self.diff = diff
        self.tol = tol


class Sample(dict):
    """a random assignment of the real inputs, drawn on demand"""
    def __init__(self, k, seed):
        self.k = k
        self.rng = random.Random(k * 7919 + seed)
        self.memo = {}
        self.pos = 0
        self.alive = True

    def reset(self):
        self.pos = 0
        self.alive = True

    def __contains__(self, i):
        return V.REG.atoms[i].kind == "in"

    def __missing__(self, i):
        lo, hi = V.REG.atoms[i].extra
        lo = -10.0 if lo is None else float(lo)
        hi = 10.0 if hi is None else float(hi)
        k = self.rng.random()
        if self.k % 3 == 0 or k < 0.6: v = self.rng.uniform(lo, hi)
        elif k < 0.8: v = min(hi, max(lo, self.rng.uniform(-1, 1)))
        else: v = min(hi, max(lo, float(self.rng.randint(-2, 2))))
        v = round(v, 6)
        if not lo <= v <= hi: v = lo
        self[i] = v
        return v

    def true(self, c):
        try:
            return V.eval_cond(c, self, self.memo) is True and self.margin(c)
        except (NotImplementedError, ZeroDivisionError, OverflowError, ValueError, AttributeError):
            return False

    def margin(self, c):
        """not decided by rounding"""
        o = c.op
        if o in ("<0", "<=0"): return V.eval_float(c.a, self, self.memo) < -1e-9
        if o == "==0": return len(c.a.t) == 1
        if o == "not": return c.a.op != "==0" or abs(V.eval_float(c.a.a, self, self.memo)) > 1e-9
        if o == "and": return all(self.margin(x) for x in c.a)
        return True

    def ok(self, pc):
        if not self.alive: return False
        while self.pos < len(pc):
            c = pc[self.pos]
            if c is not True and not self.true(c):
                self.alive = False
                return False
            self.pos += 1
        return True

    def values(self):
        return dict(self)


class Engine:
    def __init__(self, mods, externs, cfg):
        global E
        E = self
        import values
        values.reset_registry()
        self.cfg = cfg
        self.link = Link(mods, externs, cfg.get("overrides"))
        self.params = cfg.get("params", {})
        self.tol = Fraction(cfg.get("tol", "1e-7"))
        self.stats = dict(paths=0, feasible=0, queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, asserts=0,
                          normalised=0, steps=0, forks=0, trivial=0)
        self.functions = set()
        self.reached = {}
        self.max_steps = cfg.get("max_steps", 2000000)
        self.max_paths = cfg.get("max_paths", 4000)
        self.t0 = time.time()
        self.deadline = self.t0 + cfg.get("job_timeout", 300)
        self.fork_select = bool(cfg.get("fork_select"))   # one path per case of a conditional value instead of an if-then-else term
        self.branch_timeout = cfg.get("branch_timeout", 2000)
        self.assert_timeout = cfg.get("assert_timeout", 20000)
        self.findings = []
        self.undecided = []
        self.atomic = False
        self.race = None
        self.models = []
        self.worst = 0.0
        self.sat_witnesses = []
        self.nthreads = cfg.get("nthreads", 2)
        self.align_check = True
        self.query_log = []
        self.spool = []
        self.spath = None
        self._cvars = {}
        self._mono = {}
        self._clear = {}
        self.sext_of = {}
        self.muls = {}        # (id, id) -> (var, a, b)
        self.divs = {}        # (constant, id) -> (var, constant, b)
        self.muldef = {}      # name -> (definition, lemmas, names it depends on)
        self._zvars = {}

    # ------------------------------------------------------------- path control
    def reset_path(self, prefix):
        self.prefix = prefix
        self.dpos = 0
        self.decisions = []
        self.pc = []
        self.known = {}
        self.asserts = []
        self.idents = []
        self.inputs = []      # (kind, name, value)
        self.gobjs = {}
        self.heap = []
        self.next_addr = 0x10000000
        self.steps = 0
        self.vacur = []
        self.depth = 0
        self.fault = None
        self.nalloc = 0
        self.nalloc_total = 0
        self.outcount = 0
        self.env = None
        self.path_reach = []
        self.objser = 0
        self.by_addr = []
        self.userdata = {}
        self.addr_sorted = []
        self.real_n = 0
        self.feas_unknown = False
        self.errno = 0

    def run_all(self, entry="main"):
        work = [[]]
        fn = None
        while work:
            if self.stats["paths"] >= self.max_paths:
                self.undecided.append("path limit %d reached" % self.max_paths)
                break
            if time.time() > self.deadline:
                self.undecided.append("job time limit reached")
                break
            prefix = work.pop()
            self.reset_path(prefix)
            self.new_work = []
            self.stats["paths"] += 1
            try:
                fn = self.link.resolve_callable(self.link.mods[0], "@" + entry)
                fn()
                self.end_path()
            except PathEnd:
                self.stats.setdefault("cut", 0)
                self.stats["cut"] += 1
            except Violation as v:
                self.report_violation(v)
            except Limit as e:
                if "loop iterations" in str(e):
                    self.report_violation(Violation("termination", str(e)))
                else:
                    self.undecided.append("limit: %s" % e)
            except Unsupported as e:
                self.undecided.append("unsupported: %s" % e)
            except TooBig as e:
                self.undecided.append("too big: %s" % e)
            except RecursionError:
                self.undecided.append("python recursion limit")
            work.extend(self.new_work)
            if len(self.findings) >= self.cfg.get("max_findings", 3):
                break
        return self

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("loop iterations > %d" % self.max_steps)
        if not (self.steps & 1023) and time.time() > self.deadline:
            raise Limit("job time limit")

    def enter(self, name):
        self.functions.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Limit("call depth")

    def leave(self, fr, v=None):
        self.depth -= 1
        for o in fr:
            o.alive = False
        return v

    def unsupported(self, m):
        raise Unsupported(m)

    def unreachable(self):
        raise PathEnd()

    def err(self, kind, msg):
        raise Violation(kind, msg)

    def ub(self, msg):
        raise Violation("ub", msg)

    # ------------------------------------------------------------- solver
    def gather(self, conds):
        """atoms closure, negative-exponent atoms, for a list of Cond"""
        seen = set()
        neg = set()
        polys = []
        stack = []

        def add_cond(c):
            if c is True or c is False: return
            st = [c]
            while st:
                x = st.pop()
                if x is True or x is False: continue
                if x.op in ("<0", "<=0", "==0"): stack.append(x.a)
                elif x.op == "not": st.append(x.a)
                elif x.op in ("and", "or"): st.extend(x.a)
                elif x.op == "z3":
                    for nm in self.z3_consts(x.a):
                        a = V.ATOMZ.get(nm)
                        if a is None: continue
                        if nm.startswith("inv_"): neg.add(a.id)
                        if a.id not in seen:
                            seen.add(a.id)
                            for y in a.args:
                                if type(y) is Poly: stack.append(y)
                                elif type(y) is Cond: st.append(y)
        for c in conds:
            add_cond(c)
        done = set()
        while stack:
            p = stack.pop()
            if id(p) in done: continue
            done.add(id(p))
            polys.append(p)
            for m in p.t:
                for (i, e) in m:
                    if e < 0: neg.add(i)
                    if i not in seen:
                        seen.add(i)
                        a = V.REG.atoms[i]
                        for x in a.args:
                            if type(x) is Poly: stack.append(x)
                            elif type(x) is Cond: add_cond(x)
        return seen, neg

    def build(self, conds):
        seen, neg = self.gather(conds)
        cs = []
        for i in sorted(seen):
            a = V.REG.atoms[i]
            if a.kind == "recip":
                pass
            cs.extend(V.atom_defs(a)[0])
        for i in sorted(neg):
            cs.append(V.inv_def(V.REG.atoms[i]))
        for c in conds:
            cs.append(V.cond_z(c))
        return cs, seen

    def query(self, conds, timeout, want_model=False):
        """check satisfiability of conjunction. returns ('sat',env)/('unsat',None)/('unknown',None)"""
        cl = []
        for c in conds:
            if c is False:
                self.stats["trivial"] += 1
                return "unsat", None
            if c is not True:
                cl.append(c)
        t = time.time()
        self.stats["queries"] += 1
        if self.linear_unsat(cl):
            self.stats["solver_s"] += time.time() - t
            self.stats["unsat"] += 1
            self.stats["linear"] = self.stats.get("linear", 0) + 1
            return "unsat", None
        cl = self.clear_all(cl)
        cs, seen = self.build(cl)
        s = z3.Solver()
        s.set("timeout", int(timeout))
        for c in cs:
            s.add(c)
        mdefs = []
        if self.muldef:
            names = set()
            for c in cl: names |= self.cond_vars(c)
            for nm in names:
                d = self.muldef.get(nm)
                if d is not None:
                    s.add(*d[1])
                    mdefs.append(d[0])
        r = s.check()
        if mdefs and r != z3.unsat:
            for d in mdefs: s.add(d)
            r = s.check()
            if r == z3.unknown: r = self.small_factors(s, [nm for nm in names if nm in self.muldef])
        m = None
        if r == z3.unknown and timeout >= 1000 and not self.has_bv:
            # second opinion: nlsat pipeline
            try:
                s2 = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "elim-term-ite", "simplify", "tseitin-cnf", "qfnra-nlsat").solver() if not self.has_uf(seen) else None
                if s2 is not None:
                    s2.set("timeout", int(timeout))
                    for c in cs: s2.add(c)
                    r2 = s2.check()
                    if r2 != z3.unknown:
                        r = r2
                        s = s2
            except z3.Z3Exception:
                pass
        dt = time.time() - t
        self.stats["solver_s"] += dt
        self.stats[str(r)] += 1
        if dt > self.worst: self.worst = dt
        if r == z3.sat:
            env = self.model_env(s.model()) if want_model else None
            return "sat", env
        if r == z3.unsat:
            return "unsat", None
        return "unknown", None

    has_bv = False

    def clear_all(self, cl):
        """rewrite p < 0 etc. without reciprocals: multiply by (even powers of) the denominators, which are non-zero on the path"""
        out, extra, ch = [], {}, False
        for c in cl:
            d = self.clear(c, extra)
            if d is not c: ch = True
            if d is not True: out.append(d)
        if not ch: return cl
        for k, q in extra.items():
            nz = cond_cmp("!=", q)
            if nz is not True: out.append(nz)
        return out

    def clear(self, c, extra):
        if c is True or c is False: return c
        if c.op == "not":
            d = self.clear(c.a, extra)
            return c if d is c.a else c_not(d)
        if c.op in ("and", "or"):
            ds = [self.clear(x, extra) for x in c.a]
            if all(a is b for a, b in zip(ds, c.a)): return c
            return c_and(*ds) if c.op == "and" else c_or(*ds)
        if c.op == "z3": return c
        k = c.key()
        e = self._clear.get(k)
        if e is None:
            e = (c, [])
            p = c.a
            if len(p.t) <= 600:
                try:
                    dens = []
                    for _ in range(6):
                        p, ds = V.numer(p, 1500)
                        if p is None: break
                        odd = [q for q, n in ds if n % 2 and not V.is_nn(q)]
                        for q, n in ds:
                            q2, d2 = V.numer(q, 1500)
                            if q2 is not None and not q2.is_const(): dens.append(q2)
                        if c.op == "==0": break
                        if not odd: break
                        for q in odd: p = pmul(p, q)
                    else:
                        p = None
                    if p is not None and (dens or p is not c.a):
                        d = cond_cmp({"<0": "<", "<=0": "<=", "==0": "=="}[c.op], p)
                        e = (d, dens)
                except TooBig:
                    pass
            self._clear[k] = e
        for q in e[1]: extra[q.key()] = q
        return e[0]

    def linear_unsat(self, cl):
        """relaxation: every nonlinear monomial is its own unknown.  Unsat here is unsat; anything else says nothing."""
        nl = []
        for c in cl:
            st = [c]
            while st:
                x = st.pop()
                if x is True or x is False: continue
                if x.op in ("<0", "<=0", "==0"): nl.append(x.a)
                elif x.op == "not": st.append(x.a)
                elif x.op in ("and", "or"): st.extend(x.a)
        if not any(len(m) > 1 or m and m[0][1] != 1 for p in nl for m in p.t): return False
        cs = [self.lin_z(c) for c in cl]
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*cs)
        done = set()
        for p in nl:
            for m in p.t:
                if not m or m in done: continue
                done.add(m)
                z = self.mono_var(m)
                if all(e % 2 == 0 or V.atom_nn(V.REG.atoms[i]) for i, e in m): s.add(z >= 0)
                if len(m) == 1 and m[0][1] == 1 and V.REG.atoms[m[0][0]].kind == "in":
                    lo, hi = V.REG.atoms[m[0][0]].extra
                    if lo is not None: s.add(z >= V.z3q(Fraction(lo)))
                    if hi is not None: s.add(z <= V.z3q(Fraction(hi)))
            if p.nn: s.add(self.lin_poly(p) >= 0)
        return s.check() == z3.unsat

    def mono_var(self, m):
        z = self._mono.get(m)
        if z is None:
            z = self._mono[m] = z3.Real("mono%d" % len(self._mono))
        return z

    def lin_poly(self, p):
        ts = [V.z3q(c) * self.mono_var(m) if m else V.z3q(c) for m, c in p.t.items()]
        return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def lin_z(self, c):
        if c is True or c is False: return z3.BoolVal(c)
        o = c.op
        if o == "<0": return self.lin_poly(c.a) < 0
        if o == "<=0": return self.lin_poly(c.a) <= 0
        if o == "==0": return self.lin_poly(c.a) == 0
        if o == "z3": return c.a
        if o == "not": return z3.Not(self.lin_z(c.a))
        if o == "and": return z3.And(*[self.lin_z(x) for x in c.a])
        return z3.Or(*[self.lin_z(x) for x in c.a])

    # ---- products of two symbolic 32-bit integers: one 64-bit variable each, its definition used only when lemmas do not suffice
    def product(self, za, zb, w):
        if w == 64:
            ea, eb = self.sext_of.get(za.get_id()), self.sext_of.get(zb.get_id())
            if ea is None or eb is None or ea[2] > 32 or eb[2] > 32: return None
            a, b = za, zb
        elif w == 32:
            a, b = z3.SignExt(32, za), z3.SignExt(32, zb)
            a, b = z3.simplify(a), z3.simplify(b)
        else:
            return None
        k = tuple(sorted((a.get_id(), b.get_id())))
        e = self.muls.get(k)
        if e is None:
            v = z3.BitVec("mul_%d" % len(self.muls), 64)
            z = z3.BitVecVal(0, 64)
            lem = [z3.Implies(z3.Or(a == 0, b == 0), v == 0),
                   z3.Implies(z3.And(a > 0, b > 0), z3.And(v >= a, v >= b)),
                   z3.Implies(z3.And(a < 0, b < 0), z3.And(v >= -a, v >= -b)),
                   z3.Implies(z3.And(a > 0, b < 0), z3.And(v <= b, v <= -a)),
                   z3.Implies(z3.And(a < 0, b > 0), z3.And(v <= a, v <= -b)),
                   z3.Implies(a == 1, v == b), z3.Implies(b == 1, v == a),
                   v <= z3.BitVecVal(1 << 62, 64), v >= z3.BitVecVal(-(1 << 62), 64)]
            e = self.muls[k] = (v, a, b)
            for q, c, d in self.divs.values():
                if d.get_id() == b.get_id(): lem.append(self.div_link(q, c, d, v, a))
                elif d.get_id() == a.get_id(): lem.append(self.div_link(q, c, d, v, b))
            self.muldef[v.decl().name()] = (v == a * b, lem, self.z3_consts(a) | self.z3_consts(b))
        v = e[0]
        self.has_bv = True
        if w == 64: return v
        self.obligation(c_z3(z3.And(v >= z3.BitVecVal(-(1 << 31), 64), v <= z3.BitVecVal((1 << 31) - 1, 64))), "signed overflow in mul", ub=True)
        return fromz(z3.Extract(31, 0, v))

    def small_factors(self, s, names):
        """a model in which the factors of every product are small, when there is one (says nothing otherwise)"""
        ext = [(a, b) for v, a, b in self.muls.values() if v.decl().name() in names] + [(b, b) for q, _, b in self.divs.values() if q.decl().name() in names]
        for lim in (8, 1 << 12):
            s.push()
            for a, b in ext: s.add(a >= -lim, a <= lim, b >= -lim, b <= lim)
            r = s.check()
            if r == z3.sat: return r          # the frame stays, so that the model is of this query
            s.pop()
        return z3.unknown

    def quotient(self, c, zb, w):
        """constant / symbolic 32-bit integer, linked to the products with the same factor (the usual overflow guard)"""
        if w == 64:
            eb = self.sext_of.get(zb.get_id())
            if eb is None or eb[2] > 32: return None
            b = zb
        else:
            b = z3.simplify(z3.SignExt(32, zb))
        if c >= 1 << 62: return None
        k = (c, b.get_id())
        e = self.divs.get(k)
        if e is None:
            q = z3.BitVec("div_%d" % len(self.divs), 64)
            C = z3.BitVecVal(c, 64)
            lem = [z3.Implies(b > 0, z3.And(q >= 0, q <= C)), z3.Implies(b < 0, z3.And(q <= 0, q >= -C)), z3.Implies(b == 1, q == C),
                   z3.Implies(b > C, q == 0), z3.Implies(z3.And(b > 0, b <= C), q >= 1)]
            e = self.divs[k] = (q, C, b)
            for v, x, y in self.muls.values():
                if y.get_id() == b.get_id(): lem.append(self.div_link(q, C, b, v, x))
                elif x.get_id() == b.get_id(): lem.append(self.div_link(q, C, b, v, y))
            self.muldef[q.decl().name()] = (q == C / b, lem, self.z3_consts(b))
        self.has_bv = True
        return e[0] if w == 64 else fromz(z3.Extract(31, 0, e[0]))

    @staticmethod
    def div_link(q, c, b, v, x):
        """q = c / b, v = x * b: for b > 0, x <= q exactly if v <= c (c >= 0)"""
        return z3.Implies(b > 0, (x <= q) == (v <= c))

    # ---- constraint independence: only the part of the path condition that shares variables with the goal
    def cond_vars(self, c):
        k = c.key()
        r = self._cvars.get(k)
        if r is not None: return r[0]
        out = set()
        seen, neg = self.gather([c])
        for i in seen:
            a = V.REG.atoms[i]
            out.add(a.name)
            if a.kind in ("log", "exp"): out.add("uf:" + a.kind)
            elif a.kind == "fn": out.add("uf:" + a.extra)
            elif a.kind == "i2r": out |= self.z3_consts(a.extra[0])
            for x in a.args:
                if type(x) is Cond: self._z3_in_cond(x, out)
        self._z3_in_cond(c, out)
        r = frozenset(out)
        self._cvars[k] = (r, c)
        return r

    def _z3_in_cond(self, c, out):
        st = [c]
        while st:
            x = st.pop()
            if type(x) is not Cond: continue
            if x.op == "z3": out |= self.z3_consts(x.a)
            elif x.op == "not": st.append(x.a)
            elif x.op in ("and", "or"): st.extend(x.a)

    def z3_consts(self, e):
        r = self._zvars.get(e.get_id())
        if r is not None: return r[0]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        nm = x.decl().name()
                        out.add(nm)
                        if nm in self.muldef: out |= self.muldef[nm][2]
                else:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add("uf:" + x.decl().name())
                    st.extend(x.children())
        r = frozenset(out)
        self._zvars[e.get_id()] = (r, e)
        return r

    def slice(self, vs):
        want = set(vs)
        rest = [c for c in self.pc if c is not True]
        sl = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for c in rest:
                v = self.cond_vars(c)
                if not want.isdisjoint(v) or not v:
                    want |= v
                    sl.append(c)
                    ch = True
                else:
                    nr.append(c)
            rest = nr
        return sl, rest

    def ask(self, goal, timeout):
        """satisfiability of path condition and goal, by slices; model is for the whole"""
        if goal is False: return "unsat", None
        if goal is True: return self.query(self.pc, timeout, want_model=True)
        sl, rest = self.slice(self.cond_vars(goal))
        st, env = self.query(sl + [goal], timeout, want_model=True)
        if st != "sat" or not rest: return st, env
        if self.env is not None:
            e = dict(self.env[0]); e.update(env[0])
            i = dict(self.env[1]); i.update(env[1])
            return "sat", (e, i)
        st, env2 = self.query(rest, timeout, want_model=True)
        if st == "unsat": return st, None
        if st == "sat":
            e = dict(env2[0]); e.update(env[0])
            i = dict(env2[1]); i.update(env[1])
            return "sat", (e, i)
        self.feas_unknown = True
        return "sat", None

    def has_uf(self, seen):
        return any(V.REG.atoms[i].kind in ("log", "exp", "fn", "i2r") for i in seen)

    def model_env(self, m):
        env = {}
        for a in list(V.REG.inputs.values()):
            z = a.z
            if z is None: continue
            v = m.eval(z, model_completion=False)
            try:
                if z3.is_rational_value(v):
                    env[a.id] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                elif z3.is_algebraic_value(v):
                    ap = v.approx(20)
                    env[a.id] = float(Fraction(ap.numerator_as_long(), ap.denominator_as_long()))
            except Exception:
                pass
        ints = {}
        for d in m.decls():
            if d.arity() == 0 and z3.is_bv_sort(d.range()):
                ints[d.name()] = canon(m[d].as_long(), d.range().size())
        return (env, ints)

    def branch(self, c):
        if c is True or c is False:
            return c
        t = type(c)
        if t is not Cond:
            if c is UNDEF:
                self.err("uninitialised", "branch on uninitialised value")
            if t is int: return bool(c)
            c = asb(c)
            if c is True or c is False: return c
        k = c.key()
        r = self.known.get(k)
        if r is not None:
            return r
        if self.dpos < len(self.prefix):
            val, forced = self.prefix[self.dpos]
            self.dpos += 1
            self.decisions.append((val, forced))
            self.learn(c, val, forced)
            return val
        self.dpos += 1
        nc = c_not(c)
        if c.op == "z3" or self._has_z3(c):
            self.has_bv = True
        st, env = self.feasible(c)
        if st == "unsat":
            self.decisions.append((False, True))
            self.learn(c, False, True)
            return False
        sf, envf = self.feasible(nc)
        if sf == "unsat":
            if st == "sat" and env is not None: self.env = env
            self.decisions.append((True, True))
            self.learn(c, True, True)
            return True
        if st == "unknown" or sf == "unknown":
            self.feas_unknown = True
        self.stats["forks"] += 1
        self.new_work.append(self.decisions + [(False, False)])
        self.decisions.append((True, False))
        self.learn(c, True, False)
        self.env = env
        return True

    def _has_z3(self, c):
        st = [c]
        while st:
            x = st.pop()
            if type(x) is not Cond: continue
            if x.op == "z3": return True
            if x.op == "not": st.append(x.a)
            elif x.op in ("and", "or"): st.extend(x.a)
        return False

    def feasible(self, c):
        if self.env is not None:
            try:
                if V.eval_cond(c, self.env[0]):
                    return "sat", self.env
            except (NotImplementedError, ZeroDivisionError, OverflowError, ValueError):
                pass
        e = self.sample(c)
        if e is not None: return "sat", e
        return self.ask(c, self.branch_timeout)

    def sample(self, c):
        """concrete inputs that follow the path so far and satisfy c: cheap evidence that a branch is feasible"""
        if self.has_bv or self.cfg.get("no_sampling"): return None
        if len(self.spool) == 0:
            self.spool = [Sample(k, self.cfg.get("seed", 1)) for k in range(48)]
        if self.spath is not self.decisions_id():
            for s in self.spool: s.reset()
            self.spath = self.decisions_id()
        for s in self.spool:
            if s.ok(self.pc) and s.true(c):
                return (s.values(), {})
        return None

    def decisions_id(self):
        return self.pc      # one list object per path

    def learn(self, c, val, forced):
        d = c if val else c_not(c)
        self.known[c.key()] = val
        self.known[c_not(c).key()] = not val
        self._imply(d)
        if not forced:
            self.pc.append(d)
        elif d.op == "==0":
            self.pc.append(d)

    def _imply(self, d):
        """cheap implications for later comparisons"""
        if d.op == "<0":
            p = d.a
            self.known[Cond("<=0", p).key()] = True
            self.known[Cond("<0", pneg(p)).key()] = False
            self.known[Cond("<=0", pneg(p)).key()] = False
            q = pneg(p) if p.t[V.lead(p)] < 0 else p
            self.known[Cond("==0", q).key()] = False
            self.known[Cond("not", Cond("==0", q)).key()] = True
        elif d.op == "<=0":
            self.known[Cond("<0", pneg(d.a)).key()] = False
        elif d.op == "==0":
            p = d.a
            for q in (p, pneg(p)):
                self.known[Cond("<0", q).key()] = False
                self.known[Cond("<=0", q).key()] = True
        elif d.op == "and":
            for x in d.a:
                self.known[x.key()] = True
                self._imply(x)

    def post_mul(self, x):
        return x

    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        if c is UNDEF: self.err("uninitialised", "assume on uninitialised value")
        c = asb(c)
        if c is True: return
        if c is False: raise PathEnd()
        k = self.known.get(c.key())
        if k is True: return
        if k is False: raise PathEnd()
        self.flush()
        if self._has_z3(c): self.has_bv = True
        self.pc.append(c)
        self.known[c.key()] = True
        self.known[c_not(c).key()] = False
        self._imply(c)
        if self.env is not None:
            try:
                if not V.eval_cond(c, self.env[0]): self.env = None
            except Exception:
                self.env = None
        if self.dpos >= len(self.prefix) and self.env is None:
            self.pc.pop()
            st, env = self.ask(c, self.branch_timeout)
            self.pc.append(c)
            if st == "unsat": raise PathEnd()
            self.env = env

    def ir_assume(self, c):
        pass

    def assume_align(self, p, n, off=0):
        if p is UNDEF: self.err("uninitialised", "alignment assumption on uninitialised pointer")
        if not self.align_check: return
        a = _addr(p)
        if type(a) is int and type(n) is int and (a - (off if type(off) is int else 0)) % n != 0:
            self.err("alignment", "pointer assumed %d-byte aligned is not (%s)" % (n, p.obj))

    def obligation(self, c, label, ub=False):
        """an engine-level assertion (memory safety / UB)"""
        if c is True: return
        if c is UNDEF: self.err("uninitialised", label)
        if c is False: self.err("ub" if ub else "memory", label)
        if self.known.get(c.key()) is True: return
        if self._has_z3(c): self.has_bv = True
        self.add_assert(Assertion(c, label, "ub" if ub else "memory"))
        # continue assuming it holds: flush first so that it is decided under the current path condition
        self.flush()
        self.pc.append(c)
        self.known[c.key()] = True

    def check(self, c, label):
        if c is UNDEF:
            self.err("uninitialised", "checked value is uninitialised: " + label)
        c = asb(c)
        self.stats["asserts"] += 1
        if c is True: return
        if c is False:
            raise Violation("check", label)
        if self.known.get(c.key()) is True: return
        if self._has_z3(c): self.has_bv = True
        self.add_assert(Assertion(c, label))

    def close(self, a, b, label, tol=None):
        """|a-b| <= tol"""
        if a is UNDEF or b is UNDEF:
            self.err("uninitialised", "checked value is uninitialised: " + label)
        self.stats["asserts"] += 1
        tol = self.tol if tol is None else Fraction(tol)
        if type(a) is float and type(b) is float:
            if a == b or (a != a and b != b): return
            if not (abs(a - b) <= float(tol) * max(1.0, abs(b))):
                raise Violation("check", "%s: %r vs %r" % (label, a, b))
            return
        if type(a) is float and a - a != 0 or type(b) is float and b - b != 0:
            raise Violation("check", "%s: %r vs %r" % (label, a, b))
        d = psub(to_poly(a), to_poly(b))
        if V.is_zero_identity(d):
            self.stats["normalised"] += 1
            self.idents.append((to_poly(a), to_poly(b), tol))
            return
        pos = psub(d, Poly({(): tol}))
        neg = psub(pneg(d), Poly({(): tol}))
        c = c_and(cond_cmp("<=", pos), cond_cmp("<=", neg))
        if c is True: return
        self.add_assert(Assertion(c, label, "close", d, tol))

    def leq(self, a, b, label, tol=None):
        if a is UNDEF or b is UNDEF:
            self.err("uninitialised", "checked value is uninitialised: " + label)
        self.stats["asserts"] += 1
        tol = self.tol if tol is None else Fraction(tol)
        if type(a) is float and type(b) is float:
            if not (a <= b + float(tol)): raise Violation("check", "%s: %r > %r" % (label, a, b))
            return
        if type(a) is float and a - a != 0 or type(b) is float and b - b != 0:
            if fcmp("ole", a, b) is not True: raise Violation("check", "%s: %r > %r" % (label, a, b))
            return
        d = psub(to_poly(a), to_poly(b))
        if V.is_zero_identity(d):
            self.stats["normalised"] += 1
            self.idents.append((to_poly(a), to_poly(b), tol))
            return
        c = cond_cmp("<=", psub(d, Poly({(): tol})))
        if c is True: return
        if c is False: raise Violation("check", label)
        self.add_assert(Assertion(c, label, "leq", d, tol))

    def add_assert(self, a):
        self.asserts.append(a)

    def decide_idents(self):
        """identities the normaliser already reduced to 0 = 0 are put to the solver as well"""
        ids, self.idents = self.idents, []
        if not ids or self.dpos < len(self.prefix): return
        zs = []
        for a, b, tol in ids:
            if len(a.t) > 300 or len(b.t) > 300: continue
            d = V.poly_z(a) - V.poly_z(b)
            t = z3.RealVal(str(tol))
            zs.append(z3.Or(d > t, d < -t))
        if not zs: return
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(z3.Or(*zs))
        t = time.time()
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        # atoms are left free here, so only unsat is conclusive; the normal form decides the rest
        self.stats["unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unsat: self.stats["solver_identities"] = self.stats.get("solver_identities", 0) + len(zs)

    def flush(self):
        if self.idents: self.decide_idents()
        if not self.asserts: return
        if self.dpos < len(self.prefix):
            self.asserts = []   # decided by the path that first ran this prefix
            return
        asserts, self.asserts = self.asserts, []
        bad = c_or(*[c_not(a.cond) for a in asserts])
        st, env = self.ask(bad, self.cfg.get("combined_timeout", 4000) if len(asserts) > 1 else self.assert_timeout)
        if st == "unsat": return
        # individually
        for a in asserts:
            if len(asserts) == 1 and st == "unknown":
                s1, e1 = st, env
            else:
                s1, e1 = self.ask(c_not(a.cond), self.assert_timeout)
            if s1 == "unknown":
                s1, e1 = self.hard(a)
            if s1 == "unsat": continue
            if s1 == "unknown":
                self.undecided.append("assertion undecided: %s" % a.label)
                self.candidate(a, None)
                continue
            # counterexample: look for a more pronounced one
            best = e1
            if a.kind in ("close", "leq"):
                for lv in (Fraction(1, 10), Fraction(1, 1000), Fraction(1, 100000)):
                    if lv <= a.tol: break
                    if a.kind == "close":
                        cc = c_or(cond_cmp(">", psub(a.diff, Poly({(): lv}))), cond_cmp(">", psub(pneg(a.diff), Poly({(): lv}))))
                    else:
                        cc = cond_cmp(">", psub(a.diff, Poly({(): lv})))
                    s2, e2 = self.ask(cc, 5000)
                    if s2 == "sat":
                        best = e2
                        break
            self.candidate(a, best)
            if len(self.findings) >= self.cfg.get("max_findings", 3):
                raise PathEnd()

    def hard(self, a):
        """fallback strategies for an assertion z3 could not decide: case split over ite conditions"""
        conds = self.pc + [c_not(a.cond)]
        return self.split_query(conds, 6)

    def split_query(self, conds, depth):
        # pick ite atoms and replace them by their branches under the condition
        seen, neg = self.gather(conds)
        ites = [V.REG.atoms[i] for i in seen if V.REG.atoms[i].kind in ("ite", "abs")]
        if not ites or depth == 0:
            return self.query(conds, self.assert_timeout * 2, want_model=True)
        # innermost (smallest id) first
        a = min(ites, key=lambda x: x.id)
        res = "unsat"
        envr = None
        if a.kind == "ite":
            c, x, y = a.args
        else:
            c, x, y = cond_cmp(">=", a.args[0]), a.args[0], pneg(a.args[0])
            if c is True or c is False: c, x, y = True, x, x
        for cc, val in ((c, x), (c_not(c), y)):
            nc = [subst_cond(z, a.id, val, {}) for z in conds] + [cc]
            st, env = self.query(nc, 3000, want_model=True)
            if st == "unknown":
                st, env = self.split_query(nc, depth - 1)
            if st == "sat": return st, env
            if st == "unknown": res = "unknown"
        return res, envr

    def candidate(self, a, env):
        """record a possible violation with a model (env may be None) for replay"""
        self.findings.append(dict(kind=a.kind, label=a.label, inputs=self.concrete_inputs(env),
                                  alts=self.alt_inputs(a), decisions=len(self.decisions)))

    def alt_inputs(self, a):
        """further models of the path condition, for replay when the first does not reproduce"""
        out = []
        rng = self.cfg.get("rng")
        base = list(self.pc)
        for t in range(self.cfg.get("alts", 6)):
            extra = []
            if rng is not None:
                # nudge: random fixed values for some inputs
                reals = [V.REG.inputs[n] for (k, n, v) in self.inputs if k == "real"]
                rng.shuffle(reals)
                for at in reals[:max(1, len(reals) * (t % 3) // 3)]:
                    lo, hi = at.extra
                    lo = -1.0 if lo is None else float(lo)
                    hi = 1.0 if hi is None else float(hi)
                    v = Fraction(round(rng.uniform(lo, hi), 3))
                    extra.append(Cond("==0", psub(V.atom_poly(at), Poly({(): v}))) if v else Cond("==0", V.atom_poly(at)))
            for goal in ([c_not(a.cond)] if a is not None and a.cond is not None else []) , []:
                st, env = self.query(base + extra + list(goal), 2000, want_model=True)
                if st == "sat":
                    out.append(self.concrete_inputs(env))
                    break
        return out

    def concrete_inputs(self, env):
        vals = []
        e, ints = env if env is not None else ({}, {})
        for kind, name, v in self.inputs:
            if kind == "real":
                at = V.REG.inputs[name]
                x = e.get(at.id)
                if x is None:
                    lo, hi = at.extra
                    x = 0.0
                    if lo is not None and lo > 0: x = float(lo)
                    if hi is not None and hi < 0: x = float(hi)
                vals.append(["r", name, x])
            elif kind == "int":
                lo, hi, w = v
                x = ints.get(name)
                if x is None:
                    x = 0 if lo <= 0 <= hi else lo
                vals.append(["i", name, x])
            else:
                vals.append(["p", name, v])
        return vals

    def report_violation(self, v):
        try:
            self.flush()
        except PathEnd:
            return
        st, env = self.query(self.pc, self.assert_timeout, want_model=True)
        if st == "unsat":
            return
        a = Assertion(None, v.msg, v.kind)
        if st == "unknown":
            self.undecided.append("violation on path of unknown feasibility: %s" % v)
        self.findings.append(dict(kind=v.kind, label=v.msg, inputs=self.concrete_inputs(env), alts=self.alt_inputs(None) if st == "sat" else [], decisions=len(self.decisions)))

    def end_path(self):
        self.flush()
        self.asserts = []
        # witness: the path condition is satisfiable
        st = "sat"
        env = self.env
        if env is None or self.feas_unknown:
            st, env = self.query(self.pc, self.branch_timeout, want_model=True)
        if st == "unsat":
            self.stats.setdefault("infeasible", 0)
            self.stats["infeasible"] += 1
            return
        if st == "sat":
            self.stats["feasible"] += 1
            for l in self.path_reach:
                self.reached[l] = self.reached.get(l, 0) + 1
            if len(self.sat_witnesses) < self.cfg.get("witnesses", 3):
                self.sat_witnesses.append(self.concrete_inputs(env))
        else:
            self.stats.setdefault("unknown_paths", 0)
            self.stats["unknown_paths"] += 1

    # ------------------------------------------------------------- symbolic inputs
    def in_real(self, lo, hi):
        n = "x%d" % len(self.inputs)
        self.inputs.append(("real", n, None))
        lo = None if lo == NINF else lo
        hi = None if hi == INF else hi
        if lo is not None and hi is not None and lo == hi:
            a = mk = V.mk_input(n, lo, hi)
            return float(lo)
        k = (n, lo, hi)
        # the same position may be asked with different bounds on different paths
        name = n if V.REG.inputs.get(n) is None or V.REG.inputs[n].extra == (lo, hi) else "%s_%s_%s" % (n, lo, hi)
        if name != n:
            self.inputs[-1] = ("real", name, None)
        return V.mk_input(name, lo, hi)

    def in_int(self, lo, hi, w=32):
        n = "i%d" % len(self.inputs)
        self.inputs.append(("int", n, (lo, hi, w)))
        if lo == hi: return lo
        b = z3.BitVec(n, w)
        full = lo <= -(1 << (w - 1)) and hi >= (1 << (w - 1)) - 1
        if not full:
            c = c_z3(z3.And(b >= lo, b <= hi))
            if c is not True:
                self.has_bv = True
                self.pc.append(c)
                self.env = None
        return b

    def pick(self, lo, hi):
        b = self.in_int(lo, hi)
        if type(b) is int: return b
        # fork explicitly without solver help
        for v in range(lo, hi):
            if self.dpos < len(self.prefix):
                val, forced = self.prefix[self.dpos]
                self.dpos += 1
                self.decisions.append((val, forced))
            else:
                self.dpos += 1
                val = True
                self.new_work.append(self.decisions + [(False, False)])
                self.decisions.append((True, False))
                self.stats["forks"] += 1
            if val:
                self.pc.append(c_z3(b == v))
                self.has_bv = True
                return v
        self.pc.append(c_z3(b == hi))
        return hi

    def conc(self, x, limit=64):
        """concretise an integer by forking over its feasible values"""
        if type(x) is int: return x
        if x is UNDEF: self.err("uninitialised", "uninitialised integer used")
        if type(x) is bool: return int(x)
        if type(x) is BoolInt:
            return 1 if self.branch(x.c) else 0
        if type(x) is Cond:
            return 1 if self.branch(x) else 0
        for _ in range(limit):
            if self.dpos < len(self.prefix):
                val, v = self.prefix[self.dpos]
                self.dpos += 1
                self.decisions.append((val, v))
                self.pc.append(c_z3(x == v) if val else c_z3(x != v))
                if val: return v
                continue
            sl, rest = self.slice(self.z3_consts(x))
            cs, _ = self.build(sl)
            s = z3.Solver()
            s.set("timeout", self.branch_timeout)
            s.add(*cs)
            mulnames = []
            if self.muldef:
                names = set(self.z3_consts(x))
                for c in sl: names |= self.cond_vars(c)
                mulnames = [nm for nm in names if nm in self.muldef]
                for nm in mulnames: s.add(self.muldef[nm][0], *self.muldef[nm][1])
            self.stats["queries"] += 1
            t = time.time()
            r = s.check()
            self.stats["solver_s"] += time.time() - t
            self.stats[str(r)] += 1
            if r == z3.unsat: raise PathEnd()
            if r == z3.unknown and mulnames: r = self.small_factors(s, mulnames)
            if r == z3.unknown:
                raise Limit("cannot concretise")
            m = s.model()
            v = canon(m.eval(x, model_completion=True).as_long(), x.size())
            if self.env is not None:
                e0, i0 = self.model_env(m)
                e = dict(self.env[0]); e.update(e0)
                i = dict(self.env[1]); i.update(i0)
                # constants the model leaves open keep the value the evaluation above gave them
                for n in self.z3_consts(x):
                    if n not in i0: self.env = None; break
                else:
                    self.env = (e, i)
            self.dpos += 1
            st, _ = self.ask(c_z3(x != v), self.branch_timeout)
            if st != "unsat":
                self.new_work.append(self.decisions + [(False, v)])
                self.stats["forks"] += 1
            self.decisions.append((True, v))
            self.pc.append(c_z3(x == v))
            return v
        raise Limit("more than %d values for a symbolic integer" % limit)

    def real_to_int(self, x, w):
        """(int) x for symbolic real: trunc toward zero, via an integer-valued atom"""
        k = ("r2i", x.key(), w)
        b = z3.BitVec("r2i_%d" % V.REG.get("r2i", x.key(), (x,)).id, w)
        zi = z3.ToReal(z3.BV2Int(b, True))
        px = V.poly_z(x)
        lim = 1 << (w - 1)
        self.has_bv = True
        c = Cond("z3", z3.And(z3.Implies(px >= 0, z3.And(zi <= px, px < zi + 1)),
                              z3.Implies(px < 0, z3.And(zi >= px, px > zi - 1))))
        self.obligation(c_and(cond_cmp("<", psub(x, to_poly(float(lim)))), cond_cmp(">", padd(x, to_poly(float(lim + 1))))),
                        "float to int conversion out of range", ub=True)
        self.pc.append(c)
        self.pc.append(cond_cmp("<", psub(x, to_poly(float(lim)))))
        self.env = None
        return b

    # ------------------------------------------------------------- memory
    def new_obj(self, size, kind, name, align=16, fill=None, off=0):
        sz = size if type(size) is int else 1 << 41
        a = self.next_addr
        a = (a + align - 1) // align * align
        if kind != "stack" and (a // align) % 2 == 0:
            a += align      # never aligned beyond what was asked for
        a += off
        self.next_addr = a + sz + 64
        o = Obj(a, size, kind, name, fill)
        o.align = align
        self.objser += 1
        o.serial = self.objser
        self.by_addr.append(o)
        return o

    def find_addr(self, a):
        lo, hi = 0, len(self.by_addr)
        while lo < hi:
            mid = (lo + hi) // 2
            if self.by_addr[mid].addr <= a: lo = mid + 1
            else: hi = mid
        if lo == 0: return None
        o = self.by_addr[lo - 1]
        sz = o.size if type(o.size) is int else 1 << 33
        if a <= o.addr + sz: return o
        return None

    def ptrtoint(self, p):
        if p is UNDEF: return UNDEF
        a = _addr(p)
        return a

    def inttoptr(self, a):
        if a is UNDEF: return UNDEF
        if type(a) is not int: raise Unsupported("inttoptr of symbolic integer")
        if a == 0: return NULL
        o = self.find_addr(a)
        if o is None: return Ptr(None, a)
        return Ptr(o, a - o.addr)

    def alloca(self, fr, size, n, align):
        if type(n) is not int: n = self.conc(n)
        o = self.new_obj(size * n, "stack", "stack", align)
        fr.append(o)
        return Ptr(o, 0)

    def byval(self, fr, p, size):
        o = self.new_obj(size, "stack", "byval", 16)
        fr.append(o)
        q = Ptr(o, 0)
        self.memcpy(q, p, size)
        return q

    def access(self, p, size, what):
        """checks; returns (obj, concrete offset)"""
        if p is UNDEF: self.err("uninitialised", "%s through uninitialised pointer" % what)
        o = p.obj
        if o is None:
            self.err("memory", "%s through null or wild pointer (%s)" % (what, p.off))
        if not o.alive:
            self.err("memory", "%s to freed/dead object %s" % (what, o.name))
        off = p.off
        if type(off) is not int:
            if self.race is None:
                off = self.conc_off(p, size, what)
                p = Ptr(o, off)
            else:
                return o, off
        if type(o.size) is int:
            if off < 0 or off + size > o.size:
                self.err("memory", "%s out of bounds: offset %d size %d of %s (%d bytes)" % (what, off, size, o.name, o.size))
        else:
            if off < 0: self.err("memory", "%s out of bounds" % what)
            self.obligation(c_z3(z3.ULE(z3.BitVecVal(off + size, 64), o.size)), "%s out of bounds of %s at %d" % (what, o.name, off))
        if o.kind == "func":
            self.err("memory", "%s of function object" % what)
        return o, off

    def conc_off(self, p, size, what):
        o = p.obj
        off = p.off
        sz = bvval(o.size, 64) if type(o.size) is int else o.size
        ok = z3.And(off >= 0, off + size <= sz)
        self.obligation(c_z3(ok), "%s out of bounds of %s (symbolic index)" % (what, o.name))
        return self.conc(off, 256)

    def load_f(self, p):
        if type(p) is Ptr:
            o = p.obj
            off = p.off
            if o is not None and type(off) is int and o.alive and type(o.size) is int and 0 <= off and off + 8 <= o.size and self.race is None:
                c = o.cells.get(off)
                if c is not None:
                    v = c[1]
                    if type(v) is float or type(v) is Poly: return v
                elif o.fill == 0 and not o.cells: return 0.0
            else:
                o, off = self.access(p, 8, "read")
                if self.race is not None:
                    r = self.race.read(o, off, 8, "f")
                    if r is not None: return r[0]
        else:
            o, off = self.access(p, 8, "read")
        return self.as_f(self.load_raw(o, off, 8))

    def unbits(self, v):
        return self.as_f(v)

    def as_f(self, v):
        t = type(v)
        if t is float or t is Poly or v is UNDEF: return v
        if t is BitsOf: return v.v
        if t is int: return struct.unpack("<d", struct.pack("<q", v))[0]
        if t is Ptr: return UNDEF
        raise Unsupported("load of symbolic integer as double")

    def load_p(self, p):
        o, off = self.access(p, 8, "read")
        if self.race is not None:
            r = self.race.read(o, off, 8, "p")
            if r is not None: return r[0]
        v = self.load_raw(o, off, 8)
        t = type(v)
        if t is Ptr or v is UNDEF: return v
        if t is int: return self.inttoptr(v)
        if t is float: return self.inttoptr(struct.unpack("<q", struct.pack("<d", v))[0])
        raise Unsupported("load pointer from %r" % (v,))

    def load_i(self, p, size, w):
        o, off = self.access(p, size, "read")
        if self.race is not None:
            r = self.race.read(o, off, size, "i")
            if r is not None: return r[0]
        v = self.load_raw(o, off, size)
        t = type(v)
        if t is int or v is UNDEF: return v
        if t is Ptr: return self.ptrtoint(v)
        if t is float:
            return struct.unpack("<q", struct.pack("<d", v))[0] if size == 8 else UNDEF
        if t is Poly: return BitsOf(v)
        if t is BoolInt:
            return BoolInt(v.c, w) if v.w != w else v
        return v

    def load_i1(self, p):
        v = self.load_i(p, 1, 8)
        return cast_trunc(v, 8, 1)

    def load_f32(self, p):
        o, off = self.access(p, 4, "read")
        v = self.load_raw(o, off, 4)
        if type(v) is int: return struct.unpack("<f", struct.pack("<i", v))[0]
        return v

    def load_agg(self, p, mt):
        mod, t = mt
        k = t[0]
        if k == "struct":
            return tuple(self.load_ty(gepc(p, mod.field(t, i)[0]), mod, x) for i, x in enumerate(t[1]))
        e = t[2]
        s = mod.size(e)
        return tuple(self.load_ty(gepc(p, i * s), mod, e) for i in range(t[1]))

    def load_ty(self, p, mod, t):
        t = mod.resolve(t)
        k = t[0]
        if k == "double": return self.load_f(p)
        if k == "ptr": return self.load_p(p)
        if k == "i":
            if t[1] == 1: return self.load_i1(p)
            return self.load_i(p, mod.size(t), t[1])
        if k == "float": return self.load_f32(p)
        return self.load_agg(p, (mod, t))

    def store_agg(self, p, v, mt):
        mod, t = mt
        k = t[0]
        if k == "struct":
            for i, x in enumerate(t[1]):
                off, _ = mod.field(t, i)
                self.store_ty(gepc(p, off), v[i], mod, x)
        else:
            e = t[2]
            s = mod.size(e)
            for i in range(t[1]):
                self.store_ty(gepc(p, i * s), v[i], mod, e)

    def store_ty(self, p, v, mod, t):
        t = mod.resolve(t)
        k = t[0]
        if k in ("struct", "arr", "vec"):
            self.store_agg(p, v, (mod, t))
        elif k == "i" and t[1] == 1:
            self.store(p, 1, cast_zext(v, 1, 8))
        else:
            self.store(p, mod.size(t), v)

    def load_raw(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # exact cell missing: any overlap?
        over = self.overlaps(o, off, size)
        if not over:
            return 0 if o.fill == 0 else UNDEF
        # contained in one bigger cell / composed of smaller ones: go through bytes
        bs = []
        for k in range(off, off + size):
            bs.append(self.byte_at(o, k, over))
        if any(b is UNDEF for b in bs): return UNDEF
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(b & 255 for b in bs), "little", signed=True)
        if any(not (type(b) is int or isinstance(b, BV)) for b in bs):
            raise Unsupported("byte access to symbolic double/pointer")
        z = z3.Concat(*[bvval(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bs[0]
        return fromz(z)

    def overlaps(self, o, off, size):
        cells = o.cells
        out = []
        for k in range(off - 7, off + size):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                out.append((k, c[0], c[1]))
        return out

    def byte_at(self, o, k, over):
        for (b, s, v) in over:
            if b <= k < b + s:
                if v is UNDEF: return UNDEF
                i = k - b
                t = type(v)
                if t is int: return (v >> (8 * i)) & 255
                if t is float: return struct.pack("<d", v)[i] if s == 8 else UNDEF
                if t is Ptr: return (self.ptrtoint(v) >> (8 * i)) & 255
                if t is BoolInt: v = bvval(v, 8 * s)
                if isinstance(v, BV): return fromz(z3.Extract(8 * i + 7, 8 * i, v)) if v.size() > 8 else v
                raise Unsupported("byte of symbolic double")
        return 0 if o.fill == 0 else UNDEF

    def store(self, p, size, v):
        o, off = self.access(p, size, "write")
        if o.ro:
            self.err("memory", "write to constant %s" % o.name)
        if self.race is not None:
            if self.race.write(o, off, size, v): return
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        over = self.overlaps(o, off, size)
        if over:
            self.split(o, off, size, over)
        cells[off] = (size, v)

    def split(self, o, off, size, over):
        """remove overlapped cells, preserving the bytes outside [off, off+size)"""
        for (b, s, v) in over:
            del o.cells[b]
            if b >= off and b + s <= off + size: continue
            for k in range(b, b + s):
                if off <= k < off + size: continue
                try:
                    o.cells[k] = (1, self.byte_at(o, k, [(b, s, v)]))
                except Unsupported:
                    o.cells[k] = (1, UNDEF)

    def memset(self, p, val, n):
        if type(n) is not int:
            if p.obj is not None and n is p.obj.size and type(p.off) is int and p.off == 0 and val == 0:
                p.obj.cells.clear(); p.obj.fill = 0
                return
            n = self.conc(n, 256)
        if n == 0: return
        o, off = self.access(p, n, "memset")
        if self.race is not None:
            if self.race.write(o, off, n, 0): return
        if o.ro: self.err("memory", "write to constant")
        if val is not UNDEF: val = self.conc(val) & 255
        if off == 0 and n == o.size and val == 0:
            o.cells.clear(); o.fill = 0
            return
        over = self.overlaps(o, off, n)
        if over: self.split(o, off, n, over)
        i = 0
        while i < n:
            k = 8 if n - i >= 8 and (off + i) % 8 == 0 else 1
            if val is UNDEF: v = UNDEF
            else: v = canon(int.from_bytes(bytes([val]) * k, "little"), 8 * k)
            o.cells[off + i] = (k, v)
            i += k

    def memcpy(self, d, s, n):
        if type(n) is not int: n = self.conc(n, 256)
        if n == 0: return
        so, soff = self.access(s, n, "read (memcpy)")
        do, doff = self.access(d, n, "write (memcpy)")
        if self.race is not None:
            self.race.read(so, soff, n, "m")
            if self.race.write(do, doff, n, UNDEF): return
        if do.ro: self.err("memory", "write to constant")
        over = self.overlaps(so, soff, n)
        if over and (over[0][0] < soff or over[-1][0] + over[-1][1] > soff + n):
            # partially covered cells at the edges: split the source view
            cells = []
            for (b, sz, v) in over:
                if b >= soff and b + sz <= soff + n: cells.append((b, sz, v))
                else:
                    for k in range(max(b, soff), min(b + sz, soff + n)):
                        try: cells.append((k, 1, self.byte_at(so, k, [(b, sz, v)])))
                        except Unsupported: cells.append((k, 1, UNDEF))
            over = cells
        dover = self.overlaps(do, doff, n)
        if dover: self.split(do, doff, n, dover)
        covered = set()
        for (b, sz, v) in over:
            do.cells[doff + b - soff] = (sz, v)
            if so.fill == 0 or do.fill == 0: covered.update(range(b, b + sz))
        if so.fill == 0 or do.fill == 0:
            if so.fill == do.fill: return
            i = 0
            while i < n:
                k = soff + i
                if k in covered:
                    i += 1
                    continue
                v = 0 if so.fill == 0 else UNDEF
                if (doff + i) % 8 == 0 and i + 8 <= n and not any((k + j) in covered for j in range(8)):
                    do.cells[doff + i] = (8, v); i += 8
                else:
                    do.cells[doff + i] = (1, v); i += 1

    def bitcast(self, v, mt1, mt2):
        mod, t1 = mt1
        _, t2 = mt2
        o = Obj(0, 64, "tmp", "tmp")
        p = Ptr(o, 0)
        race, self.race = self.race, None
        self.store_ty(p, v, mod, t1)
        r = self.load_ty(p, mod, t2)
        self.race = race
        return r

    # ------------------------------------------------------------- globals / functions
    def fobj(self, name, mod):
        k = name if not (name in mod.funcs and mod.funcs[name].internal) else (id(mod), name)
        o = self.link.fobjs.get(k)
        if o is None:
            o = Obj(0x1000 + 64 * len(self.link.fobjs), 1, "func", name)
            o.fn = (self.link.callable(mod, name), self.link.find(mod, name), name)
            self.link.fobjs[k] = o
        return o

    def gptr(self, mi, name):
        k = (mi, name)
        p = self.gobjs.get(k)
        if p is not None: return p
        mod = self.link.mods[mi]
        if name in mod.aliases and mod.aliases[name][0] == "glob":
            p = self.gptr(mi, mod.aliases[name][1])
        elif name in mod.funcs or name in self.link.defs:
            p = Ptr(self.fobj(name, mod), 0)
        else:
            g = mod.globals.get(name)
            if g is not None and g[3]:
                p = self.make_global(name, mod, g)
            else:
                r = self.link.gdefs.get(name)
                if r is None:
                    kk = ("ext", name)
                    p = self.gobjs.get(kk)
                    if p is None:
                        p = self.ext_global(name)
                        self.gobjs[kk] = p
                else:
                    kk = ("def", name)
                    p = self.gobjs.get(kk)
                    if p is None:
                        p = self.make_global(name, r[0], r[1])
                        self.gobjs[kk] = p
        self.gobjs[k] = p
        return p

    def ext_global(self, name):
        if name in ("@stdout", "@stderr", "@stdin"):
            o = self.new_obj(8, "global", name, 8)
            f = self.new_obj(64, "file", name, 16)
            f.data = name
            o.cells[0] = (8, Ptr(f, 0))
            return Ptr(o, 0)
        fn = self.cfg.get("ext_globals", {}).get(name)
        if fn is not None: return fn(self)
        o = self.new_obj(4096, "global", name, 64, fill=0)
        return Ptr(o, 0)

    def make_global(self, name, mod, g):
        t, init, const, internal, al = g
        o = self.new_obj(mod.size(t), "global", name, al or mod.align(t))
        p = Ptr(o, 0)
        self.gobjs[(self.link.modidx[id(mod)], name)] = p
        race, self.race = self.race, None
        self.init_const(p, mod, t, init)
        self.race = race
        if const: o.ro = True
        return p

    def init_const(self, p, mod, t, v):
        k = v[0]
        rt = mod.resolve(t)
        if k == "zero":
            self.memset(p, 0, mod.size(rt))
        elif k == "undef":
            pass
        elif k == "bytes":
            for i, b in enumerate(v[1]):
                p.obj.cells[p.off + i] = (1, canon(b, 8))
        elif k == "agg":
            if rt[0] == "struct":
                for i, (et, ev) in enumerate(v[2]):
                    self.init_const(gepc(p, mod.field(rt, i)[0]), mod, et, ev)
            else:
                s = mod.size(rt[2])
                for i, (et, ev) in enumerate(v[2]):
                    self.init_const(gepc(p, i * s), mod, et, ev)
        else:
            self.store_ty(p, self.const_val(mod, rt, v), mod, rt)

    def const_val(self, mod, t, v):
        k = v[0]
        if k == "int": return bool(v[1]) if t == ("i", 1) else v[1]
        if k == "flt": return v[1]
        if k == "null": return NULL
        if k == "glob": return self.gptr(self.link.modidx[id(mod)], v[1])
        if k == "cgep":
            et, ops = v[1], v[2]
            p = self.const_val(mod, ops[0][0], ops[0][1])
            tt = et
            off = 0
            for n, (ity, iv) in enumerate(ops[1:]):
                if n == 0:
                    off += iv[1] * mod.size(tt)
                else:
                    r = mod.resolve(tt)
                    if r[0] == "struct":
                        o2, tt = mod.field(r, iv[1])
                        off += o2
                    else:
                        tt = r[2]
                        off += iv[1] * mod.size(tt)
            return gepc(p, off)
        if k == "ccast":
            x = self.const_val(mod, v[2], v[3])
            if v[1] == "ptrtoint": return self.ptrtoint(x)
            if v[1] == "inttoptr": return self.inttoptr(x)
            return x
        raise Unsupported("const %r" % (v,))

    def icall(self, fp, args, tys=None):
        if fp is UNDEF: self.err("uninitialised", "call through uninitialised function pointer")
        o = fp.obj
        if o is None or o.kind != "func":
            self.err("memory", "call through invalid function pointer %r" % (fp,))
        fn, found, name = o.fn
        if found is not None:
            f = found[1]
            if f.vararg:
                n = len(f.params)
                va = tuple(((tys[i] if tys else "i",) if not tys or tys[i] != "i" else ("i", 64), a) for i, a in enumerate(args[n:], n))
                return fn(*args[:n], va=va)
            if len(args) != len(f.params):
                args = args[:len(f.params)]
        return fn(*args)

    def call_ptr(self, fp, *args):
        return self.icall(fp, args)

    def intrinsic(self, name, args):
        from externs import INTRIN
        b = name[5:]
        f = INTRIN.get(b)
        if f is None:
            # strip type suffixes
            parts = b.split(".")
            while parts and f is None:
                parts.pop()
                f = INTRIN.get(".".join(parts))
        if f is None: raise Unsupported("intrinsic " + name)
        return f(self, *args, **({"name": name} if getattr(f, "want_name", False) else {}))

    # string helper
    def cstr(self, p):
        if p is UNDEF or p.obj is None: self.err("memory", "null string")
        out = bytearray()
        off = p.off
        while True:
            b = self.load_i(Ptr(p.obj, off), 1, 8)
            if b is UNDEF: self.err("uninitialised", "uninitialised string")
            b = self.conc(b)
            if b == 0: break
            out.append(b & 255)
            off += 1
        return bytes(out).decode("latin-1")


def subst_poly(p, aid, val, memo):
    """replace atom aid by Poly val everywhere (also inside other atoms)"""
    k = id(p)
    r = memo.get(k)
    if r is not None: return r[1]
    if not any(_depends(i, aid, memo) for i in p.atoms()):
        memo[k] = (p, p)
        return p
    acc = Poly({})
    for m, c in p.t.items():
        term = Poly({(): c})
        for (i, e) in m:
            if not _depends(i, aid, memo):
                term = pmul(term, V.reduce_poly(Poly({((i, e),): V.F1})))
                continue
            a = subst_atom(i, aid, val, memo)
            if e > 0: term = pmul(term, V.ppow(a, e))
            else:
                if a.is_const() and a.const() == 0: raise TooBig("subst zero division")
                term = pmul(term, V.ppow(recip_poly(a), -e))
        acc = padd(acc, term)
    memo[k] = (p, acc)
    return acc


def _depends(i, aid, memo):
    if i == aid: return True
    k = ("dep", i)
    r = memo.get(k)
    if r is None:
        r = False
        memo[k] = False
        for x in V.REG.atoms[i].args:
            if type(x) is Poly:
                if any(_depends(j, aid, memo) for j in x.atoms()): r = True
            elif type(x) is Cond:
                if any(_depends(j, aid, memo) for j in x.atoms()): r = True
        memo[k] = r
    return r


def subst_atom(i, aid, val, memo):
    if i == aid: return val
    k = ("atom", i)
    r = memo.get(k)
    if r is not None: return r
    a = V.REG.atoms[i]
    if a.kind == "recip":
        q = subst_poly(a.args[0], aid, val, memo)
        if q.is_const() and q.const() == 0: raise TooBig("subst zero division")
        r = recip_poly(q)
    elif a.kind == "sqrt": r = to_poly(mk_sqrt(subst_poly(a.args[0], aid, val, memo))) 
    elif a.kind == "abs":
        q = subst_poly(a.args[0], aid, val, memo)
        r = Poly({(): abs(q.const())}) if q.is_const() else mk_abs(q)
        if not r.t.get((), 1): r = Poly({})
    elif a.kind == "log":
        q = subst_poly(a.args[0], aid, val, memo)
        r = V.atom_poly(V.REG.get("log", q.key(), (q,)))
    elif a.kind == "exp":
        q = subst_poly(a.args[0], aid, val, memo)
        r = V.atom_poly(V.REG.get("exp", q.key(), (q,)))
    elif a.kind == "ite":
        c = subst_cond(a.args[0], aid, val, memo)
        x = subst_poly(a.args[1], aid, val, memo)
        y = subst_poly(a.args[2], aid, val, memo)
        r = to_poly(mk_ite(c, finish(x), finish(y)))
    else:
        raise TooBig("subst in %s" % a.kind)
    memo[k] = r
    return r


def subst_cond(c, aid, val, memo):
    if c is True or c is False: return c
    if c.op in ("<0", "<=0", "==0"):
        q = subst_poly(c.a, aid, val, memo)
        if q is c.a: return c
        return cond_cmp({"<0": "<", "<=0": "<=", "==0": "=="}[c.op], q)
    if c.op == "z3": return c
    if c.op == "not": return c_not(subst_cond(c.a, aid, val, memo))
    xs = [subst_cond(x, aid, val, memo) for x in c.a]
    return c_and(*xs) if c.op == "and" else c_or(*xs)
