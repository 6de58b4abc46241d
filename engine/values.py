"""Symbolic values: exact real polynomials over atoms, boolean conditions, bit-vectors.

A double is a Python float (concrete, IEEE, may be inf/nan) or a Poly (symbolic, exact real).
A Poly is a finite sum  coeff * prod(atom_i ** e_i)  with Fraction coefficients, kept in normal
form.  Atoms: inputs, recip(p), sqrt(p), abs(p), uninterpreted functions (log, exp, ...), ite.
"""
from fractions import Fraction
import math
import z3

F0 = Fraction(0)
F1 = Fraction(1)


class Undef:
    __slots__ = ()
    def __repr__(self): return "UNDEF"
    def __bool__(self): raise RuntimeError("bool(UNDEF)")


UNDEF = Undef()


class Atom:
    __slots__ = ("id", "kind", "args", "z", "name", "_defs", "rz", "extra", "deps")

    def __init__(self, id, kind, args, name):
        self.id = id
        self.kind = kind
        self.args = args
        self.name = name
        self.z = None
        self.rz = None          # z3 variable standing for 1/atom (negative exponents)
        self._defs = None
        self.extra = None
        self.deps = None

    def __repr__(self): return self.name


class Registry:
    """Hash-consed atoms, one per process/job."""
    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.inputs = {}

    def get(self, kind, key, args, name=None):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, args, name or "%s%d" % (kind, len(self.atoms)))
            self.atoms.append(a)
            self.by_key[k] = a
        return a


REG = Registry()


def reset_registry():
    global REG
    REG = Registry()


class Poly:
    __slots__ = ("t", "_key", "_z", "_atoms", "nn")

    def __init__(self, t):
        self.t = t
        self.nn = False       # known to be non-negative by construction (squares, their sums, products, quotients)
        self._key = None
        self._z = None
        self._atoms = None

    def key(self):
        k = self._key
        if k is None:
            k = self._key = frozenset(self.t.items())
        return k

    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self): return hash(self.key())

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self): return self.t.get((), F0)

    def atoms(self):
        a = self._atoms
        if a is None:
            s = set()
            for m in self.t:
                for (i, e) in m:
                    s.add(i)
            a = self._atoms = frozenset(s)
        return a

    def degree(self):
        return max((sum(abs(e) for _, e in m) for m in self.t), default=0)

    def __repr__(self):
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
            s = "*".join(REG.atoms[i].name + ("^%d" % e if e != 1 else "") for i, e in m)
            fc = float(c)
            out.append(("%g" % fc) + ("*" + s if s else ""))
            if len(out) > 12:
                out.append("...")
                break
        return " + ".join(out) or "0"


_fc = {}


def frac(x):
    f = _fc.get(x)
    if f is None:
        f = Fraction(x)
        if len(_fc) < 200000:
            _fc[x] = f
    return f


def to_poly(x):
    if type(x) is Poly:
        return x
    return Poly({(): frac(x)}) if x != 0 else Poly({})


def finish(p):
    """collapse a constant Poly to a float when exactly representable"""
    t = p.t
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        c = t[()]
        try:
            f = float(c)
        except OverflowError:
            return p
        if Fraction(f) == c:
            return f
    return p


def atom_poly(a):
    return Poly({((a.id, 1),): F1})


def padd(a, b):
    ta, tb = a.t, b.t
    if len(ta) < len(tb):
        ta, tb = tb, ta
    r = dict(ta)
    for m, c in tb.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return Poly(r)


def pneg(a):
    return Poly({m: -c for m, c in a.t.items()})


def psub(a, b):
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v:
                r[m] = v
            else:
                del r[m]
    return Poly(r)


def pscale(a, c):
    if not c:
        return Poly({})
    if c == 1:
        return a
    return Poly({m: v * c for m, v in a.t.items()})


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif a[0] > b[0]:
            out.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1; j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


class TooBig(Exception):
    pass


MAX_TERMS = 60000


def pmul(a, b):
    ta, tb = a.t, b.t
    if len(tb) == 1 and () in tb:
        return pscale(a, tb[()])
    if len(ta) == 1 and () in ta:
        return pscale(b, ta[()])
    if not ta or not tb:
        return Poly({})
    if len(ta) * len(tb) > 4 * MAX_TERMS:
        raise TooBig("polynomial product %d x %d terms" % (len(ta), len(tb)))
    # p * recip(p)
    if len(tb) == 1:
        r = _cancel(a, b)
        if r is not None:
            return r
    elif len(ta) == 1:
        r = _cancel(b, a)
        if r is not None:
            return r
    r = {}
    need = False
    atoms = REG.atoms
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
            if not need:
                for (i, e) in m:
                    if (e >= 2 or e < 0) and atoms[i].kind in ("sqrt", "abs", "ite", "recip", "root"):
                        need = True
                        break
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial with %d terms" % len(r))
    p = Poly(r)
    return reduce_poly(p) if need else p


def _cancel(a, mono):
    (m, c), = mono.t.items()
    atoms = REG.atoms
    for (i, e) in m:
        at = atoms[i]
        if at.kind == "recip" and e >= 1:
            p = at.args[0]
            if len(a.t) > 400:
                continue
            q = exact_div(a, p)
            if q is not None:
                m2 = tuple((j, f - 1 if j == i else f) for (j, f) in m if not (j == i and f == 1))
                return pmul(q, Poly({m2: c}))
    return None


def reduce_poly(p):
    """sqrt(q)^2 -> q ; |q|^2 -> q^2 ; recip^-k -> p^k ; ite^2 -> ite(c,a^2,b^2)"""
    atoms = REG.atoms
    for _ in range(64):
        hit = False
        acc = Poly({})
        keep = {}
        for m, c in p.t.items():
            found = None
            for (i, e) in m:
                at = atoms[i]
                k = at.kind
                if (k == "sqrt" and (e >= 2 or e <= -1)) or (k == "abs" and e >= 2) or \
                   (k == "ite" and e >= 2) or (k == "recip" and e < 0) or (k == "root" and e >= at.extra):
                    found = (i, e, at)
                    break
            if found is None:
                keep[m] = c
                continue
            hit = True
            i, e, at = found
            rest = tuple(x for x in m if x[0] != i)
            if at.kind == "sqrt":
                if e >= 2:
                    q = ppow(at.args[0], e // 2)
                    rem = e % 2
                else:  # s^-1 = s * recip(arg)
                    k = (-e + 1) // 2
                    q = ppow(recip_poly(at.args[0]), k)
                    rem = e + 2 * k
                term = Poly({(mono_mul(rest, ((i, rem),)) if rem else rest): c})
                acc = padd(acc, pmul(term, q))
            elif at.kind == "root":
                q = ppow(at.args[0], e // at.extra)
                rem = e % at.extra
                term = Poly({(mono_mul(rest, ((i, rem),)) if rem else rest): c})
                acc = padd(acc, pmul(term, q))
            elif at.kind == "abs":
                q = ppow(at.args[0], 2 * (e // 2))
                rem = e % 2
                term = Poly({(mono_mul(rest, ((i, rem),)) if rem else rest): c})
                acc = padd(acc, pmul(term, q))
            elif at.kind == "recip":
                q = ppow(at.args[0], -e)
                acc = padd(acc, pmul(Poly({rest: c}), q))
            else:
                cond, x, y = at.args
                q = to_poly(mk_ite(cond, ppow(x, e), ppow(y, e)))
                acc = padd(acc, pmul(Poly({rest: c}), q))
        if not hit:
            return p
        p = padd(Poly(keep), acc)
    return p


def ppow(p, n):
    p = to_poly(p)
    r = Poly({(): F1})
    for _ in range(n):
        r = pmul(r, p)
    return r


def lead(p):
    """lex-leading monomial (by atom id) of p"""
    return max(p.t, key=lambda m: _lexkey(m))


def _lexkey(m):
    return tuple((-i, e) for i, e in m)


def mono_div(m, d):
    """m / d if divisible with non-negative exponents w.r.t. d's atoms"""
    dm = dict(m)
    for (i, e) in d:
        f = dm.get(i, 0) - e
        if f < 0:
            return None
        if f:
            dm[i] = f
        else:
            dm.pop(i, None)
    return tuple(sorted(dm.items()))


def exact_div(a, p):
    """a / p if the division is exact (as polynomials), else None"""
    if len(p.t) == 0:
        return None
    if len(a.t) == len(p.t):
        # proportional?
        it = iter(p.t.items())
        m0, c0 = next(it)
        ca = a.t.get(m0)
        if ca is not None:
            k = ca / c0
            if all(a.t.get(m) == c * k for m, c in p.t.items()):
                return Poly({(): k})
    if not (p.atoms() <= a.atoms()):
        return None
    if len(a.t) > 400 or len(p.t) > 60:
        return None
    lp = lead(p)
    cp = p.t[lp]
    q = {}
    r = a
    steps = 0
    while r.t:
        steps += 1
        if steps > 600:
            return None
        lr = lead(r)
        m = mono_div(lr, lp)
        if m is None:
            return None
        c = r.t[lr] / cp
        q[m] = q.get(m, F0) + c
        # subtract c*m*p without reductions
        d = dict(r.t)
        for mm, cc in p.t.items():
            x = mono_mul(m, mm)
            v = d.get(x, F0) - c * cc
            if v:
                d[x] = v
            else:
                d.pop(x, None)
        r = Poly(d)
        if len(d) > 2000:
            return None
    return Poly(q)


def recip_poly(p):
    """1/p as Poly (p != 0 assumed on the path)"""
    t = p.t
    if len(t) == 1:
        (m, c), = t.items()
        r = Poly({tuple((i, -e) for i, e in m): 1 / c})
        return reduce_poly(r)
    # normalise: leading coefficient 1, factor out common monomial
    common = None
    for m in t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d and (e > 0) == (d[i] > 0)}
        if not common:
            break
    pre = ()
    if common:
        atoms = REG.atoms
        pre = tuple(sorted((i, e) for i, e in common.items() if e))
        inv = tuple((i, -e) for i, e in pre)
        t = {mono_mul(m, inv): c for m, c in t.items()}
    lm = max(t, key=_lexkey)
    lc = t[lm]
    q = Poly({m: c / lc for m, c in t.items()})
    if p.nn and lc > 0 and not pre: q.nn = True
    a = REG.get("recip", q.key(), (q,))
    if q.nn: a.args[0].nn = True
    r = Poly({((a.id, 1),): 1 / lc})
    if pre:
        r = pmul(r, reduce_poly(Poly({tuple((i, -e) for i, e in pre): F1})))
    return r


def numer(p, limit=4000):
    """numerator of p after clearing recip atoms and negative exponents; None if too big.
       Also returns list of denominators cleared [(poly, power)]"""
    dens = []
    for _ in range(40):
        mx = {}
        for m in p.t:
            for (i, e) in m:
                k = REG.atoms[i].kind
                if k == "recip" and e > 0:
                    mx[i] = max(mx.get(i, 0), e)
                elif e < 0 and k != "recip":
                    mx[i] = max(mx.get(i, 0), -e)
        if not mx:
            return p, dens
        i = max(mx)   # newest atom first: its argument only contains older ones
        d = mx[i]
        at = REG.atoms[i]
        acc = Poly({})
        if at.kind == "recip":
            q = at.args[0]
            pows = [Poly({(): F1})]
            for _k in range(d):
                pows.append(pmul(pows[-1], q))
            groups = {}
            for m, c in p.t.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i)
                groups.setdefault(e, {})[rest] = c
            for e, g in groups.items():
                acc = padd(acc, _rawmul(Poly(g), pows[d - e]))
                if len(acc.t) > limit:
                    return None, dens
            dens.append((q, d))
        else:
            r = {}
            for m, c in p.t.items():
                r[mono_mul(m, ((i, d),))] = c
            acc = reduce_poly(Poly(r))
            dens.append((atom_poly(at), d))
        p = acc
    return None, dens


def _rawmul(a, b):
    r = {}
    need = False
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        if len(r) > 4 * MAX_TERMS:
            raise TooBig("rawmul")
    return reduce_poly(Poly(r))


def is_zero_identity(p):
    """True if p is identically zero (as a rational function in its atoms)"""
    if type(p) is float:
        return p == 0.0
    if not p.t:
        return True
    try:
        n, _ = numer(p)
    except TooBig:
        return False
    return n is not None and not n.t


# ---------------------------------------------------------------- conditions
_keep = {}


class Cond:
    """symbolic boolean. op in '<0','<=0','==0' (arg Poly), 'z3' (arg BoolRef), 'not','and','or'"""
    __slots__ = ("op", "a", "_key", "_z")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._key = None
        self._z = None

    def key(self):
        k = self._key
        if k is None:
            if self.op in ("<0", "<=0", "==0"):
                k = (self.op, self.a.key())
            elif self.op == "z3":
                k = ("z3", self.a.get_id())
                _keep[k[1]] = self.a        # ids are reused once an expression is collected
            elif self.op == "not":
                k = ("not", self.a.key())
            else:
                k = (self.op, tuple(x.key() for x in self.a))
            self._key = k
        return k

    def atoms(self):
        if self.op in ("<0", "<=0", "==0"):
            return self.a.atoms()
        if self.op == "z3":
            return frozenset()
        if self.op == "not":
            return self.a.atoms()
        s = frozenset()
        for x in self.a:
            s |= x.atoms()
        return s

    def __repr__(self):
        return "(%s %r)" % (self.op, self.a)


def _norm_sign(p):
    """scale p by a positive constant so that the leading coeff is +-1"""
    lm = lead(p)
    c = abs(p.t[lm])
    if c == 1:
        return p
    return Poly({m: v / c for m, v in p.t.items()})


def is_nn(x):
    if type(x) is float: return x >= 0
    if x.nn: return True
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0 and all(e % 2 == 0 or atom_nn(REG.atoms[i]) for i, e in m): return True
    return False


def atom_nn(a):
    k = a.kind
    if k in ("sqrt", "abs", "exp", "root"): return True
    if k == "in": return a.extra[0] is not None and a.extra[0] >= 0
    if k == "recip": return a.args[0].nn
    return False


def strip_pos(p):
    """divide out a common factor that is positive (reciprocals of non-negative terms, even powers of reciprocals)"""
    it = iter(p.t)
    common = dict(next(it))
    common = {i: e for i, e in common.items() if e > 0 and REG.atoms[i].kind == "recip" or e < 0 and atom_nn(REG.atoms[i])}
    for m in it:
        if not common: return p
        d = dict(m)
        common = {i: (min(e, d[i]) if e > 0 else max(e, d[i])) for i, e in common.items() if i in d and (e > 0) == (d[i] > 0)}
    for i in list(common):
        if REG.atoms[i].kind == "recip" and not REG.atoms[i].args[0].nn: common[i] -= common[i] % 2
        if not common[i]: del common[i]
    if not common: return p
    inv = tuple((i, -e) for i, e in sorted(common.items()))
    return Poly({mono_mul(m, inv): c for m, c in p.t.items()})


def cond_cmp(op, p):
    if p.nn:
        if op == "<": return False
        if op == ">=": return True
    elif len(p.t) > 1:
        q = strip_pos(p)
        if q is not p: p = q
    return cond_cmp0(op, p)


def cond_cmp0(op, p):
    """p op 0 for p a Poly; returns bool or Cond; op in '<','<=','==','!=','>','>='"""
    if p.is_const():
        c = p.const()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0, ">": c > 0, ">=": c >= 0}[op]
    if len(p.t) == 1:
        # monomial of a positive atom (sqrt/recip unknown): quick sign facts
        (m, c), = p.t.items()
        if all(e % 2 == 0 for _, e in m) or all(REG.atoms[i].kind in ("sqrt", "abs", "exp") or e % 2 == 0 for i, e in m):
            # c * nonneg
            if c > 0 and op == "<": return False
            if c > 0 and op == ">=": return True
            if c < 0 and op == ">": return False
            if c < 0 and op == "<=": return True
    p = _norm_sign(p)
    if op == "<": return Cond("<0", p)
    if op == "<=": return Cond("<=0", p)
    if op == ">": return Cond("<0", pneg(p))
    if op == ">=": return Cond("<=0", pneg(p))
    q = pneg(p) if p.t[lead(p)] < 0 else p
    if op == "==": return Cond("==0", q)
    return Cond("not", Cond("==0", q))


def c_not(c):
    if c is True: return False
    if c is False: return True
    if c.op == "not": return c.a
    if c.op == "<0": return Cond("<=0", pneg(c.a))
    if c.op == "<=0": return Cond("<0", pneg(c.a))
    return Cond("not", c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    if len(out) == 1: return out[0]
    return Cond("and", tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    if len(out) == 1: return out[0]
    return Cond("or", tuple(out))


def c_z3(b):
    b = z3.simplify(b)
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return Cond("z3", b)


def c_xor(a, b):
    if a is True: return c_not(b)
    if a is False: return b
    if b is True: return c_not(a)
    if b is False: return a
    return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))


# ---------------------------------------------------------------- z3 translation
_real = {}


def z3q(c):
    r = _real.get(c)
    if r is None:
        if c.denominator == 1:
            r = z3.RealVal(c.numerator)
        else:
            r = z3.Q(c.numerator, c.denominator)
        if len(_real) < 100000:
            _real[c] = r
    return r


_uf = {}


def uf(name, n=1):
    f = _uf.get((name, n))
    if f is None:
        f = _uf[(name, n)] = z3.Function("uf_" + name, *([z3.RealSort()] * (n + 1)))
    return f


ATOMZ = {}      # z3 constant name -> atom (expressions over reals can sit inside bit-vector conditions)


def atom_z(a):
    if a.z is None:
        a.z = z3.Real(a.name)
        ATOMZ[a.name] = a
    return a.z


def poly_z(p):
    z = p._z
    if z is not None:
        return z
    terms = []
    atoms = REG.atoms
    for m, c in p.t.items():
        fs = []
        for (i, e) in m:
            a = atoms[i]
            if e > 0:
                v = atom_z(a)
            else:
                if a.rz is None:
                    a.rz = z3.Real("inv_" + a.name)
                    ATOMZ["inv_" + a.name] = a
                v = a.rz
                e = -e
            for _ in range(e):
                fs.append(v)
        if not fs:
            terms.append(z3q(c))
        else:
            prod = fs[0] if len(fs) == 1 else z3.Product(*fs)
            terms.append(prod if c == 1 else z3q(c) * prod)
    if not terms:
        z = z3.RealVal(0)
    elif len(terms) == 1:
        z = terms[0]
    else:
        z = z3.Sum(*terms)
    p._z = z
    return z


def cond_z(c):
    if c is True: return z3.BoolVal(True)
    if c is False: return z3.BoolVal(False)
    if c._z is not None:
        return c._z
    o = c.op
    if o == "<0": z = poly_z(c.a) < 0
    elif o == "<=0": z = poly_z(c.a) <= 0
    elif o == "==0": z = poly_z(c.a) == 0
    elif o == "z3": z = c.a
    elif o == "not": z = z3.Not(cond_z(c.a))
    elif o == "and": z = z3.And(*[cond_z(x) for x in c.a])
    else: z = z3.Or(*[cond_z(x) for x in c.a])
    c._z = z
    return z


def atom_defs(a):
    """definitional constraints of the atom (list of z3 exprs), and atoms it depends on"""
    if a._defs is not None:
        return a._defs
    z = atom_z(a)
    ds = []
    deps = frozenset()
    k = a.kind
    if k == "in":
        lo, hi = a.extra
        if lo is not None: ds.append(z >= z3q(Fraction(lo)))
        if hi is not None: ds.append(z <= z3q(Fraction(hi)))
    elif k == "recip":
        p = a.args[0]
        ds.append(z * poly_z(p) == 1)
        deps = p.atoms()
    elif k == "sqrt":
        p = a.args[0]
        ds.append(z >= 0)
        ds.append(z * z == poly_z(p))
        deps = p.atoms()
    elif k == "root":
        p = a.args[0]
        ds.append(z >= 0)
        ds.append(z3.Product(*([z] * a.extra)) == poly_z(p))
        deps = p.atoms()
    elif k == "abs":
        p = a.args[0]
        e = poly_z(p)
        ds.append(z == z3.If(e >= 0, e, -e))
        deps = p.atoms()
    elif k == "ite":
        c, x, y = a.args
        ds.append(z == z3.If(cond_z(c), poly_z(x), poly_z(y)))
        deps = c.atoms() | x.atoms() | y.atoms()
    elif k == "log":
        p = a.args[0]
        e = poly_z(p)
        ds.append(z == uf("log")(e))
        # sound facts about log: log(t) <= t-1, >= 1 - 1/t  (t>0)
        ds.append(z3.Implies(e == 1, z == 0))
        ds.append(z3.Implies(e > 1, z > 0))
        ds.append(z3.Implies(z3.And(e < 1, e > 0), z < 0))
        deps = p.atoms()
    elif k == "exp":
        p = a.args[0]
        e = poly_z(p)
        ds.append(z == uf("exp")(e))
        ds.append(z > 0)
        ds.append(z >= e + 1)
        deps = p.atoms()
    elif k == "fn":
        ps = a.args
        ds.append(z == uf(a.extra, len(ps))(*[poly_z(p) for p in ps]))
        for p in ps:
            deps = deps | p.atoms()
    elif k == "i2r":
        ds.append(z == z3.ToReal(z3.BV2Int(a.extra[0], a.extra[1])))
    elif k == "floor":
        p = a.args[0]
        i = z3.Int("fl_" + a.name)
        ds.append(z == z3.ToReal(i))
        ds.append(z <= poly_z(p)); ds.append(poly_z(p) < z + 1)
        deps = p.atoms()
    elif k == "free":
        pass
    a._defs = (ds, deps)
    return a._defs


def inv_def(a):
    if a.rz is None:
        a.rz = z3.Real("inv_" + a.name)
        ATOMZ["inv_" + a.name] = a
    return a.rz * atom_z(a) == 1


def closure(atom_ids):
    """all atoms reachable through definitions"""
    seen = set()
    st = list(atom_ids)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        _, deps = atom_defs(REG.atoms[i])
        st.extend(deps)
    return seen


# ---------------------------------------------------------------- arithmetic on doubles
class Special(Exception):
    pass


def mk_input(name, lo, hi):
    a = REG.inputs.get(name)
    if a is None:
        a = REG.get("in", name, (), name)
        a.extra = (lo, hi)
        REG.inputs[name] = a
    return atom_poly(a)


def mk_ite(c, x, y):
    if c is True: return x
    if c is False: return y
    if x is UNDEF or y is UNDEF:
        return UNDEF
    xs = type(x) is float
    ys = type(y) is float
    if xs and ys and x == y: return x
    if (xs and not math.isfinite(x)) or (ys and not math.isfinite(y)):
        raise Special()
    px, py = to_poly(x), to_poly(y)
    if px.t == py.t: return x
    if c.op == "not":
        c, px, py = c.a, py, px
    if c.op in ("<0", "<=0"):
        # |p| pattern: ite(p<0,-p,p)
        q = c.a
        # max/min recognition kept as ite
    # pull common part out: ite(c, r+x, r+y) = r + ite(c,x,y)
    common = {}
    if len(px.t) > 1 or len(py.t) > 1:
        tx, ty = px.t, py.t
        for m, v in tx.items():
            if ty.get(m) == v:
                common[m] = v
    if common:
        px = Poly({m: v for m, v in px.t.items() if m not in common})
        py = Poly({m: v for m, v in py.t.items() if m not in common})
    a = REG.get("ite", (c.key(), px.key(), py.key()), (c, px, py))
    r = dict(common)
    m = ((a.id, 1),)
    r[m] = F1
    return Poly(r)


def mk_abs(p):
    lm = lead(p)
    if p.t[lm] < 0:
        p = pneg(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(e % 2 == 0 or REG.atoms[i].kind in ("sqrt", "abs", "exp") for i, e in m):
            return p
        # |c * m| = |c| * |m|
        a = REG.get("abs", Poly({m: F1}).key(), (Poly({m: F1}),))
        return Poly({((a.id, 1),): abs(c)})
    a = REG.get("abs", p.key(), (p,))
    return atom_poly(a)


def isqrt_frac(c):
    if c < 0: return None
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def poly_root(p):
    """q with q*q == p (as polynomials), or None"""
    if not 3 <= len(p.t) <= 60 or any(e < 0 for m in p.t for _, e in m):
        return None
    lp = lead(p)
    if any(e % 2 for _, e in lp):
        return None
    c = isqrt_frac(p.t[lp]) if p.t[lp] > 0 else None
    if not c:
        return None
    l = tuple((i, e // 2) for i, e in lp)
    q = Poly({l: c})
    for _ in range(len(p.t)):
        r = psub(p, pmul(q, q))
        if not r.t:
            return q
        lr = lead(r)
        m = mono_div(lr, l)
        if m is None or m in q.t:
            return None
        q = padd(q, Poly({m: r.t[lr] / (2 * c)}))
    return None


def mk_sqrt(p):
    """sqrt of Poly known nonneg on the path"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = isqrt_frac(c)
        if r is not None and m:
            if all(e % 2 == 0 for _, e in m):
                half = Poly({tuple((i, e // 2) for i, e in m): F1})
                return pscale(mk_abs(half), r)
    lm = lead(p)
    lc = abs(p.t[lm])
    r = isqrt_frac(lc)
    if r is not None and r != 1:
        q = Poly({m: c / lc for m, c in p.t.items()})
        return pscale(mk_sqrt(q), r)
    a = REG.get("sqrt", p.key(), (p,))
    return atom_poly(a)


def mk_fn(name, *ps):
    a = REG.get("fn", (name,) + tuple(p.key() for p in ps), tuple(ps))
    a.extra = name
    return atom_poly(a)


def deriv(x, aid, memo=None):
    """derivative of double value x w.r.t. atom id aid"""
    if type(x) is float:
        return Poly({})
    if memo is None:
        memo = {}
    acc = Poly({})
    for m, c in x.t.items():
        for k, (i, e) in enumerate(m):
            d = atom_deriv(i, aid, memo)
            if not d.t:
                continue
            mm = list(m)
            if e == 1:
                mm.pop(k)
            else:
                mm[k] = (i, e - 1)
            acc = padd(acc, pmul(reduce_poly(Poly({tuple(mm): c * e})), d))
    return acc


def atom_deriv(i, aid, memo):
    if i == aid:
        return Poly({(): F1})
    if i in memo:
        return memo[i]
    a = REG.atoms[i]
    k = a.kind
    if k == "in" or k == "free":
        r = Poly({})
    else:
        args = a.args
        if k == "recip":
            d = deriv(args[0], aid, memo)
            r = pneg(pmul(pmul(atom_poly(a), atom_poly(a)), d)) if d.t else d
        elif k == "sqrt":
            d = deriv(args[0], aid, memo)
            r = pscale(pmul(d, recip_poly(atom_poly(a))), Fraction(1, 2)) if d.t else d
        elif k == "log":
            d = deriv(args[0], aid, memo)
            r = pmul(d, recip_poly(args[0])) if d.t else d
        elif k == "abs":
            d = deriv(args[0], aid, memo)
            if d.t:
                s = mk_ite(Cond("<0", args[0]), -1.0, 1.0)
                r = pmul(d, to_poly(s))
            else:
                r = d
        elif k == "ite":
            c, x, y = args
            dx, dy = deriv(x, aid, memo), deriv(y, aid, memo)
            r = to_poly(mk_ite(c, finish(dx), finish(dy)))
        else:
            raise NotImplementedError("deriv of " + k)
    memo[i] = r
    return r


def eval_float(x, env, memo=None):
    """float evaluation of a Poly under env: input atom id -> float"""
    if type(x) is float:
        return x
    if memo is None:
        memo = {}
    tot = 0.0
    for m, c in x.t.items():
        v = float(c)
        for (i, e) in m:
            v *= atom_eval(i, env, memo) ** e
        tot += v
    return tot


def atom_eval(i, env, memo):
    if i in memo:
        return memo[i]
    a = REG.atoms[i]
    k = a.kind
    if i in env:
        r = env[i]
    elif k == "in":
        lo, hi = a.extra
        r = 0.0
        if lo is not None and lo > 0: r = float(lo)
        if hi is not None and hi < 0: r = float(hi)
    elif k == "recip":
        r = 1.0 / eval_float(a.args[0], env, memo)
    elif k == "sqrt":
        r = math.sqrt(max(0.0, eval_float(a.args[0], env, memo)))
    elif k == "root":
        r = max(0.0, eval_float(a.args[0], env, memo)) ** (1.0 / a.extra)
    elif k == "abs":
        r = abs(eval_float(a.args[0], env, memo))
    elif k == "log":
        r = math.log(eval_float(a.args[0], env, memo))
    elif k == "exp":
        r = math.exp(eval_float(a.args[0], env, memo))
    elif k == "ite":
        r = eval_float(a.args[1] if eval_cond(a.args[0], env, memo) else a.args[2], env, memo)
    elif k == "fn":
        vals = [eval_float(p, env, memo) for p in a.args]
        r = getattr(math, a.extra)(*vals)
    elif k == "floor":
        r = float(math.floor(eval_float(a.args[0], env, memo)))
    else:
        raise NotImplementedError(k)
    memo[i] = r
    return r


def eval_cond(c, env, memo=None):
    if c is True or c is False:
        return c
    if memo is None:
        memo = {}
    o = c.op
    if o == "<0": return eval_float(c.a, env, memo) < 0
    if o == "<=0": return eval_float(c.a, env, memo) <= 0
    if o == "==0": return eval_float(c.a, env, memo) == 0
    if o == "not": return not eval_cond(c.a, env, memo)
    if o == "and": return all(eval_cond(x, env, memo) for x in c.a)
    if o == "or": return any(eval_cond(x, env, memo) for x in c.a)
    raise NotImplementedError(o)
