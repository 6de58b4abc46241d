"""Race analysis of OpenMP regions.

When the code under analysis enters a parallel region, the outlined body is executed symbolically twice, as thread
0 and as thread 1 of a team.  In every worksharing loop each thread gets one iteration, an unconstrained symbolic
integer within the loop's range; the two are different.  Accesses to memory that is not private to the thread are
recorded with their (symbolic) addresses, and the solver decides whether two accesses, at least one of them a
write, by the two threads can overlap.  Accesses separated by a barrier, or both inside the same critical section /
reduction, or both atomic, do not conflict.  Any two iterations of a loop can be given to different threads under
some thread count, so this covers all thread counts and all interleavings."""
import time

import z3

import values as V
from values import UNDEF, Poly, c_z3, c_and, c_or, Cond


class Access:
    __slots__ = ("o", "off", "size", "w", "epoch", "locks", "loop", "atomic")


class Thread:
    """what one of the two symbolic threads does; installed as E.race while it runs"""

    def __init__(self, E, k, limit, seq):
        self.E, self.k, self.limit = E, k, limit
        self.seq = seq
        self.acc = {}
        self.over = {}
        self.epoch = 0
        self.locks = ()
        self.loop = 0
        self.nloop = 0
        self.its = {}
        self.nf = 0
        self.disp = None
        self.keep = []

    def private(self, o):
        return o.serial > self.limit or o.kind in ("tmp", "func")

    def rec(self, o, off, size, w):
        a = Access()
        a.o, a.off, a.size, a.w = o, off, size, w
        a.epoch, a.locks, a.loop, a.atomic = self.epoch, self.locks, self.loop, self.E.atomic
        oid = off if type(off) is int else ("z", off.get_id())
        self.acc.setdefault((id(o), oid, size, w, a.epoch, a.locks, a.loop, a.atomic), a)

    def okey(self, o, off):
        if type(off) is int: return (id(o), off)
        off = z3.simplify(off)
        self.keep.append(off)
        return (id(o), "z", off.get_id())

    def fresh_real(self):
        self.nf += 1
        return V.mk_input("race%d_%d" % (self.k, self.nf), None, None)

    def read(self, o, off, size, kind):
        from exec import Unsupported, fromz, BitsOf
        if self.private(o):
            if type(off) is not int: raise Unsupported("symbolic index into thread-private memory")
            return None
        if not o.ro: self.rec(o, off, size, False)
        if kind == "m":
            if type(off) is not int: raise Unsupported("memcpy from a symbolic offset in a parallel region")
            return None
        v = self.over.get(self.okey(o, off))
        if v is not None and v[0] == size:
            v = v[1]
            if kind == "f": return (self.E.as_f(v),)
            if kind == "i" and type(v) is Poly: return (BitsOf(v),)
            if kind == "p" and type(v) is int: return (self.E.inttoptr(v),)
            return (v,)
        if type(off) is int:
            if kind == "f":
                v = self.E.load_raw(o, off, 8)
                return (self.fresh_real(),) if v is UNDEF else None
            return None
        if kind == "f":
            v = self.fresh_real()
            self.over[self.okey(o, off)] = (size, v)
            return (v,)
        if kind == "i":
            if type(o.size) is int and o.size <= 64 * size:
                cs = [(b, c[1]) for b, c in sorted(o.cells.items()) if c[0] == size and (type(c[1]) is int or isinstance(c[1], z3.BitVecRef))]
                if cs:
                    e = None
                    for b, v in cs:
                        zv = z3.BitVecVal(v, 8 * size) if type(v) is int else v
                        e = zv if e is None else z3.If(off == b, zv, e)
                    return (fromz(z3.simplify(e)),)
            if size == 8 and not any(type(c[1]) is int for c in o.cells.values()):
                v = self.fresh_real()
                self.over[self.okey(o, off)] = (size, v)
                return (BitsOf(v),)
            raise Unsupported("integer read at a symbolic offset in a parallel region")
        raise Unsupported("pointer read at a symbolic offset in a parallel region")

    def write(self, o, off, size, v):
        from exec import Unsupported
        if self.private(o):
            if type(off) is not int: raise Unsupported("symbolic index into thread-private memory")
            return False
        self.rec(o, off, size, True)
        self.over[self.okey(o, off)] = (size, v)
        return True

    # ---- worksharing
    def pick(self, lb, ub, w, signed=True):
        E = self.E
        self.nloop += 1
        self.loop = self.nloop
        it = z3.BitVec("it%d_%d" % (self.k, self.nloop), w)
        self.its[self.loop] = it
        E.has_bv = True
        zl = z3.BitVecVal(lb, w) if type(lb) is int else lb
        zu = z3.BitVecVal(ub, w) if type(ub) is int else ub
        c = c_z3(z3.And(zl <= it, it <= zu) if signed else z3.And(z3.ULE(zl, it), z3.ULE(it, zu)))
        if c is False or c is not True and E.ask(c, E.branch_timeout)[0] == "unsat":
            return None
        if c is not True: E.pc.append(c)
        E.env = None
        return it

    def static_init(self, plb, pub, pst, plast, incr, size, signed=True):
        from exec import Unsupported, fromz
        E = self.E
        w = 8 * size
        lb, ub = E.load_i(plb, size, w), E.load_i(pub, size, w)
        if E.conc(incr) != 1: raise Unsupported("worksharing loop with increment %s" % incr)
        it = self.pick(lb, ub, w, signed)
        if it is None:   # fewer than one iteration
            E.store(plb, size, 1); E.store(pub, size, 0)
            return True
        E.store(plb, size, it); E.store(pub, size, it)
        zl = z3.BitVecVal(lb, w) if type(lb) is int else lb
        zu = z3.BitVecVal(ub, w) if type(ub) is int else ub
        E.store(pst, size, fromz(z3.simplify(zu - zl + 1)))
        if plast.obj is not None:
            E.store(plast, 4, z3.If(it == zu, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return True

    def dispatch_init(self, lb, ub, w): self.disp = (lb, ub, w)

    def dispatch_next(self, plast, plb, pub, pst):
        E = self.E
        if self.disp is None:
            self.loop = 0
            return 0
        lb, ub, w = self.disp
        self.disp = None
        it = self.pick(lb, ub, w)
        if it is None: return 0
        s = w // 8
        E.store(plb, s, it); E.store(pub, s, it); E.store(pst, s, 1)
        if plast.obj is not None: E.store(plast, 4, 0)
        return 1

    def fini(self): self.loop = 0
    def barrier(self): self.epoch += 1
    def lock(self, name): self.locks = self.locks + (name,)
    def unlock(self): self.locks = self.locks[:-1]

    def thread_num(self):
        t = z3.BitVec("tid%d" % self.k, 32)
        c = c_z3(z3.And(t >= 0, t < 64))
        self.E.has_bv = True
        self.E.pc.append(c)
        self.E.env = None
        return t


def explore(E, k, fn, args, limit, seq):
    """all paths of one thread through the region: [(path condition, accesses, iterations)]"""
    from exec import PathEnd, Violation, Limit, Unsupported, Ptr
    base_pc, base_known = E.pc, E.known
    out = []
    work = [[]]
    while work:
        if len(out) > 64:
            raise Unsupported("more than 64 paths through one iteration of a parallel region")
        E.prefix, E.dpos, E.decisions, E.new_work = work.pop(), 0, [], []
        E.pc, E.known, E.asserts, E.idents = list(base_pc), dict(base_known), [], []
        E.env = None
        depth = E.depth
        t = Thread(E, k, limit, seq)
        g = E.new_obj(4, "stack", "gtid", 4); g.cells[0] = (4, k)
        b = E.new_obj(4, "stack", "btid", 4); b.cells[0] = (4, 0)
        save = (E.userdata.get("team", 1), E.userdata.get("tid", 0))
        E.userdata["team"], E.userdata["tid"] = 2, k
        E.race = t
        try:
            E.icall(fn, (Ptr(g, 0), Ptr(b, 0)) + args)
        except PathEnd:
            t = None
        except Violation:
            pass            # what happened up to here is kept; the fault itself is reported by the ordinary execution
        finally:
            E.race = None
            E.userdata["team"], E.userdata["tid"] = save
            E.depth = depth
            E.atomic = False
        work.extend(E.new_work)
        if t is not None:
            out.append((E.pc[len(base_pc):], list(t.acc.values()), t.its, t.keep))
    E.pc, E.known = base_pc, base_known
    return out


def analyse(E, fn, args):
    """side exploration of the region; the state of the execution is left as it was"""
    from exec import PathEnd
    st = E.stats
    names = ("prefix", "dpos", "decisions", "new_work", "pc", "known", "asserts", "idents", "env", "has_bv", "vacur", "nalloc", "outcount", "spath", "depth", "steps")
    save = {n: getattr(E, n) for n in names}
    fname = fn.obj.fn[2] if fn.obj is not None and fn.obj.fn else "?"
    limit = E.objser
    E.vacur = list(E.vacur)
    E.has_bv = True
    st["regions"] = st.get("regions", 0) + 1
    try:
        P = [explore(E, k, fn, args, limit, st["regions"]) for k in (0, 1)]
        E.pc, E.known = save["pc"], save["known"]
        E.asserts = []
        cands = []
        for pc0, A0, it0, _ in P[0]:
            for pc1, A1, it1, _ in P[1]:
                by = {}
                for b in A1: by.setdefault(id(b.o), []).append(b)
                for a in A0:
                    for b in by.get(id(a.o), ()):
                        if not (a.w or b.w): continue
                        if a.epoch != b.epoch: continue
                        if a.atomic and b.atomic: continue
                        if set(a.locks) & set(b.locks): continue
                        zs = []
                        za = z3.BitVecVal(a.off, 64) if type(a.off) is int else a.off
                        zb = z3.BitVecVal(b.off, 64) if type(b.off) is int else b.off
                        zs.append(z3.And(za < zb + b.size, zb < za + a.size))
                        if a.loop and a.loop == b.loop and a.loop in it0 and b.loop in it1:
                            zs.append(it0[a.loop] != it1[b.loop])
                        c = c_z3(z3.And(*zs))
                        if c is False: continue
                        cc = c_and(*(list(pc0) + list(pc1) + [c]))
                        if cc is False: continue
                        cands.append((cc, a, b, it0.get(a.loop), it1.get(b.loop)))
        st["access_pairs"] = st.get("access_pairs", 0) + len(cands)
        st["asserts"] += 1
        if not cands: return
        seen = E.__dict__.setdefault("race_seen", set())
        reported = E.__dict__.setdefault("race_reported", set())
        keyed = None
        if E.cfg.get("race") != "sym":
            keyed = hash((fname,) + tuple(sorted(str(c[0].key()) if c[0] is not True else "T" for c in cands)))
            if keyed in seen: return
        allc = c_or(*[c[0] for c in cands])
        r, env = E.ask(allc, E.assert_timeout)
        if r == "unsat":
            if keyed is not None: seen.add(keyed)
            return
        for cc, a, b, i, j in cands:
            r, env = E.ask(cc, E.assert_timeout)
            if r == "unsat": continue
            if r == "unknown":
                E.undecided.append("possible race undecided in %s" % fname)
                continue
            ints = env[1] if env else {}
            vi = ints.get(str(i), 0) if i is not None else None
            vj = ints.get(str(j), 0) if j is not None else None
            lab = "data race in %s: %s by iteration %s and %s by iteration %s of the same %d bytes of a shared object (%s)" % (
                fname, "write" if a.w else "read", vi, "write" if b.w else "read", vj, min(a.size, b.size), a.o.name)
            if fname in reported: return
            reported.add(fname)
            E.findings.append(dict(kind="race", label=lab, inputs=E.concrete_inputs(env), alts=[], decisions=0,
                                   race=(vi if vi is not None else 0, vj if vj is not None else 1)))
            return
    finally:
        for n, v in save.items(): setattr(E, n, v)
