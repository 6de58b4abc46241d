"""Translate one LLVM IR function into Python source executed by the symbolic engine."""
import re
from ir import P, tokenize, unq, VOID, F64, F32, PTR, canon

STRIP_META = re.compile(r',?\s*![\w.]+(?:\([^)]*\))?(?:\s*![\w.]+)?')
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds",
         "disjoint", "nneg", "samesign", "nusw"}
SKIP_CALLS = ("@llvm.lifetime.", "@llvm.dbg.", "@llvm.experimental.noalias", "@llvm.invariant.", "@llvm.prefetch",
              "@llvm.donothing", "@llvm.sideeffect", "@llvm.pseudoprobe", "@llvm.var.annotation")
ICMP = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"}


class Unsupported(Exception):
    pass


class CG:
    def __init__(self, link, mod, f):
        self.link = link
        self.mod = mod
        self.f = f
        self.names = {}
        self.ns = {}
        self.out = []
        self.blocks = mod.blocks_of(f)
        self.bidx = {lab: i for i, (lab, _) in enumerate(self.blocks)}
        self.ncall = 0
        self.phis = {}

    def local(self, n):
        v = self.names.get(n)
        if v is None:
            v = self.names[n] = "v%d" % len(self.names)
        return v

    def const(self, obj):
        k = "K%d" % len(self.ns)
        self.ns[k] = obj
        return k

    def ex(self, ty, v):
        """python expression for operand"""
        k = v[0]
        if k == "loc":
            return self.local(v[1])
        if k == "int":
            t = self.mod.resolve(ty)
            if t == ("i", 1):
                return "True" if v[1] else "False"
            return str(v[1])
        if k == "flt":
            x = v[1]
            if x != x: return "NAN"
            if x == float("inf"): return "INF"
            if x == float("-inf"): return "NINF"
            return repr(x)
        if k == "null":
            return "NULL"
        if k == "undef":
            return self.const_agg(ty, v)
        if k == "glob":
            return "E.gptr(MODI, %r)" % v[1]
        if k == "cgep":
            return self.gep(v[1], v[2])
        if k == "ccast":
            _, op, t, x, t2 = v
            if op in ("bitcast", "addrspacecast"):
                return self.ex(t, x)
            if op == "inttoptr":
                return "E.inttoptr(%s)" % self.ex(t, x)
            if op == "ptrtoint":
                return "E.ptrtoint(%s)" % self.ex(t, x)
            raise Unsupported("ccast " + op)
        if k == "cbin":
            _, op, t, a, b = v
            return "%s_%d(%s, %s)" % (op, self.mod.resolve(t)[1], self.ex(t, a), self.ex(t, b))
        if k in ("zero", "agg", "bytes"):
            return self.const_agg(ty, v)
        raise Unsupported("operand %r" % (v,))

    def const_agg(self, ty, v):
        t = self.mod.resolve(ty)
        k = t[0]
        if v[0] == "zero":
            if k == "i": return "False" if t[1] == 1 else "0"
            if k in ("double", "float"): return "0.0"
            if k == "ptr": return "NULL"
            els = t[1] if k == "struct" else [t[2]] * t[1]
            return "(" + "".join(self.const_agg(x, ("zero", x)) + ", " for x in els) + ")"
        if v[0] == "undef":
            if k in ("struct", "arr", "vec"):
                els = t[1] if k == "struct" else [t[2]] * t[1]
                return "(" + "".join(self.const_agg(x, ("undef", x)) + ", " for x in els) + ")"
            return "UNDEF"
        if v[0] == "agg":
            return "(" + "".join(self.ex(x, y) + ", " for x, y in v[2]) + ")"
        raise Unsupported("const_agg %r" % (v,))

    def gep(self, et, ops):
        base = self.ex(*ops[0])
        coff = 0
        terms = []
        t = et
        for n, (ity, iv) in enumerate(ops[1:]):
            if n == 0:
                sz = self.mod.size(t)
            else:
                rt = self.mod.resolve(t)
                if rt[0] == "struct":
                    off, t = self.mod.field(rt, iv[1])
                    coff += off
                    continue
                t = rt[2]
                sz = self.mod.size(t)
            if iv[0] == "int":
                coff += iv[1] * sz
            elif iv[0] == "zero":
                pass
            else:
                terms.append((self.ex(ity, iv), sz, self.mod.resolve(ity)[1]))
        if not terms:
            if coff == 0:
                return base
            return "gepc(%s, %d)" % (base, coff)
        if len(terms) == 1:
            return "gep1(%s, %d, %s, %d)" % (base, coff, terms[0][0], terms[0][1])
        return "gepn(%s, %d, [%s])" % (base, coff, ", ".join("(%s, %d)" % (a, b) for a, b, _ in terms))

    # ------------------------------------------------------------------
    def generate(self):
        f = self.f
        args = [self.local(nm) for (_, _, nm) in f.params]
        # gather phis
        for lab, ins in self.blocks:
            ph = []
            for ln in ins:
                m = re.match(r"\s*(%\S+|%\"[^\"]*\") = phi ", ln)
                if not m:
                    break
                ph.append(self.parse_phi(ln))
            self.phis[lab] = ph
        o = self.out
        va = ", va=()" if f.vararg else ""
        o.append("def F(%s%s):" % (", ".join(args), va))
        if f.vararg:
            o.append("  E.vacur.append(va)")
        o.append("  fr = []")
        o.append("  E.enter(FNAME)")
        nb = len(self.blocks)
        if nb == 1:
            body_ind = "  "
            self.gen_block(0, body_ind)
        else:
            o.append("  bb = 0")
            o.append("  while True:")
            self.tree(0, nb, "    ")
        src = "\n".join(o)
        return src

    def tree(self, lo, hi, ind):
        if hi - lo == 1:
            self.gen_block(lo, ind)
            return
        if hi - lo <= 4:
            for b in range(lo, hi):
                self.out.append("%s%s bb == %d:" % (ind, "if" if b == lo else "elif", b))
                self.gen_block(b, ind + "  ")
            return
        mid = (lo + hi) // 2
        self.out.append("%sif bb < %d:" % (ind, mid))
        self.tree(lo, mid, ind + "  ")
        self.out.append("%selse:" % ind)
        self.tree(mid, hi, ind + "  ")

    def parse_phi(self, ln):
        p = P(tokenize(STRIP_META.sub("", ln)), self.mod)
        dst = p.next(); p.expect("="); p.expect("phi")
        while p.peek() in FLAGS: p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            lab = p.next()
            p.expect("]")
            inc[lab] = v
            if not p.accept(","):
                break
        return dst, t, inc

    def jump(self, ind, src, dst):
        ph = self.phis.get(dst, [])
        if ph:
            lhs = ", ".join(self.local(d) for d, _, _ in ph)
            rhs = ", ".join(self.ex(t, inc[src]) for _, t, inc in ph)
            if lhs != rhs:
                self.out.append("%s%s = %s" % (ind, lhs, rhs))
        di = self.bidx[dst]
        self.out.append("%sbb = %d" % (ind, di))
        if di <= self.bidx[src]:
            self.out.append("%sE.tick()" % ind)

    def gen_block(self, bi, ind):
        lab, ins = self.blocks[bi]
        for ln in ins:
            if " = phi " in ln and re.match(r"\s*(%\S+|%\"[^\"]*\") = phi ", ln):
                continue
            try:
                self.instr(ln, ind, lab)
            except (Unsupported, SyntaxError, KeyError, IndexError, ValueError) as e:
                self.out.append("%sE.unsupported(%r)" % (ind, "%s: %s [%s]" % (self.f.name, ln.strip()[:200], e)))
        # every block ends with a terminator

    def emit(self, ind, s):
        self.out.append(ind + s)

    def instr(self, ln, ind, lab):
        raw = ln
        if "!" in ln:
            # strip trailing metadata (not inside strings)
            ln = re.sub(r',\s*![\w.]+\s*!?[\w.]*(?:\([^)]*\))?', '', ln)
            ln = re.sub(r'\s![\w.]+\s*![\w.]*$', '', ln)
        if any(s in ln for s in SKIP_CALLS):
            return
        p = P(tokenize(ln), self.mod)
        dst = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            dst = self.local(p.next())
            p.next()
        op = p.next()
        E = self.emit
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "ret":
            t = p.type()
            if t == VOID:
                E(ind, "return E.leave(fr)")
            else:
                E(ind, "return E.leave(fr, %s)" % self.ex(t, p.value(t)))
        elif op == "br":
            if p.peek() == "label":
                p.next()
                dst_l = p.next()
                self.jump(ind, lab, dst_l)
                E(ind, "continue")
            else:
                t = p.type()
                c = self.ex(t, p.value(t))
                p.expect(","); p.expect("label"); l1 = p.next()
                p.expect(","); p.expect("label"); l2 = p.next()
                if c == "True" or c == "False":
                    self.jump(ind, lab, l1 if c == "True" else l2)
                    E(ind, "continue")
                    return
                E(ind, "if %s is True or (%s is not False and branch(%s)):" % (c, c, c))
                self.jump(ind + "  ", lab, l1)
                E(ind, "else:")
                self.jump(ind + "  ", lab, l2)
                E(ind, "continue")
        elif op == "switch":
            t = p.type()
            v = self.ex(t, p.value(t))
            p.expect(","); p.expect("label"); d = p.next()
            p.expect("[")
            kw = "if"
            w = self.mod.resolve(t)[1]
            while not p.accept("]"):
                tt = p.type()
                c = p.value(tt)
                p.expect(","); p.expect("label"); l = p.next()
                E(ind, "%s branch(icmp_eq(%s, %s)):" % (kw, v, self.ex(tt, c)))
                self.jump(ind + "  ", lab, l)
                kw = "elif"
            if kw == "if":
                self.jump(ind, lab, d)
            else:
                E(ind, "else:")
                self.jump(ind + "  ", lab, d)
            E(ind, "continue")
        elif op == "unreachable":
            E(ind, "E.unreachable()")
            E(ind, "return None")
        elif op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = "1"
            al = None
            while p.accept(","):
                if p.peek() == "align":
                    p.next(); al = int(p.next())
                elif p.peek() == "addrspace":
                    p.next(); p.skip_parens()
                else:
                    nt = p.type()
                    n = self.ex(nt, p.value(nt))
            E(ind, "%s = E.alloca(fr, %d, %s, %d)" % (dst, self.mod.size(t), n, al or self.mod.align(t)))
        elif op == "load":
            atomic = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            a = self.ex(pt, p.value(pt))
            if atomic: E(ind, "E.atomic = True")
            E(ind, "%s = %s" % (dst, self.load_ex(t, a)))
            if atomic: E(ind, "E.atomic = False")
        elif op == "store":
            atomic = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = self.ex(t, p.value(t))
            p.expect(",")
            pt = p.type()
            a = self.ex(pt, p.value(pt))
            if atomic: E(ind, "E.atomic = True")
            self.store_st(ind, t, v, a)
            if atomic: E(ind, "E.atomic = False")
        elif op == "getelementptr":
            while p.peek() in FLAGS: p.next()
            et = p.type()
            ops = []
            while p.accept(","):
                t = p.type()
                ops.append((t, p.value(t)))
            if self.mod.resolve(ops[0][0])[0] == "vec":
                raise Unsupported("vector gep")
            E(ind, "%s = %s" % (dst, self.gep(et, ops)))
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            fl = []
            while p.peek() in FLAGS: fl.append(p.next())
            t = p.type()
            va = p.value(t); p.expect(",")
            a = self.ex(t, va)
            b = self.ex(t, p.value(t))
            rt = self.mod.resolve(t)
            if op == "and" and va[0] == "undef" and rt[0] == "i":
                a = "0"  # SROA's first insert into a scalarised aggregate; the masked bits are overwritten next
            if rt[0] == "vec":
                E(ind, "%s = vecop(%s_%d, %s, %s)" % (dst, op, rt[2][1], a, b))
                return
            w = rt[1]
            if w == 1:
                E(ind, "%s = %s_1(%s, %s)" % (dst, op, a, b))
            else:
                suffix = "_nsw" if "nsw" in fl and op in ("add", "sub", "mul") else ""
                E(ind, "%s = %s_%d%s(%s, %s)" % (dst, op, w, suffix, a, b))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in FLAGS: p.next()
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            b = self.ex(t, p.value(t))
            if self.mod.resolve(t)[0] == "vec":
                E(ind, "%s = vecop(%s, %s, %s)" % (dst, op, a, b))
            else:
                E(ind, "%s = %s(%s, %s)" % (dst, op, a, b))
        elif op == "fneg":
            while p.peek() in FLAGS: p.next()
            t = p.type()
            a = self.ex(t, p.value(t))
            if self.mod.resolve(t)[0] == "vec":
                E(ind, "%s = tuple(fneg(x) for x in %s)" % (dst, a))
            else:
                E(ind, "%s = fneg(%s)" % (dst, a))
        elif op == "icmp":
            p.accept("samesign")
            pr = p.next()
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            b = self.ex(t, p.value(t))
            rt = self.mod.resolve(t)
            if rt[0] == "ptr":
                E(ind, "%s = pcmp_%s(%s, %s)" % (dst, pr, a, b))
            elif rt[0] == "vec":
                E(ind, "%s = tuple(icmp_%s(x, y%s) for x, y in zip(%s, %s))" % (dst, pr, (", %d" % rt[2][1]) if pr[0] == "u" else "", a, b))
            else:
                if pr[0] == "u":
                    E(ind, "%s = icmp_%s(%s, %s, %d)" % (dst, pr, a, b, rt[1]))
                else:
                    E(ind, "%s = icmp_%s(%s, %s)" % (dst, pr, a, b))
        elif op == "fcmp":
            while p.peek() in FLAGS: p.next()
            pr = p.next()
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            b = self.ex(t, p.value(t))
            if self.mod.resolve(t)[0] == "vec":
                E(ind, "%s = tuple(fcmp(%r, x, y) for x, y in zip(%s, %s))" % (dst, pr, a, b))
            else:
                E(ind, "%s = fcmp(%r, %s, %s)" % (dst, pr, a, b))
        elif op == "select":
            while p.peek() in FLAGS: p.next()
            ct = p.type()
            c = self.ex(ct, p.value(ct)); p.expect(",")
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            b = self.ex(t2, p.value(t2))
            if self.mod.resolve(ct)[0] == "vec":
                E(ind, "%s = tuple(select(c, x, y, 64) for c, x, y in zip(%s, %s, %s))" % (dst, c, a, b))
                return
            rt = self.mod.resolve(t)
            E(ind, "%s = %s if %s is True else %s if %s is False else select(%s, %s, %s, %d)" % (
                dst, a, c, b, c, c, a, b, rt[1] if rt[0] == "i" else 0))
        elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc",
                    "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            while p.peek() in FLAGS: p.next()
            t = p.type()
            a = self.ex(t, p.value(t))
            if op == "freeze":
                E(ind, "%s = %s" % (dst, a))
                return
            p.expect("to")
            t2 = p.type()
            r1, r2 = self.mod.resolve(t), self.mod.resolve(t2)
            if r1[0] == "vec" and r2[0] == "vec" and op != "bitcast":
                E(ind, "%s = tuple(cast_%s(x, %d, %d) for x in %s)" % (dst, op, width(r1[2]), width(r2[2]), a))
            elif op == "bitcast":
                if r1[0] == "ptr" and r2[0] == "ptr":
                    E(ind, "%s = %s" % (dst, a))
                else:
                    E(ind, "%s = E.bitcast(%s, %s, %s)" % (dst, a, self.const((self.mod, r1)), self.const((self.mod, r2))))
            elif op == "ptrtoint":
                E(ind, "%s = cast_trunc(E.ptrtoint(%s), 64, %d)" % (dst, a, r2[1]) if r2[1] < 64 else "%s = E.ptrtoint(%s)" % (dst, a))
            elif op == "inttoptr":
                E(ind, "%s = E.inttoptr(%s)" % (dst, a))
            else:
                E(ind, "%s = cast_%s(%s, %d, %d)" % (dst, op, a, width(r1), width(r2)))
        elif op == "extractvalue":
            t = p.type()
            a = self.ex(t, p.value(t))
            while p.accept(","):
                a = "%s[%d]" % (a, int(p.next()))
            E(ind, "%s = %s" % (dst, a))
        elif op == "insertvalue":
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            v = self.ex(t2, p.value(t2))
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            E(ind, "%s = insertval(%s, %s, %r)" % (dst, a, v, tuple(idx)))
        elif op == "extractelement":
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            i = self.ex(t2, p.value(t2))
            E(ind, "%s = %s[E.conc(%s)]" % (dst, a, i))
        elif op == "insertelement":
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            v = self.ex(t2, p.value(t2)); p.expect(",")
            t3 = p.type()
            i = self.ex(t3, p.value(t3))
            E(ind, "%s = insertval(%s, %s, (E.conc(%s),))" % (dst, a, v, i))
        elif op == "shufflevector":
            t = p.type()
            a = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            b = self.ex(t2, p.value(t2)); p.expect(",")
            t3 = p.type()
            m = self.ex(t3, p.value(t3))
            E(ind, "%s = shuffle(%s, %s, %s)" % (dst, a, b, m))
        elif op == "atomicrmw":
            p.accept("volatile")
            rop = p.next()
            pt = p.type()
            a = self.ex(pt, p.value(pt)); p.expect(",")
            t = p.type()
            v = self.ex(t, p.value(t))
            d = dst or "_"
            E(ind, "E.atomic = True")
            E(ind, "%s = %s" % (d, self.load_ex(t, a)))
            E(ind, "E.atomic = False")
            rt = self.mod.resolve(t)
            fn = {"fadd": "fadd", "fsub": "fsub"}.get(rop)
            if fn is None:
                if rop == "xchg":
                    E(ind, "_n = %s" % v)
                elif rop in ("add", "sub", "and", "or", "xor"):
                    E(ind, "_n = %s_%d(%s, %s)" % (rop, rt[1], d, v))
                else:
                    raise Unsupported("atomicrmw " + rop)
            else:
                E(ind, "_n = %s(%s, %s)" % (fn, d, v))
            E(ind, "E.atomic = True")
            self.store_st(ind, t, "_n", a)
            E(ind, "E.atomic = False")
        elif op == "cmpxchg":
            p.accept("weak"); p.accept("volatile")
            pt = p.type()
            a = self.ex(pt, p.value(pt)); p.expect(",")
            t = p.type()
            cv = self.ex(t, p.value(t)); p.expect(",")
            t2 = p.type()
            nv = self.ex(t2, p.value(t2))
            E(ind, "E.atomic = True")
            E(ind, "_o = %s" % self.load_ex(t, a))
            E(ind, "E.atomic = False")
            E(ind, "_e = bitseq(_o, %s)" % cv)
            E(ind, "if branch(_e):")
            E(ind + "  ", "E.atomic = True")
            self.store_st(ind + "  ", t, nv, a)
            E(ind + "  ", "E.atomic = False")
            E(ind + "  ", "%s = (_o, True)" % dst)
            E(ind, "else: %s = (_o, False)" % dst)
        elif op == "fence":
            pass
        elif op == "call":
            self.call(p, dst, ind)
        elif op == "va_arg":
            raise Unsupported("va_arg instr")
        else:
            raise Unsupported("instruction " + op)

    def load_ex(self, t, a):
        rt = self.mod.resolve(t)
        k = rt[0]
        if k == "double": return "load_f(%s)" % a
        if k == "ptr": return "load_p(%s)" % a
        if k == "i":
            if rt[1] == 1: return "E.load_i1(%s)" % a
            return "load_i(%s, %d, %d)" % (a, self.mod.size(rt), rt[1])
        if k == "float": return "E.load_f32(%s)" % a
        return "E.load_agg(%s, %s)" % (a, self.const((self.mod, rt)))

    def store_st(self, ind, t, v, a):
        rt = self.mod.resolve(t)
        k = rt[0]
        if k in ("double", "ptr"):
            self.emit(ind, "store(%s, 8, %s)" % (a, v))
        elif k == "i":
            if rt[1] == 1:
                v = "cast_zext(%s, 1, 8)" % v
            self.emit(ind, "store(%s, %d, %s)" % (a, self.mod.size(rt), v))
        elif k == "float":
            self.emit(ind, "store(%s, 4, %s)" % (a, v))
        else:
            self.emit(ind, "E.store_agg(%s, %s, %s)" % (a, v, self.const((self.mod, rt))))

    def call(self, p, dst, ind):
        while p.peek() in FLAGS or p.peek() in self.mod.CC:
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == "(":
            # function type given
            p.skip_parens()
        callee = p.next()
        direct = callee[0] == "@"
        if callee == "asm":
            # inline asm: treat empty barriers as no-ops
            while p.peek() in ("sideeffect", "alignstack", "inteldialect"):
                p.next()
            s = p.next()
            if s.strip('"') == "":
                return
            raise Unsupported("inline asm")
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                if t == ("metadata",):
                    # skip metadata operand
                    depth = 0
                    while True:
                        v = p.peek()
                        if depth == 0 and v in (",", ")"):
                            break
                        if v == "(": depth += 1
                        if v == ")": depth -= 1
                        p.next()
                    args.append((t, {}, ("int", 0)))
                else:
                    a = p.attrs()
                    args.append((t, a, p.value(t)))
                if not p.accept(","):
                    break
            p.expect(")")
        name = unq(callee) if direct else None
        d = (dst + " = ") if dst else ""
        if name == "@llvm.assume":
            # operand bundles
            while p.i < len(p.t):
                v = p.next()
                if v == '"align"':
                    p.expect("(")
                    t = p.type(); ptr = self.ex(t, p.value(t)); p.expect(",")
                    t2 = p.type(); n = self.ex(t2, p.value(t2))
                    off = "0"
                    if p.accept(","):
                        t3 = p.type(); off = self.ex(t3, p.value(t3))
                    self.emit(ind, "E.assume_align(%s, %s, %s)" % (ptr, n, off))
            t, _, v = args[0]
            c = self.ex(t, v)
            if c != "True":
                self.emit(ind, "E.ir_assume(%s)" % c)
            return
        exs = []
        for t, a, v in args:
            x = self.ex(t, v)
            if "byval" in a:
                x = "E.byval(fr, %s, %d)" % (x, self.mod.size(a["byval"]))
            exs.append(x)
        if direct:
            f = self.mod.funcs.get(name)
            if name.startswith("@llvm."):
                self.emit(ind, "%sE.intrinsic(%r, (%s))" % (d, name[1:], "".join(x + ", " for x in exs)))
                return
            k = "C%d" % self.ncall
            self.ncall += 1
            self.ns[k] = self.link.callable(self.mod, name)
            r = self.link.find(self.mod, name)
            nfix = len(r[1].params) if r is not None and r[1].vararg else None
            if r is not None and nfix is None and len(exs) > len(r[1].params): exs = exs[:len(r[1].params)]
            if nfix is not None:
                fixed, extra = exs[:nfix], exs[nfix:]
                tys = [self.mod.resolve(t) for t, _, _ in args[nfix:]]
                s = ", ".join(fixed + ["va=(%s)" % "".join("(%r, %s), " % (ty, x) for ty, x in zip(tys, extra))])
                self.emit(ind, "%s%s(%s)" % (d, k, s))
            else:
                self.emit(ind, "%s%s(%s)" % (d, k, ", ".join(exs)))
        else:
            fp = self.local(callee)
            tys = [self.mod.resolve(t) for t, _, _ in args]
            self.emit(ind, "%sE.icall(%s, (%s), %r)" % (d, fp, "".join(x + ", " for x in exs), tuple(t[0] for t in tys)))


def width(t):
    k = t[0]
    if k == "i": return t[1]
    if k in ("double", "ptr"): return 64
    if k == "float": return 32
    if k == "x86_fp80": return 80
    return 0
