"""Parser for textual LLVM IR (opaque pointers, LLVM 18)."""
import re
import struct

TOK = re.compile(r'''
 (?P<ws>\s+)|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>[%@](?:"[^"]*"|[-\w.$]+))|
 (?P<meta>![\w.]*|\#\d+|\$[\w.]+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|(?P<flt>[-+]?\d+\.\d*(?:e[-+]?\d+)?)|(?P<int>-?\d+)|
 (?P<dots>\.\.\.)|(?P<id>[A-Za-z_][\w.]*)|(?P<p>[()\[\]{}<>,=*:|^])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise SyntaxError("tokenize: %r at %d" % (s, i))
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append(m.group())
    return out


# ---- types: tuples
VOID = ("void",)
PTR = ("ptr",)
F64 = ("double",)
F32 = ("float",)
I1 = ("i", 1)
I8 = ("i", 8)
I32 = ("i", 32)
I64 = ("i", 64)

PARAM_ATTRS = {"noundef", "noalias", "nocapture", "readonly", "writeonly", "readnone", "nonnull", "signext",
               "zeroext", "inreg", "returned", "nest", "swiftself", "swifterror", "immarg", "noext",
               "dead_on_unwind", "writable", "nofree", "allocalign", "allocptr", "noinline", "inalloca",
               "swiftasync", "captures", "initializes", "range", "nofpclass"}
PAREN_ATTRS = {"sret", "byval", "byref", "dereferenceable", "dereferenceable_or_null", "elementtype",
               "preallocated", "inalloca", "captures", "initializes", "range", "nofpclass", "memory", "allocsize"}


class P:
    """token stream with helpers"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise SyntaxError("expected %r got %r in %s" % (x, v, " ".join(self.t)))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def type(self):
        v = self.next()
        if v == "void":
            t = VOID
        elif v == "ptr":
            t = PTR
            if self.accept("addrspace"):
                self.skip_parens()
        elif v == "double":
            t = F64
        elif v == "float":
            t = F32
        elif v == "x86_fp80":
            t = ("x86_fp80",)
        elif v == "half":
            t = ("half",)
        elif v in ("metadata", "label", "token"):
            t = (v,)
        elif re.fullmatch(r"i\d+", v):
            t = ("i", int(v[1:]))
        elif v == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "<":
            if self.peek() == "{":
                self.next()
                el = []
                if not self.accept("}"):
                    while True:
                        el.append(self.type())
                        if not self.accept(","):
                            break
                    self.expect("}")
                self.expect(">")
                t = ("struct", tuple(el), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif v == "{":
            el = []
            if not self.accept("}"):
                while True:
                    el.append(self.type())
                    if not self.accept(","):
                        break
                self.expect("}")
            t = ("struct", tuple(el), False)
        elif v[0] == "%":
            t = ("named", v)
        else:
            raise SyntaxError("type? %r in %s" % (v, " ".join(self.t)))
        # function type
        while self.peek() == "(" and t is not None and self._is_fn_type():
            self.skip_parens()
            t = ("fn", t)
        while self.accept("*"):
            t = PTR
        return t

    def _is_fn_type(self):
        return False

    def attrs(self):
        """parse parameter attributes; return dict"""
        a = {}
        while True:
            v = self.peek()
            if v is None:
                return a
            if v == "align":
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    a["align"] = int(self.next())
            elif v in ("byval", "sret", "byref", "elementtype", "preallocated", "inalloca") and self.peek(1) == "(":
                self.next()
                self.expect("(")
                a[v] = self.type()
                self.expect(")")
            elif v in PAREN_ATTRS and self.peek(1) == "(":
                self.next()
                self.skip_parens()
            elif v in PARAM_ATTRS:
                self.next()
            elif v[0] == '"' and self.peek(1) == "=":
                self.next(); self.next(); self.next()
            elif v[0] == '"':
                self.next()
            else:
                return a

    def value(self, ty):
        """parse an operand of known type -> ('loc',name) | ('glob',name) | ('const',pyvalue) | ('cexpr',...)"""
        v = self.next()
        c0 = v[0]
        if c0 == "%":
            return ("loc", v)
        if c0 == "@":
            return ("glob", unq(v))
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef", ty)
        if v == "zeroinitializer":
            return ("zero", ty)
        if v == "true":
            return ("int", 1)
        if v == "false":
            return ("int", 0)
        if v == "none":
            return ("undef", ty)
        if v[:2] == "0x":
            return ("flt", parse_hexfloat(v, self.mod.resolve(ty)))
        if c0 == "c" and v[1:2] == '"':
            return ("bytes", unescape(v[2:-1]))
        if re.fullmatch(r"[-+]?\d+\.\d*(e[-+]?\d+)?", v):
            return ("flt", float(v))
        if re.fullmatch(r"-?\d+", v):
            rt = self.mod.resolve(ty)
            if rt[0] in ("double", "float"):
                return ("flt", float(v))
            return ("int", canon(int(v), rt[1] if rt[0] == "i" else 64))
        if v in ("[", "{") or (v == "<"):
            packed = False
            if v == "<" and self.peek() == "{":
                self.next()
                packed = True
                close = "}"
            else:
                close = {"[": "]", "{": "}", "<": ">"}[v]
            els = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    self.attrs()
                    els.append((t, self.value(t)))
                    if not self.accept(","):
                        break
                self.expect(close)
            if packed:
                self.expect(">")
            return ("agg", ty, els)
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            et = self.type()
            self.expect(",")
            ops = []
            while True:
                if self.peek() == "inrange":
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("cgep", et, ops)
        if v in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr"):
            while self.peek() in ("nsw", "nuw", "exact"):
                self.next()
            self.expect("(")
            t = self.type(); a = self.value(t)
            self.expect(",")
            t2 = self.type(); b = self.value(t2)
            self.expect(")")
            return ("cbin", v, t, a, b)
        if v == "dso_local_equivalent" or v == "no_cfi":
            return self.value(ty)
        raise SyntaxError("value? %r in %s" % (v, " ".join(self.t)))


def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.extend(s[i].encode("latin-1", "replace") if ord(s[i]) < 256 else s[i].encode("utf8"))
            i += 1
    return bytes(out)


def canon(v, w):
    m = 1 << w
    v &= m - 1
    if w > 1 and v >> (w - 1):
        v -= m
    return v


def parse_hexfloat(v, ty):
    if v[2] in "KLMHR":
        return float("nan")
    b = int(v, 16)
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, attrs, locname)
        self.ret = VOID
        self.vararg = False
        self.blocks = None    # list of (label, [instr])
        self.lines = None
        self.internal = False
        self.mod = None
        self.py = None
        self.retattrs = {}


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.globals = {}     # name -> (type, init value or None, const, internal, align)
        self.funcs = {}
        self.aliases = {}
        self.parse(text)

    # --- type layout
    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            w = t[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k in ("double", "ptr"): return 8
        if k == "float": return 4
        if k == "half": return 2
        if k == "x86_fp80": return 16
        if k == "arr": return self.align(t[2])
        if k == "vec": return self.size(t)
        if k == "struct":
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            w = t[1]
            n = (w + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k in ("double", "ptr"): return 8
        if k == "float": return 4
        if k == "half": return 2
        if k == "x86_fp80": return 16
        if k == "arr": return t[1] * self.size(t[2])
        if k == "vec":
            e = t[2]
            if e[0] == "i":
                n = (t[1] * e[1] + 7) // 8
            else:
                n = t[1] * self.size(e)
            p = 1
            while p < n: p *= 2
            return p
        if k == "struct":
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                off += self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k in ("fn", "void"): return 1
        raise ValueError(t)

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise IndexError(i)

    # --- parsing
    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes ", "module asm", "uselistorder")):
                continue
            if ln[0] == "%" and " = type " in ln:
                name, rest = ln.split(" = type ", 1)
                if rest.strip() == "opaque":
                    self.types[name] = ("struct", (), False)
                else:
                    self.types[name] = P(tokenize(rest), self).type()
            elif ln[0] == "@":
                self.parse_global(ln)
            elif ln.startswith("define "):
                body = []
                hdr = ln
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self.parse_header(hdr)
                f.lines = body
                self.funcs[f.name] = f
            elif ln.startswith("declare "):
                f = self.parse_header(ln)
                self.funcs.setdefault(f.name, f)
            elif ln[0] == "$":
                continue

    LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending",
            "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default",
            "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "thread_local", "dllimport", "dllexport",
            "externally_initialized"}

    def parse_global(self, ln):
        p = P(tokenize(ln), self)
        name = unq(p.next())
        p.expect("=")
        internal = False
        external = False
        while True:
            v = p.next()
            if v in ("private", "internal"):
                internal = True
            if v in ("external", "extern_weak"):
                external = True
            if v in self.LINK:
                if v == "thread_local" and p.peek() == "(":
                    p.skip_parens()
                continue
            if v == "addrspace":
                p.skip_parens()
                continue
            break
        if v in ("alias", "ifunc"):
            t = p.type(); p.expect(",")
            t2 = p.type()
            self.aliases[name] = p.value(t2)
            return
        if v not in ("global", "constant"):
            raise SyntaxError(ln)
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        al = None
        while p.accept(","):
            if p.peek() == "align":
                p.next()
                al = int(p.next())
                continue
            break
        self.globals[name] = (t, init, v == "constant", internal, al)

    CC = {"fastcc", "ccc", "coldcc", "tailcc", "swiftcc", "x86_stdcallcc"}

    def parse_header(self, ln):
        j = ln.rfind(" {")
        p = P(tokenize(ln), self)
        p.next()  # define/declare
        internal = False
        while True:
            v = p.peek()
            if v in ("private", "internal"):
                internal = True
            if v in self.LINK or v in self.CC:
                p.next()
                continue
            if v[0] == "!":
                p.next()
                if p.peek() and p.peek()[0] == "!":
                    p.next()
                continue
            break
        ra = p.attrs()
        rt = p.type()
        name = unq(p.next())
        f = Func(name)
        f.retattrs = ra
        f.internal = internal
        f.ret = rt
        f.mod = self
        p.expect("(")
        k = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    f.vararg = True
                else:
                    t = p.type()
                    a = p.attrs()
                    nm = None
                    if p.peek() and p.peek()[0] == "%":
                        nm = p.next()
                    else:
                        nm = "%%%d" % k
                    k += 1
                    f.params.append((t, a, nm))
                if not p.accept(","):
                    break
            p.expect(")")
        return f

    def blocks_of(self, f):
        if f.blocks is not None:
            return f.blocks
        blocks = []
        cur = None
        # entry label: number after params if unnamed
        unn = sum(1 for (_, _, nm) in f.params if re.fullmatch(r"%\d+", nm))
        first = "%%%d" % unn
        pend = None
        for ln in f.lines:
            s = ln
            if pend is not None:
                s = pend + " " + ln.strip()
                if self._open(s):
                    pend = s
                    continue
                pend = None
                cur[1].append(s)
                continue
            if not s.strip() or s.lstrip().startswith(";"):
                continue
            if s[0] not in " \t":
                m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
                if m:
                    lab = m.group(1)
                    if lab[0] == '"':
                        lab = '"' + lab[1:-1] + '"'
                    cur = ("%" + lab, [])
                    blocks.append(cur)
                    continue
            if cur is None:
                cur = (first, [])
                blocks.append(cur)
            if self._open(s):
                pend = s
                continue
            cur[1].append(s)
        f.blocks = blocks
        return blocks

    @staticmethod
    def _open(s):
        # multi-line switch: "switch i32 %x, label %d ["
        t = re.sub(r'"[^"]*"', '', s)
        return t.count("[") > t.count("]") or (t.strip().startswith("invoke") and " unwind " not in t) or \
            (re.search(r"= *landingpad", t) is not None and False)
