"""LLVM IR (clang -O0, opaque pointers) to C, instruction by instruction, for CBMC.

The C text is generated from /repo's current sources on every run.  Dropped: exception
unwinding (a throw ends the path; see rt.c), debug and lifetime markers, alignment and
aliasing attributes, floating-point formats other than float/double.
"""
import re

TOK = re.compile(r'\s*(%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"(?:[^"\\]|\\.)*"|"[^"]*"|![\w.]*|#\d+|\$"[^"]*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-F]+|-?\d+|\.\.\.|[\w.$]+|[][(){}<>,=*:|])')


class IRError(Exception):
    pass


def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s[i:].isspace():
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot read: " + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


# ---- types: ('i',n) ('p',) ('v',) ('f','float'|'double') ('a',n,t) ('s',[t],packed) ('n',name) ('fn',ret,args,var)
def san(n):
    n = n.strip('"')
    return re.sub(r"[^A-Za-z0-9_]", lambda m: "_%02x" % ord(m.group(0)), n)


PATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "immarg", "returned", "inreg", "nest",
         "dead_on_unwind", "writable", "noreturn", "nounwind", "swiftself", "allocptr", "nofree", "inalloca", "allocalign"}
FAST = {"nuw", "nsw", "exact", "inbounds", "nneg", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "samesign", "tail", "musttail", "notail"}
CC = {"fastcc", "ccc", "coldcc", "cc"}
LINK = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external",
        "dso_local", "dso_preemptable", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "thread_local", "constant", "global",
        "externally_initialized", "alias"}


class P:
    """cursor over tokens"""

    def __init__(self, s):
        self.t = tokens(s) if isinstance(s, str) else s
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise IRError("unexpected end")
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError("expected %s at %s" % (x, " ".join(self.t[self.i:self.i + 8])))

    def type(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = ("p",)
            if self.peek() == "addrspace":
                self.next(); self.parens()
        elif x == "void":
            t = ("v",)
        elif x in ("float", "double", "x86_fp80"):
            t = ("f", x)
        elif x == "[":
            n = int(self.next())
            self.need("x")
            t = ("a", n, self.type())
            self.need("]")
        elif x == "{":
            t = ("s", self.fields("}"), False)
        elif x == "<":
            if self.eat("{"):
                t = ("s", self.fields("}"), True)
                self.need(">")
            else:
                n = int(self.next())
                self.need("x")
                t = ("vec", n, self.type())
                self.need(">")
        elif x[0] == "%":
            t = ("n", x[1:].strip('"'))
        elif x in ("label", "metadata", "opaque", "token"):
            t = (x,)
        else:
            raise IRError("type? " + x)
        while self.peek() == "(":      # function type
            self.next()
            args, var = [], False
            while not self.eat(")"):
                if self.eat("..."):
                    var = True
                else:
                    args.append(self.type())
                self.eat(",")
            t = ("fn", t, args, var)
        return t

    def fields(self, end):
        out = []
        while not self.eat(end):
            out.append(self.type())
            self.eat(",")
        return out

    def parens(self):
        self.need("(")
        d, out = 1, []
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")
            out.append(x)
        return out[:-1]

    def attrs(self):
        """parameter / return attributes; gives {'byval': type, 'sret': type}"""
        a = {}
        while True:
            x = self.peek()
            if x in PATTR or x in CC:
                self.next()
                if x == "cc":
                    self.next()
            elif x in ("byval", "sret", "elementtype", "byref", "preallocated", "inalloca"):
                self.next(); self.need("("); a[x] = self.type(); self.need(")")
            elif x in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "nofpclass", "initializes", "memory", "allocsize", "vscale_range"):
                self.next(); self.parens()
            elif x == "align":
                self.next()
                if self.peek() == "(":
                    self.parens()
                else:
                    self.next()
            elif x and x.startswith('"'):
                self.next()
                if self.eat("="):
                    self.next()
            elif x and x.startswith("#"):
                self.next()
            else:
                return a

    def const(self, ty):
        """value of type ty; ('l',name) ('g',name) ('c',python value) ('z',) ('u',) ('agg',[(ty,v)]) ('str',bytes) ('gep',..) ('cast',op,ty,v,ty2)"""
        x = self.next()
        if x[0] == "%":
            return ("l", x[1:].strip('"'))
        if x[0] == "@":
            return ("g", x[1:].strip('"'))
        if x in ("true", "false"):
            return ("c", int(x == "true"))
        if x in ("null", "zeroinitializer", "none"):
            return ("z",)
        if x in ("undef", "poison"):
            return ("u",)
        if x.startswith('c"'):
            raw, b, i = x[2:-1], bytearray(), 0
            while i < len(raw):
                if raw[i] == "\\":
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(raw[i])); i += 1
            return ("str", bytes(b))
        if x in ("{", "[", "<"):
            end = {"{": "}", "[": "]", "<": ">"}[x]
            inner = x == "<" and self.eat("{")
            out = []
            while not self.eat("}" if inner else end):
                t = self.type()
                out.append((t, self.const(t)))
                self.eat(",")
            if inner:
                self.need(">")
            return ("agg", out)
        if x == "getelementptr":
            while self.peek() in FAST or self.peek() == "inrange":
                if self.next() == "inrange":
                    self.parens()
            self.need("(")
            sty = self.type()
            self.need(",")
            ops = []
            while not self.eat(")"):
                if self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(":
                        self.parens()
                t = self.type()
                ops.append((t, self.const(t)))
                self.eat(",")
            return ("gep", sty, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.need("(")
            t = self.type()
            v = self.const(t)
            self.need("to")
            t2 = self.type()
            self.need(")")
            return ("cast", x, t, v, t2)
        if x in ("add", "sub", "mul", "xor"):
            while self.peek() in FAST:
                self.next()
            self.need("(")
            t = self.type(); a = self.const(t); self.need(","); t2 = self.type(); b = self.const(t2); self.need(")")
            return ("bin", x, t, a, b)
        if re.fullmatch(r"-?\d+", x):
            return ("c", int(x))
        if re.fullmatch(r"-?\d+\.\d+e[+-]\d+", x):
            return ("c", float(x))
        if x.startswith("0x"):
            import struct
            return ("c", struct.unpack(">d", int(x, 16).to_bytes(8, "big"))[0])
        raise IRError("constant? %s %s" % (ty, x))

    def tv(self):
        t = self.type()
        a = self.attrs()
        return t, self.const(t), a


class Fn:
    pass


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decl = {}, {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, t = l.split(" = type ", 1)
                self.types[n[1:].strip('"')] = None if t.strip() == "opaque" else P(t).type()
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
                name, rest = m.group(1).strip('"'), m.group(2)
                if not name.startswith("llvm."):
                    self.globals[name] = rest
            elif l.startswith("declare") or l.startswith("define"):
                f = self.header(l)
                if l.startswith("declare"):
                    self.decl[f.name] = f
                else:
                    f.body = []
                    i += 1
                    while lines[i] != "}":
                        f.body.append(lines[i])
                        i += 1
                    self.fns[f.name] = f
            i += 1

    def header(self, l):
        f = Fn()
        p = P(re.sub(r"\s*\{$", "", l.split(" personality ")[0]))
        p.next()
        while True:
            x = p.peek()
            if x in LINK or x in CC:
                p.next()
                continue
            before = p.i
            p.attrs()
            if p.i == before:
                break
        f.ret = p.type()
        f.name = p.next()[1:].strip('"')
        p.need("(")
        f.args, f.var = [], False
        while not p.eat(")"):
            if p.eat("..."):
                f.var = True
            else:
                t = p.type()
                a = p.attrs()
                n = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == "%" else None
                f.args.append((t, a, n))
            p.eat(",")
        return f

    # ---- layout
    def res(self, t):
        while t[0] == "n":
            t = self.types[t[1]]
            if t is None:
                raise IRError("opaque type used")
        return t

    def align(self, t):
        t = self.res(t)
        if t[0] == "i":
            return min(8, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length())) if t[1] <= 64 else 16
        if t[0] == "p":
            return 8
        if t[0] == "f":
            return {"float": 4, "double": 8}.get(t[1], 16)
        if t[0] == "a":
            return self.align(t[2])
        if t[0] == "s":
            return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        raise IRError("align %s" % (t,))

    def size(self, t):
        t = self.res(t)
        if t[0] == "i":
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t[0] == "p":
            return 8
        if t[0] == "f":
            return {"float": 4, "double": 8}.get(t[1], 16)
        if t[0] == "a":
            return t[1] * self.size(t[2])
        if t[0] == "s":
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2]:
                a = self.align(t); o = (o + a - 1) // a * a
            return o
        raise IRError("size %s" % (t,))

    def offset(self, t, k):
        t = self.res(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x); o = (o + a - 1) // a * a
            if j == k:
                return o
            o += self.size(x)
        raise IRError("offset")


class Emit:
    def __init__(self, mod, replace=None, skip=None, exc=False):
        self.m, self.replace, self.exc = mod, replace or {}, exc
        self.anon, self.out_types, self.done_t = {}, [], set()
        self.need_f, self.need_g, self.ext = [], [], {}
        self.wblocks = {}
        self.seen_f, self.seen_g = set(), set()
        self.loops = 0
        self.wtypes = set()
        self.tids = {}

    # ---- C types
    def ct(self, t):
        k = t[0]
        if k == "i":
            n = t[1]
            return {1: "u1", 8: "u8", 16: "u16", 32: "u32", 64: "u64"}.get(n) or ("u32" if n < 32 else "u64" if n < 64 else "unsigned __int128")
        if k == "p":
            return "u8*"
        if k == "v":
            return "void"
        if k == "f":
            return t[1] if t[1] != "x86_fp80" else "long double"
        if k == "n":
            self.deft(t)
            return "struct S_" + san(t[1])
        if k in ("a", "s"):
            self.deft(t)
            return "struct A_%d" % self.anon[t if k == "a" else (k, tuple(t[1]), t[2])]
        raise IRError("C type of %s" % (t,))

    def deft(self, t):
        key = t if t[0] != "s" else ("s", tuple(t[1]), t[2])
        if key in self.done_t:
            return
        self.done_t.add(key)
        if t[0] == "n":
            r = self.m.types.get(t[1])
            name = "struct S_" + san(t[1])
            if r is None:
                self.out_types.append("%s { u8 x; };" % name)
                return
            if r[0] != "s":
                raise IRError("named non-struct")
        else:
            self.anon[key] = len(self.anon)
            name = "struct A_%d" % self.anon[key]
            r = t
        if r[0] == "a":
            body = "%s e[%d];" % (self.ct(r[2]), max(1, r[1])) if r[1] else "u8 e[0];"
        else:
            fs = []
            for j, x in enumerate(r[1]):
                x_ = x
                fs.append(self.decl(x, "f%d" % j))
            body = " ".join(f + ";" for f in fs)
        self.out_types.append("%s { %s }%s;" % (name, body, " __attribute__((packed))" if r[0] == "s" and r[2] else ""))

    def decl(self, t, n):
        if t[0] == "a":          # plain C array member
            dims, x = "", t
            while x[0] == "a":
                dims += "[%d]" % x[1]
                x = x[2]
            return "%s %s%s" % (self.ct(x), n, dims)
        return "%s %s" % (self.ct(t), n)

    # ---- names
    def fref(self, n):
        n = self.replace.get(n, n)
        if n in self.m.fns:
            if n not in self.seen_f:
                self.seen_f.add(n); self.need_f.append(n)
            return "F_" + san(n) if not n.startswith("vp_") else san(n)
        if n not in self.m.decl:
            raise IRError("unknown function " + n)
        self.ext[n] = self.m.decl[n]
        return "X_" + san(n)

    def gref(self, n):
        if n in self.m.fns or n in self.m.decl:
            return "((u8*)&%s)" % self.fref(n)
        if n not in self.m.globals:
            raise IRError("unknown global " + n)
        g = self.m.globals[n]
        ma = re.match(r".*\balias\b.*@([\w.$]+)\s*(,.*)?$", g)
        if ma:
            return self.gref(ma.group(1))
        if n not in self.seen_g:
            self.seen_g.add(n); self.need_g.append(n)
        return "((u8*)&G_%s)" % san(n)

    def num(self, t, v):
        n = t[1]
        if n == 1:
            return str(v & 1)
        m = (1 << n) - 1
        return "((%s)%d%s)" % (self.ct(t), v & m, "ULL" if n > 32 else "U")

    def val(self, t, v, static=False):
        k = v[0]
        if k == "l":
            return self.local(v[1])
        if k == "g":
            return self.gref(v[1])
        if k == "c":
            if t[0] == "f":
                return repr(v[1])
            return self.num(t, v[1])
        if k == "z":
            if t[0] == "p":
                return "((u8*)0)"
            if t[0] == "i":
                return self.num(t, 0)
            if t[0] == "f":
                return "0.0"
            return "(%s){0}" % self.ct(t)
        if k == "u":
            if t[0] in ("p",):
                return "((u8*)0)"
            if t[0] in ("i", "f"):
                return "0"
            return "(%s){0}" % self.ct(t)
        if k == "gep":
            return self.gep(v[1], v[2])
        if k == "cast":
            return self.cast(v[1], v[2], self.val(v[2], v[3]), v[4])
        if k == "bin":
            return "((%s)(%s %s %s))" % (self.ct(v[2]), self.val(v[2], v[3]), {"add": "+", "sub": "-", "mul": "*", "xor": "^"}[v[1]], self.val(v[2], v[4]))
        raise IRError("value %s" % (v,))

    def init(self, t, v):
        """static initializer"""
        k = v[0]
        if k == "str":
            return "{" + ",".join(str(b) for b in v[1]) + "}"
        if k == "agg":
            return "{" + ",".join(self.init(a, b) for a, b in v[1]) + "}"
        if k in ("z", "u") and t[0] in ("a", "s", "n"):
            return "{0}"
        return self.val(t, v)

    def sx(self, t, s):
        """signed view"""
        n = t[1]
        if n in (8, 16, 32, 64):
            return "((s%d)%s)" % (n, s)
        if n == 1:
            return "(-(s32)(%s))" % s
        w = 32 if n < 32 else 64
        return "((s%d)((s%d)((u%d)%s << %d) >> %d))" % (w, w, w, s, w - n, w - n)

    def trunc(self, t, s):
        n = t[1]
        if n == 1:
            return "((u1)((%s) & 1))" % s
        if n in (8, 16, 32, 64):
            return "((%s)(%s))" % (self.ct(t), s)
        return "((%s)((%s) & %dULL))" % (self.ct(t), s, (1 << n) - 1)

    def cast(self, op, t, s, t2):
        if op in ("zext",):
            return "((%s)%s)" % (self.ct(t2), s)
        if op == "sext":
            return self.trunc(t2, "(s64)" + self.sx(t, s))
        if op == "trunc":
            return self.trunc(t2, s)
        if op == "ptrtoint":
            return "((%s)(u64)%s)" % (self.ct(t2), s)
        if op == "inttoptr":
            return "((u8*)(u64)%s)" % s
        if op in ("bitcast", "addrspacecast"):
            if t == t2:
                return s
        if op in ("sitofp",):
            return "((%s)%s)" % (self.ct(t2), self.sx(t, s))
        if op in ("uitofp", "fpext", "fptrunc"):
            return "((%s)%s)" % (self.ct(t2), s)
        if op == "fptosi":
            return "((%s)(s64)%s)" % (self.ct(t2), s)
        if op == "fptoui":
            return "((%s)%s)" % (self.ct(t2), s)
        raise IRError("cast " + op)

    def gep(self, sty, ops):
        base = self.val(*ops[0])
        t = sty
        expr, off, first = base, 0, True
        dyn = []
        for ty, v in ops[1:]:
            if first:
                sz, first = self.m.size(t), False
            else:
                r = self.m.res(t)
                if r[0] == "s":
                    off += self.m.offset(r, v[1] if v[0] == "c" else 0)
                    t = r[1][v[1] if v[0] == "c" else 0]
                    continue
                t = r[2]
                sz = self.m.size(t)
            if v[0] == "c":
                off += sz * v[1]
            elif v[0] in ("z", "u"):
                pass
            else:
                dyn.append("(s64)%s*%d" % (self.sx(ty, self.val(ty, v)), sz) if sz != 1 else "(s64)" + self.sx(ty, self.val(ty, v)))
        s = expr
        for d in dyn:
            s = "(%s + %s)" % (s, d)
        if off:
            s = "(%s + %d)" % (s, off)
        return s

    def local(self, n):
        return "v_" + san(n)

    # ---- functions
    def proto(self, f, cname):
        a = ["%s %s" % (self.ct(t), "a%d" % i if n is None else self.local(n)) for i, (t, at, n) in enumerate(f.args)]
        if f.var:
            a.append("...")
        return "%s %s(%s)" % (self.ct(f.ret), cname, ", ".join(a) or "void")

    def blocks(self, f):
        out, cur = [], None
        name = None
        lines = []
        for l in f.body:
            s = re.sub(r"\s+;.*$", "", l) if '"' not in l else re.sub(r'\s+; preds = .*$', "", l)
            if not s.strip() or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', s)
            if m:
                lines.append(("L", m.group(1).strip('"')))
            else:
                t = s.strip()
                if lines and lines[-1][0] == "I" and (re.match(r"(to label|catch |cleanup|filter |\]|i\d+ -?\d+, label)", t)):
                    lines[-1] = ("I", lines[-1][1] + " " + t)
                else:
                    lines.append(("I", t))
        if lines[0][0] == "I":
            n = sum(1 for a in f.args)
            lines.insert(0, ("L", str(n)))
        for k, x in lines:
            if k == "L":
                cur = []
                out.append((x, cur))
            else:
                x = re.sub(r"(, ![\w.]+ ![\w.]+)+$", "", x)
                x = re.sub(r"\s+#\d+(?=$|\s+to label)", "", x)
                cur.append(x)
        return out

    def function(self, n):
        f = self.m.fns[n]
        self.cur = f
        dec, body = [], []
        blks = self.blocks(f)
        phis = {}
        for bn, ins in blks:
            for x in ins:
                m = re.match(r'%("[^"]*"|[\w.$-]+) = phi (.*)$', x)
                if m:
                    p = P(m.group(2))
                    t = p.type()
                    nm = m.group(1).strip('"')
                    dec.append("%s %s;" % (self.ct(t), self.local(nm)))
                    dec.append("%s %s_n;" % (self.ct(t), self.local(nm)))
                    while p.eat("["):
                        v = p.const(t)
                        p.need(",")
                        src = p.next()[1:].strip('"')
                        p.need("]")
                        p.eat(",")
                        phis.setdefault((src, bn), []).append((nm, t, v))

        cuts = self.cuts(n, blks)

        def goto(src, dst):
            s = ""
            if dst in cuts and src in cuts[dst][0]:
                return "{ %s __CPROVER_assume(0); }" % cuts[dst][3]
            ph = phis.get((src, dst), [])
            for nm, t, v in ph:
                s += "%s_n = %s; " % (self.local(nm), self.val(t, v))
            for nm, t, v in ph:
                s += "%s = %s_n; " % (self.local(nm), self.local(nm))
            return s + "goto L_%s;" % san(dst)
        for bn, ins in blks:
            body.append("L_%s: ;" % san(bn))
            if bn in cuts:
                for t, a in sorted(cuts[bn][1]):
                    k = len(dec)
                    dec.append("%s vp_any_%d;" % (t, k))    # uninitialised: any value
                    body.append("  *(%s*)%s = vp_any_%d;" % (t, self.local(a), k))
                body.append("  " + cuts[bn][2])
            for x in ins:
                if (n, bn) in self.wblocks:
                    m = re.match(r"store .*, ptr %([^\s,]+)", x)
                    if m and m.group(1) not in self.wblocks[n, bn]:
                        body.append("  vp_frame(%s);" % self.local(m.group(1).strip('"')))
                try:
                    self.instr(x, bn, dec, body, goto)
                except IRError as e:
                    raise IRError("%s in %s: %s" % (e, n, x[:200]))
        cname = "F_" + san(n) if not n.startswith("vp_") else san(n)
        return "%s\n{\n%s\n%s\n}\n" % (self.proto(f, cname), "\n".join(dec), "\n".join(body))

    def cuts(self, n, blks):
        """loops that are not unrolled: {head: (blocks, locals the loop changes, code at the head, code on the back edge)}.
        A task's endless loop: one round of it, from arbitrary values of the local variables it changes, ends in vp_round().
        A loop with an invariant in the harness, vp_loop<k>_<function>(cursors..., again): the invariant is asserted where
        the loop is entered and on the back edge, and assumed of arbitrary cursors in between.  The cursors are the
        variables (or else the pointers) that live from one iteration to the next.  Such a loop may change local variables only; as vp_wloop<k>_<function>
        it may write where vp_frame() allows, and the harness gives what is there any value."""
        task = "vp_round" in self.m.fns and re.search(r"Task3runEv$", n)
        inv = [x for x in self.m.fns if re.match(r"vp_w?loop\d_" + re.escape(n) + "$", x)]
        if not task and not inv:
            return {}
        succ = {b: [x.strip('"') for i in ins[-1:] for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', i)] for b, ins in blks}
        order, state, back = [blks[0][0]], {blks[0][0]: 1}, []
        stack = [(blks[0][0], iter(succ[blks[0][0]]))]
        while stack:
            b, it = stack[-1]
            for x in it:
                if state.get(x) == 1:
                    back.append((b, x))
                elif x not in state:
                    state[x] = 1
                    order.append(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                state[b] = 2
                stack.pop()
        pred, code, allocas, out = {}, dict(blks), {}, {}
        for b in succ:
            for x in succ[b]:
                pred.setdefault(x, []).append(b)
        text = [b for b, _ in blks]
        heads = sorted({x for _, x in back}, key=text.index)
        for k, head in enumerate(heads):
            inside, todo = {head}, [b for b, x in back if x == head]
            while todo:
                b = todo.pop()
                if b not in inside:
                    inside.add(b)
                    todo += pred.get(b, [])
            for b, ins in blks:
                for i in ins:
                    m = re.match(r"%([\w.$-]+) = alloca (i\d+|ptr|%\"class\.std::string\"|%class\.std::string)(?![\w.])(?!, i)", i)
                    if m and b not in inside:
                        allocas[m.group(1)] = {"i1": "u1", "i8": "u8", "i16": "u16", "i32": "u32", "i64": "u64", "ptr": "u8*"}.get(m.group(2))
            havoc = set()
            for b in inside:
                for i in code[b]:
                    m = re.match(r"store .*, ptr %([\w.$-]+)(?:,|$)", i)
                    if m and allocas.get(m.group(1)):
                        havoc.add((allocas[m.group(1)], m.group(1)))
            if task:
                if head == min(heads, key=order.index):
                    self.fref("vp_round")
                    out[head] = (inside, havoc, "", "vp_round();")
                continue
            h = [x for x in inv if x in ("vp_loop%d_%s" % (k, n), "vp_wloop%d_%s" % (k, n))]
            if not h:
                continue
            h = h[0]
            w = h.startswith("vp_w")
            fresh = {a for a, ins in self.arrays(blks).items() if not self.live(a, head, inside, code, succ)}       # arrays and objects each round writes before it reads them
            into = self.into(blks, fresh)
            for b in inside:
                self.readonly(n, code[b], dict(allocas, **into), w, None, lambda x: not self.live(x, head, inside, code, succ), fresh)
            alive = [(t, a) for a in allocas for t in [allocas[a]] if (t, a) in havoc and self.live(a, head, inside, code, succ)]
            cur = [a for t, a in alive]
            if len(cur) != len(self.m.fns[h].args) - 1:
                cur = [a for t, a in alive if t == "u8*"]
            if len(cur) != len(self.m.fns[h].args) - 1:
                raise IRError("loop %d of %s: %d cursors" % (k, n, len(cur)))
            inv.remove(h)
            self.fref(h)
            if w:
                self.fref("vp_frame")
                for b in inside:
                    self.wblocks[n, b] = dict(allocas, **into)
            keep = {(t, a) for t, a in havoc if a not in cur}
            c = "".join("(u8*)%s, " % self.local(x) for x in cur)
            out[head] = (inside, keep, "%s(%s0);" % (h, c), "%s(%s1);" % (h, c))
        if inv and not task:
            raise IRError("%s has no loop for %s" % (n, inv[0]))
        return out

    def arrays(self, blks):
        out = {}
        for _, ins in blks:
            for i in ins:
                m = re.match(r'%([\w.$-]+) = alloca (%|\[)', i)
                if m:
                    out[m.group(1)] = i
        return out

    def into(self, blks, fresh):
        """the pointers computed into these locals"""
        out, more = {}, True
        while more:
            more = False
            for _, ins in blks:
                for i in ins:
                    m = re.match(r"%([\w.$-]+) = getelementptr (?:inbounds )?.*?, ptr %([\w.$-]+), ", i)
                    if m and m.group(1) not in out and (m.group(2) in fresh or m.group(2) in out):
                        out[m.group(1)] = more = True
        return out

    def live(self, a, head, inside, code, succ):
        """may the loop read the local a at its head, before it writes it?"""
        seen, todo, size = set(), [head], 0
        for ins in code.values():
            for i in ins:
                if i.startswith("%%%s = alloca " % a):
                    size = self.m.size(P(i.split(" alloca ", 1)[1]).type())
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for i in code[b]:
                if self.makes_string(i) == a or re.match(r"call void @llvm\.memset\S*\(ptr [^%%]*%%%s, i8 0, i64 %d, i1 false\)" % (re.escape(a), size), i):
                    break
                if re.match(r"store .*, ptr %%%s(?:,|$)" % re.escape(a), i) and not re.search(r"%%%s\b.*, ptr" % re.escape(a), i):
                    break
                if re.search(r"%%%s(?![\w.$-])" % re.escape(a), i):
                    return True
            else:
                todo += succ[b]
        return False

    def makes_string(self, i, every=False):
        """the std::string that an instruction constructs (every: changes)"""
        m = re.search(r"(?:call|invoke) .*?@(_ZNK?St6string\w+)\((ptr [^,]*?%([\w.$-]+))(?:,|\))", i)
        if m and ("sret(" in m.group(2) or re.match(r"_ZNSt6stringC", m.group(1)) or every and m.group(1).startswith("_ZNSt6string")):
            return m.group(3)
        return None

    PURE = {"strcmp", "strncmp", "memcmp", "strlen"}

    def readonly(self, n, ins, allocas, w=False, seen=None, strings=None, fresh=()):
        """the blocks of a loop that is cut change local variables only (w: or what vp_frame() allows)"""
        for i in ins:
            m = re.match(r"store .*, ptr (\S+?)(?:,|$)", i)
            if m and m.group(1).lstrip("%@") not in allocas and not (w is True and m.group(1)[0] == "%") or re.match(r"(atomicrmw|cmpxchg|fence|.* = (atomicrmw|cmpxchg) )", i):
                raise IRError("the loop of %s writes memory: %s" % (n, i[:120]))
            m = re.match(r"(?:%\S+ = )?(?:tail )?(?:call|invoke) [^@%]*?(?:\([^()]*\) )?([@%])(\"[^\"]*\"|[\w.$-]+)\(", i)
            if not m:
                if re.match(r"(?:%\S+ = )?(?:tail )?(?:call|invoke) ", i):
                    raise IRError("the loop of %s calls %s" % (n, i[:120]))
                continue
            f = m.group(2).strip('"')
            al = re.match(r".*\balias\b.*@([\w.$]+)\s*(,.*)?$", self.m.globals.get(f) or "")
            f = al.group(1) if al else f
            if m.group(1) == "%":
                raise IRError("the loop of %s makes a virtual call" % n)
            if f in self.PURE or "vp_ghost_" + f in self.m.fns or w and f in ("_ZdlPv", "_ZdlPvm", "free") or f.startswith(("llvm.dbg", "llvm.lifetime")):
                continue
            mm = re.match(r"call void @llvm\.memset\S*\(ptr [^%]*%([\w.$-]+),", i)
            if mm and mm.group(1) in fresh:
                continue
            if self.makes_string(i, True) in allocas and strings is not None and strings(self.makes_string(i, True)):
                continue
            seen = seen if seen is not None else set()
            if f in seen:
                continue
            seen.add(f)
            g = self.m.fns.get(f)
            if g is None or not getattr(g, "body", None):
                raise IRError("the loop of %s calls %s" % (n, f))
            bl = self.blocks(g)
            al = {mm.group(1) for _, x in bl for y in x for mm in [re.match(r"%([\w.$-]+) = alloca ", y)] if mm}
            for _, x in bl:
                self.readonly(f, x, al, w and 2, seen)

    BIN = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "udiv": "/", "urem": "%", "lshr": ">>"}

    def instr(self, x, bn, dec, body, goto):
        m = re.match(r'%("[^"]*"|[\w.$-]+) = (.*)$', x)
        dst = None
        if m:
            dst, x = m.group(1).strip('"'), m.group(2)
        p = P(x)
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()

        def setv(t, e):
            dec.append("%s %s;" % (self.ct(t), self.local(dst)))
            body.append("  %s = %s;" % (self.local(dst), e))
        if op == "phi":
            return
        if op == "alloca":
            t = p.type()
            n = None
            if p.eat(","):
                if p.peek() not in ("align",):
                    ty = p.type()
                    n = (ty, p.const(ty))
            dec.append("u8* %s;" % self.local(dst))
            if n and not (n[1] == ("c", 1)):
                if n[1][0] == "c":
                    dec.append(self.decl(("a", n[1][1], t), "m_" + san(dst)) + ";")
                    body.append("  %s = (u8*)&m_%s;" % (self.local(dst), san(dst)))
                else:
                    body.append("  %s = __builtin_alloca(%s * %d);" % (self.local(dst), self.val(*n), self.m.size(t)))
            else:
                dec.append(self.decl(t, "m_" + san(dst)) + ";")
                body.append("  %s = (u8*)&m_%s;" % (self.local(dst), san(dst)))
            return
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.need(",")
            pt = p.type()
            setv(t, "*(%s*)%s" % (self.ct(t), self.val(pt, p.const(pt))))
            return
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            v = self.val(t, p.const(t))
            p.need(",")
            pt = p.type()
            body.append("  *(%s*)%s = %s;" % (self.ct(t), self.val(pt, p.const(pt)), v))
            return
        if op == "getelementptr":
            while p.peek() in FAST:
                p.next()
            sty = p.type()
            ops = []
            while p.eat(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                t = p.type()
                ops.append((t, p.const(t)))
            setv(("p",), self.gep(sty, ops))
            return
        if op in self.BIN or op in ("sdiv", "srem", "ashr"):
            while p.peek() in FAST:
                p.next()
            t = p.type()
            a = self.val(t, p.const(t))
            p.need(",")
            b = self.val(t, p.const(t))
            if op in ("sdiv", "srem"):
                e = "%s %s %s" % (self.sx(t, a), "/" if op == "sdiv" else "%", self.sx(t, b))
            elif op == "ashr":
                e = "%s >> %s" % (self.sx(t, a), b)
            else:
                w = "u64" if t[1] > 32 else "u32"
                if t[1] > 64:
                    w = self.ct(t)
                e = "(%s)%s %s (%s)%s" % (w, a, self.BIN[op], w, b)
            setv(t, self.trunc(t, e) if t[1] <= 64 else e)
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            while p.peek() in FAST:
                p.next()
            t = p.type()
            a = self.val(t, p.const(t))
            p.need(",")
            setv(t, "%s %s %s" % (a, {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], self.val(t, p.const(t))))
            return
        if op in ("icmp", "fcmp"):
            while p.peek() in FAST:
                p.next()
            c = p.next()
            t = p.type()
            a = self.val(t, p.const(t))
            p.need(",")
            b = self.val(t, p.const(t))
            o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[c[-2:]]
            if op == "icmp" and c[0] == "s":
                a, b = self.sx(t, a), self.sx(t, b)
            setv(("i", 1), "%s %s %s" % (a, o, b))
            return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            while p.peek() in FAST:
                p.next()
            t = p.type()
            v = self.val(t, p.const(t))
            p.need("to")
            t2 = p.type()
            setv(t2, self.cast(op, t, v, t2))
            return
        if op == "select":
            t = p.type(); c = self.val(t, p.const(t)); p.need(",")
            t = p.type(); a = self.val(t, p.const(t)); p.need(",")
            t = p.type(); b = self.val(t, p.const(t))
            setv(t, "%s ? %s : %s" % (c, a, b))
            return
        if op in ("freeze",):
            t = p.type()
            setv(t, self.val(t, p.const(t)))
            return
        if op == "br":
            if p.eat("label"):
                body.append("  " + goto(bn, p.next()[1:].strip('"')))
                return
            t = p.type()
            c = self.val(t, p.const(t))
            p.need(","); p.need("label"); a = p.next()[1:].strip('"')
            p.need(","); p.need("label"); b = p.next()[1:].strip('"')
            body.append("  if (%s) { %s } else { %s }" % (c, goto(bn, a), goto(bn, b)))
            return
        if op == "switch":
            t = p.type()
            c = self.val(t, p.const(t))
            p.need(","); p.need("label"); d = p.next()[1:].strip('"')
            p.need("[")
            while not p.eat("]"):
                t2 = p.type()
                k = self.val(t2, p.const(t2))
                p.need(","); p.need("label")
                body.append("  if (%s == %s) { %s }" % (c, k, goto(bn, p.next()[1:].strip('"'))))
            body.append("  " + goto(bn, d))
            return
        if op == "ret":
            t = p.type()
            body.append("  return;" if t[0] == "v" else "  return %s;" % self.val(t, p.const(t)))
            return
        if op == "unreachable":
            body.append("  vp_dead();" + ("" if self.cur.ret[0] == "v" else ""))
            if self.cur.ret[0] == "v":
                body.append("  return;")
            else:
                dec.append("%s v_unreach_%d;" % (self.ct(self.cur.ret), len(dec)))
                body.append("  return %s;" % dec[-1].split()[-1][:-1])
            return
        if op == "landingpad":
            t = p.type()
            dec.append("%s %s;" % (self.ct(t), self.local(dst)))
            if self.exc:
                sel = "0"
                for c in reversed(re.findall(r"catch ptr (null|@[\w.$]+)", " ".join(p.t))):
                    sel = str(self.typeid("")) if c == "null" else "%s ? %d : (%s)" % (" || ".join("vp_exc_type == %s" % self.gref(x) for x in self.kinds(c[1:])), self.typeid(c[1:]), sel)
                body.append("  vp_exc = 0; %s.f0 = vp_exc_obj; %s.f1 = %s;" % (self.local(dst), self.local(dst), sel))
            return
        if op == "resume" and self.exc:
            body.append("  vp_exc = 1; " + self.leave(dec))
            return
        if op == "resume":
            body.append("  vp_dead();")
            dec.append("%s v_unreach_%d;" % (self.ct(self.cur.ret), len(dec))) if self.cur.ret[0] != "v" else None
            body.append("  return%s;" % ("" if self.cur.ret[0] == "v" else " " + dec[-1].split()[-1][:-1]))
            return
        if op in ("extractvalue", "insertvalue"):
            t = p.type()
            a = self.val(t, p.const(t))
            if op == "extractvalue":
                p.need(",")
                e, x = a, t
                while True:
                    k = int(p.next())
                    r = self.m.res(x)
                    e += ".f%d" % k if r[0] == "s" else ".e[%d]" % k
                    x = r[1][k] if r[0] == "s" else r[2]
                    if not p.eat(","):
                        break
                setv(x, e)
                return
            p.need(",")
            t2 = p.type()
            b = self.val(t2, p.const(t2))
            e, x = "", t
            while p.eat(","):
                k = int(p.next())
                r = self.m.res(x)
                e += ".f%d" % k if r[0] == "s" else ".e[%d]" % k
                x = r[1][k] if r[0] == "s" else r[2]
            setv(t, a)
            body.append("  %s%s = %s;" % (self.local(dst), e, b))
            return
        if op in ("call", "invoke"):
            return self.call(p, op, dst, bn, dec, body, goto, setv)
        if op in ("fence",):
            return
        if op == "atomicrmw":
            p.eat("volatile")
            o = p.next()
            pt = p.type(); a = self.val(pt, p.const(pt)); p.need(",")
            t = p.type(); v = self.val(t, p.const(t))
            setv(t, "*(%s*)%s" % (self.ct(t), a))
            body.append("  *(%s*)%s = %s %s %s;" % (self.ct(t), a, self.local(dst), {"add": "+", "sub": "-"}[o], v))
            return
        raise IRError("instruction " + op)

    def call(self, p, op, dst, bn, dec, body, goto, setv):
        while True:
            b = p.i
            p.attrs()
            while p.peek() in FAST or p.peek() in CC:
                p.next()
            if p.i == b:
                break
        t = p.type()
        rt = t[1] if t[0] == "fn" else t
        if p.peek() == "asm":
            body.append("  vp_asm();")
            if dst:
                dec.append("%s %s;" % (self.ct(rt), self.local(dst)))
            return
        callee = p.const(("p",))
        p.need("(")
        args = []
        while not p.eat(")"):
            if p.peek() == "metadata":
                args.append(None)
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    y = p.next()
                    d += (y == "(") - (y == ")")
            else:
                at, v, a = p.tv()
                args.append((at, v, a))
            p.eat(",")
        tail = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.need("to"); p.need("label")
            tail = p.next()[1:].strip('"')
        self.emit_call(callee, rt, args, dst, dec, body, setv)
        if self.exc and self.throws(callee):
            if tail is not None:
                p.need("unwind"); p.need("label")
                body.append("  if (vp_exc) { %s }" % goto(bn, p.next()[1:].strip('"')))
            else:
                body.append("  if (vp_exc) { %s }" % self.leave(dec))
        if tail is not None:
            body.append("  " + goto(bn, tail))

    # ---- exceptions: a pending one leaves the function, or goes to the landing pad of the call
    def throws(self, callee):
        if callee[0] != "g":
            return True
        n = callee[1]
        return n in self.m.fns and not n.startswith("vp_") or n in ("__cxa_throw", "__cxa_rethrow") or n in self.m.globals

    def leave(self, dec):
        if self.cur.ret[0] == "v":
            return "return;"
        dec.append("%s v_unreach_%d;" % (self.ct(self.cur.ret), len(dec)))
        return "return %s;" % dec[-1].split()[-1][:-1]

    def typeid(self, n):
        return self.tids.setdefault(n, len(self.tids) + 1)

    def kinds(self, n):
        """the type information of a class and of what derives from it"""
        out = [n]
        for x in out:
            out += [g for g, d in self.m.globals.items() if g.startswith("_ZTI") and g not in out and re.search(r"@%s\b" % re.escape(x), d.split("=", 1)[-1])]
        return out

    def emit_call(self, callee, rt, args, dst, dec, body, setv):
        name = callee[1] if callee[0] == "g" else None
        if name and name.startswith("llvm."):
            return self.intrinsic(name, rt, args, dst, dec, body, setv)
        if name in ("vp_check", "vp_reach"):
            lit = self.literal(args[-1][1])
            body.append("  __CPROVER_assert(%s, %s);" % (self.val(args[0][0], args[0][1]) if name == "vp_check" else "0", lit))
            return
        cs = []
        for at, v, a in args:
            s = self.val(at, v)
            if "byval" in a:
                tn = "bv_%d" % len(dec)
                dec.append("%s %s;" % (self.ct(a["byval"]), tn))
                body.append("  %s = *(%s*)%s;" % (tn, self.ct(a["byval"]), s))
                s = "(u8*)&" + tn
            cs.append(s)
        if name:
            g = self.m.globals.get(name)
            if g:
                ma = re.match(r".*\balias\b.*@([\w.$]+)\s*(,.*)?$", g)
                name = ma.group(1)
            fn = self.fref(name)
        else:
            fn = "((%s(*)(%s))%s)" % (self.ct(rt), ", ".join(self.ct(at) for at, _, _ in args) or "void", self.val(("p",), callee))
        e = "%s(%s)" % (fn, ", ".join(cs))
        k = self.words(name, args)
        if k:
            e = k
        if rt[0] == "v" or dst is None:
            body.append("  %s;" % e)
        else:
            setv(rt, e)

    def copy(self, d, s, n):
        out, k = ["u8 *vp_d = %s, *vp_s = %s;" % (d, s)], 0
        while k < n:
            w = 8 if n - k >= 8 else 4 if n - k >= 4 else 2 if n - k >= 2 else 1
            out.append("*(u%d*)(vp_d + %d) = *(u%d*)(vp_s + %d);" % (8 * w, k, 8 * w, k))
            k += w
        return "{ %s }" % " ".join(out)

    def words(self, name, args):
        """objects of a known size are allocated as words, not bytes: cbmc then keeps the pointers stored in them apart"""
        n = [a[1][1] if a[1][0] == "c" else None for a in args if a]
        if name in ("_Znwm", "malloc") and len(n) == 1 and n[0]:
            n, f = n[0], "malloc(%s)"
        elif name == "calloc" and n[0] == 1 and n[1] and "vp_calloc_any" not in self.m.decl:
            n, f = n[1], "calloc(1, %s)"
        else:
            return None
        if n % 8 or n > 65536 or name in self.replace or ("X_" + san(name) != self.fref(name)):
            return None
        if name == "_Znwm" and "vp_newest" in self.m.decl:
            f = "(vp_new_last = (u8*)malloc(%s))"
        if n <= 512:
            return "(u8*)" + f % ("sizeof(u64) * %d" % (n // 8))
        t = "vp_w%d" % (n // 8)
        if t not in self.wtypes:
            self.wtypes.add(t)
            self.out_types.append("struct %s { %s };" % (t, " ".join("u64 m%d[%d];" % (i, min(64, n // 8 - i)) for i in range(0, n // 8, 64))))
        return "(u8*)" + f % ("sizeof(struct %s)" % t)

    def literal(self, v):
        t = "unnamed obligation"
        if v[0] == "g" and v[1] in self.m.globals:
            m = re.search(r'c"((?:[^"\\]|\\.)*)"', self.m.globals[v[1]])
            if m:
                t = re.sub(r"\\([0-9A-Fa-f]{2})", lambda k: chr(int(k.group(1), 16)), m.group(1)).rstrip("\0")
        return '"%s"' % re.sub(r'[\\"]', "'", t)

    def intrinsic(self, n, rt, args, dst, dec, body, setv):
        v = [self.val(a[0], a[1]) for a in args if a]
        if re.match(r"llvm\.(lifetime|dbg|assume|experimental\.noalias|donothing|invariant|va_)", n):
            if dst:
                setv(rt, "0")
            return
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            c = args[2][1]
            if c[0] == "c":
                self.ct(("a", c[1], ("i", 8)))
                if c[1]:
                    body.append("  *(%s*)%s = *(%s*)%s;" % (self.ct(("a", c[1], ("i", 8))), v[0], self.ct(("a", c[1], ("i", 8))), v[1])
                                if n.startswith("llvm.memcpy") and c[1] > 64 else "  " + self.copy(v[0], v[1], c[1]))
            else:
                body.append("  X_mem%s(%s, %s, %s);" % ("move" if "move" in n else "cpy", v[0], v[1], v[2]))
            return
        if n.startswith("llvm.memset"):
            body.append("  X_memset(%s, %s, %s);" % (v[0], v[1], v[2]))
            return
        if n.startswith("llvm.stacksave"):
            setv(rt, "(u8*)0")
            return
        if n.startswith("llvm.stackrestore"):
            return
        if n.startswith("llvm.ubsantrap") or n.startswith("llvm.trap"):
            body.append("  vp_trap();")
            return
        if n.startswith("llvm.eh.typeid"):
            setv(rt, "%d" % self.typeid(args[0][1][1]) if self.exc else "0")
            return
        mm = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if mm and mm.group(1) == "u":
            b = int(mm.group(3))
            dec.append("%s %s;" % (self.ct(rt), self.local(dst)))
            o = {"add": "+", "sub": "-", "mul": "*"}[mm.group(2)]
            body.append("  %s.f0 = (u%d)(%s %s %s);" % (self.local(dst), b, v[0], o, v[1]))
            body.append("  %s.f1 = __CPROVER_overflow_%s((u%d)%s, (u%d)%s);" % (self.local(dst), {"add": "plus", "sub": "minus", "mul": "mult"}[mm.group(2)], b, v[0], b, v[1]))
            return
        mm = re.match(r"llvm\.(umax|umin|smax|smin|abs|bswap|ctpop)\.i(\d+)", n)
        if mm and mm.group(1) in ("umax", "umin", "smax", "smin"):
            t = ("i", int(mm.group(2)))
            a, b = (v[0], v[1]) if mm.group(1)[0] == "u" else (self.sx(t, v[0]), self.sx(t, v[1]))
            setv(rt, "%s %s %s ? %s : %s" % (a, ">" if mm.group(1)[1:] == "max" else "<", b, v[0], v[1]))
            return
        raise IRError("intrinsic " + n)

    def glob(self, n):
        rest = self.m.globals[n]
        p = P(re.sub(r", (comdat|align|section|!dbg).*$", "", re.sub(r", comdat(\([^)]*\))?", "", rest)))
        ext = False
        while p.peek() in LINK or p.peek() in ("dso_local",):
            ext |= p.next() == "external"
            if p.peek() == "(":
                p.parens()
        t = p.type()
        d = self.decl(t, "G_" + san(n))
        if ext or p.peek() is None:
            return d + ";", ""
        return d + ";", d + " = " + self.init(t, p.const(t)) + ";"

    def emit(self, entries):
        for e in entries:
            self.fref(e)
        bodies, protos, gd, gi = [], [], [], []
        i = j = 0
        while i < len(self.need_f) or j < len(self.need_g):
            if i < len(self.need_f):
                n = self.need_f[i]; i += 1
                bodies.append(self.function(n))
                protos.append(self.proto(self.m.fns[n], "F_" + san(n) if not n.startswith("vp_") else san(n)) + ";")
            else:
                n = self.need_g[j]; j += 1
                d, x = self.glob(n)
                gd.append(d)
                if x:
                    gi.append(x)
        for n, f in self.ext.items():
            protos.append(self.proto(f, "X_" + san(n)) + ";")
        return "\n".join(["#define HAVE_X_%s" % san(n) for n in self.ext] + (["#define VP_EXC_ON"] if self.exc else []) + ["#include \"irc.h\""] + self.out_types + protos + ["#define IRC_BODY", ] + gd + gi + bodies)
