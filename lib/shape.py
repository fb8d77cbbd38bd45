"""Expression shapes, what they mean, and what the back end makes of them: flattening, lowering and
selection are followed one after the other on a tree with opaque operands."""
from sel import *  # noqa
from x86 import *  # noqa
import x86

#            bits, signed
INT = {"Tyint8": (8, 1), "Tyint16": (16, 1), "Tyint": (32, 1), "Tyint32": (32, 1), "Tyint64": (64, 1),
       "Tyuint8": (8, 0), "Tyuint16": (16, 0), "Tyuint": (32, 0), "Tyuint32": (32, 0), "Tyuint64": (64, 0),
       "Tybyte": (8, 0), "Tychar": (32, 0), "Tybool": (8, 0)}
FLT = {"Tyflt32": 32, "Tyflt64": 64}
BIN = {"+": "Oadd", "-": "Osub", "*": "Omul", "/": "Odiv", "%": "Omod", "&": "Oband", "|": "Obor", "^": "Obxor", "<<": "Obsl", ">>": "Obsr"}
CMP = {"==": "Oeq", "!=": "One", "<": "Olt", "<=": "Ole", ">": "Ogt", ">=": "Oge"}
CC = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
UN = {"neg": "Oneg", "not": "Obnot", "lnot": "Olnot"}


def base(ty):
    """the type behind a name"""
    while isinstance(ty, tuple) and ty[0] == "name":
        ty = ty[1]
    return ty


def bits(ty):
    ty = base(ty)
    if ty in INT:
        return INT[ty][0]
    if ty in FLT:
        return FLT[ty]
    if isinstance(ty, tuple) and ty[0] == "union":
        return 32
    return 64


def issigned(ty):
    ty = base(ty)
    return bool(INT.get(ty, (0, 0))[1])


class Code(Sel):
    """one shape at a time: place() variables, build(), lower(), run()"""
    def fresh(self):
        s, iss = self.state()
        T = self.T
        self.s = s
        self.sctx = T.obj(s, stksz=4096, isglobl=0)
        for t in ("globls", "envoff", "stkoff"):
            s.store[("fld", self.sctx, t)] = ("ht", t)
        self.fctx = T.obj(s)
        I64 = T.ty(s, "Tyint64")
        s.store[("glob", "tyintptr")] = T.ty(s, "Tyuint64")
        s.store[("glob", "tyword")] = T.ty(s, "Tyuint")
        s.store[("glob", "tyvoid")] = T.ty(s, "Tyvoid")
        s.store[("glob", "abortoob")] = self.var(s, "abortoob", T.ty(s, "Tycode", (T.ty(s, "Tyvoid"),)), isglobl=1, isconst=1, isextern=1)
        s.store[("htent", "globls", self.did("abortoob"))] = ("str", '"abortoob"')
        self.m = Mach()
        self.vars = {}
        self.nstk = 0
        self.lbls = {}

    def typ(self, ty):
        if isinstance(ty, tuple) and ty[0] == "ptr":
            return self.T.ty(self.s, "Typtr", (self.typ(ty[1]),))
        if isinstance(ty, tuple) and ty[0] == "name":
            return self.T.ty(self.s, "Tyname", (self.typ(ty[1]),))
        return self.T.ty(self.s, ty)

    def regmode(self, ty):
        return {"Tyflt32": "ModeF", "Tyflt64": "ModeD"}.get(base(ty)) or {8: "ModeB", 16: "ModeW", 32: "ModeL", 64: "ModeQ"}[bits(ty)]

    def place(self, name, ty, kind):
        """a variable: in a register, in the frame, global or in the closure's environment"""
        if name in self.vars:
            return
        s, T = self.s, self.T
        w = bits(ty)
        dcl = self.decl(s, name, self.typ(ty), **({"isglobl": 1} if kind == "glob" else {}))
        did = self.did(name)
        if kind == "reg":
            l = self.regvar(s, did, self.regmode(ty), did)
            where = ("reg", self.T.get(s, l, "reg", "id"))
            self.m.vr[where[1]] = x(w, name)
            v = x(w, name)
        else:
            if kind == "stk":
                self.nstk += 16
                s.store[("htent", "stkoff", did)] = self.nstk
                a = x86.add(x(64, "bp"), c(64, -self.nstk))
            elif kind == "glob":
                s.store[("htent", "globls", did)] = ("str", '"g_%s"' % name)
                a = ("lbl", 64, "g_" + name)
            else:
                self.nstk += 16
                s.store[("htent", "envoff", did)] = self.nstk
                if not T.get(s, self.is_, "envp"):
                    k = s.store[("glob", "maxregid")]
                    s.store[("glob", "maxregid")] = k + 1
                    l = T.obj(s, type=self.E["Locreg"], mode=self.E["ModeQ"])
                    s.store[("fld", ("fld", l, "reg"), "id")] = k
                    s.store[("fld", self.is_, "envp")] = l
                    self.m.vr[k] = x(64, "env")
                    self.m.frames.add(x(64, "env"))
                a = x86.add(x(64, "env"), c(64, self.nstk))
            where = ("mem", a, w)
            v = self.m.load(a, w)
        self.vars[name] = (ty, kind, where, v)

    def regvar(self, s, name, mode, did=None):
        T = self.T
        k = s.store[("glob", "maxregid")]
        s.store[("glob", "maxregid")] = k + 1
        l = T.obj(s, type=self.E["Locreg"], mode=self.E[mode])
        s.store[("fld", ("fld", l, "reg"), "id")] = k
        s.store[("htent", "reglocs", did)] = l
        return l

    # -- shapes: ("v",name,ty,kind) ("lit",n,ty) ("bin",op,a,b,ty) ("cmp",op,a,b) ("un",op,a,ty) ("cast",a,ty) ("deref",p,ty) ("addr",v)
    def ty(self, e):
        k = e[0]
        if k == "v" or k == "lit" or k == "cast" or k == "deref":
            return e[2]
        if k == "bin":
            return e[4]
        if k == "un":
            return e[3]
        if k == "addr":
            return ("ptr", self.ty(e[1]))
        return "Tybool"

    def build(self, e):
        s, T = self.s, self.T
        k = e[0]
        t = self.typ(self.ty(e))
        if k == "v":
            self.place(e[1], e[2], e[3])
            return self.var(s, e[1], t)
        if k == "lit":
            o = T.intlit(s, e[1], t)
            T_lit = s.store[("idx", ("args", o), 0)]
            s.store[("fld", ("fld", T_lit, "lit"), "type")] = t
            return o
        if k == "bin":
            return T.expr(s, BIN[e[1]], [self.build(e[2]), self.build(e[3])], t)
        if k == "cmp":
            return T.expr(s, CMP[e[1]], [self.build(e[2]), self.build(e[3])], t)
        if k == "un":
            return T.expr(s, UN[e[1]], [self.build(e[2])], t)
        if k == "cast":
            return T.expr(s, "Ocast", [self.build(e[1])], t)
        if k == "deref":
            return T.expr(s, "Oderef", [self.build(e[1])], t)
        if k == "addr":
            return T.expr(s, "Oaddr", [self.build(e[1])], t)
        raise AnalysisBroken("shape " + k)

    def sem(self, e):
        """the value of a shape, by the language's definition"""
        k = e[0]
        if k == "v":
            return self.vars[e[1]][3]
        if k == "lit":
            return c(bits(e[2]), e[1])
        if k == "bin":
            op, a, b = e[1], self.sem(e[2]), self.sem(e[3])
            w = W(a)
            if base(e[4]) in FLT:
                return fop(w, {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op], a, b)
            sg = issigned(e[4])
            if isinstance(base(e[4]), tuple):
                return x86.add(a, b) if op == "+" else x86.sub(a, b)
            return {"+": lambda: x86.add(a, b), "-": lambda: x86.sub(a, b), "*": lambda: x86.mul(a, b),
                    "/": lambda: divide("sdiv" if sg else "udiv", a, b), "%": lambda: divide("srem" if sg else "urem", a, b),
                    "&": lambda: bitop("and", a, b), "|": lambda: bitop("or", a, b), "^": lambda: bitop("xor", a, b),
                    "<<": lambda: shift("shl", a, b), ">>": lambda: shift("sar" if sg else "shr", a, b)}[op]()
        if k == "cmp":
            ty = base(self.ty(e[2]))
            a, b = self.sem(e[2]), self.sem(e[3])
            cc = CC[e[1]]
            if ty in FLT:
                cc = "fneu" if cc == "ne" else "f" + cc
            elif cc not in ("eq", "ne"):
                cc = ("s" if issigned(ty) else "u") + cc
            return zx(8, x86.cmp(cc, a, b))
        if k == "un":
            a = self.sem(e[2])
            if e[1] == "neg":
                if base(e[3]) in FLT:
                    return fop(W(a), "fneg", a)
                return x86.neg(a)
            if e[1] == "not":
                return x86.not_(a)
            return zx(8, x86.cmp("eq", a, c(W(a), 0)))
        if k == "cast":
            return self.cast(self.sem(e[1]), self.ty(e[1]), e[2])
        if k == "deref":
            return self.m.load(self.sem(e[1]), bits(e[2]))
        if k == "addr":
            return self.vars[e[1][1]][2][1] if e[1][0] == "v" else self.sem(e[1][1])
        raise AnalysisBroken("meaning of " + k)

    def cast(self, a, f, t):
        f, t = base(f), base(t)
        w, v = bits(f), bits(t)
        if f in FLT and t in FLT:
            return a if w == v else fop(v, "f2f", a)
        if t in FLT:
            return i2f(v, sx(128, a) if issigned(f) else zx(128, a))
        if f in FLT:
            return fop(v, "f2i" + ("s" if issigned(t) else "u"), a)
        if v <= w:
            return ext(v, 0, a)
        return sx(v, a) if issigned(f) else zx(v, a)

    def show(self, e):
        k = e[0]
        if k == "v":
            return "%s:%s@%s" % (e[1], tyname(e[2]), e[3])
        if k == "lit":
            return "%d:%s" % (e[1], tyname(e[2]))
        if k in ("bin", "cmp"):
            return "(%s %s %s)" % (self.show(e[2]), e[1], self.show(e[3]))
        if k == "un":
            return "%s %s" % (e[1], self.show(e[2]))
        if k == "cast":
            return "(%s : %s)" % (self.show(e[1]), tyname(e[2]))
        if k == "deref":
            return self.show(e[1]) + "#"
        return "&" + self.show(e[1])

    # -- the compiler -----------------------------------------------------------------------
    def one(self, what, res):
        res = [(s, v) for s, v in res if v != ("noreturn",)]
        if len(res) != 1:
            if not res:
                raise Bad("%s gives up" % what)
            raise AnalysisBroken("%s has %d outcomes for one shape: %s" % (what, len(res), forkwhy(res)))
        s, v = res[0]
        self.s = s
        return v

    def drain(self, ctx):
        """the statements a stage has put out so far"""
        s, T = self.s, self.T
        l, n = T.get(s, ctx, "stmts"), T.get(s, ctx, "nstmts")
        out = [s.store[("idx", l, i)] for i in range(n)]
        s.store[("fld", ctx, "stmts")] = 0
        s.store[("fld", ctx, "nstmts")] = 0
        return out

    def call(self, fn, rel, *a):
        it = self.it
        it.nstates = 0
        return self.one(fn, it.run(fn, list(a), rel=rel, st=self.s))

    def flatten(self, n):
        r = self.call("rval", "mi/flatten.c", self.fctx, n)
        return self.drain(self.fctx), r

    def lower(self, stmts, n):
        for t in stmts:
            self.call("simp", "6/simp.c", self.sctx, t)
        r = self.call("rval", "6/simp.c", self.sctx, n, 0) if n is not None else None
        return self.drain(self.sctx), r

    def select(self, stmts, n):
        for t in stmts:
            self.call("isel", "6/isel.c", self.is_, t)
        return self.call("selexpr", "6/isel.c", self.is_, n) if n is not None else None

    def compile(self, n, flat=True):
        st, r = self.flatten(n) if flat else ([], n)
        st, r = self.lower(st, r)
        return self.select(st, r)

    def execute(self):
        for op, a in self.insns(self.s):
            self.trace.append("%s %s" % (op[1:], ", ".join(map(repr, a))))
            r = self.m.step(op, a)
            if r:
                raise Bad("control leaves an expression: " + self.trace[-1])

    def kept(self, but=()):
        """the variables hold what they held"""
        for name, (ty, kind, where, v) in self.vars.items():
            if name in but:
                continue
            now = self.m.vr.get(where[1]) if where[0] == "reg" else self.m.load(where[1], where[2])
            d = differ(now, v)
            if d:
                raise Bad("%s is changed to %s" % (name, x86.show(now)))
        for r in ("bp", "sp"):
            if self.m.getphys(r, 0, 64) != x(64, r):
                raise Bad("%%r%s is changed" % r)

    def blobval(self, lbl, w):
        """contents of constant data"""
        s, T = self.s, self.T
        for k, v in s.store.items():
            if isinstance(k, tuple) and k[0] == "htent" and k[1] == "globls" and v == ("str", '"%s"' % lbl):
                d = s.store.get(("idx", ("declstab",), k[2]))
                init = T.get(s, d, "decl", "init") if d else 0
                if init and T.littype(s, init) in ("Lint", "Lflt"):
                    l = T.args(s, init)[0]
                    if T.littype(s, init) == "Lint":
                        return c(w, T.get(s, l, "lit", "intval"))
                    return ("x", w, "flt %s" % (fltval(T.get(s, l, "lit", "fltval")),))
        return None

    def begin(self):
        self.fresh()
        self.it = self.interp()
        self.trace = []
        code = self

        def blobs(a, w, orig=self.m.load):
            if a[0] == "lbl":
                v = code.blobval(a[2], w)
                if v is not None:
                    return v
            return orig(a, w)
        self.m.load = blobs


def fltval(v):
    """a float the source computes from constants"""
    if isinstance(v, tuple) and v[0] == "un" and v[1] == "-":
        return -fltval(v[2])
    if isinstance(v, tuple) and v[0] == "flt":
        v = float(v[1])
    if isinstance(v, (int, float)):
        return float(v)
    raise AnalysisBroken("a float literal that is not known")


def tyname(t):
    return t[2:] if isinstance(t, str) else tyname(t[1]) + ("#" if t[0] == "ptr" else "~")


def forkwhy(res):
    """what the outcomes disagree about"""
    a, b = res[0][0], res[1][0]
    for d in ("assume", "eq", "ne"):
        x, y = getattr(a, d), getattr(b, d)
        for k in set(x) | set(y):
            if x.get(k) != y.get(k):
                return show_(k)
    return "?"
