"""Both sides of a call: the caller's and the callee's code are obtained from the compiler on opaque
operands, and followed one after the other through one machine state."""
from shape import *  # noqa
import x86

# ("struct", tys) ("tuple", tys) ("array", ty, n) ("slice", ty) ("union", tys|None) ("func", ret, params) ("void")
AGGR = ("struct", "tuple", "array", "slice", "union", "func")


def isint(ty):
    ty = base(ty)
    return ty in INT or isinstance(ty, tuple) and (ty[0] == "ptr" or ty[0] == "union" and not any(ty[1]))


def isaggr(ty):
    ty = base(ty)
    return isinstance(ty, tuple) and ty[0] in AGGR and not isint(ty)


def up(n, a):
    return (n + a - 1) // a * a


def alignof(ty):
    ty = base(ty)
    if isinstance(ty, tuple):
        if ty[0] in ("struct", "tuple"):
            return max([alignof(t) for t in ty[1]] + [1])
        if ty[0] == "array":
            return alignof(ty[1])
        if ty[0] == "union":
            return max([4] + [alignof(t) for t in ty[1] if t])
        return 8
    return 1 if ty == "Tyvoid" else bits(ty) // 8


def sizeof(ty):
    ty = base(ty)
    if isinstance(ty, tuple):
        if ty[0] in ("struct", "tuple"):
            n = 0
            for t in ty[1]:
                n = up(n, alignof(t)) + sizeof(t)
            return up(n, alignof(ty))
        if ty[0] == "array":
            return ty[2] * sizeof(ty[1])
        if ty[0] == "union":
            return up(4 + max([0] + [sizeof(t) for t in ty[1] if t]), alignof(ty))
        if ty[0] in ("slice", "func"):
            return 16
        return 8
    return 0 if ty == "Tyvoid" else bits(ty) // 8


def leaves(ty, at=0):
    """(offset, bytes, float or not) of what a value holds; padding is left out"""
    b = base(ty)
    if isinstance(b, tuple):
        if b[0] in ("struct", "tuple"):
            n = at
            for t in b[1]:
                n = up(n - at, alignof(t)) + at
                yield from leaves(t, n)
                n += sizeof(t)
            return
        if b[0] == "array":
            for i in range(b[2]):
                yield from leaves(b[1], at + i * sizeof(b[1]))
            return
        if b[0] in ("slice", "func") or b[0] == "union" and any(b[1]):
            for i in range(0, sizeof(b), 4):
                yield (at + i, 4, None)
            return
        yield (at, sizeof(b), False)
        return
    if b != "Tyvoid":
        yield (at, sizeof(b), b in FLT)


def classes(ty):
    """[] for void, ["m"] in memory, else the class of each eight bytes"""
    if base(ty) == "Tyvoid":
        return []
    if not isaggr(ty):
        return ["f" if base(ty) in FLT else "i"]
    n = sizeof(ty)
    if n > 16:
        return ["m"]
    out = ["f"] * ((n + 7) // 8)
    for off, w, flt in leaves(ty):
        if flt is None:
            return ["m"]
        if not flt:
            out[off // 8] = "i"
    return out


INTREGS = ["di", "si", "dx", "cx", "r8", "r9"]


def placement(ret, params):
    """where each argument goes: per argument a list of (where, offset in the value, bytes)"""
    ni = nf = off = 0
    if classes(ret) == ["m"]:
        ni = 1
    out = []
    for ty in params:
        cl = classes(ty)
        n = sizeof(ty)
        if cl and cl != ["m"] and ni + cl.count("i") <= 6 and nf + cl.count("f") <= 8:
            w = []
            for k, q in enumerate(cl):
                z = min(8, n - 8 * k)
                if q == "i":
                    w.append((INTREGS[ni], 8 * k, z))
                    ni += 1
                else:
                    w.append(("xmm%d" % nf, 8 * k, z))
                    nf += 1
            out.append(w)
        elif not cl:
            out.append([])
        else:
            off = up(off, 8)
            out.append([(off, 0, n)])
            off += n
    return out, off


class Calls(Code):
    FILES = Code.FILES + ["parse/stab.c"]

    def __init__(self):
        super().__init__()
        pr = self.pr
        T = self.T
        pr["codetype"] = lambda it, s, av, n, ctx: [(s, self.retag(s, it.resolve(av[0], s), "Tycode"))]
        pr["closuretype"] = lambda it, s, av, n, ctx: [(s, self.retag(s, it.resolve(av[0], s), "Tyfunc"))]
        pr["mktytuple"] = self.p_tuple
        pr["tagreflect"] = nop()
        pr["tydescid"] = self.tydescid
        pr["htkeys"] = self.htkeys
        pr["qsort"] = self.qsort
        pr["bsdup"] = nop()
        pr["memdup"] = nop()
        pr["peep"] = nop()
        pr["bprintf"] = nop()
        pr["mkdecl"] = self.mkdecl
        pr["gentemp"] = self.gentemp

        self.memo = {}
        for f in ("tybase", "tysize", "tyalign", "isstacktype", "isaggregate", "classify", "tymode", "isenum", "countargs"):
            pr[f] = self.typefn(f)

    def typefn(self, f):
        """a function of a type alone: what it gives is looked up once per type"""
        def h(it, s, av, n, ctx):
            t = it.resolve(av[0], s)
            k = (f, t)
            if k in self.memo:
                return [(s, self.memo[k])]
            tgt = self.P.find(f, ctx[0])
            res = it.invoke(tgt[0], tgt[1], av, s)
            if len(res) == 1:
                v = it.resolve(res[0][1], res[0][0])
                if isinstance(t, tuple) and t[0] == "ty" and (isinstance(v, int) or isinstance(v, tuple) and v[0] == "ty"):
                    self.memo[k] = v
            return res
        return h

    # -- stand-ins ---------------------------------------------------------------------
    def retag(self, s, t, name):
        while t[1] == "Tyname":
            t = t[2]
        return t if t[1] == name else self.T.ty(s, name, t[2:])

    def p_tuple(self, it, s, av, n, ctx):
        l, k = it.resolve(av[1], s), it.resolve(av[2], s)
        return [(s, self.T.ty(s, "Tytuple", tuple(it.resolve(s.store[("idx", l, i)], s) for i in range(k))))]

    def tydescid(self, it, s, av, n, ctx):
        t = it.resolve(av[2], s)
        self.desc = getattr(self, "desc", {})
        nm = "tydesc%d" % self.desc.setdefault(t, len(self.desc))
        return [(s, ("str", '"%s"' % nm))]

    def gentemp(self, it, s, av, n, ctx):
        self.T.k += 1
        nm = ".t%d" % self.T.k
        ty, d = it.resolve(av[1], s), it.resolve(av[2], s)
        dcl = self.decl(s, nm, ty)
        if d != 0:
            it.write(d[1] if d[0] == "addr" else ("deref", d), dcl, s)
        return [(s, self.var(s, nm, ty))]

    def mkdecl(self, it, s, av, n, ctx):
        """a declaration of something global that has a name of its own"""
        nm, ty = it.resolve(av[1], s), it.resolve(av[2], s)
        text = s.store.get(("fld", ("fld", nm, "name"), "name"))
        if not isinstance(text, tuple):
            raise AnalysisBroken("a declaration without a name")
        return [(s, self.decl(s, text[1].strip('"'), ty))]

    def htkeys(self, it, s, av, n, ctx):
        t = it.resolve(av[0], s)
        if not (isinstance(t, tuple) and t[0] == "ht"):
            raise AnalysisBroken("the keys of a table that is not modelled")
        ks = [k[2] for k in s.store if isinstance(k, tuple) and k[0] == "htent" and k[1] == t[1]]
        p = av[1]
        it.write(p[1] if isinstance(p, tuple) and p[0] == "addr" else ("deref", p), len(ks), s)
        return [(s, self.T.array(s, ks))]

    def qsort(self, it, s, av, n, ctx):
        l, k = it.resolve(av[0], s), it.resolve(av[1], s)
        cmpf = av[3]
        name = cmpf[1] if isinstance(cmpf, tuple) and cmpf[0] in ("fn", "func") else None
        if name is None or not isinstance(k, int):
            raise AnalysisBroken("a sort that is not modelled: " + show_(cmpf))
        elts = [s.store[("idx", l, i)] for i in range(k)]
        fi = self.P.find(name, ctx[0])
        cur = s

        def less(a, b):
            nonlocal cur
            x, y = self.T.array(cur, [a]), self.T.array(cur, [b])
            res = it.invoke(fi[0], fi[1], [("addr", ("idx", x, 0)), ("addr", ("idx", y, 0))], cur)
            if len(res) != 1 or not isinstance(res[0][1], int):
                raise AnalysisBroken("the order of a sort is not known")
            cur = res[0][0]
            return res[0][1]
        import functools
        elts.sort(key=functools.cmp_to_key(less))
        for i, e in enumerate(elts):
            cur.store[("idx", l, i)] = e
        return [(cur, 0)]

    # -- types ----------------------------------------------------------------------------
    def typ(self, ty):
        s, T = self.s, self.T
        if not isinstance(ty, tuple):
            return T.ty(s, ty)
        k = ty[0]
        if k == "tuple":
            return T.ty(s, "Tytuple", tuple(self.typ(t) for t in ty[1]))
        if k == "slice":
            return T.ty(s, "Tyslice", (self.typ(ty[1]),))
        if k == "func":
            subs = tuple(self.typ(t) for t in (ty[1],) + tuple(ty[2]))
            return T.ty(s, "Tyfunc", subs)
        if k == "array":
            sub = self.typ(ty[1])
            t = ("ty", "Tyarray", sub, ty[2])
            if ("fld", t, "type") not in s.store:
                T.ty(s, "Tyarray", (sub, ty[2]))
                s.store[("fld", t, "nsub")] = 1
                s.store[("fld", t, "asize")] = T.intlit(s, ty[2], T.ty(s, "Tyuint64"))
            return t
        if k == "struct":
            subs = tuple(self.typ(t) for t in ty[1])
            t = ("ty", "Tystruct") + subs
            if ("fld", t, "type") not in s.store:
                s.ne[t] = frozenset([0])
                s.store[("fld", t, "type")] = self.E["Tystruct"]
                s.store[("fld", t, "nsub")] = 0
                s.store[("fld", t, "nmemb")] = len(subs)
                s.store[("fld", t, "sdecls")] = T.array(s, [T.stmt(s, "Ndecl", "decl", name=T.name(s, "m%d" % i), type=u) for i, u in enumerate(subs)])
            return t
        if k == "union":
            subs = tuple(self.typ(t) if t else 0 for t in ty[1])
            t = ("ty", "Tyunion") + subs
            if ("fld", t, "type") not in s.store:
                s.ne[t] = frozenset([0])
                s.store[("fld", t, "type")] = self.E["Tyunion"]
                s.store[("fld", t, "nsub")] = 0
                s.store[("fld", t, "isenum")] = 0
                s.store[("fld", t, "nmemb")] = len(subs)
                s.store[("fld", t, "udecls")] = T.array(s, [T.obj(s, etype=u, id=i, name=T.name(s, "C%d" % i)) for i, u in enumerate(subs)])
            return t
        return super().typ(ty)

    def regmode(self, ty):
        if isaggr(ty):
            raise AnalysisBroken("an aggregate in a register")
        b = base(ty)
        return "ModeL" if isinstance(b, tuple) and b[0] == "union" else super().regmode(ty)

    def place(self, name, ty, kind):
        if name in self.vars:
            return
        if not isaggr(ty):
            if isinstance(base(ty), tuple) and base(ty)[0] == "union":
                # as wide as its tag
                self.enums[name] = ty
            return super().place(name, ty, kind)
        s = self.s
        dcl = self.decl(s, name, self.typ(ty), **({"isglobl": 1} if kind == "glob" else {}))
        did = self.did(name)
        n = sizeof(ty)
        if kind == "stk":
            self.nstk += up(n, 16) + 16
            s.store[("htent", "stkoff", did)] = self.nstk
            a = x86.add(x(64, "bp"), c(64, -self.nstk))
        elif kind == "glob":
            s.store[("htent", "globls", did)] = ("str", '"g_%s"' % name)
            a = ("lbl", 64, "g_" + name)
        else:
            raise AnalysisBroken("an aggregate in " + kind)
        self.vars[name] = (ty, kind, ("mem", a, 8 * n), None)

    def fresh(self):
        self.enums = {}
        super().fresh()

    # a call: ("call", function, args, ret) with function ("fn", name) or ("v", ...)
    def ty(self, e):
        if e[0] == "call":
            return e[3]
        if e[0] in ("fnv", "deref"):
            return e[2]
        return super().ty(e)

    def build(self, e):
        s, T = self.s, self.T
        if e[0] == "call":
            return T.expr(s, "Ocall", [self.build(e[1])] + [self.build(a) for a in e[2]], self.typ(e[3]))
        if e[0] == "fnv":
            t = self.typ(e[2])
            self.decl(s, e[1], t, isglobl=1, isconst=1, isextern=1)
            s.store[("htent", "globls", self.did(e[1]))] = ("str", '"%s"' % e[1])
            return self.var(s, e[1], t)
        return super().build(e)

    # the address of an aggregate operand, by the language's definition
    def where(self, e):
        if e[0] == "v":
            return self.vars[e[1]][2][1]
        if e[0] == "deref":
            return self.sem(e[1])
        raise AnalysisBroken("the place of " + e[0])

    def parts(self, e):
        """what a value is made of: (offset, bytes, term)"""
        ty = self.ty(e)
        if isaggr(ty):
            a = self.where(e)
            return [(o, w, self.m.load(x86.add(a, c(64, o)), 8 * w)) for o, w, f in leaves(ty)]
        return [(0, sizeof(ty), self.sem(e))]


def tyshow(t):
    if not isinstance(t, tuple):
        return t[2:]
    k = t[0]
    if k in ("struct", "tuple"):
        return ("{%s}" if k == "struct" else "(%s)") % ",".join(tyshow(u) for u in t[1])
    if k == "union":
        return "<%s>" % "|".join(tyshow(u) if u else "_" for u in t[1])
    if k == "array":
        return "%s[%d]" % (tyshow(t[1]), t[2])
    if k == "func":
        return "(%s->%s)" % (",".join(tyshow(u) for u in t[2]), tyshow(t[1]))
    return tyshow(t[1]) + {"ptr": "#", "slice": "[:]", "name": "~"}[k]


class Pair(Calls):
    """caller and callee of one call"""
    FILES = Calls.FILES + ["6/gengas.c"]

    def __init__(self):
        super().__init__()
        pr = self.pr
        pr["mkcfg"] = self.mkcfg
        pr["check"] = nop()
        pr["exitscope"] = nop(1)        # what leaving a scope does is C07's
        pr["mkht"] = lambda it, s, av, n, ctx: [(s, ("ht", "reglocs"))]
        pr["resetregs"] = self.resetregs
        pr["getcwd"] = nop(("str", '"/"'))
        pr["writeasm"] = self.writeasm
        pr["isexport"] = nop(1)

    def mkcfg(self, it, s, av, n, ctx):
        """straight line code and its end"""
        T = self.T
        l, k = it.resolve(av[1], s), it.resolve(av[2], s)
        st = [it.resolve(s.store[("idx", l, i)], s) for i in range(k)]
        for o in st:
            s.store[("fld", ("fld", o, "loc"), "file")] = -1
        end = st.pop()
        if T.littype(s, end) != "Llbl":
            raise Bad("the body does not end in its label")
        lv = T.get(s, T.args(s, end)[0], "lit", "lblval")
        b0 = T.obj(s, id=0, nl=T.array(s, st), nnl=len(st))
        b1 = T.obj(s, id=1, nl=T.array(s, [end]), nnl=1, nlbls=1, lbls=T.array(s, [lv]))
        return [(s, T.obj(s, nbb=2, bb=T.array(s, [b0, b1]), end=b1, start=b0))]

    def resetregs(self, it, s, av, n, ctx):
        s.store[("glob", "maxregid")] = 5000
        return [(s, 0)]

    def writeasm(self, it, s, av, n, ctx):
        self.asm = it.resolve(av[1], s)
        return [(s, 0)]

    def build(self, e):
        s, T = self.s, self.T
        if e[0] == "param":
            t = self.typ(e[2])
            return self.var(s, e[1], t)
        if e[0] == "addrof":
            return T.expr(s, "Oaddr", [self.build(e[1])], T.ty(s, "Typtr", (self.typ(self.ty(e[1])),)))
        if e[0] == "void":
            return T.expr(s, "Olit", [T.lit(s, "Lvoid")], T.ty(s, "Tyvoid"))
        return super().build(e)

    def ty(self, e):
        if e[0] == "param":
            return e[2]
        if e[0] == "addrof":
            return ("ptr", self.ty(e[1]))
        if e[0] == "void":
            return "Tyvoid"
        return super().ty(e)

    def function(self, ret, params, body, result, env=()):
        """-> instructions of a function, each with the place it stands in; env: captured (name, type)"""
        self.begin()
        s, T = self.s, self.T
        fty = self.typ(("func", ret, params))
        args = [self.decl(s, "p%d" % i, self.typ(t)) for i, t in enumerate(params)]
        scope = T.stab(s, isfunc=1)
        if env:
            s.store[("fld", scope, "env")] = ("ht", "closed")
            s.ne[("ht", "closed")] = frozenset([0])
            for nm, ty in self.capnames:
                self.did(nm)
            for nm, ty in env:
                d = self.decl(s, nm, self.typ(ty))
                s.store[("htent", "closed", self.did(nm))] = d
        st = []
        for l, e in body:
            self.call("flatten", "mi/flatten.c", self.fctx, T.expr(self.s, "Oasn", [self.build(l), self.build(e)], self.typ(self.ty(l))))
            st += self.drain(self.fctx)
        s = self.s
        self.call("flatten", "mi/flatten.c", self.fctx, T.expr(s, "Oret", [self.build(result)], self.typ(ret)))
        st += self.drain(self.fctx)
        s = self.s
        blk = self.T.block(s, st, scope)
        fn = T.stmt(s, "Nfunc", "func", type=fty, args=T.array(s, args), nargs=len(args), body=blk, scope=scope)
        lit = T.lit(s, "Lfunc", fnval=fn)
        dcl = T.stmt(s, "Ndecl", "decl", name=T.name(s, "callee"), type=fty, init=T.expr(s, "Olit", [lit], fty), isglobl=1, isconst=1, did=self.did("callee"))
        s.store[("fld", self.sctx, "stksz")] = 0
        f = self.call("simpfn", "6/simp.c", self.sctx, ("str", '"callee"'), dcl)
        self.asm = None
        self.call("genfunc", "6/gengas.c", 0, f, ("ht", "globls"), ("ht", "strtab"))
        if self.asm is None:
            raise AnalysisBroken("no assembly is written")
        s = self.s
        a = self.asm[1] if self.asm[0] == "addr" else self.asm
        bbs = T.get(s, a, "bb")
        out = []
        for i in range(T.get(s, a, "nbb")):
            b = s.store[("idx", bbs, i)]
            out.append(self.insns(s, b))
        return out

    def data(self):
        """constants a stage has put out"""
        s = self.s

        def f(lbl, w):
            keep, self.s = self.s, s
            try:
                return self.blobval(lbl, w)
            finally:
                self.s = keep
        return f

    # -- following both sides -----------------------------------------------------------------
    def caller(self, fnkind, fty, args, ret, z):
        """instructions of a statement that calls; the machine is set up for them"""
        self.begin()
        s, T = self.s, self.T
        if fnkind == "const":
            f = ("fnv", "callee", fty)
        else:
            f = ("v", "fv", fty, fnkind)
        e = ("call", f, args, ret)
        if z is None:
            n = self.build(e)
        else:
            n = T.expr(self.s, "Oasn", [self.build(z), self.build(e)], self.typ(ret))
        self.compile(n)
        return self.insns(self.s)

    def doit(self, ins, phase):
        for i, (op, a) in enumerate(ins):
            self.trace.append("%s %s" % (op[1:], ", ".join(map(repr, a))))
            r = self.m.step(op, a)
            if r:
                return i, r
            for st in self.m.stores[self.seen:]:
                self.store_ok(st, phase)
            self.seen = len(self.m.stores)
        return len(ins), None

    def store_ok(self, st, phase):
        r, off, w, t = st
        w //= 8
        BP, SP = ("x", 64, "bp"), ("x", 64, "sp")
        if r == BP and off < -4096:
            return
        if r == SP and self.low <= off and off + w <= 0:
            return
        if r[0] == "lbl" and r[2].startswith("g_h") and phase == "callee":
            return
        if self.alt is not None and self.alt[0] == r and self.alt[1] <= off and off + w <= self.alt[1] + self.alt[2]:
            return
        if self.target is not None and self.target[0] == r and self.target[1] <= off and off + w <= self.target[1] + self.target[2]:
            return
        raise Bad("the %s writes %d bytes at %s%+d" % (phase, w, x86.show(r), off))

    def sp(self):
        sp = self.m.getphys("sp", 0, 64)
        r, off = self.m.region(sp)
        if r != ("x", 64, "sp"):
            raise Bad("the stack pointer is lost")
        return off

    def same(self, what, got, want):
        for (o, w, t) in want:
            g = got(o, w)
            d = differ(g, t)
            if d:
                raise Bad("%s: byte %d on is %s, not %s" % (what, o, x86.show(g), x86.show(t)))

    def mem(self, a):
        return lambda o, w: self.m.load(x86.add(a, c(64, o)), 8 * w)

    def pieces(self, cl, regs):
        """reads a value that is spread over registers by class"""
        it = {"i": iter(regs[0]), "f": iter(regs[1])}
        rs = [next(it[k]) for k in cl]

        def f(o, w):
            return self.m.getphys(rs[o // 8], 8 * (o % 8), 8 * w)
        return f

    def do_call(self, fnkind, ret, params, va, z, result):
        """one call: params [(type, argument)], va None or arguments, result what the callee returns"""
        tys = [t for t, a in params] + (["Tyvalist"] if va is not None else [])
        body = []
        for i, t in enumerate(tys):
            p = ("param", "p%d" % i, t)
            if t == "Tyvalist":
                p = ("addrof", p)
            if t != "Tyvoid":
                body.append((("v", "h%d" % i, self.ty(p), "glob"), p))
        if result == "glob":
            res = ("v", "r", ret, "glob")
        elif result == "void":
            res = ("void",)
        else:
            res = ("param", "p%d" % result, tys[result])
        bbs = self.function(ret, tys, body, res)
        visited = set(self.it.visited)
        args = [a for t, a in params] + list(va or ())
        ins = self.caller(fnkind, ("func", ret, tuple(tys)), args, ret, z)
        self.it.visited |= visited
        m = self.m
        # what is passed
        vals = [self.parts(a) if a[0] != "void" else [] for a in args]
        if fnkind != "const":
            fa = self.where(("v", "fv"))
            env, code = m.load(fa, 64), m.load(x86.add(fa, c(64, 8)), 64)
        if z is not None:
            self.place(z[1], z[2], z[3])
            wh = self.vars[z[1]][2]
        self.target = None
        if z is not None and wh[0] == "mem":
            self.target = m.region(wh[1]) + (sizeof(ret),)
        if result == "glob":
            want = [(o, w, m.load(("lbl", 64, "g_r") if not o else x86.add(("lbl", 64, "g_r"), c(64, o)), 8 * w)) for o, w, f in leaves(ret)]
        elif result == "void":
            want = []
        else:
            want = vals[result]
        self.low, self.seen = 0, 0
        # the caller, up to the call
        self.low = -(1 << 20)
        at, r = self.doit(ins, "caller")
        if r is None or r[0] not in ("call", "callind"):
            raise Bad("no call is made")
        if r[0] == "call":
            if fnkind != "const" or r[1].kind != "mem" or r[1].lbl != "callee" or r[1].base is not None or r[1].idx is not None:
                raise Bad("calls %r" % r[1])
        else:
            if fnkind == "const":
                raise Bad("calls %r" % r[1])
            if differ(m.get(r[1]), code):
                raise Bad("calls %s, not the code of the function" % x86.show(m.get(r[1])))
            if differ(m.getphys("ax", 0, 64), env):
                raise Bad("the environment is %s, not that of the function" % x86.show(m.getphys("ax", 0, 64)))
        sp0 = self.sp()
        if sp0 % 16 or sp0 > 0:
            raise Bad("the stack pointer is moved by %d at the call" % sp0)
        SP = ("x", 64, "sp")
        at_sp = lambda off: x86.add(SP, c(64, sp0 + off))
        nfix = len(params)
        places, top = placement(ret, [t for t, a in params])
        for i, pl in enumerate(places):
            for where, lo, n in pl:
                part = [(o, w, t) for o, w, t in vals[i] if lo <= o < lo + n]
                if isinstance(where, int):
                    if sp0 + where + n > 0:
                        raise Bad("argument %d lies outside the space made for it" % i)
                    self.same("argument %d on the stack at %d" % (i, where), self.mem(at_sp(where)), part)
                else:
                    self.same("argument %d in %s" % (i, where), lambda o, w: m.getphys(where, 8 * (o - lo), 8 * w), part)
        if classes(ret) == ["m"]:
            rb, ro = m.region(m.getphys("di", 0, 64))
            self.target2 = (rb, ro, sizeof(ret))
            if self.target is None:
                self.target = self.target2
        # the callee
        self.low = sp0 - 8
        ra = ("x", 64, "retaddr")
        m.setphys("sp", 0, at_sp(-8))
        m.store(at_sp(-8), ra)
        for st in m.stores[self.seen:]:
            pass
        self.seen = len(m.stores)
        saved = {q: m.getphys(q, 0, 64) for q in ("bp", "r12", "r13", "r14", "r15")}
        flat = [x_ for b in bbs for x_ in b]
        frame = None
        k = 0
        self.low = -(1 << 30)
        while True:
            n, r = self.doit(flat[k:], "callee")
            k += n + 1
            if r is None:
                raise Bad("the callee does not return")
            if r[0] == "jmp":
                if k < len(bbs[0]):
                    raise Bad("the callee leaves early")
                # the body is free to use every register: only what was saved comes back
                for q in ("r12", "r13", "r14", "r15"):
                    m.ph[q] = [(0, ("x", 64, "used " + q))]
                continue
            if r[0] == "ret":
                break
            raise Bad("the callee does %s" % (r,))
        for op, a in flat:
            if op == "Isub" and a[1].reg == "Rrsp":
                frame = a[0].lit
                break
        if frame is None:
            raise Bad("the callee makes no frame")
        low = sp0 - 16 - up(frame, 16)
        for r_, off, w, t in m.stores:
            if r_ == SP and off < low:
                raise Bad("the callee writes below its frame")
        if self.sp() != sp0 - 8 or m.load(at_sp(-8), 64) != ra:
            raise Bad("the callee does not return to its caller")
        for q, v in saved.items():
            if m.getphys(q, 0, 64) != v:
                raise Bad("the callee changes %%%s" % q)
        m.setphys("sp", 0, at_sp(0))
        # what it has seen
        for i, t in enumerate(tys[:nfix]):
            if t != "Tyvoid":
                self.same("parameter %d" % i, self.mem(("lbl", 64, "g_h%d" % i)), vals[i])
        if va is not None:
            self.variadic(m.load(("lbl", 64, "g_h%d" % nfix), 64), va, vals[nfix:], at_sp, -sp0)
        # what it returns
        cl = classes(ret)
        if cl == ["m"]:
            self.same("the result at the hidden pointer", self.mem(x86.add(self.target2[0], c(64, self.target2[1]))), want)
            if m.getphys("ax", 0, 64) != x86.add(self.target2[0], c(64, self.target2[1])):
                raise Bad("the hidden pointer is not returned")
        else:
            self.same("the result in registers", self.pieces(cl, (["ax", "dx"], ["xmm0", "xmm1"])), want)
        keep = {"ax", "dx", "xmm0", "xmm1"} if cl else set()
        for q in ["ax", "bx", "cx", "dx", "si", "di", "r8", "r9", "r10", "r11"] + ["xmm%d" % i for i in range(16)]:
            if q not in keep:
                m.ph[q] = [(0, ("x", 64, "junk " + q))]
        m.flags = None
        # the rest of the caller
        self.low = sp0
        n, r = self.doit(ins[at + 1:], "caller")
        if r is not None:
            raise Bad("control leaves after the call")
        if z is not None:
            if wh[0] == "reg":
                now = m.vr.get(wh[1])
                self.same("the variable", lambda o, w: ext(8 * w, 8 * o, now), want)
            else:
                self.same("the variable", self.mem(wh[1]), want)
        for name, (ty, kind, w_, v) in self.vars.items():
            if z is not None and name == z[1]:
                continue
            if v is None:
                continue
            now = m.vr.get(w_[1]) if w_[0] == "reg" else m.load(w_[1], w_[2])
            if differ(now, v):
                raise Bad("%s is changed to %s" % (name, x86.show(now)))
        for q in ("bp", "sp", "r12", "r13", "r14", "r15"):
            if m.getphys(q, 0, 64) != x(64, q):
                raise Bad("%%%s is changed" % q)
        return "arguments at %s; result %s" % (["+".join(str(w) for w, lo, n in p) for p in places], "+".join(cl) or "none")

    def variadic(self, p, va, vals, at_sp, end):
        """the rest of the arguments as the library walks them: description, then each at its alignment"""
        m = self.m
        r, off = m.region(p)
        base_, boff = m.region(at_sp(0))
        if r != base_:
            raise Bad("the variadic arguments are not on the stack")
        d = m.load(p, 64)
        want = self.typ(("tuple", tuple(self.ty(a) for a in va)))
        names = {"d%d" % self.did("tydesc%d" % k): t for t, k in getattr(self, "desc", {}).items()}
        if d[0] != "lbl" or names.get(d[2]) != want:
            raise Bad("the variadic arguments are described by %s" % x86.show(d))
        pos = off - boff + 8
        for i, a in enumerate(va):
            ty = self.ty(a)
            pos = up(pos, alignof(ty))
            if pos + sizeof(ty) > end:
                raise Bad("variadic argument %d lies outside the space made for it" % i)
            self.same("variadic argument %d" % i, self.mem(at_sp(pos)), vals[i])
            pos += sizeof(ty)

    def do_closure(self, caps, params, ret, result, order):
        """a function literal that captures caps is stored and called: what it reads is what was captured"""
        body = [(("v", "h%d" % i, t, "glob"), ("param", "p%d" % i, t)) for i, (t, a) in enumerate(params)]
        names = [("e%d" % i, t) for i, (t, k) in enumerate(caps)]
        body += [(("v", "hc%d" % i, t, "glob"), ("param", nm, t)) for i, (nm, t) in enumerate(names)]
        tys = tuple(t for t, a in params)
        res = ("void",) if result == "void" else ("param", names[result][0], names[result][1])
        shuffled = [names[i] for i in order]
        self.capnames = names
        bbs = self.function(ret, tys, body, res, shuffled)
        visited = set(self.it.visited)
        # the caller
        self.begin()
        s, T = self.s, self.T
        fty = ("func", ret, tys)
        ft = self.typ(fty)
        scope = T.stab(s, isfunc=1)
        s.store[("fld", scope, "env")] = ("ht", "closed")
        s.ne[("ht", "closed")] = frozenset([0])
        for nm, ty in names:
            self.did(nm)
        for (nm, ty), (t, k) in zip(names, caps):
            self.place(nm, t, k)
        for nm, ty in shuffled:
            d = self.decl(s, nm, self.typ(ty))
            s.store[("htent", "closed", self.did(nm))] = d
        for f in ("stmts", "nstmts"):
            s.store[("fld", ("glob", "file"), f)] = 0
        fn = T.stmt(s, "Nfunc", "func", type=ft, scope=scope)
        lit = T.expr(s, "Olit", [T.lit(s, "Lfunc", fnval=fn)], ft)
        s.store[("fld", ("fld", T.args(s, lit)[0], "lit"), "type")] = ft
        fv = ("v", "fv", fty, "stk")
        st1 = T.expr(s, "Oasn", [self.build(fv), lit], ft)
        z = ("v", "z", ret, "stk") if ret != "Tyvoid" else None
        e = ("call", fv, [a for t, a in params], ret)
        st2 = self.build(e)
        if z:
            st2 = T.expr(self.s, "Oasn", [self.build(z), st2], self.typ(ret))
        self.compile(st1)
        self.compile(st2)
        ins = self.insns(self.s)
        self.it.visited |= visited
        m = self.m
        vals = [self.parts(a) for t, a in params]
        cvals = [self.parts(("v", nm, t, k)) for (nm, t), (t2, k) in zip(names, caps)]
        self.target = None
        if z:
            self.target = m.region(self.vars["z"][2][1]) + (sizeof(ret),)
        fr, fo = m.region(self.vars["fv"][2][1])
        self.low, self.seen = -(1 << 20), 0
        keep = self.target
        self.target = (fr, fo, 16)
        at, r = self.doit2(ins, keep)
        if r is None or r[0] != "callind":
            raise Bad("no call through the closure is made")
        code = m.get(r[1])
        if code[0] != "lbl" or not self.islit(code[2]):
            raise Bad("calls %s, not the function" % x86.show(code))
        self.target = keep
        sp0 = self.sp()
        if sp0 % 16 or sp0 > 0:
            raise Bad("the stack pointer is moved by %d at the call" % sp0)
        SP = ("x", 64, "sp")
        m.setphys("sp", 0, x86.add(SP, c(64, sp0 - 8)))
        m.store(x86.add(SP, c(64, sp0 - 8)), ("x", 64, "retaddr"))
        if classes(ret) == ["m"] and self.target is None:
            self.target = m.region(m.getphys("di", 0, 64)) + (sizeof(ret),)
        self.seen = len(m.stores)
        self.low = -(1 << 30)
        flat = [x_ for b in bbs for x_ in b]
        k = 0
        reads = []
        load = m.load

        def logged(a, w):
            reads.append(m.region(a) + (w // 8,))
            return load(a, w)
        env = m.getphys("ax", 0, 64)
        er, eo = m.region(env)
        size = load(env, 64) if caps else c(64, 0)
        m.load = logged
        while True:
            n, r = self.doit(flat[k:], "callee")
            k += n + 1
            if r is None:
                raise Bad("the callee does not return")
            if r[0] == "ret":
                break
            if r[0] != "jmp" or k < len(bbs[0]):
                raise Bad("the callee does %s" % (r,))
        m.load = load
        if caps:
            if size[0] != "c":
                raise Bad("the environment does not begin with its size")
            for r_, off, w in reads:
                if r_ == er and not eo <= off <= eo + size[2] - w:
                    raise Bad("reads %d bytes at %d of an environment of %d" % (w, off - eo, size[2]))
        for i, v in enumerate(vals):
            self.same("parameter %d" % i, self.mem(("lbl", 64, "g_h%d" % i)), v)
        for i, v in enumerate(cvals):
            self.same("captured variable %d" % i, self.mem(("lbl", 64, "g_hc%d" % i)), v)
        m.setphys("sp", 0, x86.add(SP, c(64, sp0)))
        self.low = sp0
        n, r = self.doit(ins[at + 1:], "caller")
        if z:
            self.same("the variable", self.mem(self.vars["z"][2][1]), cvals[result])
        for (nm, t), v in zip(names, cvals):
            if not isaggr(t) and self.vars[nm][2][0] == "reg":
                self.same(nm, lambda o, w: ext(8 * w, 8 * o, m.vr[self.vars[nm][2][1]]), v)
            else:
                self.same(nm, self.mem(self.vars[nm][2][1]), v)
        return "captured %s" % ", ".join(tyshow(t) for n, t in names)

    def doit2(self, ins, other):
        """two places may be written: the closure and what the call gives"""
        self.alt = other
        try:
            return self.doit(ins, "caller")
        finally:
            self.alt = None

    alt = None

    def islit(self, lbl):
        s, T = self.s, self.T
        for k, v in s.store.items():
            if isinstance(k, tuple) and k[0] == "htent" and k[1] == "globls" and v == ("str", '"%s"' % lbl):
                d = s.store.get(("idx", ("declstab",), k[2]))
                init = T.get(s, d, "decl", "init") if d else 0
                return bool(init) and T.littype(s, init) == "Lfunc"
        return False
