"""C07: the flattening of statements and expressions keeps the meaning of the source.

Abstract interpretation of mi/flatten.c over statement and expression shapes whose operands are
opaque.  What it emits for a shape is read back and compared, as a set of traces (effects and
values, for every combination of test outcomes), with what the shape means."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from tree import *  # noqa
from flow import *  # noqa
from ccast import AnalysisBroken


class Flatten:
    def __init__(self):
        self.P = Program(["mi/flatten.c", "parse/node.c", "parse/type.c", "parse/names.c", "util/util.c"])
        self.T = Trees(self.P)
        self.E = self.P.enums
        T = self.T
        pr = T.prims()
        pr["fold"] = T.p_same
        pr["htget"] = self.htget
        pr["genmatch"] = self.genmatch
        pr["genonematch"] = self.genonematch
        pr["mkblock"] = self.mkblock
        pr["namestr"] = lambda it, s, av, n, ctx: [(s, it.resolve(it.read(("fld", ("fld", it.resolve(av[0], s), "name"), "name"), s), s))]
        self.pr = pr
        self.shapes = 0
        self.jobs = []
        self.traces = 0

    # -- stand-ins for the other modules --------------------------------------------------
    def htget(self, it, s, av, n, ctx):
        ht = it.resolve(av[0], s)
        if isinstance(ht, tuple) and ht[0] == "impls":
            d = s.store.get(("implof", ht))
            return [(s, d)]
        raise AnalysisBroken("a table that is not modelled is read")

    def genmatch(self, it, s, av, n, ctx):
        """v; ptr to list: one test, one arm"""
        T = self.T
        m, v, out, nout = (it.resolve(x, s) for x in av[:4])
        arm = s.store[("arm", m)]
        I, B = T.ty(s, "Tyint"), T.ty(s, "Tybool")
        r = T.var(s, ".match", B)
        call = T.expr(s, "Ocall", [T.var(s, "match", I), v], B)
        l1 = T.p_genlbl(it, s, [0], n, ctx)[0][1]
        l2 = T.p_genlbl(it, s, [0], n, ctx)[0][1]
        for o in (T.expr(s, "Oasn", [r, call], B), T.expr(s, "Ocjmp", [r, l1, l2], T.ty(s, "Tyvoid")), l1, arm, l2):
            T.p_lappend(it, s, [out, nout, o], n, ctx)
        return [(s, 0)]

    def genonematch(self, it, s, av, n, ctx):
        T = self.T
        pat, val, ltrue, lfalse, out, nout, cap, ncap = (it.resolve(x, s) for x in av[:8])
        I, B, V = T.ty(s, "Tyint"), T.ty(s, "Tybool"), T.ty(s, "Tyvoid")
        r = T.var(s, ".pat", B)
        for o in (T.expr(s, "Oasn", [r, T.expr(s, "Ocall", [T.var(s, "pattern", I), val], B)], B), T.expr(s, "Ocjmp", [r, ltrue, lfalse], V)):
            T.p_lappend(it, s, [out, nout, o], n, ctx)
        T.p_lappend(it, s, [cap, ncap, T.expr(s, "Ocall", [T.var(s, "bind", I), val], V)], n, ctx)
        return [(s, 0)]

    def mkblock(self, it, s, av, n, ctx):
        return [(s, self.T.stmt(s, "Nblock", "block", scope=it.resolve(av[1], s)))]

    def bind(self, s, trait, fns, ty):
        T = self.T
        tr = ("trait", trait)
        for tab in (("glob", "traittab"), ("ttab",)):       # an array, or a pointer to one
            s.store[("idx", tab, self.E[trait])] = tr
        s.store[("glob", "traittab")] = ("ttab",)
        s.store[("fld", tr, "nproto")] = len(fns)
        s.store[("fld", tr, "proto")] = ("protos", trait)
        for i, f in enumerate(fns):
            ht = ("impls", f)
            d = T.stmt(s, "Ndecl", "decl", name=T.name(s, f), type=T.ty(s, "Tyfunc"), did=("did", f))
            s.store[("implof", ht)] = d
            p = T.stmt(s, "Ndecl", "decl", name=T.name(s, f), impls=ht)
            s.store[("idx", ("protos", trait), i)] = p

    def union(self, s):
        """a union of constructors without values"""
        t = self.T.ty(s, "Tyunion")
        s.store[("fld", t, "isenum")] = 0
        s.store[("fld", t, "nmemb")] = 2
        s.store[("fld", t, "udecls")] = ("uds",)
        for i in range(2):
            s.store[("idx", ("uds",), i)] = self.T.obj(s, etype=0)
        return t

    # -- source shapes to nodes --------------------------------------------------------------
    INT = "Tyint"

    def expr(self, s, e):
        T = self.T
        k = e[0]
        I, B = T.ty(s, "Tyint" if self.INT == "enum" else self.INT), T.ty(s, "Tybool")
        X = self.expr
        if k == "var":
            return T.var(s, e[1], B if e[1][0] == "b" else T.ty(s, "Tyslice", (I,)) if e[1][0] == "s" else T.ty(s, "Tyarray", (I,)) if e[1][0] == "r" else
                         T.ty(s, "Typtr", (I,)) if e[1][0] == "p" else T.ty(s, "Tystruct") if e[1][0] == "t" else I)
        if k == "int":
            return T.intlit(s, e[1], I)
        if k == "bool":
            return T.p_mkboollit(self.it, s, [0, int(e[1])], None, None)[0][1]
        if k == "call":
            f = T.expr(s, "Ovar", [T.name(s, e[1])], T.ty(s, "Tyfunc"))
            s.store[fe(f, "did")] = ("did", e[1])
            c = e[1][0]
            return T.expr(s, "Ocall", [f] + [X(s, x) for x in e[2:]], B if c == "b" else T.ty(s, "Tyvoid") if c == "v" else T.ty(s, "Tyslice", (I,)) if c == "s" else
                          T.ty(s, "Tytuple", (I, I)) if c == "t" else T.ty(s, "Tyname") if c == "i" else I)
        un = {"inc": "Opostinc", "dec": "Opostdec", "preinc": "Opreinc", "predec": "Opredec", "auto": "Oauto", "deref": "Oderef"}
        if k in un:
            return T.expr(s, un[k], [X(s, e[1])], I)
        if k == "not":
            return T.expr(s, "Olnot", [X(s, e[1])], B)
        if k in ("and", "or"):
            return T.expr(s, "Oland" if k == "and" else "Olor", [X(s, e[1]), X(s, e[2])], B)
        if k == "tern":
            a = X(s, e[2])
            return T.expr(s, "Otern", [X(s, e[1]), a, X(s, e[3])], s.store[fe(a, "type")])
        if k == "asn":
            r = X(s, e[2])
            return T.expr(s, "Oasn", [X(s, e[1]), r], s.store[fe(r, "type")])
        if k == "gap":
            return T.expr(s, "Ogap", [], I)
        if k == "fuse":
            return T.expr(s, "O" + e[1], [X(s, e[2]), X(s, e[3])], I)
        if k == "bin":
            return T.expr(s, e[1], [X(s, e[2]), X(s, e[3])], I)
        if k == "un":
            return T.expr(s, e[1], [X(s, e[2])], I)
        if k == "cmp":
            nm = {"==": "Oeq", "!=": "One", "<": "Olt", "<=": "Ole", ">": "Ogt", ">=": "Oge"}[e[1]]
            if self.INT == "enum":
                ty = self.union(s)
                return T.expr(s, nm, [T.var(s, e[2][1], ty), T.var(s, e[3][1], ty)], B)
            return T.expr(s, nm, [X(s, e[2]), X(s, e[3])], B)
        if k == "tup":
            return T.expr(s, "Otup", [X(s, x) for x in e[1:]], T.ty(s, "Tytuple", tuple(I for x in e[1:])))
        if k == "idx":
            return T.expr(s, "Oidx", [X(s, e[1]), X(s, e[2])], I)
        if k == "memb":
            return T.expr(s, "Omemb", [X(s, e[1]), T.name(s, e[2])], I)
        if k == "len":
            return T.expr(s, "Omemb", [X(s, e[1]), T.name(s, "len")], T.ty(s, "Tyuint64"))
        if k == "op":
            ty = {"i": I, "s": T.ty(s, "Tyslice", (I,)), "r": T.ty(s, "Tyarray", (I,)), "t": T.ty(s, "Tytuple", (I, I)), "p": T.ty(s, "Typtr", (I,)), "u": T.ty(s, "Tyunion")}[e[2]]
            a = [T.name(s, x[1]) if x[0] == "name" else X(s, x) for x in e[3:]]
            return T.expr(s, e[1], a, ty)
        raise AnalysisBroken("shape %r" % (e,))

    def stmt(self, s, x, st):
        T = self.T
        k = x[0]
        V = T.ty(s, "Tyvoid")
        if k == "expr":
            return self.expr(s, x[1])
        if k == "decl":
            i = self.expr(s, x[2])
            return T.stmt(s, "Ndecl", "decl", name=T.name(s, x[1]), type=s.store[fe(i, "type")], init=i, did=("did", x[1]))
        if k == "block":
            return self.block(s, x[1], st)
        if k == "if":
            f = 0
            t = self.block(s, x[2], st)
            if x[3] is not None:
                f = self.stmt(s, x[3], st) if isinstance(x[3], tuple) and x[3][0] == "if" else self.block(s, x[3], st)
            return T.stmt(s, "Nifstmt", "ifstmt", cond=self.expr(s, x[1]), iftrue=t, iffalse=f)
        if k == "for":
            sc = T.stab(s, st)
            o = T.stmt(s, "Nloopstmt", "loopstmt", scope=sc, init=self.stmt(s, x[1], sc) if x[1] else 0, cond=self.expr(s, x[2]), step=self.expr(s, x[3]) if x[3] else 0)
            s.store[("fld", ("fld", o, "loopstmt"), "body")] = self.block(s, x[4], sc)
            return o
        if k == "iter":
            elt = T.var(s, "elt", T.ty(s, self.INT))
            return T.stmt(s, "Niterstmt", "iterstmt", elt=elt, seq=self.expr(s, x[2]), body=self.block(s, x[3], st))
        if k == "match":
            o = T.stmt(s, "Nmatchstmt", "matchstmt", val=self.expr(s, x[1]))
            s.store[("arm", o)] = self.block(s, x[2], st)
            return o
        if k == "break":
            return T.expr(s, "Obreak", [], V)
        if k == "continue":
            return T.expr(s, "Ocontinue", [], V)
        if k == "ret":
            a = self.expr(s, x[1]) if x[1] is not None else T.expr(s, "Olit", [T.lit(s, "Lvoid")], V)
            return T.expr(s, "Oret", [a], V)
        raise AnalysisBroken("shape %r" % (x,))

    def block(self, s, body, st):
        sc = self.T.stab(s, st)
        return self.T.block(s, [self.stmt(s, x, sc) for x in body], sc)

    # -- lowering of a function body -----------------------------------------------------------
    def lower(self, body):
        T = self.T
        it = self.it = TreeInterp(self.P, self.pr, maxdepth=80)
        it.consttabs = True
        s = State()
        for i in range(128):
            s.store[("idx", ("glob", "debugopt"), i)] = 0
        self.bind(s, "Tcdisp", ["__dispose__"], None)
        self.bind(s, "Tciter", ["__iternext__", "__iterfin__"], None)
        fst = T.stab(s, 0, 1)
        blk = self.block(s, body, fst)
        fn = T.stmt(s, "Nfunc", "func", body=blk, scope=fst)
        lit = T.lit(s, "Lfunc", fnval=fn)
        init = T.expr(s, "Olit", [lit], T.ty(s, "Tyfunc"))
        dcl = T.stmt(s, "Ndecl", "decl", name=T.name(s, "fn"), init=init, isconst=1, isglobl=1, type=T.ty(s, "Tyfunc"))
        res = [(q, v) for q, v in it.run("flattenfn", [dcl], st=s) if not any(e[0] == "noreturn" for e in q.events)]
        if not res:
            raise Bad("the compiler stops on it")
        if len(res) != 1:
            why = sorted({show_(k) for q, v in res for k in q.assume})[:3]
            raise AnalysisBroken("%d ways to flatten %s: depends on %s" % (len(res), show_src(body), why))
        q = res[0][0]
        out = T.get(q, fn, "func", "body")
        lst = T.get(q, out, "block", "stmts")
        n = T.get(q, out, "block", "nstmts")
        return q, [q.store.get(("idx", lst, i)) for i in range(n)]

    def dump(self, q, st):
        return "; ".join(self.T.show(q, o) for o in st)

    def check(self, c, group, key, body, cls="s", maxdec=7):
        self.jobs.append((group, key, body, cls, maxdec, self.INT))

    def judge(self, group, key, body, cls, maxdec, ty):
        self.INT = ty
        n = 0
        try:
            q, st = self.lower(body)
        except NullDeref as e:
            return group, key, "%s: %s" % (show_src(body), e), n
        except Bad as e:
            return group, key, "%s: %s" % (show_src(body), e), n

        def flat(w):
            Flat(self.T, q, st).run(w)

        def src(w):
            Source(cls).run(w, body)
        try:
            n, d = compare(src, flat, maxdec)
        except Bad as e:
            return group, key, "%s: %s" % (show_src(body), e), n
        if d:
            out, a, b = d
            return group, key, ("%s is lowered to code that differs when %s: it should do %s, it does %s" % (show_src(body), outs(out), logs(a, b), logs(b, a))), n
        return group, key, None, n

    def decide(self, c):
        """every shape on its own: they are independent"""
        import multiprocessing as mp
        global WORK
        WORK = self
        visited = set()
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for r in pool.imap(work, range(len(self.jobs)), 16):
                if r[0] is None:
                    raise AnalysisBroken(r[1])
                group, key, why, n, vis = r
                visited |= vis
                self.shapes += 1
                self.traces += n
                if why:
                    c.bad(group, key, why)
                else:
                    c.ok(group, key)
        return visited


def work(i):
    try:
        r = WORK.judge(*WORK.jobs[i])
        return r + (frozenset(WORK.it.visited),)
    except AnalysisBroken as e:
        return None, str(e)
    except RecursionError:
        return None, "recursion does not end on " + show_src(WORK.jobs[i][2])


def outs(o):
    return ", ".join("%s is %s" % (sv(k), str(v).lower()) for k, v in o.items()) or "run"


def logs(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    x = a[i] if i < len(a) else ("nothing more",)
    if x[0] == "call":
        return "%s(%s)%s" % (x[1], ", ".join(sv(y) for y in x[2]), " with " + ", ".join("%s=%s" % (k, sv(v)) for k, v in x[3]) if x[3] else "")
    return " ".join(sv(y) if not (isinstance(y, tuple) and y and isinstance(y[0], tuple)) else ", ".join("%s=%s" % (k, sv(v)) for k, v in y) for y in x)


def sv(v):
    if isinstance(v, tuple):
        if not v:
            return "()"
        if v[0] == "v":
            return v[1] + "'" * min(v[2], 5)
        if v[0] == "res":
            return "result#%d" % v[1]
        if len(v) == 3 and isinstance(v[0], str) and v[0][0] == "O":
            return "%s(%s, %s)" % (v[0][1:], sv(v[1]), sv(v[2]))
        return "(" + " ".join(sv(x) for x in v) + ")"
    return str(v)


def show_src(x):
    if isinstance(x, list):
        return "{ " + "; ".join(show_src(y) for y in x) + " }"
    if not isinstance(x, tuple):
        return "" if x is None else str(x)
    k = x[0]
    S = show_src
    if k == "var":
        return x[1]
    if k in ("int", "bool"):
        return str(x[1]).lower()
    if k == "call":
        return "%s(%s)" % (x[1], ", ".join(S(y) for y in x[2:]))
    if k in ("inc", "dec"):
        return S(x[1]) + ("++" if k == "inc" else "--")
    if k in ("preinc", "predec"):
        return ("++" if k == "preinc" else "--") + S(x[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (S(x[1]), "&&" if k == "and" else "||", S(x[2]))
    if k == "not":
        return "!" + S(x[1])
    if k == "tern":
        return "(%s ? %s : %s)" % tuple(S(y) for y in x[1:])
    if k == "asn":
        return "(%s = %s)" % (S(x[1]), S(x[2]))
    if k == "fuse":
        return "(%s %s %s)" % (S(x[2]), x[1], S(x[3]))
    if k in ("bin", "cmp"):
        return "(%s %s %s)" % (S(x[2]), x[1], S(x[3]))
    if k == "un":
        return "%s(%s)" % (x[1], S(x[2]))
    if k == "tup":
        return "(" + ", ".join(S(y) for y in x[1:]) + ")"
    if k == "op":
        return "%s(%s)" % (x[1], ", ".join(S(y) for y in x[3:]))
    if k == "name":
        return x[1]
    if k == "idx":
        return "%s[%s]" % (S(x[1]), S(x[2]))
    if k == "memb":
        return "%s.%s" % (S(x[1]), x[2])
    if k == "len":
        return S(x[1]) + ".len"
    if k == "deref":
        return S(x[1]) + "#"
    if k == "expr":
        return S(x[1])
    return k + " " + " ".join(S(y) for y in x[1:])


def V(x):
    return ("var", x)


def C(f, *a):
    return ("call", f) + a


def X(e):
    return ("expr", e)


MARK = X(C("vmark", V("i0"), V("j0")))
INTS = [V("x"), C("f"), ("inc", V("i0"))]
BOOLS = [V("b"), C("bp"), ("cmp", "<", ("inc", V("j0")), V("n"))]


def operands(F, c):
    """expression kinds with every combination of plain, calling and incrementing operands"""
    D1 = [("bin", "Oadd", a, b) for a in INTS for b in INTS] + [C("g", a, b) for a in INTS for b in INTS]
    D1 += [("tern", V("b"), a, b) for a in INTS for b in INTS if a != b] + [("tern", C("bp"), INTS[1], INTS[2])]
    D1 += [("asn", V("x"), a) for a in INTS] + [("un", "Oneg", a) for a in INTS]
    D1 += [(k, V("x")) for k in ("preinc", "predec", "inc", "dec")]
    D1 += [("fuse", k, V("x"), a) for k in sorted(FUSED) for a in (INTS if k == "subeq" else INTS[:1])]
    D1 += [("idx", V("s0"), a) for a in INTS] + [("memb", V("t0"), "fa"), ("len", V("s")), ("len", V("r"))]
    D2 = [("op", "Oslice", "s", V("s0"), a, b) for a in INTS for b in INTS]
    D2 += [("op", k, t, a, b) for k, t in (("Oarr", "r"), ("Otup", "t"), ("Ostruct", "t")) for a in INTS for b in INTS if a != b]
    D2 += [("op", "Ocast", "i", a) for a in INTS] + [("op", "Oucon", "u", ("name", "Foo"), a) for a in INTS] + [("op", "Oucon", "u", ("name", "Bar"))]
    D2 += [("op", "Oaddr", "p", ("idx", V("s0"), a)) for a in INTS] + [("op", "Otupmemb", "i", V("t0"), ("int", 1)), ("op", "Obnot", "i", C("f"))]
    for e in D1 + D2:
        F.check(c, "operands", show_src(e), [X(("asn", V("y"), e)), MARK])
        F.check(c, "operands", show_src(e) + " alone", [X(e), MARK])
    for e in D1:
        for l in INTS:
            F.check(c, "nesting", show_src(e) + " left of " + show_src(l), [X(("asn", V("y"), ("bin", "Osub", e, l))), MARK])
            F.check(c, "nesting", show_src(e) + " right of " + show_src(l), [X(("asn", V("y"), ("bin", "Osub", l, e))), MARK])
        F.check(c, "nesting", show_src(e) + " as argument", [X(C("vh", INTS[0], e, INTS[2])), MARK])
        F.check(c, "nesting", show_src(e) + " returned", [("ret", e)])
    for e in D2:
        for l in INTS:
            F.check(c, "nesting", show_src(e) + " right of " + show_src(l), [X(C("vh", l, e)), MARK])
        F.check(c, "nesting", show_src(e) + " returned", [("ret", e)])
    lvs = [V("x"), ("idx", V("s0"), C("f")), ("idx", V("s0"), ("inc", V("k0"))), ("memb", V("t0"), "fa"), ("deref", V("p0"))]
    for l in lvs:
        for v in INTS:
            F.check(c, "targets", show_src(l), [X(("asn", l, v)), MARK])
            for k in sorted(FUSED) if v == INTS[0] else ("subeq",):
                F.check(c, "targets", k + " of " + show_src(l), [X(("fuse", k, l, v)), MARK])
        for k in ("preinc", "predec", "inc", "dec"):
            F.check(c, "targets", k + " of " + show_src(l), [X(("asn", V("y"), (k, l))), MARK])
            F.check(c, "targets", k + " of " + show_src(l), [X((k, l)), MARK])
    for lhs, rhs in ((("tup", V("x"), V("y")), ("tup", V("y"), V("x"))), (("tup", V("x"), V("y")), C("tf")), (("tup", V("x"), ("gap",)), C("tf")),
                     (("tup", ("gap",), V("y")), C("tf")), (("tup", ("idx", V("s0"), C("f")), V("y")), C("tf")),
                     (("tup", V("x"), ("tup", V("y"), V("z"))), ("tup", C("f"), ("tup", V("x"), C("g")))),
                     (("tup", V("x"), V("y"), V("z")), ("tup", V("z"), V("x"), V("y")))):
        F.check(c, "tuples", show_src(lhs), [X(("asn", lhs, rhs)), MARK])
    F.check(c, "targets", "gap", [X(("asn", ("gap",), C("f"))), MARK])
    for cls, ty in (("s", "Tyint8"), ("s", "Tyint16"), ("s", "Tyint"), ("s", "Tyint32"), ("s", "Tyint64"), ("u", "Tybyte"), ("u", "Tyuint8"), ("u", "Tyuint16"),
                    ("u", "Tyuint"), ("u", "Tyuint32"), ("u", "Tyuint64"), ("u", "Tychar"), ("u", "Tybool"), ("u", "Typtr"), ("f", "Tyflt32"), ("f", "Tyflt64")):
        F.INT = ty
        for o in sorted(CMP):
            F.check(c, "comparisons", "%s of %s" % (o, ty), [X(("asn", V("b"), ("cmp", o, V("x"), V("y")))), MARK], cls)
        F.INT = "Tyint"
    F.INT = "enum"
    for o in ("==", "!="):
        F.check(c, "comparisons", "%s of an enum" % o, [X(("asn", V("b"), ("cmp", o, V("x"), V("y")))), MARK], "u")
    F.INT = "Tyint"


def conditions(F, c, deep):
    leaves = BOOLS
    d1 = [(k, a, b) for k in ("and", "or") for a in leaves for b in leaves] + [("not", a) for a in leaves]
    few = [("and", V("b"), BOOLS[2]), ("or", BOOLS[1], BOOLS[2]), ("not", V("b")), ("not", BOOLS[2]), ("and", BOOLS[2], BOOLS[1])]
    d2 = [(k, a, b) for k in ("and", "or") for a in few for b in leaves + few[:2]] + [(k, b, a) for k in ("and", "or") for a in few for b in leaves] + [("not", a) for a in few]
    d2 += [("tern", C("bp"), a, V("b")) for a in few[:2]] + [("tern", a, V("b"), C("bq")) for a in few]
    for e in leaves + d1 + d2:
        k = show_src(e)
        F.check(c, "conditions", "value of " + k, [X(("asn", V("b1"), e)), MARK])
        F.check(c, "conditions", "if " + k, [("if", e, [X(C("va", V("i0"), V("j0")))], [X(C("vb", V("i0"), V("j0")))]), MARK])
        F.check(c, "conditions", "while " + k, [("for", None, e, None, [X(C("va", V("i0"), V("j0")))]), MARK], maxdec=6)
        F.check(c, "conditions", k + " ?:", [X(("asn", V("y"), ("tern", e, ("inc", V("i0")), C("f")))), MARK])
    for e in d1:
        F.check(c, "conditions", "argument " + show_src(e), [X(C("vh", e, V("x"))), MARK])
        F.check(c, "conditions", "later argument " + show_src(e), [X(C("vh", V("x"), e)), MARK])
        F.check(c, "conditions", "return " + show_src(e), [("ret", e)])


def statements(F, c, deep):
    A, B, D = [X(C("va", V("i0"), V("j0")))], [X(C("vb", V("i0"), V("j0")))], [X(C("vd", V("i0"), V("j0")))]
    conds = [V("b"), C("bp"), BOOLS[2]]
    for p in conds:
        F.check(c, "if", "no else", [("if", p, A, None), MARK])
        for q in conds:
            F.check(c, "if", "elif", [("if", p, A, ("if", q, B, None)), MARK])
            F.check(c, "if", "elif else", [("if", p, A, ("if", q, B, D)), MARK])
            F.check(c, "if", "nested", [("if", p, [("if", q, A, B)], [("if", q, B, None)] + D), MARK])
    F.check(c, "if", "three arms", [("if", V("b"), A, ("if", C("bp"), B, ("if", C("bq"), D, [X(C("ve"))]))), MARK])
    for p in conds:
        F.check(c, "loops", "condition and step", [("for", None, p, C("vstep"), A), MARK], maxdec=6)
    # loops and exits
    exits = [[], [("break",)], [("continue",)], [("ret", V("y"))], [("ret", ("inc", V("y")))]]
    for x in exits:
        for y in exits:
            body = [X(C("va")), ("if", C("bp"), x, y or None), X(C("vb"))]
            F.check(c, "loops", show_src(body), [("for", ("decl", "k", ("int", 0)), ("cmp", "<", V("k"), V("n")), ("inc", V("k")), body), MARK], maxdec=6)
            F.check(c, "loops", "while " + show_src(body), [("for", None, C("bc"), None, body), MARK], maxdec=6)
            F.check(c, "iteration", show_src(body), [("iter", "idx", V("s0"), body), MARK], maxdec=6)
            F.check(c, "iteration", "call " + show_src(body), [("iter", "idx", C("sq"), body), MARK], maxdec=6)
            F.check(c, "iteration", "trait " + show_src(body), [("iter", "trait", C("iq"), body), MARK], maxdec=6)
            F.check(c, "match", show_src(body), [("for", None, C("bc"), None, [("match", C("f"), body)]), MARK], maxdec=6)
    for x in exits:
        for y in exits:
            inner = ("for", None, C("bi"), None, [("if", C("bp"), x, None)])
            F.check(c, "loops", "nested " + show_src(inner), [("for", None, C("bo"), C("vstep"), [inner, ("if", C("bq"), y, None), X(C("vb"))]), MARK], maxdec=6)
            inner = ("iter", "idx", V("s0"), [("if", C("bp"), x, None)])
            F.check(c, "loops", "iter in loop " + show_src(inner), [("for", None, C("bo"), C("vstep"), [inner, ("if", C("bq"), y, None), X(C("vb"))]), MARK], maxdec=6)
            inner = ("for", None, C("bi"), C("vstep"), [("if", C("bp"), x, None)])
            F.check(c, "loops", "loop in iter " + show_src(inner), [("iter", "trait", C("iq"), [inner, ("if", C("bq"), y, None), X(C("vb"))]), MARK], maxdec=6)
    def level(kind, call, body):
        return ("for", None, C("b" + call), C("v" + call), body) if kind == "for" else ("iter", kind, V("s0") if kind == "idx" else C(call + "q"), body)
    for kinds in itertools.product(("for", "idx", "trait"), repeat=3):
        for x, y, z in ((1, 2, 2), (2, 1, 2), (2, 2, 1)):
            x, y, z = exits[x], exits[y], exits[z]
            l3 = level(kinds[2], "i", [("if", C("bp"), x, None)])
            l2 = level(kinds[1], "j", [l3, ("if", C("bq"), y, None), X(C("vb"))])
            F.check(c, "loops", "three deep " + " ".join(kinds), [level(kinds[0], "k", [l2, ("if", C("br"), z, None), X(C("va"))]), MARK], maxdec=7)
    # one statement after another: nothing of the first is left over for the second
    pool = lambda: [[("if", C("b" + f), [("ret", V("x"))], None)] for f in "f"] + [[("if", C("bp"), [("ret", ("inc", V("i0")))], None)],
            [("for", None, C("bc"), ("inc", V("i0")), [("if", C("bp"), [("break",)], [("continue",)])])], [("iter", "idx", V("s0"), [("if", C("bp"), [("continue",)], None)] + A)],
            [("iter", "trait", C("iq"), [("if", C("bp"), [("break",)], None)] + A)], [("match", ("inc", V("i0")), A)], [X(("asn", V("y"), ("tern", C("bp"), ("inc", V("i0")), V("x"))))],
            [("if", ("and", C("bp"), ("cmp", "==", ("inc", V("j0")), V("x"))), A, B)], [("block", [("decl", "va", ("auto", C("f")))] + A)], [("decl", "vb", ("auto", C("g")))],
            [("ret", ("inc", V("j0")))]]
    for a in pool():
        for b in pool():
            F.check(c, "statements", "sequence " + show_src(a + b), a + b + [MARK], maxdec=6)
            F.check(c, "disposal", "sequence " + show_src(a + b), [("decl", "vz", ("auto", C("h")))] + a + b + [MARK], maxdec=6)
    for v in INTS + [("inc", V("i0"))]:
        F.check(c, "statements", "match " + show_src(v), [("match", v, A), MARK])
        F.check(c, "statements", "init " + show_src(v), [("decl", "z", v), X(C("vh", V("z"))), MARK])
        F.check(c, "statements", "return " + show_src(v), [("ret", v)])
        F.check(c, "statements", "loop parts", [("for", ("decl", "k", v), C("bp"), ("asn", V("k"), v), A), MARK], maxdec=5)
    F.check(c, "statements", "blocks", [("block", A + [("block", B)]), MARK])
    F.check(c, "statements", "return nothing", [("if", C("bp"), [("ret", None)], None), MARK])
    F.check(c, "statements", "iterate twice", [("iter", "idx", V("s0"), A), ("iter", "idx", V("r"), B), MARK], maxdec=5)


def disposal(F, c, deep):
    """auto values are disposed of once, in reverse, on every way out of their block"""
    au = lambda f: ("decl", "v" + f, ("auto", C(f)))
    exits = [[], [("break",)], [("continue",)], [("ret", V("y"))]]
    for x in exits:
        for y in exits:
            for kind in ("while", "idx", "trait"):
                body = [au("f"), ("if", C("bp"), x, None), au("g"), ("if", C("bq"), y, None), X(C("vb"))]
                lp = ("for", None, C("bc"), C("vstep"), body) if kind == "while" else ("iter", kind, V("s0") if kind == "idx" else C("iq"), body)
                F.check(c, "disposal", kind + " " + show_src(body), [au("h"), lp, MARK], maxdec=6)
            body = [au("f"), ("if", C("bp"), [au("g")] + x, None), ("block", [au("h"), ("if", C("bq"), y, None)]), X(C("vb"))]
            F.check(c, "disposal", show_src(body), [("for", None, C("bc"), C("vstep"), body), MARK], maxdec=6)
    for n in (1, 2, 3):
        fs = ["f", "g", "h"][:n]
        F.check(c, "disposal", "%d at the end" % n, [au(f) for f in fs] + [X(C("va", V("i0"), V("j0")))])
        F.check(c, "disposal", "%d on return" % n, [au(f) for f in fs] + [("ret", V("y"))])
        F.check(c, "disposal", "%d between returns" % n, [z for f in fs for z in (au(f), ("if", C("b" + f), [("ret", V("y"))], None))] + [("ret", V("x"))])
        F.check(c, "disposal", "%d in nested blocks" % n, [au("f"), ("block", [au("g"), ("block", [au("h"), ("if", C("bp"), [("ret", V("y"))], None)]), ("if", C("bq"), [("ret", V("x"))], None)]), MARK])
    F.check(c, "disposal", "two in one expression", [X(C("vh", ("auto", C("f")), ("auto", C("g")))), MARK])
    F.check(c, "disposal", "match", [("match", C("f"), [au("g"), ("if", C("bp"), [("ret", V("y"))], None)]), MARK])


def check(c):
    F = Flatten()
    deep = c.tier != "quick"
    for f in ("mi/flatten.c:rval", "mi/flatten.c:lval", "mi/flatten.c:flatten", "mi/flatten.c:flattenfn"):
        c.unit(f)
    operands(F, c)
    conditions(F, c, deep)
    statements(F, c, deep)
    disposal(F, c, deep)
    visited = F.decide(c)
    c.extra["shapes"] = F.shapes
    c.extra["traces"] = F.traces
    for f in sorted(visited):
        c.unit("function " + f)


report.run("C07", "the statements emitted for each kind of expression and statement make the same calls with the same values in the same order as the source, "
           "for every outcome of the tests; operands are opaque", check,
           ["mi/match.c emits a test and an arm", "fold() keeps the meaning of a statement"])
