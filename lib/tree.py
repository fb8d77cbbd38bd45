"""Object domain for code that rewrites compiler trees in place: every node is an object ("o", k)
whose fields live in the store, so that a template emitted for a construct can be read back as a
tree after all the updates.  Operands are opaque: what they stand for is never looked at."""
import sys
from nodes import *  # noqa
from ccast import AnalysisBroken, Endless

sys.setrecursionlimit(20000)


CONCRETE = ("o", "ty", "lst", "args", "trait")      # things that are the same only when they are the same object


LISTS = ("lst", "args", "tysub")


class NullDeref(AnalysisBroken):
    """the analysed code follows a null pointer on a tree that is known"""


class TreeInterp(Interp):
    """objects are zero-initialised; recursion is followed, for the trees are finite"""
    MAXREC = 160

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.endless = True

    def read(self, loc, st, isarray=False):
        v = super().read(loc, st, isarray)
        if v == ("ld", loc):
            b = loc
            while isinstance(b, tuple) and b[0] in ("fld", "idx"):
                b = b[1]
            if b == 0:
                raise NullDeref("a null pointer is followed (%s) in %s" % (show_(loc), "/".join(list(st.depth)[-3:])))
            if isinstance(b, tuple) and b[0] == "o":
                return 0
        return v

    # a pointer into a list, however it was computed, is the list and a distance
    def normptr(self, v):
        k = 0
        while isinstance(v, tuple):
            if v[0] == "bin" and v[1] == "+" and isinstance(v[3], int):
                k += v[3]
                v = v[2]
            elif v[0] == "addr" and isinstance(v[1], tuple) and v[1][0] == "idx" and isinstance(v[1][2], int):
                k += v[1][2]
                v = v[1][1]
            elif v[0] in LISTS:
                return v, k
            else:
                return None
        return None

    def normloc(self, l):
        if not isinstance(l, tuple):
            return l
        if l[0] == "deref":
            p = self.normptr(l[1])
            return ("idx",) + p if p else l
        if l[0] == "idx" and isinstance(l[2], int):
            p = self.normptr(l[1])
            return ("idx", p[0], p[1] + l[2]) if p and p[1] else l
        if l[0] == "fld":
            b = self.normloc(l[1])
            return l if b is l[1] else ("fld", b, l[2])
        return l

    def lv(self, n, st, ctx):
        return [(s, self.normloc(l)) for s, l in super().lv(n, st, ctx)]

    # struct assignment copies the fields there are now
    def recof(self, n):
        t = n.ctype or n.type or ""
        if t.rstrip().endswith("*") or "[" in t:
            return None
        return self.recfields(n.type) or self.recfields(t)

    def fields(self, fs, src, dst, s):
        for f in fs:
            for a in [k for k in s.store if k[0] in ("fld", "idx") and (k == ("fld", src, f) or self.under(k, ("fld", src, f)))]:
                yield self.rebase(a, src, dst), s.store[a]

    def copyrec(self, fs, src, dst, s):
        new = list(self.fields(fs, src, dst, s))
        for k in [k for k in s.store if k[0] in ("fld", "idx") and self.under(k, dst)]:
            del s.store[k]
        s.store.pop(dst, None)
        for k, v in new:
            s.store[k] = v

    def binary(self, n, st, ctx):
        if n.op == "=":
            fs = self.recof(n)
            r = strip(n.kids[1])
            if fs and r.kind in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator"):
                out = []
                for s, src in self.lv(r, st, ctx):
                    for s2, dst in self.lv(n.kids[0], s, ctx):
                        self.copyrec(fs, src, dst, s2)
                        out.append((s2, ("ld", dst)))
                return out
        return super().binary(n, st, ctx)

    def cmptruth(self, v, st):
        _, op, a, b = v
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, float) and isinstance(b, float):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(op)
        p, q = self.normptr(a), self.normptr(b)
        if p and q and p[0] == q[0]:
            x, y = p[1], q[1]
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(op)
        if op in ("==", "!=") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] in CONCRETE and b[0] in CONCRETE:
            return (a == b) == (op == "==")
        return super().cmptruth(v, st)

    def docall(self, name, av, n, s, ctx):
        if name in NORETURN and name not in self.prims:
            s.events.append(("noreturn", name))
            self.deadat = s.depth[-1] if s.depth else name
            return [(s, ("noreturn",))]
        if name not in self.prims and name in s.depth:
            tgt = self.p.find(name, ctx[0])
            if tgt is not None and name not in self.noinline:
                if len(s.depth) > self.MAXREC:
                    raise Endless("recursion in %s is not bounded by the tree" % name)
                self.tick()
                return self.invoke(tgt[0], tgt[1], av, s)
        return super().docall(name, av, n, s, ctx)


class Trees:
    def __init__(self, P):
        self.P = P
        self.E = P.enums
        self.opname = {v: k for k, v in self.E.items() if k[0] == "O" and k[1:2].islower() and k not in ("Outmask",)}
        self.k = 0
        self.tys = {}

    # ---- building ---------------------------------------------------------
    def obj(self, s, **f):
        self.k += 1
        o = ("o", self.k)
        s.ne[o] = frozenset([0])
        for k, v in f.items():
            s.store[("fld", o, k)] = v
        return o

    def ty(self, s, name, sub=()):
        key = (name,) + tuple(sub)
        t = ("ty",) + key
        if ("fld", t, "type") not in s.store:
            s.ne[t] = frozenset([0])
            s.store[("fld", t, "type")] = self.E[name]
            s.store[("fld", t, "nsub")] = len(sub)
            s.store[("fld", t, "sub")] = ("tysub", t)
            for i, x in enumerate(sub):
                s.store[("idx", ("tysub", t), i)] = x
        return t

    def expr(self, s, op, args, ty):
        o = self.obj(s, type=self.E["Nexpr"])
        self.setexpr(s, o, self.E[op] if isinstance(op, str) else op, args, ty)
        return o

    def setexpr(self, s, o, op, args, ty):
        s.store[fe(o, "op")] = op
        s.store[fe(o, "type")] = ty
        s.store[fe(o, "nargs")] = len(args)
        s.store[fe(o, "args")] = ("args", o)
        for i, a in enumerate(args):
            s.store[("idx", ("args", o), i)] = a

    def var(self, s, name, ty):
        o = self.expr(s, "Ovar", [self.name(s, name)], ty)
        s.store[fe(o, "did")] = ("did", name)
        return o

    def name(self, s, name):
        o = self.obj(s, type=self.E["Nname"])
        s.store[("fld", ("fld", o, "name"), "name")] = ("str", name)
        return o

    def lit(self, s, lt, **f):
        o = self.obj(s, type=self.E["Nlit"])
        s.store[("fld", ("fld", o, "lit"), "littype")] = self.E[lt]
        for k, v in f.items():
            s.store[("fld", ("fld", o, "lit"), k)] = v
        return o

    def intlit(self, s, v, ty):
        return self.expr(s, "Olit", [self.lit(s, "Lint", intval=v)], ty)

    def stmt(self, s, kind, sub, **f):
        o = self.obj(s, type=self.E[kind])
        for k, v in f.items():
            s.store[("fld", ("fld", o, sub), k)] = v
        return o

    def stab(self, s, sup=0, isfunc=0):
        o = self.obj(s, super=sup, isfunc=isfunc)
        return o

    def array(self, s, elts):
        self.k += 1
        l = ("lst", self.k)
        s.ne[l] = frozenset([0])
        for i, e in enumerate(elts):
            s.store[("idx", l, i)] = e
        return l

    def block(self, s, stmts, scope):
        return self.stmt(s, "Nblock", "block", scope=scope, stmts=self.array(s, stmts), nstmts=len(stmts))

    # ---- primitives --------------------------------------------------------
    def p_mkexpr(self, it, s, av, n, ctx):
        args = []
        for a in av[2:]:
            if a == 0:
                break
            args.append(it.resolve(a, s))
        else:
            raise AnalysisBroken("mkexpr without an end of its arguments")
        return [(s, self.expr(s, it.resolve(av[1], s), args, 0))]

    def p_mkintlit(self, it, s, av, n, ctx):
        return [(s, self.intlit(s, it.resolve(av[1], s), self.ty(s, "Tyint")))]

    def p_mkbool(self, it, s, av, n, ctx):
        return [(s, self.lit(s, "Lbool", boolval=it.resolve(av[1], s)))]

    def p_mkboollit(self, it, s, av, n, ctx):
        return [(s, self.expr(s, "Olit", [self.lit(s, "Lbool", boolval=it.resolve(av[1], s))], self.ty(s, "Tybool")))]

    def p_mkvoid(self, it, s, av, n, ctx):
        return [(s, self.lit(s, "Lvoid"))]

    def p_genlbl(self, it, s, av, n, ctx):
        o = self.expr(s, "Olit", [self.lit(s, "Llbl", lblval=("str", "L%d" % self.k))], self.ty(s, "Tyvoid"))
        return [(s, o)]

    def p_gentemp(self, it, s, av, n, ctx):
        self.k += 1
        nm = ".t%d" % self.k
        ty = it.resolve(av[1], s)
        o = self.var(s, nm, ty)
        d = it.resolve(av[2], s)
        if d != 0:
            dcl = self.stmt(s, "Ndecl", "decl", name=s.store[("idx", ("args", o), 0)], type=ty, did=("did", nm))
            it.write(d[1] if d[0] == "addr" else ("deref", d), dcl, s)
        return [(s, o)]

    def p_mktype(self, it, s, av, n, ctx):
        v = it.resolve(av[1], s)
        for k, x in self.E.items():
            if k.startswith("Ty") and x == v and k not in ("Tyhandlers",):
                return [(s, self.ty(s, k))]
        raise AnalysisBroken("mktype of " + show_(v))

    def p_mktyptr(self, it, s, av, n, ctx):
        return [(s, self.ty(s, "Typtr", (it.resolve(av[1], s),)))]

    def p_same(self, it, s, av, n, ctx):
        return [(s, it.resolve(av[0], s))]

    def p_lappend(self, it, s, av, n, ctx):
        a, c, v = (it.resolve(x, s) for x in av[:3])
        if not (isinstance(a, tuple) and a[0] == "addr" and isinstance(c, tuple) and c[0] == "addr"):
            raise AnalysisBroken("a list that is not a named one is appended to")
        cnt = it.resolve(it.read(c[1], s), s)
        lst = it.resolve(it.read(a[1], s), s)
        if not isinstance(cnt, int):
            raise AnalysisBroken("list of unknown length: " + show_(c[1]))
        if cnt == 0 and lst == 0:
            lst = self.array(s, [])
            it.write(a[1], lst, s)
        s.store[("idx", lst, cnt)] = v
        it.write(c[1], cnt + 1, s)
        return [(s, 0)]

    def p_lfree(self, it, s, av, n, ctx):
        for x in av[:2]:
            x = it.resolve(x, s)
            it.write(x[1], 0, s)
        return [(s, 0)]

    def p_exprop(self, it, s, av, n, ctx):
        o = it.resolve(av[0], s)
        if it.resolve(it.read(("fld", o, "type"), s), s) != self.E["Nexpr"]:
            raise AnalysisBroken("the operator of something that is not an expression is looked at")
        return [(s, it.resolve(it.read(fe(o, "op"), s), s))]

    def p_exprtype(self, it, s, av, n, ctx):
        o = it.resolve(av[0], s)
        if o == 0:
            raise NullDeref("the type of nothing is looked at in " + "/".join(list(s.depth)[-3:]))
        k = it.resolve(it.read(("fld", o, "type"), s), s)
        f = {self.E["Nexpr"]: "expr", self.E["Ndecl"]: "decl", self.E["Nlit"]: "lit"}.get(k)
        if f is None:
            raise AnalysisBroken("the type of something without one is looked at in " + "/".join(list(s.depth)[-4:]))
        return [(s, it.resolve(it.read(("fld", ("fld", o, f), "type"), s), s))]

    def p_strcmp(self, it, s, av, n, ctx):
        a, b = (it.resolve(x, s) for x in av[:2])
        if not (isinstance(a, tuple) and a[0] == "str" and isinstance(b, tuple) and b[0] == "str"):
            raise AnalysisBroken("strings compared that are not known: %r %r" % (a, b))
        a, b = (x[1].strip('"') for x in (a, b))
        return [(s, 0 if a == b else 1 if a > b else -1)]

    def p_strncmp(self, it, s, av, n, ctx):
        a, b, k = (it.resolve(x, s) for x in av[:3])
        if not (isinstance(a, tuple) and a[0] == "str" and isinstance(b, tuple) and b[0] == "str" and isinstance(k, int)):
            raise AnalysisBroken("strings compared that are not known: %r %r" % (a, b))
        a, b = (x[1].strip('"')[:k] for x in (a, b))
        return [(s, 0 if a == b else 1 if a > b else -1)]

    def prims(self):
        p = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith("p_")}
        p["tybase"] = p["tysearch"] = self.p_same
        p["nodetype"] = p["decltype"] = p["exprtype"]
        p["dumpn"] = lambda it, s, av, n, ctx: [(s, 0)]
        return p

    # ---- reading back --------------------------------------------------------
    def get(self, s, *path):
        """field of an object after analysis (0 when never set)"""
        loc = path[0]
        for f in path[1:]:
            loc = ("idx", loc, f) if isinstance(f, int) else ("fld", loc, f)
        return s.store.get(loc, 0)

    def op(self, s, o):
        return self.opname.get(s.store.get(fe(o, "op")), None)

    def args(self, s, o):
        n = s.store.get(fe(o, "nargs"), 0)
        return [s.store.get(("idx", ("args", o), i), 0) for i in range(n)]

    def isexpr(self, s, o):
        return self.get(s, o, "type") == self.E["Nexpr"]

    def littype(self, s, o):
        """kind of the literal an expression is, or None"""
        if not self.isexpr(s, o) or self.op(s, o) != "Olit":
            return None
        l = self.args(s, o)[0]
        v = self.get(s, l, "lit", "littype")
        for k in ("Lchr", "Lbool", "Lint", "Lflt", "Lstr", "Lfunc", "Llbl", "Lvoid"):
            if self.E[k] == v:
                return k
        return None

    def show(self, s, o, d=0):
        if not isinstance(o, tuple) or o[0] != "o" or d > 6:
            return show_(o)
        if not self.isexpr(s, o):
            nm = self.get(s, o, "name", "name")
            return nm[1] if isinstance(nm, tuple) else show_(o)
        op = self.op(s, o)
        if op == "Ovar":
            return s.store.get(fe(o, "did"), ("did", "?"))[1]
        lt = self.littype(s, o)
        if lt:
            l = self.args(s, o)[0]
            return {"Lint": str(self.get(s, l, "lit", "intval")), "Lbool": str(self.get(s, l, "lit", "boolval"))}.get(lt, lt + str(o[1]) if lt == "Llbl" else lt)
        return "%s(%s)" % (op[1:], ", ".join(self.show(s, a, d + 1) for a in self.args(s, o)))
