"""Abstract domain for code that builds compiler tree nodes: a node is the term of how it was
made, ("n", op, args); literals are ("lit", value); a node handed to the recursive lowering
is ("rv", x) / ("lval", x).  The typing fields set after construction live in the store."""
from cint import *  # noqa


def fe(t, f):
    return ("fld", ("fld", t, "expr"), f)


class Nodes:
    def __init__(self, P):
        self.P = P
        self.E = P.enums
        self.opname = {}
        for k, v in self.E.items():
            if k.startswith("O") and k[1:2].islower() and v not in self.opname:
                self.opname[v] = k

    def mk(self, s, op, args):
        t = ("n", op, tuple(args))
        self.nonnull(s, t)
        s.store[("fld", t, "type")] = self.E["Nexpr"]
        s.store[fe(t, "op")] = op
        s.store[fe(t, "nargs")] = len(args)
        for i, a in enumerate(args):
            s.store[("idx", ("ld", fe(t, "args")), i)] = a
        return t

    def nonnull(self, s, t):
        s.ne[t] = frozenset(s.ne.get(t, frozenset())) | {0}

    def mkexpr(self, it, s, av, n, ctx):
        args = []
        for a in av[2:]:
            if a == 0:
                break
            args.append(a)
        op = it.resolve(av[1], s)
        return [(s, self.mk(s, op, args))]

    def mkintlit(self, it, s, av, n, ctx):
        t = ("lit", av[1])
        self.nonnull(s, t)
        s.store[("fld", t, "type")] = self.E["Nexpr"]
        s.store[fe(t, "op")] = self.E["Olit"]
        return [(s, t)]

    def lbl(self, it, s, av, n, ctx):
        s.count += 1
        t = ("lbl", s.count)
        self.nonnull(s, t)
        s.store[("fld", t, "type")] = self.E["Nexpr"]
        s.store[fe(t, "op")] = self.E["Olit"]
        return [(s, t)]

    def recur(self, tag):
        def h(it, s, av, n, ctx):
            x = it.resolve(av[1], s)
            if isinstance(x, tuple) and x[0] in ("lit", tag):
                return [(s, x)]
            t = (tag, x)
            self.nonnull(s, t)
            for f in ("type",):
                v = it.read(fe(x, f), s)
                s.store[fe(t, f)] = v
            s.store[("fld", t, "type")] = self.E["Nexpr"]
            s.events.append((tag, x))
            return [(s, t)]
        return h

    def mktyptr(self, it, s, av, n, ctx):
        t = ("ptrto", av[1])
        s.store[("fld", t, "type")] = self.E["Typtr"]
        s.store[("fld", t, "nsub")] = 1
        s.store[("idx", ("ld", ("fld", t, "sub")), 0)] = av[1]
        return [(s, t)]

    def mktype(self, it, s, av, n, ctx):
        ty = it.resolve(av[1], s)
        t = ("mkty", ty)
        s.store[("fld", t, "type")] = ty
        return [(s, t)]

    FIXED = {("ld", ("glob", "tyintptr")): 8, ("ld", ("glob", "tyword")): 4}

    def tybase(self, it, s, av, n, ctx):
        t = av[0]
        if not isinstance(t, tuple):
            return [(s, t)]
        if t in self.FIXED or t[0] in ("ptrto", "mkty"):
            return [(s, t)]
        if t[0] == "call" and t[1] == "tybase":
            return [(s, t)]
        r = ("call", "tybase", t)
        # a base type is never itself a name for another type
        s.ne[("ld", ("fld", r, "type"))] = frozenset(s.ne.get(("ld", ("fld", r, "type")), frozenset())) | {self.E["Tyname"], self.E["Tygeneric"]}
        return [(s, r)]

    def tysize(self, it, s, av, n, ctx):
        t = av[0]
        if not isinstance(t, tuple):
            return [(s, ("call", "tysize", t))]
        if t in self.FIXED:
            return [(s, self.FIXED[t])]
        if t[0] == "ptrto":
            return [(s, 8)]
        if t[0] == "mkty":
            w = {"Tybool": 1, "Tyint8": 1, "Tyuint8": 1, "Tybyte": 1, "Tyint16": 2, "Tyuint16": 2, "Tyint": 4, "Tyuint": 4, "Tyint32": 4, "Tyuint32": 4,
                 "Tychar": 4, "Tyint64": 8, "Tyuint64": 8, "Tyflt32": 4, "Tyflt64": 8, "Tyvoid": 0}
            for k, v in w.items():
                if self.E.get(k) == t[1]:
                    return [(s, v)]
        return [(s, ("call", "tysize", t))]

    def size(self, it, s, av, n, ctx):
        return self.tysize(it, s, [it.resolve(it.read(fe(av[0], "type"), s), s)], n, ctx)

    def tyeq(self, it, s, av, n, ctx):
        if av[0] == av[1]:
            return [(s, 1)]
        if av[0] in self.FIXED and av[1] in self.FIXED:
            return [(s, 0)]
        return [(s, ("call", "tyeq", av[0], av[1]))]

    def lappend(self, it, s, av, n, ctx):
        loc = av[0][1] if isinstance(av[0], tuple) and av[0][0] == "addr" else av[0]
        s.events.append(("push", loc, av[2]))
        return [(s, 0)]

    def exprtype(self, it, s, av, n, ctx):
        return [(s, it.resolve(it.read(fe(av[0], "type"), s), s))]

    def prims(self):
        return {"mkexpr": self.mkexpr, "mkintlit": self.mkintlit, "genlbl": self.lbl, "mktyptr": self.mktyptr, "mktype": self.mktype, "tybase": self.tybase,
                "tysize": self.tysize, "size": self.size, "tyeq": self.tyeq, "lappend": self.lappend, "exprtype": self.exprtype, "nodetype": self.exprtype}

    def show(self, t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] == "n":
            return "%s(%s)" % (self.opname.get(t[1], t[1]), ", ".join(self.show(x) for x in t[2]))
        if t[0] == "lit":
            return show_(t[1])
        if t[0] in ("rv", "lval"):
            return self.show(t[1])
        if t[0] == "lbl":
            return ".L%d" % t[1]
        return show_(t)


def show_(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "ld":
        return show_(t[1])
    if t[0] == "fld":
        return "%s.%s" % (show_(t[1]), t[2])
    if t[0] == "idx":
        return "%s[%s]" % (show_(t[1]), show_(t[2]))
    if t[0] == "call":
        return "%s(%s)" % (t[1], ", ".join(show_(x) for x in t[2:]))
    if len(t) == 1:
        return str(t[0])
    return "(" + " ".join(show_(x) for x in t) + ")"


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x)
