"""Constant folding computes what the generated code would: transfer functions of parse/fold.c per
operator and operand type, over constant operands, identities and casts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from ccast import AnalysisBroken
from cint import Program, Interp, State
from nodes import Nodes, fe

# the language's integer types: bits, signed
TY = {"Tyint8": (8, 1), "Tyint16": (16, 1), "Tyint32": (32, 1), "Tyint": (32, 1), "Tyint64": (64, 1), "Tybyte": (8, 0), "Tyuint8": (8, 0), "Tyuint16": (16, 0),
      "Tyuint32": (32, 0), "Tyuint": (32, 0), "Tyuint64": (64, 0), "Tychar": (32, 0)}


def wr(v, ty):
    b, sg = TY[ty]
    v &= (1 << b) - 1
    return v - (1 << b) if sg and v >> (b - 1) else v


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ref(op, a, b, ty):
    """what the machine computes at the type's width and sign; None: not a value (must not be folded)"""
    bits, sg = TY[ty]
    a = wr(a, ty)
    mask = 63 if bits == 64 else 31
    if op in ("Obsl", "Obsr"):
        b &= mask
    else:
        b = wr(b, ty)
    if op == "Oadd":
        r = a + b
    elif op == "Osub":
        r = a - b
    elif op == "Omul":
        r = a * b
    elif op == "Odiv":
        if b == 0:
            return None
        r = tdiv(a, b)
    elif op == "Omod":
        if b == 0:
            return None
        r = a - b * tdiv(a, b)
    elif op == "Obsl":
        r = a << b
    elif op == "Obsr":
        r = a >> b
    elif op == "Obor":
        r = a | b
    elif op == "Oband":
        r = a & b
    elif op == "Obxor":
        r = a ^ b
    elif op == "Oneg":
        r = -a
    return wr(r, ty)


class Fold:
    def __init__(self, c):
        self.c = c
        self.P = Program(["parse/fold.c", "parse/type.c"])
        self.N = Nodes(self.P)
        self.E = self.P.enums
        pr = dict(self.N.prims())
        pr["mkint"] = self.mkint
        pr["mktype"] = self.mktype
        pr["tybase"] = lambda it, s, av, n, ctx: [(s, it.resolve(av[0], s))]
        for f in ("fatal", "lfatal", "die"):
            pr[f] = lambda it, s, av, n, ctx: [(s, ("noreturn",))]
        pr["qsort"] = lambda it, s, av, n, ctx: (s.events.append(("qsort",) + tuple(it.resolve(x, s) for x in av)), [(s, 0)])[1]
        pr["sizefn"] = lambda it, s, av, n, ctx: [(s, ("sizeof", it.resolve(av[0], s)))]
        pr["finducon"] = lambda it, s, av, n, ctx: [(s, ("ucon", it.resolve(av[0], s), it.resolve(av[1], s)))]
        pr["namestr"] = lambda it, s, av, n, ctx: [(s, s.store.get(("namestr", it.resolve(av[0], s)), ("call", "namestr", it.resolve(av[0], s))))]
        pr["strcmp"] = self.strcmp
        pr["streq"] = lambda it, s, av, n, ctx: [(s, int(self.strcmp(it, s, av, n, ctx)[0][1] == 0))]
        # operands are taken as already folded: the induction hypothesis
        pr["fold"] = lambda it, s, av, n, ctx: [(s, it.resolve(av[0], s))]
        pr["exprop"] = lambda it, s, av, n, ctx: [(s, it.resolve(it.read(fe(it.resolve(av[0], s), "op"), s), s))]
        self.prims = pr
        self.t, self.fn = self.P.func("fold", "parse/fold.c")
        self.uid = 0

    def strcmp(self, it, s, av, n, ctx):
        a, b = (it.resolve(x, s) for x in av)
        if not (isinstance(a, tuple) and a[0] == "str" and isinstance(b, tuple) and b[0] == "str"):
            raise AnalysisBroken("fold: strings compared that are not known")
        return [(s, 0 if a[1].strip('"') == b[1].strip('"') else 1)]

    def mkint(self, it, s, av, n, ctx):
        v = it.resolve(av[1], s)
        self.uid += 1
        t = ("int", self.uid)
        l = ("fld", t, "lit")
        s.store[("fld", l, "littype")] = self.E["Lint"]
        s.store[("fld", l, "intval")] = v
        s.ne[t] = frozenset([0])
        return [(s, t)]

    def mktype(self, it, s, av, n, ctx):
        return [(s, self.ty(s, it.resolve(av[1], s)))]

    def ty(self, s, t):
        v = self.E[t] if isinstance(t, str) else t
        x = ("ty", v)
        s.store[("fld", x, "type")] = v
        s.ne[x] = frozenset([0])
        return x

    def lit(self, s, name, val, ty, lt="Lint"):
        """a literal node"""
        l = ("lit", name)
        s.store[("fld", ("fld", l, "lit"), "littype")] = self.E[lt]
        s.store[("fld", ("fld", l, "lit"), "intval" if lt == "Lint" else "chrval")] = val
        return self.node(s, name, "Olit", [l], ty)

    def node(self, s, name, op, args, ty):
        n = ("N", name)
        s.ne[n] = frozenset([0])
        s.store[("fld", n, "type")] = self.E["Nexpr"]
        s.store[fe(n, "op")] = self.E[op]
        s.store[fe(n, "nargs")] = len(args)
        s.store[fe(n, "args")] = ("args", name)
        s.store[fe(n, "idx")] = 0
        s.store[fe(n, "type")] = self.ty(s, ty) if isinstance(ty, (str, int)) else ty
        for i, a in enumerate(args):
            s.store[("idx", ("args", name), i)] = a
        return n

    def leaf(self, s, name, op, ty):
        """an operand fold() itself leaves alone"""
        return self.node(s, name, op, [], ty)

    def run(self, s, n, foldvar=0, fn=None, argv=None):
        it = Interp(self.P, self.prims, maxdepth=12)
        if ("glob", "sizefn") not in s.store:
            s.store[("glob", "sizefn")] = ("fn", "sizefn")
        t, f = self.P.func(fn) if fn else (self.t, self.fn)
        out = [(s2, v) for s2, v in it.invoke(t, f, argv or [n, foldvar], s) if v != ("noreturn",) and not any(e[0] == "noreturn" for e in s2.events)]
        self.it = it
        return out

    def value(self, s, v):
        """(value, type of expression, type of literal) of a folded constant, else None"""
        if isinstance(v, tuple) and v[0] == "n" and v[1] == self.E["Olit"]:
            l = v[2][0]
            q = ("fld", l, "lit")
            return s.store.get(("fld", q, "intval")), s.store.get(fe(v, "type")), s.store.get(("fld", q, "type"))
        return None


def corners(ty):
    b, sg = TY[ty]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
    return sorted({lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, 7, hi // 3, (lo + hi) // 2 + 5} | ({-1, -2, -7} if sg else {1 << (b - 1)}))


BIN = ["Oadd", "Osub", "Omul", "Odiv", "Omod", "Obsl", "Obsr", "Obor", "Oband", "Obxor"]


def constants(c, F):
    for ty in TY:
        full = F.c.tier == "thorough"
        cs = corners(ty)
        for op in BIN:
            bs = cs if op not in ("Obsl", "Obsr") else sorted({0, 1, 5, TY[ty][0] - 1, TY[ty][0], 31, 32, 33, 63, 64})
            bad = None
            n = 0
            folded = 0
            for i, a in enumerate(cs):
                for j, b in enumerate(bs):
                    if not full and (i + j) % 2 and a not in (cs[0], cs[-1]):
                        continue
                    for raw in ((0,) if TY[ty][0] == 64 or (i + j) % 5 else (0, 1 << TY[ty][0])):
                        # a literal's stored bits above its type's width mean nothing
                        s = State()
                        x = F.lit(s, "a", s64(a + raw), ty)
                        y = F.lit(s, "b", b, ty)
                        e = F.node(s, "e", op, [x, y], ty)
                        want = ref(op, a, b, ty)
                        for s2, v in F.run(s, e):
                            n += 1
                            if v == e:
                                continue
                            r = F.value(s2, v)
                            if v == x or v == y:
                                r = (s64(a + raw) if v == x else b, s2.store.get(fe(v, "type")), None)
                                if isinstance(want, int) and isinstance(r[0], int) and wr(r[0], ty) == wr(want, ty):
                                    folded += 1
                                    continue
                            if want is None or r is None or not isinstance(r[0], int) or s64(r[0]) != s64(want):
                                bad = bad or "%s of %d and %d in %s folds to %s, the machine computes %s" % (op, a, b, ty, r and r[0], want)
                            elif r[1] != ("ty", F.E[ty]) or r[2] != ("ty", F.E[ty]):
                                bad = bad or "%s in %s folds to a literal of another type" % (op, ty)
                            folded += 1
            c.decide(bad is None, "constant", "%s/%s" % (op, ty), bad, "%s in %s on %d operand pairs, %d folded" % (op, ty, n, folded))
            c.decide(bad is not None or folded > 0, "constant-folds", "%s/%s" % (op, ty), "%s in %s is never folded" % (op, ty))
        bad = None
        for a in cs:
            s = State()
            x = F.lit(s, "a", a, ty)
            e = F.node(s, "e", "Oneg", [x], ty)
            for s2, v in F.run(s, e):
                if v == e:
                    continue
                r = F.value(s2, v)
                want = ref("Oneg", a, 0, ty)
                if r is None or not isinstance(r[0], int) or s64(r[0]) != s64(want) or r[1] != ("ty", F.E[ty]):
                    bad = bad or "-(%d) in %s folds to %s, not %s" % (a, ty, r, want)
        c.decide(bad is None, "constant", "Oneg/" + ty, bad, "Oneg in %s" % ty)


def identities(c, F):
    """one constant operand, the other any expression, with or without effects"""
    for op in BIN:
        for ty in ("Tyint32", "Tyuint8", "Tyuint64", "Tyint64"):
            for kind in ("Ovar", "Ocall", "Oasn", "Opostinc"):
                for side in (0, 1):
                    for k in (0, 1, -1, 2):
                        if k < 0 and not TY[ty][1]:
                            k = (1 << TY[ty][0]) - 1
                        s = State()
                        x = F.leaf(s, "x", kind, ty)
                        l = F.lit(s, "k", s64(k), ty)
                        e = F.node(s, "e", op, [x, l] if side else [l, x], ty)
                        for s2, v in F.run(s, e):
                            what = "%s of %s and %s" % ((op,) + (("x", k) if side else (k, "x")))
                            key = "%s/%s/%s/%d/%d" % (op, ty, kind, side, k)
                            if v == e:
                                c.ok("identity", what + " is kept")
                                continue
                            if v == x:
                                good = (op in ("Oadd", "Obor", "Obxor") and k == 0) or (op in ("Osub", "Obsl", "Obsr") and k == 0 and side) or (op == "Omul" and k == 1) or (op == "Odiv" and k == 1 and side)
                                c.decide(good, "identity", key, "%s is folded to x" % what, what + " = x")
                                continue
                            r = F.value(s2, v)
                            if v == l:
                                r = (k, None, None)
                            if r is None or not isinstance(r[0], int):
                                c.bad("identity", key, "%s is folded to %r" % (what, v))
                                continue
                            const = 0 if (op in ("Omul", "Oband") and k == 0) or (op == "Omod" and k == 1 and side) or (op in ("Obsl", "Obsr") and k == 0 and not side) else None
                            c.decide(const is not None and wr(r[0], ty) == const, "identity", key, "%s is folded to the constant %s" % (what, r[0]), what + " = 0")
                            c.decide(kind == "Ovar", "effects", key, "%s is folded to a constant although x (%s) has effects" % (what, kind), "effects of %s kept" % kind)


def casts(c, F):
    names = list(TY)
    for a in names:
        for b in names:
            bad = None
            raws = [(v, v) for v in corners(a)]
            if TY[a][0] < 64:
                raws += [(v, s64(v + k * (1 << TY[a][0]))) for v in corners(a) for k in (1, -1)]
            for v, raw in raws:
                s = State()
                x = F.lit(s, "a", raw, a)
                e = F.node(s, "e", "Ocast", [x], b)
                for s2, r in F.run(s, e):
                    q = F.value(s2, r)
                    if r == e:
                        continue
                    if r == x:
                        if not (wr(raw, b) == wr(v, b) and s2.store.get(fe(x, "type")) == ("ty", F.E[b])):
                            bad = bad or "the cast of %s %d to %s keeps the literal" % (a, v, b)
                        continue
                    if q is None or not isinstance(q[0], int) or s64(q[0]) != s64(wr(v, b)) or q[1] != ("ty", F.E[b]):
                        bad = bad or "(%s %d : %s) folds to %s, the machine computes %s" % (a, v, b, q and q[0], wr(v, b))
            c.decide(bad is None, "cast", "%s-%s" % (a, b), bad, "%s to %s" % (a, b))
            s = State()
            x = F.leaf(s, "x", "Ovar", a)
            e = F.node(s, "e", "Ocast", [x], b)
            for s2, r in F.run(s, e):
                good = r == e or (r == x and TY[a][0] == TY[b][0] and (TY[a][1] == TY[b][1]))
                c.decide(good, "cast-var", "%s-%s" % (a, b), "the cast of a %s variable to %s is dropped" % (a, b), "%s variable to %s" % (a, b))
    for b in names:
        for fl in ("Tyflt32", "Tyflt64"):
            for x_, y_ in ((fl, b), (b, fl)):
                s = State()
                x = F.lit(s, "a", 3, x_) if x_ in TY else F.leaf(s, "x", "Ovar", x_)
                e = F.node(s, "e", "Ocast", [x], y_)
                for s2, r in F.run(s, e):
                    c.decide(r == e, "cast-float", "%s-%s" % (x_, y_), "a conversion from %s to %s is folded away" % (x_, y_), "%s to %s kept" % (x_, y_))


def others(c, F):
    E = F.E
    # a name stands for its initialiser only when it is constant and initialised
    for isconst in (0, 1):
        for init in (0, 1):
            for ty in ("Tyint32", "Tyuint64", "Tystruct", "Tyslice", "Tyflt64", "Tyarray", "Tyfunc"):
                for fv in (0, 1):
                    s = State()
                    n = F.node(s, "e", "Ovar", [], ty)
                    i = F.lit(s, "i", 5, ty)
                    s.store[fe(n, "did")] = 7
                    d = ("D",)
                    s.ne[d] = frozenset([0])
                    s.store[("idx", ("ld", ("glob", "decls")), 7)] = d
                    s.store[("fld", ("fld", d, "decl"), "isconst")] = isconst
                    s.store[("fld", ("fld", d, "decl"), "init")] = i if init else 0
                    s.store[("fld", ("fld", d, "decl"), "type")] = s.store[fe(n, "type")]
                    for s2, v in F.run(s, n, fv):
                        scalar = ty in TY or ty == "Tyflt64"
                        if v == n:
                            c.ok("variable", "kept")
                        else:
                            c.decide(v == i and isconst and init and scalar, "variable", "%d%d%s" % (isconst, init, ty),
                                     "a %s%s %s is replaced by %r" % ("const" if isconst else "var", " with initialiser" if init else "", ty, v), "const %s folds to its initialiser" % ty)
    # .len of an array is its size
    for name, ty in (("len", "Tyarray"), ("len", "Tystruct"), ("x", "Tyarray"), ("len", "Tyslice"), ("tag", "Tystruct"), ("tag", "Tyunion")):
        s = State()
        x = F.leaf(s, "x", "Ovar", ty)
        at = s.store[fe(x, "type")]
        sz = F.lit(s, "sz", 41, "Tyuint64")
        s.store[("fld", at, "asize")] = sz
        s.store[("namestr", ("nm",))] = ("str", '"%s"' % name)
        m = F.node(s, "e", "Omemb", [x, ("nm",)], "Tyuint64")
        s.store[("fld", ("nm",), "type")] = E["Nname"]
        for s2, v in F.run(s, m):
            r = F.value(s2, v)
            if (name, ty) == ("len", "Tyarray"):
                c.decide(r is not None and r[0] == 41 and r[1] == ("ty", E["Tyuint64"]), "length", "array", "the length of an array folds to %r" % (r,), "array length")
                c.decide(v != sz, "length", "own-node", "the folded length of an array is the node its type shares")
            elif (name, ty) == ("tag", "Tyunion"):
                c.decide(v == m or (v[0] == "n" and v[1] == E["Outag"] and v[2] == (x,)), "length", "tag", "the tag of a union folds to %r" % (v,), "union tag")
            else:
                c.decide(v == m, "length", "%s.%s" % (ty, name), "the member %s of a %s folds to %r" % (name, ty, v), "%s.%s kept" % (ty, name))
    # sizeof
    s = State()
    d = F.leaf(s, "d", "Ovar", "Tystruct")
    e = F.node(s, "e", "Osize", [d], "Tyuint64")
    for s2, v in F.run(s, e):
        r = F.value(s2, v)
        c.decide(r is not None and "('sizeof', ('N', 'd'))" in repr(r[0]), "sizeof", "value", "sizeof folds to %r" % (r,), "sizeof is sizefn of its operand")
    # union payload and tag of a known constructor
    for nargs in (1, 2):
        s = State()
        a = F.leaf(s, "p", "Ovar", "Tyint32")
        u = F.node(s, "u", "Oucon", [("nm",), a][:nargs], "Tyunion")
        s.store[("fld", ("nm",), "type")] = E["Nname"]
        e = F.node(s, "e", "Oudata", [u], "Tyint32")
        for s2, v in F.run(s, e):
            c.decide(v == e or (nargs == 2 and v == a), "union", "data%d" % nargs, "the payload of a constructor folds to %r" % (v,), "payload of `Tag x = x")
        s = State()
        u = F.node(s, "u", "Oucon", [("nm",)], "Tyunion")
        s.store[("fld", ("nm",), "type")] = E["Nname"]
        e = F.node(s, "e", "Outag", [u], "Tyint32")
        for s2, v in F.run(s, e):
            r = F.value(s2, v)
            x = ("ucon", s2.store[fe(u, "type")], ("nm",))
            c.decide(v == e or (r is not None and r[0] is not None and x in list(sub(r[0])) and "'id'" in repr(r[0])), "union", "tag", "the tag of a constructor folds to %r" % (r,), "tag of `Tag")
    # an array literal is ordered by index, compared as numbers
    it = Interp(F.P, F.prims)
    for a, b in ((0, 1), (1, 0), (3, 3), (0, 1 << 40), (1 << 40, 0), (1 << 32, 1), (-1, 5), ((1 << 62), -(1 << 62))):
        s = State()
        for nm, v in (("p", a), ("q", b)):
            n = F.leaf(s, nm, "Ovar", "Tyint32")
            i = F.lit(s, nm + "i", v, "Tyuint64")
            s.store[fe(n, "idx")] = i
            s.store[("deref", ("ptr", nm))] = n
        r = [v for _, v in F.run(s, None, fn="idxcmp", argv=[("ptr", "p"), ("ptr", "q")])]
        good = len(r) == 1 and isinstance(r[0], int) and (r[0] > 0) - (r[0] < 0) == (a > b) - (a < b)
        c.decide(good, "array-order", "%d,%d" % (a, b), "array elements at %d and %d compare as %s" % (a, b, r), "%d vs %d" % (a, b))


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from sub(x)


def main(c):
    F = Fold(c)
    for f in ("fold", "foldcast", "wrap", "val", "getintlits", "getintlit", "isintval", "issmallconst", "idxcmp"):
        if f in F.t.funcs:
            c.unit("parse/fold.c:" + f)
    constants(c, F)
    identities(c, F)
    casts(c, F)
    others(c, F)
    c.need("constant", 120)
    c.need("cast", 140)
    c.need("identity", 300)


if __name__ == "__main__":
    report.run("C06", "the transfer function of fold() for every operator and integer type, evaluated over each type's corner values, equals two's complement arithmetic at the type's width and "
               "sign; identities keep the operand and its effects; casts wrap to the target; lengths, sizes, tags and constants fold to their own value", main,
               ["a literal's meaning is its low bits at its type's width"])
