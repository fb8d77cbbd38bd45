"""C12: a match runs the first arm that matches.

Abstract interpretation of mi/match.c over match statements and loop patterns of many shapes.  The list
of tests, jumps and bindings it emits for each is followed for every value of the type, as far as the
patterns can tell values apart, and compared with the first arm whose pattern matches."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from matchc import *  # noqa
from ccast import AnalysisBroken, Endless

I, B, I8 = "Tyint", "Tybool", "Tyint8"
CHEAP = bool(os.environ.get("VSA_FIRST"))
W = ("_",)


def lit(n):
    return ("lit", n)


def x(n):
    return ("x", n)


E3 = ("union", (None, None, None))
E2 = ("union", (None, None))
OPT = ("union", (None, I))
UU = ("union", (I, ("tuple", (I, B)), None))
NEST = ("union", (OPT, I))
TYPES = [
    B, I, ("tuple", (B, B)), ("tuple", (I, I)), ("tuple", (B, I, B)), ("tuple", (("tuple", (I, I)), I)), ("struct", (I, B)),
    ("struct", (("struct", (I, I)), I)), ("struct", (("struct", (I, B)), ("tuple", (B, I)))), E2, E3, OPT, UU, ("name", OPT), NEST, ("tuple", (OPT, OPT)), ("tuple", (E3, E3)),
    ("tuple", (I, E2)), ("ptr", I), ("ptr", OPT), ("tuple", (("ptr", I), I)), ("array", I, 2), ("array", OPT, 2), ("array", ("array", B, 2), 2), STR, ("tuple", (STR, I)),
    ("union", (STR, None)), ("union", (("struct", (I, B)), I)), ("union", (("ptr", I), None)), ("tuple", (("name", E2), ("name", I))),
    ("struct", (E2, B, I)), ("ptr", ("tuple", (B, B))), ("array", STR, 2), ("union", (("array", I, 2), ("name", ("tuple", (I, I))))), ("tuple", (E2, E2, E2)),
]
STRS = [b"", b"a", b"b", b"ab", b"ac", b"abc", b"\xc3"]


class Gen:
    def __init__(self, rnd):
        self.r = rnd

    def arm(self, ty, ors=True, k=0):
        self.n = 0
        self.k = k
        self.ors = 2 if ors else 0
        self.consts = not hasptr(ty)
        self.decl = {}
        return self.pat(ty, 0)

    def var(self, ty):
        # alternatives bind the same names to the same types
        self.n += 1
        return ("x", "v%d_%d_%s" % (self.k, self.n, tn(ty)))

    def pat(self, ty, d, orok=True, const=False):
        r, b = self.r, base(ty)
        q = r.random()
        if not const:
            if q < (.1 if d == 0 else .22):
                return W
            if q < (.17 if d == 0 else .36):
                return self.var(ty)
            if self.ors and orok and q < .54:
                self.ors -= 1
                n0 = self.n
                a = self.pat(ty, d, True)
                va = M.pvars(a, [])
                n1 = self.n
                for _ in range(40):
                    self.n = n0
                    o = self.ors
                    c = self.pat(ty, d, False)
                    self.ors = o
                    if M.pvars(c, []) == va and c != a:
                        self.n = n1
                        return ("or", a, c)
                self.n = n1
                return a
        if not const and self.consts and q > .93 and b not in (B, "Tyvoid"):
            return ("const", "k%d" % r.randrange(10 ** 9), self.pat(ty, d + 1, False, True))
        if b == B:
            return lit(r.randrange(2))
        if b == "Tyvoid":
            return lit(0)
        if isinstance(b, str):
            return lit(r.choice([1, 2, 3]))
        if b == STR:
            return ("sl", r.choice(STRS))
        if b[0] == "tuple":
            return ("tup", tuple(self.pat(t, d + 1, True, const) for t in b[1]))
        if b[0] == "array":
            return ("arr", tuple(self.pat(b[1], d + 1, True, const) for _ in range(b[2])))
        if b[0] == "struct":
            ix = list(range(len(b[1])))
            if const:
                return ("str", tuple((i, self.pat(b[1][i], d + 1, True, True)) for i in ix))
            r.shuffle(ix)
            ix = ix[:r.randint(1, len(ix))]
            return ("str", tuple((i, self.pat(b[1][i], d + 1)) for i in ix))
        if b[0] == "union":
            i = r.randrange(len(b[1]))
            return ("ucon", i, self.pat(b[1][i], d + 1, True, const) if b[1][i] else None)
        if b[0] == "ptr":
            return ("addr", self.pat(b[1], d + 1, True, const))
        raise AnalysisBroken("patterns of a type")


def hasptr(ty):
    b = base(ty)
    if isinstance(b, str):
        return False
    if b[0] == "ptr":
        return True
    if b[0] in ("tuple", "struct", "union"):
        return any(hasptr(t) for t in b[1] if t)
    return b != STR and hasptr(b[1])


def sift(ty, arms, rnd):
    """mostly lists that are accepted: without arms that are covered, and with every value taken care of"""
    if rnd.random() < .1:
        return arms
    while True:
        l = {}
        for p in arms:
            M.lits(p, l)
        vals = M.values(ty, l)
        if len(vals) > 400:
            vals = rnd.sample(vals, 400)
        for i in range(len(arms)):
            if M.redundant(arms[:i + 1], vals):
                break
        else:
            break
        arms = arms[:i] + arms[i + 1:]
    if rnd.random() < .9 and any(all(M.matches(p, v) is None for p in arms) for v in vals):
        arms = arms + [rnd.choice((W, x("rest")))]
    return arms


M = None


def cases():
    """(group, type, arms)"""
    out = []
    # scalars: a wildcard is needed unless every value is listed
    for t in ("Tyint8", "Tyint16", "Tyint32", "Tyint", "Tyint64", "Tyuint8", "Tybyte", "Tyuint16", "Tyuint32", "Tyuint", "Tyuint64", "Tychar"):
        out.append(("scalars", t, [lit(1)]))
        out.append(("scalars", t, [lit(1), lit(2)]))
        out.append(("scalars", t, [lit(1), ("or", lit(2), lit(3)), x("a")]))
        out.append(("scalars", t, [lit(2), lit(1), W]))
    out.append(("scalars", B, [lit(1), lit(0)]))
    out.append(("scalars", B, [lit(0)]))
    out.append(("scalars", B, [lit(0), lit(1), W]))
    out.append(("scalars", "Tyvoid", [lit(0)]))
    out.append(("scalars", "Tyvoid", [W]))
    # named shapes
    T2 = ("tuple", (I, I))
    out += [("shapes", T2, a) for a in (
        [("or", ("tup", (lit(1), x("a"))), ("tup", (x("a"), W)))],
        [("or", ("tup", (x("a"), lit(1))), ("tup", (W, x("a"))))],
        [("tup", (("or", lit(1), lit(2)), lit(3))), W],
        [("tup", (("or", lit(1), lit(2)), ("or", lit(3), lit(4)))), W],
        [("tup", (("or", lit(1), lit(2)), x("a"))), ("tup", (x("b"), W))],
        [("tup", (lit(1), W)), ("tup", (W, lit(2))), ("tup", (lit(3), lit(3))), W],
        [("tup", (W, lit(2))), ("tup", (lit(1), W)), ("tup", (lit(3), lit(3))), x("w")],
    )]
    TE = ("tuple", (I, E2))
    out.append(("shapes", TE, [("tup", (lit(5), ("ucon", 0, None))), ("tup", (W, ("ucon", 0, None))), ("tup", (W, ("ucon", 1, None))), ("tup", (lit(6), W))]))
    out.append(("shapes", TE, [("tup", (lit(5), ("ucon", 0, None))), ("tup", (W, ("ucon", 0, None))), ("tup", (lit(6), W)), ("tup", (W, ("ucon", 1, None)))]))
    NT = ("struct", (("struct", (I, I)), I))

    def nt(a, b, c_):
        return ("str", ((0, ("str", ((0, lit(a)), (1, lit(b))))), (1, lit(c_))))
    out.append(("shapes", NT, [nt(1, 3, 5), ("const", "kn", nt(1, 2, 3)), W]))
    out.append(("shapes", NT, [("const", "kn", nt(1, 2, 3)), nt(1, 3, 5), W]))
    # unions: every constructor, and every constructor but one
    for ty in (E2, E3, OPT, UU, ("name", OPT), ("union", (None,) * 5)):
        arms = [("ucon", i, W if t else None) for i, t in enumerate(base(ty)[1])]
        out.append(("shapes", ty, arms))
        for i in range(len(arms)):
            out.append(("shapes", ty, arms[:i] + arms[i + 1:]))
            out.append(("shapes", ty, arms[:i] + arms[i + 1:] + [x("a")]))
            out.append(("shapes", ty, arms[i:] + arms[:i]))
            out.append(("shapes", ("tuple", (ty, ty)), [("tup", (a, W)) for a in arms[:i]] + [("tup", (W, a)) for a in arms]))
    # the same test wanted of two parts of one value: what may be shared is told apart by the part
    def parts(S, mk):
        ty = ("tuple", (I, S, I))
        out.append(("shapes", ty, [("tup", (lit(1), mk(W, lit(3)), lit(1))), ("tup", (W, mk(lit(3), lit(3)), W)), W]))
        out.append(("shapes", ty, [("tup", (lit(1), mk(lit(3), W), lit(1))), ("tup", (W, mk(lit(3), lit(3)), W)), ("tup", (W, mk(W, lit(3)), lit(2))), W]))
    parts(("struct", (I, I)), lambda a, b: ("str", ((0, a), (1, b))))
    parts(("struct", (I, I)), lambda a, b: ("str", ((1, b), (0, a))))
    parts(T2, lambda a, b: ("tup", (a, b)))
    parts(("array", I, 2), lambda a, b: ("arr", (a, b)))
    parts(("struct", (T2, T2)), lambda a, b: ("str", ((0, ("tup", (a, W))), (1, ("tup", (b, W))))))
    parts(("tuple", (T2, T2)), lambda a, b: ("tup", (("tup", (W, a)), ("tup", (W, b)))))
    parts(("array", T2, 2), lambda a, b: ("arr", (("tup", (W, a)), ("tup", (W, b)))))
    PP = ("tuple", (("ptr", I), ("ptr", I)))
    parts(PP, lambda a, b: ("tup", tuple(("addr", z) if z != W else W for z in (a, b))))
    UI = ("union", (I, None))
    parts(("tuple", (UI, UI)), lambda a, b: ("tup", tuple(("ucon", 0, z) for z in (a, b))))
    # numbers that agree in their low bits, long strings, many parts, many constructors
    for t, ns in (("Tyuint64", (1, 1 + (1 << 32), 1 + (1 << 63), (1 << 64) - 1, (1 << 32) - 1)), ("Tychar", (0x41, 0x10041, 0x141, 0x10ffff)), ("Tyuint16", (1, 0x101, 0xffff)),
                  ("Tybyte", (0, 127, 128, 255)), ("Tyflt64", (1.5, 1.25, 1.0, 2.0, 1.5 + 2.0 ** -40))):
        out.append(("shapes", t, [lit(k) for k in ns] + [W]))
        out.append(("shapes", ("tuple", (B, t)), [("tup", (lit(i % 2), lit(k))) for i, k in enumerate(ns)] + [W]))
    for L in (9, 21):
        z = bytes(97 + i % 26 for i in range(L))
        ks = sorted({0, L // 2, L - 2, L - 1})
        out.append(("shapes", STR, [("sl", z)] + [("sl", z[:i] + b"Z" + z[i + 1:]) for i in ks] + [W]))
    out.append(("shapes", STR, [("sl", b"a" * k) for k in (1, 15, 16, 17)] + [W]))
    for N_ in (9, 17):
        for S, mk in ((("array", B, N_), lambda q: ("arr", tuple(q))), (("tuple", (B,) * N_), lambda q: ("tup", tuple(q))), (("struct", (B,) * N_), lambda q: ("str", tuple(enumerate(q))))):
            out.append(("shapes", S, [mk([lit(1) if j in (i, (i * 7 + 3) % N_) else W for j in range(N_)]) for i in range(0, N_, 3)] + [W]))
            out.append(("shapes", S, [mk([x("a%d" % i) if j == i else lit(0) if j == N_ - 1 - i else W for j in range(N_)]) for i in (1, N_ - 2)] + [W]))
    big = ("union", (None,) * 20)
    out.append(("shapes", big, [("ucon", i, None) for i in range(20)]))
    out.append(("shapes", big, [("ucon", i, None) for i in range(19, -1, -1) if i != 16]))
    # pseudo-random lists of arms
    rnd = random.Random(7)
    g = Gen(rnd)
    n = int(os.environ.get("VSA_N", 0)) or (40 if CHEAP else 400 if os.environ.get("VERIF_TIER") == "thorough" else 110)
    for ty in TYPES:
        seen = set()
        for k in range(n):
            narm = rnd.choice((1, 2, 2, 3, 3, 3, 4, 4, 5))
            arms = [g.arm(ty, rnd.random() < .5, i) for i in range(narm)]
            if rnd.random() < .72:
                arms.append(rnd.choice((W, x("rest"))))
            arms = sift(ty, arms, rnd)
            if not arms or repr(arms) in seen:
                continue
            seen.add(repr(arms))
            out.append(("lists", ty, arms))
    for ty in TYPES:
        seen = set()
        for k in range(n // 4):
            a = g.arm(ty, rnd.random() < .7, 0)
            if repr(a) in seen:
                continue
            seen.add(repr(a))
            out.append(("loops", ty, a))
    return out


def text(ty, arms):
    if isinstance(arms, list):
        return "match %s: %s" % (tn(ty), " | ".join(map(pshow, arms)))
    return "for %s: %s" % (pshow(arms), tn(ty))


def one(job):
    grp, ty, arms = job
    try:
        if grp == "loops":
            M.single(ty, arms)
            return (grp, text(ty, arms), None)
        r = M.match(ty, arms)
        return (grp if r == "accepted" else "rejections", text(ty, arms), None)
    except (Bad, Fatal) as e:
        return (grp, text(ty, arms), str(e))
    except Endless as e:
        return (grp, text(ty, arms), "the compiler does not finish: %s" % e)
    except NullDeref as e:
        return (grp, text(ty, arms), "the compiler crashes: %s" % e)


def work(k):
    out = []
    for j in JOBS[k::NW]:
        try:
            out.append(one(j))
        except AnalysisBroken as e:
            out.append((j[0], text(*j[1:]), ("broken", str(e))))
        if CHEAP and out[-1][2]:
            break
    return out


def run(c):
    global M, JOBS, NW
    M = MatchC()
    JOBS = cases()
    NW = 8
    import multiprocessing as mp
    with mp.get_context("fork").Pool(NW) as p:
        res = [r for l in p.map(work, range(NW), chunksize=1) for r in l]
    broken = None
    for grp, t, e in res:
        if isinstance(e, tuple):
            broken = broken or "%s: %s" % (t, e[1])
        elif e is None:
            c.ok(grp, t)
        else:
            c.bad(grp, t, "%s: %s" % (t, e))
    for f in ("addrec", "compile", "project", "dtreusable", "verifymatch", "gendtree", "genmatchcode", "genmatch", "genonematch", "addcapture", "nconstructors"):
        c.unit("mi/match.c:" + f)
    # the number of values of a type, by which a match without a wildcard is complete
    for t, lo, hi in (("Tybool", 2, 2), ("Tyvoid", 1, 1), ("Tychar", 0x10f800, 1 << 32)) + tuple((t, 1 << bits(t), 1 << bits(t)) for t in INT if bits(t) < 64 and t not in ("Tybool", "Tychar")) + \
            tuple((t, 1 << 63, 1 << 64) for t in ("Tyint64", "Tyuint64", "Tyflt32", "Tyflt64")):
        M.start(I)
        M.it.nstates = 0
        r = M.it.run("nconstructors", [M.typ(t)], rel="mi/match.c", st=M.s)
        v = r[0][1]
        v = v & ((1 << 64) - 1) if isinstance(v, int) else v
        c.decide(len(r) == 1 and isinstance(v, int) and lo <= v <= hi, "value counts", t, "%s is taken to have %s values" % (t, v))
    for t, n in [(("union", (None,) * k), k) for k in (1, 2, 3, 7)] + [(OPT, 2), (UU, 3), (("ptr", I), 1), (("tuple", (I, B)), 1), (("struct", (I, B)), 1), (("array", I, 3), 1)]:
        M.start(I)
        M.it.nstates = 0
        r = M.it.run("nconstructors", [M.typ(t)], rel="mi/match.c", st=M.s)
        c.decide(len(r) == 1 and r[0][1] == n, "value counts", tn(t), "%s is taken to have %s cases" % (tn(t), r[0][1]))
    if broken and not c.viol:
        raise AnalysisBroken(broken)
    if not CHEAP:
        c.need("lists", 1500)
        c.need("loops", 400)
        c.need("rejections", 200)


if __name__ == "__main__":
    report.run("C12", "the tests, jumps and bindings emitted for a match lead every value to the first arm whose pattern matches it, with the pattern's variables bound to the "
               "parts they stand for and no part read that the value lacks; a match is rejected only where values are left out or an arm is covered by earlier ones", run,
               ["a literal pattern equals a value when the two are the same number (C08 decides what the comparison compiles to)",
                "values of integers the patterns do not name behave alike"])
