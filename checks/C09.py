"""C09: arguments, results and captured variables cross every call unchanged.

Abstract interpretation of flattening, lowering, selection, prologue and epilogue for both sides of a
call over types and opaque values; the two instruction lists are read as terms through one machine
state, and what the callee sees and gives back is compared with what the caller meant."""
import gc, os, re, sys, itertools, multiprocessing, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from calls import *  # noqa
from ccast import AnalysisBroken


I8, I16, I32, I64, U8, U16, U32, U64 = "Tyint8", "Tyint16", "Tyint32", "Tyint64", "Tyuint8", "Tyuint16", "Tyuint32", "Tyuint64"
F, D = "Tyflt32", "Tyflt64"
PTR = ("ptr", I8)
ENUM = ("union", (None, None, None))
VOID = "Tyvoid"


def S(*a):
    return ("struct", a)


def T(*a):
    return ("tuple", a)


def A(t, n):
    return ("array", t, n)


SCALARS = [I8, I16, I32, I64, U8, U16, U32, U64, "Tyint", "Tyuint", "Tybyte", "Tychar", "Tybool", F, D, PTR, ENUM, ("name", I16), ("name", D), ("name", ENUM)]
SMALL = [S(I64), S(I32), S(I8), S(I16, I8), S(I8, I8, I8), S(D), S(F), S(F, F), S(F, I32), S(I32, F), S(I8, F), S(I64, I64), S(I64, I8), S(I64, I16, I8), S(I64, I32), S(I32, I32, I32),
         S(D, D), S(D, F), S(F, F, F), S(F, F, F, F), S(D, I64), S(D, I8), S(D, I32), S(I64, D), S(I64, F), S(I8, D), S(I32, F, D), S(F, F, I64), S(F, F, I32), S(I32, I32, F, F), S(I32, I32, F),
         T(I64, I8), T(I8, I64), T(I8, I16, I32), T(D, I8), A(I8, 1), A(I8, 3), A(I8, 8), A(I8, 9), A(I8, 16), A(I16, 5), A(I32, 3), A(I64, 2), A(F, 3), A(F, 2), A(D, 2), A(D, 1), S(S(I8, I16), I64), S(S(F), S(D)), S(PTR, U8), S("Tybool"), S("Tychar", "Tybyte"),
         S(ENUM), S(ENUM, I64), S(D, ENUM), ("name", S(I64, D)), S(("name", D), ("name", I32)), ("name", T(F, F, I64)), S(A(I8, 5), F), S(A(F, 2), I16), A(S(I8, I8), 4), A(T(I32, F), 2), S(S(S(I64, I8))), A(A(I16, 2), 3)]
BIG = [S(I64, I64, I8), S(I64, I64, I64), S(D, D, D), S(I8, I64, I8), A(I8, 17), A(I64, 3), A(I32, 7), T(I64, D, I8, I16), ("slice", I8), ("slice", I64), S(("slice", I8)), S(("slice", I8), I64), ("union", (I64, None)), ("union", (I8,)), ("union", (None, D, I32)), ("func", I64, (I8,)),
       S(("union", (I64, None)), I8), S(A(I8, 3), A(I64, 4), I8), ("name", S(I64, I64, I64)), ("name", ("slice", I8)), A(("slice", I8), 2), A(S(I64, D), 3), T(("func", VOID, ()), I8)]
AGGRS = SMALL + BIG
WORK = None


def V(n, t, k="stk"):
    return ("v", n, t, k)


class Conv(Pair):
    def __init__(self):
        super().__init__()
        self.jobs = []

    def add(self, group, fnkind, ret, params, va, z, result):
        self.jobs.append((group, "call", fnkind, ret, tuple(params), tuple(va) if va is not None else None, z, result))

    def capture(self, group, caps, params, ret, result, order):
        self.jobs.append((group, "closure", tuple(caps), tuple(params), ret, result, tuple(order)))

    def text(self, job):
        if job[1] == "closure":
            _, _, caps, params, ret, result, order = job
            return "closure over %s, (%s) -> %s" % (", ".join("%s@%s" % (tyshow(t), k) for t, k in caps), ", ".join(tyshow(t) for t, a in params), tyshow(ret))
        _, _, fk, ret, params, va, z, result = job
        ps = [tyshow(t) + at(a) for t, a in params]
        if va is not None:
            ps.append("...: " + ", ".join(tyshow(self.ty(a)) + at(a) for a in va))
        return "%s (%s) -> %s%s" % (fk, ", ".join(ps), tyshow(ret), at(z) if z else "")

    def work(self, job):
        self.trace = []
        try:
            r = getattr(self, "do_" + job[1])(*job[2:])
            return (True, "%s: %s" % (self.text(job), r), sorted(self.it.visited))
        except Bad as e:
            return (False, "%s: %s; %s" % (self.text(job), e, "; ".join(self.trace)), ())
        except AnalysisBroken as e:
            return (None, "%s: %s" % (self.text(job), e), ())

    def decide(self, c):
        global WORK
        WORK = self
        visited = set()
        broken = None
        gc.collect()
        gc.freeze()
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for job, (good, text, seen) in zip(self.jobs, pool.imap(step, self.jobs, chunksize=4)):
                if good is None:
                    broken = broken or text
                elif good:
                    c.ok(job[0], text)
                else:
                    c.bad(job[0], self.text(job), text)
                    if os.environ.get("VSA_FIRST"):
                        break
                visited.update(seen)
        if broken:
            raise AnalysisBroken(broken)
        return visited


def at(a):
    return "@" + a[3] if a[0] == "v" else " " + a[0]


def step(job):
    return WORK.work(job)


def zvar(ret, kind="stk"):
    return None if ret == VOID else V("z", ret, kind)


def res(ret):
    return "void" if ret == VOID else "glob"


def scalars(C, deep):
    g = "scalars"
    for t in SCALARS:
        kinds = ["reg", "stk", "glob", "env"]
        for k in kinds:
            C.add(g, "const", t, [(t, V("a", t, k))], None, V("z", t, k), 0)
            C.add(g, "stk", t, [(t, V("a", t, k))], None, V("z", t, "reg"), 0)
        C.add(g, "const", VOID, [(t, V("a", t, "reg"))], None, None, "void")
        C.add(g, "const", t, [], None, V("z", t, "reg"), "glob")
        C.add(g, "const", t, [], None, None, "glob")
        C.add(g, "const", t, [(VOID, ("void",)), (t, V("a", t, "reg"))], None, V("z", t, "reg"), 1)
        if base(t) in INT and base(t) != "Tybool":
            for op in "+-*/%":
                e = ("bin", op, V("a", t, "reg"), V("b", t, "stk"), t)
                C.add(g, "const", t, [(t, e), (t, e), (t, e), (t, e)], None, V("z", t, "reg"), 2)
            for op in ("<<", ">>"):
                e = ("bin", op, V("a", t, "reg"), V("b", t, "stk"), t)
                C.add(g, "const", t, [(t, e), (t, e), (t, e), (t, V("a", t, "reg"))], None, V("z", t, "reg"), 2)
            C.add(g, "const", t, [(t, ("lit", 7, t)), (t, ("lit", (1 << bits(t) - 1) + 1, t))] * 4, None, V("z", t, "reg"), 7)
        C.add(g, "const", t, [(t, ("deref", V("p", ("ptr", t), "reg"), t))] * 9, None, V("z", t, "reg"), 8)
        for n in (9, 12):
            C.add(g, "const", t, [(t, V("a%d" % i, t, kinds[i % 4])) for i in range(n)], None, V("z", t, "reg"), n - 1)
        C.add(g, "const", t, [(D, V("d%d" % i, D, "reg")) for i in range(8)] + [(I64, V("i%d" % i, I64, "reg")) for i in range(6)]
              + [(u, V("a%d" % i, u, "reg")) for i, u in enumerate((t, I8, t, I16, t, F, t, I64, t))], None, V("z", t, "reg"), 22)


def mixes(C, deep):
    g = "many arguments"
    for ret in (VOID, I64, D, S(I64, I64, I64), S(I64, D), ("slice", I8)):
        for n in range(0, 10):
            C.add(g, "const", ret, [(I64, V("a%d" % i, I64, "reg")) for i in range(n)], None, zvar(ret), res(ret))
        for n in range(0, 12):
            C.add(g, "const", ret, [(D, V("a%d" % i, D, "reg")) for i in range(n)], None, zvar(ret), res(ret))
        for n in (14, 18, 20):
            C.add(g, "const", ret, [([D, I64, F, I8][i % 4], V("a%d" % i, [D, I64, F, I8][i % 4], ["reg", "stk", "glob"][i % 3])) for i in range(n)], None, zvar(ret), res(ret))
    R = random.Random(7)
    for k in range(120 if not deep else 2000):
        n = R.randrange(1, 14)
        ps = []
        for i in range(n):
            t = R.choice(SCALARS) if R.random() < .7 else R.choice(AGGRS)
            kind = R.choice(["stk", "glob"]) if isaggr(t) else R.choice(["reg", "stk", "glob", "env"])
            ps.append((t, V("a%d" % i, t, kind)))
        ret = R.choice(SCALARS + AGGRS + [VOID])
        C.add(g, R.choice(["const", "const", "stk", "glob"]), ret, ps, None, zvar(ret), res(ret))


def aggregates(C, deep):
    g = "aggregates"
    for t in AGGRS:
        for k in ("stk", "glob"):
            C.add(g, "const", VOID, [(t, V("a", t, k))], None, None, "void")
        C.add(g, "const", VOID, [(t, ("deref", V("p", ("ptr", t), "reg"), t))], None, None, "void")
        C.add(g, "const", t, [(t, V("a", t))], None, V("z", t), 0)
        C.add(g, "stk", t, [(t, V("a", t)), (t, V("b", t, "glob"))], None, V("z", t), 1)
        small = classes(t) != ["m"]
        for ni in range(0, 8) if deep else (0, 3, 4, 5, 6) if small else (0, 6):
            C.add(g, "const", I64, [(I64, V("a%d" % i, I64, "reg")) for i in range(ni)] + [(t, V("b", t)), (I64, V("d", I64, "reg")), (D, V("e", D, "reg"))], None, V("z", I64, "reg"), "glob")
        for nf in range(6, 10) if deep else (6, 7, 8) if small and "f" in classes(t) else (8,):
            C.add(g, "const", I64, [(D, V("a%d" % i, D, "reg")) for i in range(nf)] + [(t, V("b", t)), (I8, V("d", I8, "reg")), (F, V("e", F, "reg"))], None, V("z", I64, "reg"), "glob")
        C.add(g, "const", I64, [(I8, V("x%d" % i, I8, "stk")) for i in range(7)] + [(t, V("b", t)), (I16, V("y", I16, "reg")), (t, V("d", t)), (I32, V("w", I32, "reg"))], None, V("z", I64, "reg"), "glob")


def results(C, deep):
    g = "results"
    for t in AGGRS + SCALARS:
        for fk in ("const", "stk", "glob"):
            C.add(g, fk, t, [], None, None, "glob")
            C.add(g, fk, t, [(I64, V("a", I64, "reg")), (D, V("b", D, "reg"))], None, V("z", t), "glob")
            C.add(g, fk, t, [(I64, V("a%d" % i, I64, "reg")) for i in range(6)], None, V("z", t, "glob"), "glob")
    for fk in ("const", "stk", "glob"):
        C.add(g, fk, VOID, [], None, None, "void")
        C.add(g, fk, VOID, [(I64, V("a%d" % i, I64, "reg")) for i in range(7)], None, None, "void")


def variadic(C, deep):
    g = "variable arguments"
    for t in SCALARS + AGGRS:
        a = V("a", t, "stk")
        C.add(g, "const", VOID, [], [a], None, "void")
        C.add(g, "const", VOID, [(I64, V("x", I64, "reg"))], [V("q", I8, "reg"), a, V("w", I16, "reg"), a], None, "void")
        C.add(g, "const", t, [(t, V("b", t, "stk"))], [a, V("q", I8, "reg"), a], V("z", t), 0)
        C.add(g, "stk", t, [(I8, V("b%d" % i, I8, "reg")) for i in range(7)] + [(t, a)], [V("q", D, "reg"), a], V("z", t), "glob")
    for n in range(0, 10):
        for ret in (VOID, S(I64, I64, I64)):
            C.add(g, "const", ret, [([I64, D][i % 2], V("x%d" % i, [I64, D][i % 2], "reg")) for i in range(n)], [], zvar(ret), res(ret))
            C.add(g, "const", ret, [([I8, D][i % 2], V("x%d" % i, [I8, D][i % 2], "reg")) for i in range(2 * n)], [V("a", I64, "reg")], zvar(ret), res(ret))
    C.add(g, "const", VOID, [(VOID, ("void",))], [V("a", I64, "reg"), V("b", D, "stk")], None, "void")
    C.add(g, "const", VOID, [(I64, V("x", I64, "reg")), (VOID, ("void",))], [("void",), V("a", I64, "reg"), ("void",), V("b", D, "stk")], None, "void")
    R = random.Random(9)
    for k in range(50 if not deep else 700):
        va = []
        for i in range(R.randrange(0, 8)):
            t = R.choice(SCALARS) if R.random() < .6 else R.choice(AGGRS)
            va.append(V("v%d" % i, t, "stk" if isaggr(t) else R.choice(["reg", "stk", "glob", "env"])))
        ps = []
        for i in range(R.randrange(0, 9)):
            t = R.choice(SCALARS) if R.random() < .7 else R.choice(AGGRS)
            ps.append((t, V("a%d" % i, t, "stk" if isaggr(t) else "reg")))
        ret = R.choice([VOID, I64, S(I64, I64, I64), S(D, I8)])
        C.add(g, R.choice(["const", "stk"]), ret, ps, va, zvar(ret), res(ret))


def closures(C, deep):
    g = "captured variables"
    for t in SCALARS + AGGRS:
        for k in ("stk",) if isaggr(t) else ("reg", "stk", "env"):
            C.capture(g, [(t, k)], [], t, 0, [0])
        C.capture(g, [(I8, "reg"), (t, "stk"), (I16, "stk")], [(I64, V("a", I64, "reg"))], t, 1, [1, 0, 2])
    C.capture(g, [(I8, "reg"), (I8, "reg")], [], VOID, "void", [1, 0])
    R = random.Random(11)
    for k in range(50 if not deep else 700):
        n = R.randrange(1, 8)
        caps = []
        for i in range(n):
            t = R.choice(SCALARS) if R.random() < .7 else R.choice(AGGRS)
            caps.append((t, "stk" if isaggr(t) else R.choice(["reg", "stk", "env"])))
        order = list(range(n))
        R.shuffle(order)
        ps = []
        for i in range(R.randrange(0, 4)):
            t = R.choice(SCALARS + AGGRS)
            ps.append((t, V("a%d" % i, t, "stk")))
        w = R.randrange(n)
        C.capture(g, caps, ps, caps[w][0], w, order)


def check(c):
    C = Conv()
    deep = c.tier != "quick"
    for f in ("6/isel.c:gencall", "6/isel.c:addarglocs", "6/isel.c:prologue", "6/isel.c:epilogue", "6/typeinfo.c:classify", "6/simp.c:simpcall", "6/simp.c:capture", "6/simp.c:collectenv", "6/simp.c:simpinit", "6/gengas.c:genfunc"):
        c.unit(f)
    scalars(C, deep)
    mixes(C, deep)
    aggregates(C, deep)
    results(C, deep)
    variadic(C, deep)
    closures(C, deep)
    seen = set()
    C.jobs = [j for j in C.jobs if not (j in seen or seen.add(j))]
    for g, n in (("scalars", 350), ("many arguments", 250), ("aggregates", 1000), ("results", 900), ("variable arguments", 500), ("captured variables", 290)):
        c.need(g, n)
    for f in sorted(C.decide(c)):
        c.unit("function " + f)


if __name__ == "__main__":
    report.run("C09", "the instruction lists of both sides of a call, followed through one machine state over opaque values: every argument, result and captured variable "
               "arrives where the other side looks for it, at the place the platform's convention names; stack, frame and saved registers are restored", check,
               ["registers and slots given out by the allocator are distinct, and values live across a call are kept (N02, C03)", "the processor's instructions do what their manual says"])
