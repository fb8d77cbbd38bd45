"""C10: the parts of aggregates are where they were put.

Abstract interpretation of flattening, lowering and selection of assignments whose sides build, copy,
read or change tuples, structs, arrays, slices and unions of opaque values; the memory after the emitted
instructions is compared, part by part, with what the assignment means under the language's layout."""
import gc, os, sys, random, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import report
from aggr import *  # noqa
from ccast import AnalysisBroken
from C09 import I8, I16, I32, I64, U8, U16, U32, U64, F, D, PTR, ENUM, VOID, S, T, A, SCALARS, SMALL, BIG, V

WORK = None
SL = lambda t: ("slice", t)
U = lambda *a: ("union", a)
MORE = [U(I8, None), U(I16, I64), U(S(I8, I16), None), U(T(I32, I8), F), U(SL(I8), None, I64), U(("ptr", I8), None), U(None, A(I8, 3)), U(ENUM, None), ("name", U(D, I8)), U(("union", (I8, None)), None),
        S(I8, A(I16, 3), I32), S(T(I8, I64), I8), T(S(I8), S(I64, I8), I16), A(U(I64, None), 2), S(ENUM, U(I8, None), ENUM), A(T(I8, I32, I8), 3), S(I8, F, I8, D), A(A(I32, 2), 3), T(SL(I32), I8, SL(I8)), S(A(I8, 7), A(I8, 7)),
        ("name", A(I32, 2)), ("name", ("name", S(I8, I64))), S(("name", A(I8, 3)), ("name", T(I8, I32))), A(I64, 40), A(I8, 33), S(A(I16, 9), I8)]
TYPES = SMALL + BIG + MORE


class Parts(Aggr):
    def __init__(self):
        super().__init__()
        self.jobs = []

    def add(self, group, l, e, alias=()):
        self.jobs.append((group, l, e, tuple(alias)))

    def text(self, job):
        self.alias = dict(job[3])
        return "%s = %s" % (self.show(job[1]), self.show(job[2]))

    def work(self, job):
        self.trace = []
        self.alias = dict(job[3])
        try:
            self.begin()
            r = self.do_assign(job[1], job[2])
            return (True, "%s: %s" % (self.text(job), r), sorted(self.it.visited))
        except Bad as e:
            return (False, "%s: %s; %s" % (self.text(job), e, "; ".join(self.trace)), ())
        except AnalysisBroken as e:
            return (None, "%s: %s" % (self.text(job), e), ())

    def decide(self, c):
        global WORK
        WORK = self
        visited = set()
        broken = None
        gc.collect()
        gc.freeze()
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for job, (good, text, seen) in zip(self.jobs, pool.imap(step, self.jobs, chunksize=8)):
                if good is None:
                    broken = broken or text
                elif good:
                    c.ok(job[0], text)
                else:
                    c.bad(job[0], self.text(job), text)
                    if os.environ.get("VSA_FIRST"):
                        break
                visited.update(seen)
        if broken:
            raise AnalysisBroken(broken)
        return visited


def step(job):
    return WORK.work(job)


def kindof(t, i=0):
    return ["stk", "glob"][i % 2] if isaggr(t) else ["reg", "stk", "glob", "env"][i % 4]


class Names:
    def __init__(self):
        self.n = 0

    def var(self, t, kind=None):
        self.n += 1
        return V("v%d" % self.n, t, kind or kindof(t, self.n))


def ctors(t, N, deep):
    """ways to build a value of a type, from variables or, deep, from further constructors"""
    b = base(t)
    if not isaggr(t):
        if isinstance(b, tuple) and b[0] == "union":
            return [("ucon", i, None, t) for i in range(len(b[1]))]
        return [N.var(t)]
    if t[0] == "name" and b[0] in ("array", "tuple"):
        return [N.var(t)]   # literals of these have no named type
    sub = lambda u: ctors(u, N, True)[-1] if deep else N.var(u)
    if b[0] == "tuple":
        return [("tup", tuple(sub(u) for u in b[1]), t)]
    if b[0] == "struct":
        return [("str", tuple((i, sub(u)) for i, u in enumerate(b[1])), t)]
    if b[0] == "array":
        if b[2] > 12:
            return [("arr", tuple((i, sub(b[1])) for i in (0, 3, b[2] - 1)), t)]
        return [("arr", tuple((i, sub(b[1])) for i in range(b[2])), t)]
    if b[0] == "union":
        return [("ucon", i, sub(u) if u else None, t) for i, u in enumerate(b[1])]
    return [N.var(t)]


def partial(t, N):
    """literals that leave parts out, or give them in another order"""
    b = base(t)
    if b[0] == "struct":
        n = len(b[1])
        for i in range(n):
            if n > 1:
                yield ("str", ((i, N.var(b[1][i])),), t)
                yield ("str", tuple((j, N.var(b[1][j])) for j in range(n) if j != i), t)
        yield ("str", tuple((j, N.var(b[1][j])) for j in reversed(range(n))), t)
    if b[0] == "array" and t[0] != "name":
        n = b[2]
        if n > 1:
            for i in sorted({0, n // 2, n - 1}):
                yield ("arr", ((i, N.var(b[1])),), t)
        if 1 < n < 12:
            yield ("arr", tuple((j, N.var(b[1])) for j in reversed(range(n))), t)
            yield ("arr", tuple((j, N.var(b[1])) for j in range(1, n)), t)


def places(t, N):
    yield V("z", t, "stk")
    yield V("z", t, "glob")
    yield ("deref", V("zp", ("ptr", t), "reg"), t)
    yield ("memb", V("zs", S(I8, t, I8), "stk"), 1, t)
    yield ("tmemb", ("deref", V("zq", ("ptr", T(I8, I8, t, I8)), "stk"), T(I8, I8, t, I8)), 2, t)
    yield ("idx", V("za", A(t, 3), "stk"), ("lit", 2, U64), t)
    yield ("idx", V("zl", SL(t), "stk"), V("i", I32, "reg"), t)


def building(C, deep):
    g = "building"
    for t in TYPES:
        if not isaggr(t) or base(t)[0] in ("slice", "func"):
            continue
        for d in (False, True):
            N = Names()
            for k, l in enumerate(places(t, N)):
                for e in ctors(t, N, d):
                    C.add(g, l, e)
        N = Names()
        for e in partial(t, N):
            for l in (V("z", t, "stk"), ("deref", V("zp", ("ptr", t), "reg"), t)):
                C.add(g, l, e)


def copying(C, deep):
    g = "copying"
    for t in TYPES + SCALARS:
        N = Names()
        src = [V("y", t, "stk"), V("y", t, "glob"), ("deref", V("yp", ("ptr", t), "reg"), t), ("memb", V("ys", S(I8, t, I8), "glob"), 1, t),
               ("memb", V("yq", ("ptr", S(I8, I16, t)), "reg"), 2, t), ("tmemb", V("yt", T(I64, t), "stk"), 1, t), ("tmemb", V("yr", ("ptr", T(I8, t)), "stk"), 1, t),
               ("idx", V("ya", A(t, 4), "stk"), ("lit", 3, I32), t), ("idx", V("ya", A(t, 4), "glob"), V("i", U8, "reg"), t), ("idx", V("yl", SL(t), "glob"), V("j", I64, "stk"), t),
               ("tget", V("yt", T(I8, t, I8), "stk"), 1, t), ("data", V("yu", U(I8, t), "stk"), 1, t)]
        dst = list(places(t, N))
        for i, l in enumerate(dst):
            for j, e in enumerate(src):
                if deep or i == 0 or j < 2 or (i + j) % 6 == 0:
                    C.add(g, l, e)
        if not isaggr(t):
            for k in ("reg", "env"):
                for e in src:
                    C.add(g, V("z", t, k), e)


def members(C, deep):
    g = "members"
    for t in TYPES:
        b = base(t)
        if not isinstance(b, tuple):
            continue
        if b[0] in ("struct", "tuple"):
            m = "memb" if b[0] == "struct" else "tmemb"
            for i, u in enumerate(b[1]):
                for x_ in (V("y", t, "stk"), V("y", t, "glob"), ("deref", V("yp", ("ptr", t), "reg"), t), V("yp", ("ptr", t), "stk"), ("memb", V("ys", S(I8, t), "stk"), 1, t),
                           ("idx", V("yl", SL(t), "stk"), V("i", U16, "reg"), t)):
                    C.add(g, V("z", u, kindof(u, i)), (m, x_, i, u))
                    C.add(g, (m, x_, i, u), V("z", u, kindof(u, i + 1)))
                C.add(g, V("z", ("ptr", u), "reg"), ("addr", (m, V("yp", ("ptr", t), "reg"), i, u)))
                C.add(g, V("z", ("ptr", u), "reg"), ("addr", (m, V("y", t, "stk"), i, u)))
                if b[0] == "tuple" and t[0] != "name":
                    C.add(g, V("z", u, kindof(u, i)), ("tget", V("y", t, "stk"), i, u))
        elif b[0] in ("array", "slice"):
            u = b[1]
            for x_ in (V("y", t, "stk"), V("y", t, "glob"), ("deref", V("yp", ("ptr", t), "reg"), t), ("memb", V("ys", S(I16, t), "stk"), 1, t), ("memb", V("yq", ("ptr", S(I16, t)), "reg"), 1, t)):
                for i in [("lit", 0, I32), ("lit", 2, U64), V("i", I64, "reg"), V("i", I16, "stk"), V("i", U32, "glob"), V("i", U8, "reg"), V("i", I8, "reg")]:
                    if i[0] == "lit" and b[0] == "array" and i[1] >= b[2]:
                        continue
                    C.add(g, V("z", u, kindof(u, 0)), ("idx", x_, i, u))
                    C.add(g, ("idx", x_, i, u), V("z", u, kindof(u, 1)))
                C.add(g, V("z", U64, "reg"), ("len", x_, U64))
            C.add(g, V("z", ("ptr", u), "reg"), ("addr", ("idx", V("y", t, "stk"), V("i", U64, "reg"), u)))
            if isaggr(u) and base(u)[0] in ("struct", "tuple"):
                m = "memb" if base(u)[0] == "struct" else "tmemb"
                for j, w in enumerate(base(u)[1]):
                    C.add(g, V("z", w, kindof(w, j)), (m, ("idx", V("y", t, "stk"), V("i", U64, "reg"), u), j, w))
                    C.add(g, (m, ("idx", V("y", t, "glob"), V("i", U64, "reg"), u), j, w), V("z", w, kindof(w, j)))
        elif b[0] == "union":
            for x_ in (V("y", t, "stk"), V("y", t, "glob"), ("deref", V("yp", ("ptr", t), "reg"), t)):
                C.add(g, V("z", I32, "reg"), ("tag", x_, I32))
                for i, u in enumerate(b[1]):
                    if u:
                        C.add(g, V("z", u, kindof(u, i)), ("data", x_, i, u))
    for t in (ENUM, ("name", ENUM)):
        for k in ("reg", "stk", "glob", "env"):
            C.add(g, V("z", I32, k), ("tag", V("y", t, k), I32))
            for i in range(3):
                C.add(g, V("z", t, k), ("ucon", i, None, t))


def slices(C, deep):
    g = "slices"
    for u in SCALARS[:14] + [S(I8, I16), A(I8, 3), T(I64, I8), SL(I8)]:
        for k, x_ in enumerate((V("y", A(u, 5), "stk"), V("y", SL(u), "glob"), V("y", ("ptr", u), "reg"), ("memb", V("yp", ("ptr", S(I8, A(u, 4))), "reg"), 1, A(u, 4)), V("y", ("name", A(u, 5)), "stk"), V("y", ("name", SL(u)), "stk"))):
            for lo, hi in ((("lit", 1, U64), ("lit", 3, U64)), (V("i", U64, "reg"), V("j", U64, "stk")), (V("i", U8, "reg"), V("j", U16, "reg")), (("lit", 0, I32), V("j", U32, "reg"))):
                for l in (V("z", SL(u), "stk"), V("z", SL(u), "glob"), ("deref", V("zp", ("ptr", SL(u)), "reg"), SL(u))):
                    C.add(g, l, ("slc", x_, lo, hi, SL(u)))
        C.add(g, V("y", SL(u), "stk"), ("slc", V("y", SL(u), "stk"), V("i", U64, "reg"), ("len", V("y", SL(u), "stk"), U64), SL(u)))


def overlap(C, deep):
    """the value read is the one from before the assignment"""
    g = "overlap"
    for u in (I64, I8, D, SL(I8), S(I8, I16), T(I64, I8), S(I64, I64, I64), A(I8, 5)):
        t2, s2, a2 = T(u, u), S(u, u), A(u, 2)
        n2 = T(T(u, u), u)
        z, zs, za = V("z", t2, "stk"), V("z", s2, "stk"), V("z", a2, "stk")
        m = lambda i, x_=z: ("tmemb", x_, i, u)
        ms = lambda i, x_=zs: ("memb", x_, i, u)
        ma = lambda i, x_=za: ("idx", x_, ("lit", i, U64), u)
        p = V("p", ("ptr", t2), "reg")
        al = (("p", ("z", t2, "stk")),)
        for kind in ("stk", "glob"):
            z, zs, za = V("z", t2, kind), V("z", s2, kind), V("z", a2, kind)
            al = (("p", ("z", t2, kind)),)
            C.add(g, z, ("tup", (m(1, z), m(0, z)), t2))
            C.add(g, z, ("tup", (V("v", u, "stk"), m(0, z)), t2))
            C.add(g, zs, ("str", ((0, ms(1, zs)), (1, ms(0, zs))), s2))
            C.add(g, zs, ("str", ((1, ms(0, zs)), (0, ms(1, zs))), s2))
            C.add(g, zs, ("str", ((1, ms(0, zs)),), s2))
            C.add(g, za, ("arr", ((0, ma(1, za)), (1, ma(0, za))), a2))
            C.add(g, za, ("arr", ((1, ma(0, za)),), a2))
            # through a pointer to the destination, either way
            C.add(g, z, ("tup", (m(1, ("deref", p, t2)), m(0, ("deref", p, t2))), t2), al)
            C.add(g, ("deref", p, t2), ("tup", (m(1, z), m(0, z)), t2), al)
            C.add(g, ("deref", p, t2), ("tup", (m(1, ("deref", p, t2)), m(0, ("deref", p, t2))), t2), al)
            C.add(g, z, ("deref", p, t2), al)
            ps = V("p", ("ptr", s2), "reg")
            als = (("p", ("z", s2, kind)),)
            C.add(g, zs, ("str", ((0, ms(1, ps)), (1, ms(0, ps))), s2), als)
            C.add(g, ("deref", ps, s2), ("str", ((0, ms(1, zs)), (1, ms(0, zs))), s2), als)
            C.add(g, ("deref", ps, s2), ("str", ((1, ms(0, zs)),), s2), als)
            pa = V("p", ("ptr", a2), "reg")
            ala = (("p", ("z", a2, kind)),)
            C.add(g, ("deref", pa, a2), ("arr", ((0, ma(1, za)), (1, ma(0, za))), a2), ala)
            C.add(g, za, ("arr", ((0, ma(1, ("deref", pa, a2))), (1, ma(0, ("deref", pa, a2)))), a2), ala)
            # a part of the destination is the source of a nested value
            zn = V("z", n2, kind)
            C.add(g, zn, ("tup", (("tup", (("tmemb", zn, 1, u), ("tmemb", ("tmemb", zn, 0, t2), 0, u)), t2), ("tmemb", ("tmemb", zn, 0, t2), 1, u)), n2))
            uu = U(u, t2)
            zu = V("z", uu, kind)
            C.add(g, zu, ("ucon", 0, ("data", zu, 0, u), uu))
            C.add(g, zu, ("ucon", 1, ("tup", (("data", zu, 0, u), V("v", u, "stk")), t2), uu))
            # one element of an array from another
            C.add(g, ma(0, za), ma(1, za))
            C.add(g, ma(1, za), ma(0, za))


def sizes(C, deep):
    g = "sizes"
    for t in SCALARS + TYPES + [VOID]:
        for u in (U64, I32):
            C.add(g, V("z", u, "reg"), ("size", t, u))


def check(c):
    C = Parts()
    deep = c.tier != "quick"
    for f in ("6/simp.c:assign", "6/simp.c:assignat", "6/simp.c:simptup", "6/simp.c:simpucon", "6/simp.c:membaddr", "6/simp.c:tupget", "6/simp.c:simpslice", "6/isel.c:blit", "6/isel.c:clear", "6/typeinfo.c:tyoffset"):
        c.unit(f)
    building(C, deep)
    copying(C, deep)
    members(C, deep)
    slices(C, deep)
    overlap(C, deep)
    sizes(C, deep)
    seen = set()
    C.jobs = [j for j in C.jobs if not (j in seen or seen.add(j))]
    for g, n in (("building", 1500), ("copying", 2000), ("members", 3000), ("slices", 1000), ("overlap", 250), ("sizes", 200)):
        c.need(g, n)
    for f in sorted(C.decide(c)):
        c.unit("function " + f)


if __name__ == "__main__":
    report.run("C10", "the memory after the instructions emitted for an assignment, followed over opaque values: each part of the target holds the part of the value "
               "that the language's layout puts there, parts not given are zero, nothing else is written", check,
               ["registers and slots given out by the allocator are distinct (N02)", "a pointer variable that is not said to point at a local leads elsewhere"])
