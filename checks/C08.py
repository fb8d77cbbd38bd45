"""C08: the machine instructions selected for an expression compute its value.

Abstract interpretation of flattening, lowering and selection over expression shapes with opaque
operands; the emitted instruction list is given its meaning as terms over those operands, and the
result compared with the value the language defines, at the operands' width and signedness."""
import os, re, sys, itertools, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from shape import *  # noqa
from ccast import AnalysisBroken

INTS = ["Tyint8", "Tyint16", "Tyint32", "Tyint64", "Tyuint8", "Tyuint16", "Tyuint32", "Tyuint64"]
NAMED = [("name", t) for t in ("Tyint8", "Tyint32", "Tyuint16", "Tyuint64", ("name", "Tyuint8"))]
MORE = NAMED + ["Tyint", "Tyuint", "Tybyte", "Tychar"]
FLTS = ["Tyflt32", "Tyflt64"]
KINDS = ["reg", "stk", "glob", "env"]
PTR = ("ptr", "Tyint64")
WORK = None


class Shapes(Code):
    def __init__(self):
        super().__init__()
        self.jobs = []

    def value(self, group, e):
        """e has the value the language defines and leaves every variable alone"""
        self.jobs.append((group, "value", e))

    def jump(self, group, e):
        """a jump on e goes where its value says"""
        self.jobs.append((group, "jump", e))

    def assign(self, group, l, e):
        """l = e puts e's value into l and changes nothing else"""
        self.jobs.append((group, "assign", l, e))

    def text(self, job):
        if job[1] == "assign":
            return "%s = %s" % (self.show(job[2]), self.show(job[3]))
        return ("if " if job[1] == "jump" else "") + self.show(job[2])

    def work(self, job):
        """-> (good, text of the violation or of the value)"""
        self.begin()
        try:
            return (True, getattr(self, "do_" + job[1])(*job[2:]), sorted(self.it.visited))
        except Bad as e:
            return (False, "%s: %s; %s" % (self.text(job), e, "; ".join(self.trace)), getattr(e, "only", ""))
        except AnalysisBroken as e:
            return (None, "%s: %s" % (self.text(job), e), ())

    def same(self, e, got, want):
        ty = base(self.ty(e))
        if ty in FLTS:
            got = self.fneg(got)
        if e[0] == "cast" and base(self.ty(e[1])) in FLTS and ty not in FLTS and not isinstance(ty, tuple):
            if self.truncated(got, want, bits(ty), issigned(ty)):
                return
        # the language leaves comparisons with NaN open
        d = differ(numbers(got), numbers(want))
        if d:
            only = ""
            if want[0] == got[0] == "f" and want[2] == got[2] == "i2f" and W(want[3][0][1]) == 64 and want[3][0][0] == "u" and got[3] == (("s", want[3][0][1]),):
                only = " from 2^63"
            self.fail(only, "computes %s, not %s (%s)" % (x86.show(got), x86.show(want), d))

    def fneg(self, t):
        """times minus one is the negation"""
        if isinstance(t, tuple) and t and t[0] == "f":
            t = ("f", t[1], t[2], tuple(self.fneg(p) if p[0] != "s" and p[0] != "u" else p for p in t[3]))
            if t[2] == "fmul":
                for p, q in (t[3], t[3][::-1]):
                    if p == x(t[1], "flt -1.0"):
                        return fop(t[1], "fneg", q)
        return t

    def truncated(self, got, want, w, sg):
        """a conversion to a wider signed integer, cut off"""
        lo = 0
        if got[0] == "ext":
            lo, got = got[2], got[3]
        if lo or got[0] != "f" or got[2] != "f2i" or want[0] != "f":
            return False
        v = got[1]
        if v < (w if sg else w + 1):
            self.fail(" from 2^63" if v == w == 64 and got[3] == want[3] else "", "converts to %d bits, which do not hold every %s of %d" % (
                v, "integer" if sg else "unsigned integer", w))
        return got[3] == want[3]

    def fail(self, only, text):
        e = Bad(text + only)
        e.only = only
        raise e

    def do_value(self, e):
        n = self.build(e)
        r = self.compile(n)
        self.execute()
        if r is None or r == 0:
            raise Bad("no result")
        got = self.m.get(self.decode(self.s, r))
        want = self.sem(e)
        if W(got) != W(want):
            raise Bad("a result of %d bits for a type of %d" % (W(got), W(want)))
        self.same(e, got, want)
        self.kept()
        self.tempsonly()
        return "%s is %s" % (self.show(e), x86.show(want))

    def do_jump(self, e):
        s, T = self.s, self.T
        lt, lf = self.label("yes"), self.label("no")
        self.call("flattencond", "mi/flatten.c", self.fctx, self.build(e), lt, lf)
        st = self.drain(self.fctx)
        if not st:
            raise Bad("no jump")
        st, _ = self.lower(st, None)
        self.select(st, None)
        want = self.sem(e)
        want = want[2] if want[0] == "zx" and W(want[2]) == 1 else x86.cmp("ne", want, c(W(want), 0))
        taken = []
        left = c(1, 1)
        for op, a in self.insns(self.s):
            self.trace.append("%s %s" % (op[1:], ", ".join(map(repr, a))))
            r = self.m.step(op, a)
            if r:
                if r[0] == "jmp":
                    taken.append((left, r[1]))
                    left = c(1, 0)
                elif r[0] == "jcc":
                    taken.append((bitop("and", left, r[1]), r[2]))
                    left = bitop("and", left, bnot(r[1]))
                else:
                    raise Bad("control leaves a condition: " + self.trace[-1])
        if left != c(1, 0):
            raise Bad("falls through after the jumps")
        for name, cond in (("yes", want), ("no", bnot(want))):
            got = c(1, 0)
            for t, l in taken:
                if l == name:
                    got = bitop("or", got, t)
                elif l not in ("yes", "no"):
                    raise Bad("jumps to " + str(l))
            if differ(numbers(got), numbers(cond)):
                raise Bad("goes to %s when %s, not when %s" % (name, x86.show(got), x86.show(cond)))
        self.kept()
        self.tempsonly()
        return "%s jumps on %s" % (self.show(e), x86.show(want))

    def label(self, name):
        s, T = self.s, self.T
        l = T.obj(s, type=self.E["Nlit"])
        s.store[("fld", ("fld", l, "lit"), "littype")] = self.E["Llbl"]
        s.store[("fld", ("fld", l, "lit"), "lblval")] = ("str", '"%s"' % name)
        s.store[("fld", ("fld", l, "lit"), "lblname")] = ("str", '"%s"' % name)
        return T.expr(s, "Olit", [l], T.ty(s, "Tyvoid"))

    def do_assign(self, l, e):
        # what both sides mean before anything runs
        n = self.T.expr(self.s, "Oasn", [self.build(l), self.build(e)], self.typ(self.ty(l)))
        want = self.sem(e)
        w = W(want)
        if l[0] == "v":
            where = self.vars[l[1]][2]
            but = (l[1],)
        else:
            where = ("mem", self.sem(l[1]), w)
            but = ()
        self.compile(n)
        self.execute()
        now = self.m.vr.get(where[1]) if where[0] == "reg" else self.m.load(where[1], w)
        self.same(e, now, want)
        self.kept(but)
        self.tempsonly(where if where[0] == "mem" else None)
        return "%s holds %s" % (self.show(l), x86.show(want))

    def tempsonly(self, where=None):
        """writes go to the target and to fresh slots of the frame"""
        done = False
        for r, off, w, t in self.m.stores:
            if r == ("x", 64, "bp") and off < -4096:
                continue
            if where is not None and self.m.region(where[1]) == (r, off) and w == where[2]:
                done = True
                continue
            raise Bad("writes %d bits at %s%+d" % (w, x86.show(r), off))
        if where is not None and not done:
            raise Bad("nothing is stored")

    def decide(self, c):
        global WORK
        WORK = self
        visited = set()
        broken = None
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for job, (good, text, seen) in zip(self.jobs, pool.imap(step, self.jobs, chunksize=4)):
                if good is None:
                    broken = broken or text
                elif good:
                    c.ok(job[0], text)
                else:
                    c.bad(job[0], re.sub(r"@\w+|~", "", self.text(job)) + seen, text)
                    continue
                visited.update(seen)
        if broken:
            raise AnalysisBroken(broken)
        return visited


def step(job):
    return WORK.work(job)


def V(name, ty, kind):
    return ("v", name, ty, kind)


def lits(ty):
    w, s = INT[ty]
    out = [0, 1, 2, 3, 7, 8, 127, 128, 255]
    for k in (16, 31, 32, 63, 64):
        out += [(1 << k) - 1, 1 << k, (1 << k) - 2]
    return [v for v in out if v < (1 << w)]


def operand(name, ty, kind, k=0):
    if kind in KINDS:
        return V(name, ty, kind)
    if kind == "lit":
        return ("lit", 3 + k, ty)
    if kind == "big":
        return ("lit", (1 << bits(ty) - 1) + 1 + k, ty)
    if kind == "nest":
        return ("bin", "-", V(name + "1", ty, "reg"), V(name + "2", ty, "stk"), ty)
    if kind == "deref":
        return ("deref", V(name + "p", ("ptr", ty), "reg"), ty)
    raise AnalysisBroken(kind)


def arithmetic(S, deep):
    g = "operators"
    if deep:
        ks = KINDS + ["lit", "big", "nest", "deref"]
        pairs = list(itertools.product(ks, ks))
    else:
        pairs = [("reg", "reg"), ("stk", "reg"), ("glob", "stk"), ("env", "glob"), ("reg", "env"), ("reg", "lit"), ("big", "reg"), ("stk", "big"), ("nest", "reg"), ("reg", "nest"), ("nest", "nest")]
    for op in BIN:
        for ty in INTS:
            for p, q in pairs:
                if op in ("<<", ">>") and q == "big":
                    continue
                S.value(g, ("bin", op, operand("a", ty, p), operand("b", ty, q), ty))
            S.value(g, ("bin", op, V("a", ty, "reg"), V("a", ty, "reg"), ty))
        for ty in MORE:
            S.value(g, ("bin", op, V("a", ty, "reg"), V("b", ty, "stk"), ty))
    for ty in INTS + MORE:
        for op in ("neg", "not"):
            for k in KINDS + ["nest", "deref"]:
                S.value(g, ("un", op, operand("a", ty, k), ty))
    for k in KINDS:
        S.value(g, ("un", "lnot", V("a", "Tybool", k), "Tybool"))
        S.value(g, ("un", "lnot", ("un", "lnot", V("a", "Tybool", k), "Tybool"), "Tybool"))
    S.value(g, ("un", "lnot", ("cmp", "<", V("a", "Tyint32", "reg"), V("b", "Tyint32", "stk")), "Tybool"))
    for ty in FLTS + [("name", "Tyflt64"), ("name", "Tyflt32")]:
        for op in "+-*/":
            for p, q in itertools.product(KINDS, KINDS) if deep else zip(KINDS, KINDS[1:] + KINDS[:1]):
                S.value(g, ("bin", op, V("a", ty, p), V("b", ty, q), ty))
            S.value(g, ("bin", op, V("a", ty, "reg"), V("a", ty, "reg"), ty))
            S.value(g, ("bin", op, ("bin", "-", V("a", ty, "reg"), V("b", ty, "stk"), ty), ("bin", "/", V("b", ty, "stk"), V("a", ty, "reg"), ty), ty))
        for k in KINDS:
            S.value(g, ("un", "neg", V("a", ty, k), ty))


def literals(S, deep):
    g = "literals"
    for ty in INTS + ["Tychar", "Tybyte"]:
        a = V("a", ty, "reg")
        for n in lits(ty):
            l = ("lit", n, ty)
            S.value(g, l)
            S.assign(g, V("a", ty, "stk" if n & 1 else "reg"), l)
            S.value(g, ("cmp", "<", a, l))
            S.value(g, ("bin", "+", a, l, ty))
            S.value(g, ("bin", "*", a, l, ty))
            if deep:
                for op in BIN:
                    if op in ("<<", ">>") and n >= bits(ty):
                        continue
                    S.value(g, ("bin", op, a, l, ty))
                    S.value(g, ("bin", op, l, V("a", ty, "stk"), ty))
        for n in range(0, bits(ty), 1 if deep else 5):
            S.value(g, ("bin", "<<", a, ("lit", n, ty), ty))
            S.value(g, ("bin", ">>", a, ("lit", n, ty), ty))


def rotations(S, deep):
    g = "rotations"
    for ty in INTS:
        w = bits(ty)
        for p, q in [("<<", ">>"), (">>", "<<"), ("<<", "<<"), (">>", ">>")]:
            for k in ({1, 3, w // 2, w - 1} if not deep else range(1, w)):
                for d in (0, 1, 8, -8, 16, -16, -w // 2):
                    if not 0 <= w - k + d < w:
                        continue
                    for kind in ("reg", "stk") if d in (0, 1) or deep else ("reg",):
                        a = V("a", ty, kind)
                        S.value(g, ("bin", "|", ("bin", p, a, ("lit", k, ty), ty), ("bin", q, a, ("lit", w - k + d, ty), ty), ty))
            S.value(g, ("bin", "|", ("bin", p, V("a", ty, "reg"), ("lit", 3, ty), ty), ("bin", q, V("b", ty, "reg"), ("lit", w - 3, ty), ty), ty))
            S.value(g, ("bin", "^", ("bin", p, V("a", ty, "reg"), ("lit", 3, ty), ty), ("bin", q, V("a", ty, "reg"), ("lit", w - 3, ty), ty), ty))
            S.value(g, ("bin", "|", ("bin", p, V("a", ty, "reg"), V("b", ty, "reg"), ty), ("bin", q, V("a", ty, "reg"), V("b", ty, "reg"), ty), ty))


def nesting(S, deep):
    g = "nesting"
    tys = INTS if deep else ["Tyint8", "Tyint32", "Tyuint64"]
    for ty in tys:
        a, b, d = V("a", ty, "reg"), V("b", ty, "stk"), V("d", ty, "reg")
        for o in BIN:
            for i in BIN:
                inner = ("bin", i, b, d, ty)
                S.value(g, ("bin", o, inner, a, ty))
                S.value(g, ("bin", o, a, inner, ty))
                if i in "/%*<<" or deep:
                    S.value(g, ("bin", o, inner, ("bin", i, a, b, ty), ty))
    for ty in tys:
        a, b, d = V("a", ty, "reg"), V("b", ty, "stk"), V("d", ty, "glob")
        for cop in CMP:
            S.value(g, ("cmp", cop, ("bin", "/", a, b, ty), ("bin", "%", b, d, ty)))
            S.value(g, ("cmp", "==", ("cmp", cop, a, b), ("cmp", "<", b, d)))


def comparisons(S, deep):
    g = "comparisons"
    pairs = itertools.product(KINDS + ["lit"], KINDS + ["lit"]) if deep else [("reg", "reg"), ("stk", "glob"), ("glob", "env"), ("lit", "reg"), ("reg", "lit"), ("reg", "stk")]
    pairs = list(pairs)
    for op in CMP:
        for ty in INTS + ["Tychar", "Tybyte"] + FLTS + [PTR] + [("name", "Tyuint32"), ("name", "Tyint64"), ("name", "Tyflt32")]:
            for p, q in pairs:
                if "lit" in (p, q) and (base(ty) in FLTS or ty == PTR):
                    continue
                if p == q == "lit":
                    continue
                e = ("cmp", op, operand("a", ty, p), operand("b", ty, q))
                S.value(g, e)
                S.jump("jumps", e)
                S.jump("jumps", ("un", "lnot", e, "Tybool"))
    for op in ("==", "!="):
        for p, q in pairs:
            if "lit" not in (p, q):
                S.value(g, ("cmp", op, V("a", "Tybool", p), V("b", "Tybool", q)))
                S.jump("jumps", ("cmp", op, V("a", "Tybool", p), V("b", "Tybool", q)))
    for k in KINDS:
        S.jump("jumps", V("a", "Tybool", k))
        S.jump("jumps", ("un", "lnot", V("a", "Tybool", k), "Tybool"))
    for ty in ("Tyint8", "Tyuint32", "Tyint64"):
        for op in CMP:
            S.jump("jumps", ("cmp", op, ("bin", "/", V("a", ty, "reg"), V("b", ty, "stk"), ty), ("bin", "<<", V("a", ty, "reg"), V("d", ty, "reg"), ty)))


def casts(S, deep):
    g = "casts"
    tys = INTS + ["Tybyte", "Tychar", "Tybool"] + FLTS + [("name", "Tyint16"), ("name", "Tyuint64")]
    for f in tys:
        for t in tys:
            if f == t or (f in FLTS and t == "Tybool") or (f == "Tybool" and t in FLTS):
                continue
            for k in KINDS if deep else ("reg", "stk"):
                S.value(g, ("cast", V("a", f, k), t))
            if f in FLTS or t in FLTS:
                continue
            S.value(g, ("cast", ("bin", "+", V("a", f, "reg"), V("b", f, "stk"), f), t) if f != "Tybool" else ("cast", ("cmp", "<", V("a", "Tyint32", "reg"), V("b", "Tyint32", "stk")), t))
            if t != "Tybool":
                S.value(g, ("bin", "+", ("cast", V("a", f, "stk"), t), ("cast", V("b", f, "reg"), t), t))
                S.value(g, ("bin", "/", V("b", t, "reg"), ("cast", V("a", f, "reg"), t), t))
            for t2 in ("Tyint64", "Tyuint64", "Tyuint32") if not deep else INTS:
                if t2 not in (f, t) and bits(t) < bits(t2):
                    S.value(g, ("cast", ("cast", V("a", f, "reg"), t), t2))
    for f in INTS:
        for n in (0, 1, (1 << bits(f) - 1) - 1, 1 << bits(f) - 1, (1 << bits(f)) - 1):
            for t in INTS:
                if t != f:
                    S.value(g, ("cast", ("lit", n, f), t))
    for t in INTS:
        S.value(g, ("cast", V("a", PTR, "reg"), t))
        if bits(t) == 64:
            S.value(g, ("cast", V("a", t, "stk"), PTR))


def memory(S, deep):
    g = "memory"
    tys = INTS + ["Tybyte", "Tychar", "Tybool"] + FLTS + [PTR] + [("name", "Tyint16"), ("name", PTR)]
    U = "Tyuint64"
    for ty in tys:
        pt = ("ptr", ty)
        for k in KINDS:
            p = V("p", pt, k)
            S.value(g, ("deref", p, ty))
            S.assign(g, ("deref", p, ty), V("a", ty, "stk"))
            S.value(g, ("addr", V("a", ty, k)) if k != "reg" else p)
            S.assign(g, V("z", ty, k), V("a", ty, "reg"))
            S.assign(g, V("z", ty, k), V("a", ty, "env"))
            S.assign(g, V("z", ty, k), ("deref", V("p", pt, "reg"), ty))
        for base in ("reg", "stk"):
            q = V("q", U, base)
            for off in [("lit", 0, U), ("lit", 8, U), ("lit", 24, U), ("lit", 0x7ffffffe, U), ("lit", 0x7fffffff, U), ("lit", 0x80000000, U), ("lit", 0x100000008, U), V("i", U, "reg"), V("i", U, "glob")] + [
                    ("bin", "*", V("i", U, "reg"), ("lit", n, U), U) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 0x7ffffffe, 0x80000008, 0x100000002, 0x200000008)] + [
                    ("bin", "*", ("lit", 3, U), ("lit", 8, U), U), ("bin", "*", ("lit", 0x20000000, U), ("lit", 4, U), U), ("bin", "*", ("lit", 8, U), V("i", U, "stk"), U), ("bin", "*", V("i", U, "stk"), ("lit", 8, U), U), ("bin", "<<", V("i", U, "reg"), ("lit", 2, U), U)]:
                at = ("cast", ("bin", "+", q, off, U), pt)
                S.value(g, ("deref", at, ty))
                if off[0] != "lit" or deep:
                    S.assign(g, ("deref", at, ty), V("a", ty, "reg"))
    for ty in INTS:
        pt = ("ptr", ty)
        e = ("deref", V("p", pt, "reg"), ty)
        S.assign(g, e, ("bin", "+", e, ("lit", 1, ty), ty))
        S.assign(g, e, ("bin", "/", e, V("a", ty, "reg"), ty))
        S.assign(g, V("a", ty, "stk"), ("bin", "-", V("b", ty, "reg"), V("a", ty, "stk"), ty))
        S.assign(g, V("a", ty, "reg"), ("bin", "-", V("b", ty, "reg"), V("a", ty, "reg"), ty))
        S.assign(g, V("a", ty, "glob"), ("bin", "%", V("a", ty, "glob"), V("b", ty, "env"), ty))
        S.value(g, ("bin", "-", e, ("deref", V("q", pt, "stk"), ty), ty))


def check(c):
    S = Shapes()
    deep = c.tier != "quick"
    for f in ("6/isel.c:selexpr", "6/isel.c:selcjmp", "6/isel.c:memloc", "6/simp.c:rval", "6/simp.c:simpcast", "mi/flatten.c:rval", "6/locs.c:coreg"):
        c.unit(f)
    arithmetic(S, deep)
    literals(S, deep)
    rotations(S, deep)
    nesting(S, deep)
    comparisons(S, deep)
    casts(S, deep)
    memory(S, deep)
    seen = set()
    S.jobs = [j for j in S.jobs if not (j in seen or seen.add(j))]
    for f in sorted(S.decide(c)):
        c.unit("function " + f)


if __name__ == "__main__":
    report.run("C08", "the instruction list emitted for an expression, read as terms over opaque operands, computes the value the language defines; encodable "
               "operands, nothing else written", check,
               ["comparisons with NaN are left open (the project's tests take NaN to equal itself)", "the processor's instructions do what their manual says", "registers and slots given out by the allocator are distinct (N02)"])
