"""C02: every index and slice of an array or slice is bounds checked.

Abstract interpretation of the lowering of index and slice expressions: nodes are terms, so the
address that is finally loaded/stored and the statements emitted before it can be compared.
An index u into a sequence of length L needs, before the address is used, a conditional jump
that only falls through when u < L unsigned, the other way being the abort routine."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from nodes import *  # noqa
from asm import Asm, Exec
from ccast import AnalysisBroken

LT = {"Oult": (0, 1, True), "Ougt": (1, 0, True), "Ouge": (0, 1, False), "Oule": (1, 0, False)}   # a<b when the condition is ..
LE = {"Oule": (0, 1, True), "Ouge": (1, 0, True), "Ougt": (0, 1, False), "Oult": (1, 0, False)}


class Ctx:
    def __init__(self):
        self.P = Program(["6/simp.c", "parse/node.c"])
        self.N = Nodes(self.P)
        self.E = self.P.enums
        self.n = ("N",)
        self.args = ("ld", fe(self.n, "args"))
        self.a = [("ld", ("idx", self.args, i)) for i in range(3)]
        self.T = ("call", "tybase", ("ld", fe(self.a[0], "type")))
        self.elem = ("ld", ("idx", ("ld", ("fld", self.T, "sub")), 0))
        self.asize = ("ld", ("fld", self.T, "asize"))

    def run(self, fn, op, kind, dst):
        E, N, n = self.E, self.N, self.n
        pr = N.prims()
        pr["rval"] = N.recur("rv")
        pr["lval"] = N.recur("lval")
        pr["addressable"] = lambda it, s, av, x, ctx: [(s, 1)]
        pr["forcelocal"] = lambda it, s, av, x, ctx: [(s, 0)]
        pr["declarelocal"] = lambda it, s, av, x, ctx: [(s, 0)]

        def temp(it, s, av, x, ctx):
            s.count += 1
            t = ("temp", s.count)
            s.store[("fld", t, "type")] = E["Nexpr"]
            s.store[fe(t, "op")] = E["Ovar"]
            s.store[fe(t, "type")] = it.read(fe(av[1], "type"), s)
            return [(s, t)]
        pr["temp"] = temp
        it = Interp(self.P, pr, maxdepth=12, pure=("hthas", "stacknode", "isstacktype", "tyalign", "ispure"))
        it.inline = set(self.P.tus[0].funcs) | {"exprop"}
        T = self.T
        init = {fe(n, "op"): E[op], ("fld", n, "type"): E["Nexpr"], ("fld", T, "type"): E[kind], ("fld", T, "nsub"): 1,
                ("fld", ("ld", ("glob", "tyintptr")), "type"): E["Tyuint64"], ("fld", ("ld", ("glob", "tyword")), "type"): E["Tyuint"],
                fe(self.asize, "type"): ("mkty", E["Tyint"]), ("fld", ("mkty", E["Tyint"]), "type"): E["Tyint"],
                ("fld", ("mkty", E["Tybool"]), "type"): E["Tybool"]}
        if op == "Osllen":
            init[fe(n, "type")] = ("mkty", E["Tyuint64"])
            init[("fld", ("mkty", E["Tyuint64"]), "type")] = E["Tyuint64"]
        for i in range(128):
            init[("idx", ("glob", "debugopt"), i)] = 0
        st = State()
        st.store.update(init)
        for g in ("tyintptr", "tyword", "abortoob"):
            st.ne[("ld", ("glob", g))] = frozenset([0])
        st.ne[self.asize] = frozenset([0])
        st.ne[self.elem] = frozenset([0])
        for a in self.a:
            st.ne[a] = frozenset([0])
            # an index has an integer type
            st.ne[("ld", ("fld", ("call", "tybase", ("ld", fe(a, "type"))), "type"))] = frozenset([E["Tyvoid"]])
        st.ne[("ld", fe(self.a[0], "op"))] = frozenset([E["Oarr"]])
        argv = [("S",), n]
        if fn == "rval":
            argv.append(dst)
        out = []
        for s, v in it.run(fn, argv, st=st):
            if any(e[0] == "noreturn" for e in s.events):
                continue
            out.append((s, v))
        return out

    # -- facts a statement list establishes once control is past its end -----
    def facts(self, stmts, upto):
        """conditions known at position `upto` (list of (cond, truth))"""
        E = self.E
        pos = {}
        for i, x in enumerate(stmts):
            if x[0] == "lbl":
                pos[x] = i
        out = []

        def reaches(i, seen):
            """can control starting at i get to position upto without the abort call?"""
            while i < upto:
                if i in seen:
                    return False
                seen.add(i)
                x = stmts[i]
                if x[0] == "n" and x[1] == E["Ocall"] and x[2] and x[2][0] == ("ld", ("glob", "abortoob")):
                    return False
                if x[0] == "n" and x[1] == E["Ojmp"]:
                    if x[2][0] not in pos:
                        raise AnalysisBroken("jump to a label that is not in the list")
                    i = pos[x[2][0]]
                    continue
                if x[0] == "n" and x[1] == E["Ocjmp"]:
                    return any(reaches(pos[l], seen) for l in x[2][1:3] if l in pos)
                if x[0] == "n" and x[1] == E["Oret"]:
                    return False
                i += 1
            return True
        for i, x in enumerate(stmts[:upto]):
            if x[0] == "n" and x[1] == E["Ocjmp"]:
                if any(l not in pos for l in x[2][1:3]):
                    continue
                t = reaches(pos[x[2][1]], set())
                f = reaches(pos[x[2][2]], set())
                if pos[x[2][1]] >= upto and pos[x[2][2]] >= upto:
                    continue
                if t != f:
                    out.append((x[2][0], t))
        return out

    def strip(self, t):
        while isinstance(t, tuple) and t[0] == "rv":
            t = t[1]
        return t

    def norm(self, t):
        if isinstance(t, tuple):
            if t[0] in ("rv",):
                return self.norm(t[1])
            return tuple(self.norm(x) for x in t)
        return t

    def rel(self, facts, table, a, b):
        N = self.N
        for cnd, truth in facts:
            if cnd[0] != "n" or len(cnd[2]) != 2:
                continue
            r = table.get(N.opname.get(cnd[1]))
            if r and r[2] == truth and self.norm(cnd[2][r[0]]) == self.norm(a) and b(cnd[2][r[1]]):
                return True
        return False

    def islen(self, kind):
        E = self.E

        def f(t):
            t = self.norm(t)
            if kind == "Tyarray":
                while isinstance(t, tuple) and t[0] == "n" and t[1] in (E["Ozwiden"], E["Oswiden"]):
                    t = t[2][0]
                return t == self.asize
            base = ("n", E["Oaddr"], (self.a[0],))
            want = ("n", E["Oderef"], (("n", E["Oadd"], (base, ("lit", 8))),))
            want2 = ("n", E["Oderef"], (("n", E["Oadd"], (("lit", 8), base)),))
            return t in (want, want2)
        return f

    def split(self, addr):
        """base + idx * scale -> (base, idx, scale)"""
        E = self.E
        addr = self.norm(addr)
        if addr[0] != "n" or addr[1] != E["Oadd"]:
            return None
        for b, m in (addr[2], addr[2][::-1]):
            if m[0] == "n" and m[1] == E["Omul"]:
                for i, k in (m[2], m[2][::-1]):
                    if k[0] == "lit":
                        return b, i, k[1]
        return None

    def baseok(self, b, kind):
        E = self.E
        ad = ("n", E["Oaddr"], (self.a[0],))
        return b == (ad if kind == "Tyarray" else ("n", E["Oderef"], (ad,)))

    def scaleok(self, k):
        while isinstance(k, tuple) and k[0] == "cast":
            k = k[-1]
        return k == ("call", "tysize", self.elem)


def stmts(s):
    return [e[2] for e in s.events if e[0] == "push" and isinstance(e[1], tuple) and e[1][0] == "fld" and e[1][2] == "stmts" and e[1][1] == ("S",)]


def settled(X, st, keep):
    """the statements with each temporary replaced by the value it was set to"""
    E = X.E
    env, out = {}, []

    def sub(t):
        if t in env:
            return env[t]
        if isinstance(t, tuple):
            return tuple(sub(y) for y in t)
        return t
    for x in st:
        x = X.norm(x)
        if x[0] == "n" and x[1] == E["Oset"] and x[2][0][0] == "temp" and x[2][0] != keep:
            v = sub(x[2][1])
            env[x[2][0]] = v
            out.append(("n", E["Oset"], (x[2][0], v)) + tuple(x[3:]))
        elif x[0] == "temp":
            out.append(x)
        else:
            out.append(sub(x))
    return out, env, sub


def describe(c, N, st):
    return "; ".join(N.show(x) for x in st)[:300]


def index(c, X):
    E, N = X.E, X.N
    for fn in ("rval", "lval"):
        for kind in ("Tyarray", "Tyslice"):
            paths = X.run(fn, "Oidx", kind, 0)
            c.unit("6/simp.c:%s index of %s" % (fn, kind))
            if not paths:
                raise AnalysisBroken("no path lowers an index of a %s in %s" % (kind, fn))
            for s, v in paths:
                st = stmts(s)
                v = X.norm(v)
                key = "%s %s" % (fn, kind)
                if v[0] == "n" and v[1] == E["Oderef"]:
                    a = v[2][0]
                else:
                    a = None
                    # the value may have been copied out already
                    for x in st:
                        for y in subterms(X.norm(x)):
                            if isinstance(y, tuple) and len(y) == 3 and y[0] == "n" and y[1] == E["Oderef"] and X.split(y[2][0]):
                                a = y[2][0]
                sp = X.split(a) if a else None
                if sp is None:
                    raise AnalysisBroken("cannot see the element address in %s" % N.show(v)[:200])
                b, u, k = sp
                c.decide(X.baseok(b, kind), "base", key, "an indexed %s is addressed from %s" % (kind, N.show(b)), key)
                c.decide(X.scaleok(k), "scale", key, "an index into a %s is scaled by %s, not by the size of an element" % (kind, show_(k)), key)
                upto = len(st)
                for i, x in enumerate(st):
                    if any(y == a for y in subterms(X.norm(x))) and not (x[0] == "n" and x[1] == E["Ocjmp"]):
                        upto = min(upto, i)
                f = X.facts(st, upto)
                c.decide(X.rel(f, LT, u, X.islen(kind)), "checked", key,
                         "%s: element %s of a %s is reached without aborting when it is not below the length (unsigned): %s" % (fn, N.show(u), kind, describe(c, N, st)), key)


def slicing(c, X):
    E, N = X.E, X.N
    for kind in ("Tyarray", "Tyslice", "Typtr"):
        for dst in (0, ("D",)):
            paths = X.run("rval", "Oslice", kind, dst)
            key = "%s%s" % (kind, " into" if dst else "")
            c.unit("6/simp.c:rval slice of " + key)
            if not paths:
                raise AnalysisBroken("no path lowers a slice of a %s" % kind)
            for s, v in paths:
                st = stmts(s)
                raw = [X.norm(x) for x in st]
                st, env, sub = settled(X, st, X.norm(v))
                sets = [(i, x) for i, x in enumerate(st) if x[0] == "n" and x[1] == E["Oset"] and x[2][0] not in env]
                ln = bs = None
                first = len(st)
                for i, x in sets:
                    val = X.norm(x[2][1])
                    if val[0] == "n" and val[1] == E["Osub"]:
                        ln = val
                        first = min(first, i)
                    elif X.split(val):
                        bs = val
                        first = min(first, i)
                if ln is None or bs is None:
                    raise AnalysisBroken("cannot see the new slice in: " + describe(c, N, st))
                b, u, k = X.split(bs)
                end, start = ln[2]
                if X.norm(v) == dst:
                    # the destination may be what the operands read
                    late = [y for x in raw[first + 1:] for y in subterms(x) if y in X.a]
                    c.decide(not late, "overlap", key, "the bounds of a slice are read again after its destination has been written: " + describe(c, N, raw[first:]), key)
                c.decide(start == u, "slice", key, "the slice starts at %s but its length is counted from %s" % (N.show(u), N.show(start)), key)
                argn = [X.norm(y) for y in subterms(end) if y in X.a]
                c.decide(X.a[2] in argn, "slice", key + " end", "the slice ends at %s" % N.show(end), key)
                argn = [X.norm(y) for y in subterms(start) if y in X.a]
                c.decide(X.a[1] in argn, "slice", key + " start", "the slice starts at %s" % N.show(start), key)
                c.decide(X.scaleok(k), "scale", "slice " + key, "the start of a slice of a %s is scaled by %s, not by the size of an element" % (kind, show_(k)), key)
                if kind == "Typtr":
                    continue
                c.decide(X.baseok(b, kind), "base", "slice " + key, "a slice of a %s is taken from %s" % (kind, N.show(b)), key)
                f = X.facts(st, first)
                c.decide(X.rel(f, LE, end, X.islen(kind)), "checked", "slice end " + key,
                         "a %s is sliced without aborting when the end is past its length: %s" % (kind, describe(c, N, st)), key + " end")
                c.decide(X.rel(f, LE, start, lambda t: X.norm(t) == end), "checked", "slice start " + key,
                         "a %s is sliced without aborting when the start is past the end: %s" % (kind, describe(c, N, st)), key + " start")


def lengths(c, X):
    """.len is the stored length itself"""
    E, N = X.E, X.N
    for kind in ("Tyarray", "Tyslice"):
        n = 0
        for s, v in X.run("rval", "Osllen", kind, 0):
            v = X.norm(v)
            while v[0] == "n" and v[1] in (E["Otrunc"], E["Ozwiden"], E["Oswiden"]):
                v = v[2][0]
            n += 1
            c.decide(X.islen(kind)(v), "length", kind, "the length of a %s reads %s" % (kind, N.show(v)), kind)
        if not n:
            raise AnalysisBroken("no path lowers .len of a " + kind)


def constslices(c, X):
    """constant slices are checked while their data is laid out"""
    P = Program(["6/blob.c", "parse/node.c"])
    N = Nodes(P)
    E = P.enums
    n = ("N",)
    args = ("ld", fe(n, "args"))
    base, lo, hi = [("ld", ("idx", args, i)) for i in range(3)]
    T = ("call", "tybase", ("ld", fe(base, "type")))
    pr = N.prims()

    def getint(it, s, av, x, ctx):
        loc = av[1][1] if isinstance(av[1], tuple) and av[1][0] == "addr" else ("deref", av[1])
        no = s.copy()
        s.store[loc] = ("val", av[0])
        return [(s, 1), (no, 0)]
    pr["getintlit"] = getint

    def ref(it, s, av, x, ctx):
        s.events.append(("ref",) + tuple(av))
        return [(s, ("blob", av[0], av[1]))]
    pr["mkblobref"] = ref
    it = Interp(P, pr, maxdepth=8, pure=("htget", "hthas"))
    it.inline = set(P.tus[0].funcs) | {"exprop"}
    c.unit("6/blob.c:constant slices")
    done = 0
    st = State()
    st.store[fe(n, "op")] = E["Oslice"]
    for s, v in it.run("blobslice", [("b",), ("globls",), ("strtab",), n], st=st):
        if any(e[0] == "noreturn" for e in s.events):
            continue
        refs = [e for e in s.events if e[0] == "ref"]
        if not refs:
            continue
        done += 1
        A = s.assume
        L, H, Z = ("val", lo), ("val", hi), ("val", ("ld", ("fld", T, "asize")))

        def le(a, b):
            return A.get(("bin", "<=", a, b)) is True or A.get(("bin", ">", a, b)) is False or A.get(("bin", ">=", b, a)) is True or A.get(("bin", "<", b, a)) is False
        c.decide(le(L, H), "constant", "start", "a constant slice is emitted although its start may be past its end")
        c.decide(le(H, Z), "constant", "end", "a constant slice is emitted although its end may be past the end of the array")
    if not done:
        raise AnalysisBroken("no path emits a constant slice")


def abortstub(c):
    """the routine a failed check calls raises SIGABRT in this process, and never comes back"""
    rel = "rt/abort-linux.s"
    a = Asm(rel)
    c.unit(rel)
    for label in ("_rt$abort_oob",):
        c.decide(label in a.globl, "abort", "global", "%s is not global in %s" % (label, rel))
        ends = 0
        for s in Exec(a, unroll=2, maxpaths=64).run(label):
            calls = [e[1] for e in s.ev if e[0] == "syscall"]
            exits = [r for r in calls if r["rax"] in (60, 231)]
            back = [e for e in s.ev if e[0] in ("ret", "fallsoff", "tail")]
            kills = [r for r in calls if r["rax"] == 62]
            if not back and not exits:
                continue
            ends += 1
            c.decide(not back, "abort", "return", "the abort routine can %s when the signal is ignored" % ("fall through" if back and back[0][0] == "fallsoff" else "return"))
            c.decide(any(r["rsi"] == 6 and isinstance(r["rdi"], tuple) and r["rdi"][:2] == ("sysret", 39) for r in kills), "abort", "signal",
                     "the abort routine does not send SIGABRT to its own process before it stops")
            c.decide(all(isinstance(r["rdi"], int) and r["rdi"] & 0xff != 0 for r in exits), "abort", "status", "the abort routine can exit with a status of success")
        if not ends and not a.insns:
            raise AnalysisBroken("no path through the abort routine")


def check(c):
    abortstub(c)
    X = Ctx()
    index(c, X)
    slicing(c, X)
    lengths(c, X)
    constslices(c, X)
    c.need("checked", 12)
    c.need("scale", 8)
    c.need("constant", 2)


report.run("C02", "terms of the emitted nodes: each element address base + index*size is only used after a conditional jump whose fall-through "
           "implies index < length (unsigned), each new slice only after start <= end <= length; otherwise the abort routine is called", check,
           ["the abort routine does not return", "lowering of unsigned compares and jumps is C04"])
