"""Match statements: what the code that the decision tree turns into does for every value of a type,
against the meaning of patterns."""
from aggr import *  # noqa
import itertools

# types: those of shape.py and calls.py; a string is ("slice", "Tybyte")
# patterns: ("_",) ("x", name) ("lit", n) ("tup", ps) ("str", ((i, p)..)) ("arr", ps) ("ucon", k, p|None)
#           ("addr", p) ("or", a, b) ("const", name, p) ("sl", bytes)
STR = ("slice", "Tybyte")


class Fatal(Exception):
    """the compiler rejects the program"""


class MatchC(Aggr):
    FILES = ["mi/match.c", "6/typeinfo.c", "parse/node.c", "parse/type.c", "parse/names.c", "util/util.c"]

    def __init__(self):
        super().__init__()
        pr = self.pr
        pr["memdup"] = self.memdup
        pr["lcat"] = self.lcat
        pr["memcpy"] = self.memcpy
        pr["getenv"] = nop()
        pr["fatal"] = self.fatal
        pr["mkname"] = lambda it, s, av, n, ctx: [(s, self.T.name(s, it.resolve(av[1], s)[1].strip('"')))]
        pr["streq"] = lambda it, s, av, n, ctx: [(s, int(it.resolve(av[0], s) == it.resolve(av[1], s)))]
        pr["namestr"] = lambda it, s, av, n, ctx: [(s, it.resolve(it.read(("fld", ("fld", it.resolve(av[0], s), "name"), "name"), s), s))]
        pr["dtreedump"] = nop()
        pr["mkbool"] = self.T.p_mkbool

    # -- stand-ins ---------------------------------------------------------------------
    def memdup(self, it, s, av, n, ctx):
        l = it.resolve(av[0], s)
        if l == 0:
            return [(s, 0)]
        if not (isinstance(l, tuple) and l[0] in ("lst", "o")):
            raise AnalysisBroken("a copy of something that is not a list")
        new = self.T.array(s, [])
        for k in [k for k in s.store if k[0] == "idx" and k[1] == l]:
            s.store[("idx", new, k[2])] = s.store[k]
        return [(s, new)]

    def memcpy(self, it, s, av, n, ctx):
        d, a = it.resolve(av[0], s), it.resolve(av[1], s)
        for k in [k for k in s.store if k[0] == "idx" and k[1] == a]:
            s.store[("idx", d, k[2])] = s.store[k]
        return [(s, d)]

    def lcat(self, it, s, av, n, ctx):
        l, k = it.resolve(av[2], s), it.resolve(av[3], s)
        if not isinstance(k, int):
            raise AnalysisBroken("a list of unknown length is appended")
        for i in range(k):
            self.T.p_lappend(it, s, [av[0], av[1], it.resolve(it.read(("idx", l, i), s), s)], n, ctx)
        return [(s, 0)]

    def fatal(self, it, s, av, n, ctx):
        m = it.resolve(av[1], s)
        self.died = m[1] if isinstance(m, tuple) and m[0] == "str" else "?"
        return [(s, ("noreturn",))]

    # -- building ------------------------------------------------------------------------
    def intpat(self, v, ty):
        s, T = self.s, self.T
        t = self.typ(ty)
        f = {"Tybool": ("Lbool", "boolval"), "Tychar": ("Lchr", "chrval"), "Tyflt32": ("Lflt", "fltval"), "Tyflt64": ("Lflt", "fltval")}.get(base(ty), ("Lint", "intval"))
        if base(ty) == "Tyvoid":
            l = T.lit(s, "Lvoid")
        else:
            l = T.lit(s, f[0], **{f[1]: v})
        s.store[("fld", ("fld", l, "lit"), "type")] = t
        return T.expr(s, "Olit", [l], t)

    def pat(self, p, ty):
        s, T = self.s, self.T
        t, b, k = self.typ(ty), base(ty), p[0]
        if k == "_":
            return T.expr(s, "Ogap", [], t)
        if k == "x":
            self.decl(s, p[1], t)
            return self.var(s, p[1], t)
        if k == "lit":
            return self.intpat(p[1], ty)
        if k == "tup":
            return T.expr(s, "Otup", [self.pat(q, u) for q, u in zip(p[1], b[1])], t)
        if k == "arr":
            return T.expr(s, "Oarr", [self.pat(q, b[1]) for q in p[1]], t)
        if k == "str":
            l = []
            for i, q in p[1]:
                o = self.pat(q, b[1][i])
                s.store[("fld", ("fld", o, "expr"), "idx")] = T.name(s, "m%d" % i)
                l.append(o)
            return T.expr(s, "Ostruct", l, t)
        if k == "ucon":
            a = [T.name(s, "C%d" % p[1])]
            if p[2] is not None:
                a.append(self.pat(p[2], b[1][p[1]]))
            return T.expr(s, "Oucon", a, t)
        if k == "addr":
            return T.expr(s, "Oaddr", [self.pat(p[1], b[1])], t)
        if k == "or":
            return T.expr(s, "Olor", [self.pat(p[1], ty), self.pat(p[2], ty)], t)
        if k == "const":
            if ("idx", ("declstab",), self.did(p[1])) not in s.store:
                d = self.decl(s, p[1], t, isconst=1, isglobl=1)
                s.store[("fld", ("fld", d, "decl"), "init")] = self.pat(p[2], ty)
            o = self.var(s, p[1], t)
            s.store[fe(o, "isconst")] = 1
            return o
        if k == "sl":
            l = T.lit(s, "Lstr")
            q = ("fld", ("fld", l, "lit"), "strval")
            buf = T.array(s, [c - 256 if c > 127 else c for c in p[1]])     # char is signed
            s.store[("fld", q, "len")] = len(p[1])
            s.store[("fld", q, "buf")] = buf
            return T.expr(s, "Olit", [l], t)
        raise AnalysisBroken("pattern " + k)

    # -- meaning -------------------------------------------------------------------------
    def matches(self, p, v):
        """the variables, or None where the pattern does not match"""
        k = p[0]
        if k == "_":
            return {}
        if k == "x":
            return {p[1]: v}
        if k == "lit":
            return {} if v == p[1] else None
        if k == "sl":
            return {} if v == ("s", p[1]) else None
        if k in ("tup", "arr"):
            return self.all(p[1], v[1])
        if k == "str":
            return self.all([q for _, q in p[1]], [v[1][i] for i, _ in p[1]])
        if k == "ucon":
            if v[1] != p[1]:
                return None
            return {} if p[2] is None else self.matches(p[2], v[2])
        if k == "addr":
            return self.matches(p[1], v[1])
        if k == "const":
            return self.matches(p[2], v)
        a = self.matches(p[1], v)
        return a if a is not None else self.matches(p[2], v)

    def all(self, ps, vs):
        out = {}
        for q, w in zip(ps, vs):
            m = self.matches(q, w)
            if m is None:
                return None
            out.update(m)
        return out

    # -- values ----------------------------------------------------------------------------
    def values(self, ty, lits):
        """every value as far as the patterns tell them apart"""
        b = base(ty)
        if b == "Tybool":
            return [0, 1]
        if b == "Tyvoid":
            return [0]
        if isinstance(b, str):
            return sorted(lits.get("i", set())) + [99]
        if b[0] in ("tuple", "struct") and len(b[1]) > 8 or b[0] == "array" and b[2] > 8:
            # two parts at a time
            vs = [self.values(t, lits) for t in (b[1] if b[0] != "array" else [b[1]] * b[2])]
            out = set()
            for q in set(lits.get("t", ())) | {tuple(v[0] for v in vs)}:
                for i, j in itertools.combinations(range(len(vs)), 2):
                    for u in vs[i]:
                        for w in vs[j]:
                            out.add(q[:i] + (u,) + q[i + 1:j] + (w,) + q[j + 1:])
            return [("t", q) for q in sorted(out)]
        if b[0] in ("tuple", "struct"):
            return [("t", q) for q in itertools.product(*[self.values(t, lits) for t in b[1]])]
        if b[0] == "array":
            return [("t", q) for q in itertools.product(*[self.values(b[1], lits)] * b[2])]
        if b[0] == "union":
            return [("u", i, w) for i, t in enumerate(b[1]) for w in (self.values(t, lits) if t else [None])]
        if b[0] == "ptr":
            return [("p", w) for w in self.values(b[1], lits)]
        if b == STR:
            out = {b"", b"z"}
            for q in lits.get("s", ()):
                out |= {q, q[:-1], q + b"z", q[:-1] + b"z", b"z" + q[1:]}
            return [("s", q) for q in sorted(out)]
        raise AnalysisBroken("values of a type")

    def lits(self, p, out):
        if p[0] == "lit":
            out.setdefault("i", set()).add(p[1])
        elif p[0] == "sl":
            out.setdefault("s", set()).add(p[1])
        else:
            for q in p[1:]:
                self.litsin(q, out)

    def litsin(self, q, out):
        if isinstance(q, tuple):
            if q and isinstance(q[0], str) and q[0] in ("_", "x", "lit", "tup", "str", "arr", "ucon", "addr", "or", "const", "sl"):
                self.lits(q, out)
            else:
                for r in q:
                    self.litsin(r, out)

    # -- what the code does ------------------------------------------------------------------
    def load(self, o):
        """what an expression over the value reads: a list of steps"""
        s, T = self.s, self.T
        op, a = T.op(s, o), T.args(s, o)
        if op == "Ovar":
            if s.store.get(fe(o, "did")) != self.valdid:
                raise Bad("something other than the value is read")
            return self.valpath
        if op not in ("Oderef", "Omemb", "Otupget", "Oidx", "Outag", "Oudata"):
            raise Bad("a part is reached by %s" % op)
        return (o, self.load(a[0]))

    def part(self, o, v):
        """(value, type) of the part of the value that an expression stands for"""
        s, T = self.s, self.T
        op, a = T.op(s, o), T.args(s, o)
        ty = s.store.get(fe(o, "type"), 0)
        if op == "Ovar":
            if s.store.get(fe(o, "did")) != self.valdid:
                raise Bad("something other than the value is read")
            return v, self.valty
        if op not in ("Oderef", "Omemb", "Otupget", "Oidx", "Outag", "Oudata"):
            raise Bad("a part is reached by %s" % op)
        w, t = self.part(a[0], v)
        b = base(t)
        if op == "Oderef":
            if b[0] != "ptr":
                raise Bad("something that is no pointer is followed")
            r = w[1], b[1]
        elif op == "Omemb":
            nm = s.store.get(("fld", ("fld", a[1], "name"), "name"))[1].strip('"')
            if b[0] == "slice" and nm == "len":
                r = len(w[1]), "Tyuint64"
            elif b[0] == "struct" and nm[0] == "m" and int(nm[1:]) < len(b[1]):
                r = w[1][int(nm[1:])], b[1][int(nm[1:])]
            else:
                raise Bad("the member %s of a %s is read" % (nm, b[0]))
        elif op in ("Otupget", "Oidx"):
            if T.littype(s, a[1]) != "Lint":
                raise Bad("a part is numbered by something that is no literal")
            i = T.get(s, T.args(s, a[1])[0], "lit", "intval")
            if op == "Otupget":
                if b[0] != "tuple" or not 0 <= i < len(b[1]):
                    raise Bad("element %d of a %s is read" % (i, b[0]))
                r = w[1][i], b[1][i]
            else:
                if b[0] not in ("array", "slice"):
                    raise Bad("a %s is indexed" % b[0])
                if not 0 <= i < len(w[1]):
                    raise Bad("element %d is read of %s" % (i, vshow(w)))
                r = w[1][i], b[1]
        elif op == "Outag":
            if b[0] != "union":
                raise Bad("the tag of a %s is read" % b[0])
            r = w[1], "Tyint32"
        else:
            if b[0] != "union" or w[2] is None:
                raise Bad("the value of %s is read, which has none" % vshow(w))
            r = w[2], None
            for q in b[1]:
                if q and self.typ(q) == ty and b[1][w[1]] == q:
                    r = w[2], q
            if r[1] is None:
                raise Bad("the value of %s is read as another type" % vshow(w))
        if ty != self.typ(r[1]):
            raise Bad("a part has the type %s" % show_(ty))
        return r

    def walk(self, out, v, stop, i=0):
        """run over the emitted list -> (what was reached, variables)"""
        s, T = self.s, self.T
        at = {}
        for j, o in enumerate(out):
            if T.isexpr(s, o) and T.littype(s, o) == "Llbl":
                if o in at:
                    raise Bad("a label is there twice")
                at[o] = j
        env = {}
        for _ in range(10 * len(out) + 10):
            if i >= len(out):
                return None, env
            o = out[i]
            if o in stop:
                return o, env
            i += 1
            if not T.isexpr(s, o):
                return o, env
            op, a = T.op(s, o), T.args(s, o)
            if op == "Olit":
                continue
            if op == "Oasn":
                if T.op(s, a[0]) != "Ovar":
                    raise Bad("something that is no variable is assigned to")
                env[s.store[fe(a[0], "did")]] = self.part(a[1], v)[0]
                continue
            if op == "Ojmp":
                d = a[0]
            elif op == "Ocjmp":
                if T.op(s, a[0]) != "Oeq":
                    raise Bad("a test that is no comparison")
                l, r = T.args(s, a[0])
                w, t = self.part(l, v)
                rt = s.store.get(fe(r, "type"), 0)
                if rt != self.typ(t):
                    raise Bad("a part of type %s is compared to a literal of type %s" % (tn(t), show_(rt)))
                k = T.littype(s, r)
                if k == "Lvoid":
                    eq = True
                elif k in ("Lint", "Lbool", "Lchr", "Lflt"):
                    n = T.get(s, T.args(s, r)[0], "lit", {"Lint": "intval", "Lbool": "boolval", "Lchr": "chrval", "Lflt": "fltval"}[k])
                    if not isinstance(w, (int, float)):
                        raise Bad("%s is compared to a number" % vshow(w))
                    eq = self.trunc(n, t) == self.trunc(w, t)
                else:
                    raise Bad("a comparison to something that is no literal")
                d = a[1] if eq else a[2]
            else:
                raise Bad("a match is made of %s" % op)
            if d in stop:
                return d, env
            if d not in at:
                raise Bad("a jump to a label that is not there")
            i = at[d]
        raise Bad("the code of a match does not end")

    def trunc(self, n, t):
        if isinstance(n, float):
            return n
        w = bits(t) if base(t) != "Tyvoid" else 1
        return n & ((1 << w) - 1)

    def start(self, ty):
        self.begin()
        self.it.nstates = 0
        self.valty = ty
        s = self.s
        self.val = self.var(s, ".val", self.typ(ty))
        self.valdid = self.did(".val")

    def getlist(self, lv, nv):
        l, n = self.s.store.get(lv, 0), self.s.store.get(nv, 0)
        return [self.s.store[("idx", l, i)] for i in range(n)]

    def attempt(self, fn, args):
        self.it.nstates = 0
        self.died = None
        ok = res = self.it.run(fn, args, rel="mi/match.c", st=self.s)
        if not res:
            if self.died:
                raise Fatal(self.died)
            raise Bad("the compiler dies in %s" % (self.it.deadat if hasattr(self.it, "deadat") else fn))
        if len(res) != 1 or self.died:
            if self.died:
                raise AnalysisBroken("%s is and is not rejected" % fn)
            raise AnalysisBroken("%s has %d outcomes for one match: %s" % (fn, len(res), forkwhy(res)))
        self.s = ok[0][0]

    def pvars(self, p, out):
        if p[0] == "x":
            out.append(p[1])
        elif p[0] == "or":
            self.pvars(p[1], out)
        elif p[0] != "const":
            for q in p[1:]:
                self.pvin(q, out)
        return out

    def pvin(self, q, out):
        if isinstance(q, tuple):
            if q and isinstance(q[0], str):
                self.pvars(q, out)
            else:
                for r in q:
                    self.pvin(r, out)

    def match(self, ty, arms):
        """a whole match statement"""
        self.start(ty)
        s, T = self.s, self.T
        blocks, ms = [], []
        for p in arms:
            n = self.pat(p, ty)
            ds = [self.decl(s, x, None) for x in self.pvars(p, [])]
            b = T.block(s, ds, T.stab(s))
            blocks.append(b)
            ms.append(T.stmt(s, "Nmatch", "match", pat=n, block=b))
        m = T.stmt(s, "Nmatchstmt", "matchstmt", matches=T.array(s, ms), nmatches=len(ms))
        out, nout = ("glob", ".out"), ("glob", ".nout")
        s.store[out] = s.store[nout] = 0
        lits = {}
        for p in arms:
            self.lits(p, lits)
        vals = self.values(ty, lits)
        want = []
        for v in vals:
            w = None
            for i, p in enumerate(arms):
                e = self.matches(p, v)
                if e is not None:
                    w = (i, e)
                    break
            want.append(w)
        try:
            self.attempt("genmatch", [m, self.val, ("addr", out), ("addr", nout)])
        except Fatal as f:
            if "nonexhaustive" in str(f):
                if None not in want:
                    raise Bad("it is rejected as leaving values out")
                return "rejected"
            if "earlier" in str(f):
                if not self.redundant(arms, vals):
                    raise Bad("it is rejected for an arm that earlier ones cover, and there is none")
                return "rejected"
            raise Bad("it is rejected: %s" % f)
        if None in want:
            raise Bad("it is accepted, though no arm is for %s" % vshow(vals[want.index(None)]))
        code = self.getlist(out, nout)
        for b in blocks:
            if code.count(b) != 1:
                raise Bad("the body of arm %d is there %d times" % (blocks.index(b) + 1, code.count(b)))
            got, env = self.walk(code, vals[0], set(blocks), code.index(b) + 1)
            if got is not None:
                raise Bad("the body of arm %d runs on into that of arm %d" % (blocks.index(b) + 1, blocks.index(got) + 1))
        for v, (i, e) in zip(vals, want):
            got, env = self.walk(code, v, set(blocks))
            if got is None or got not in blocks:
                raise Bad("no arm runs for %s" % vshow(v))
            k = blocks.index(got)
            if k != i:
                raise Bad("arm %d runs for %s instead of arm %d" % (k + 1, vshow(v), i + 1))
            self.bound(arms[i], e, env, v, self.declinits(got))
        return "accepted"

    def declinits(self, b):
        s, T = self.s, self.T
        out = {}
        for i in range(T.get(s, b, "block", "nstmts")):
            d = T.get(s, T.get(s, b, "block", "stmts"), i)
            init = T.get(s, d, "decl", "init")
            if init:
                out[T.get(s, d, "decl", "did")] = init
        return out

    def bound(self, p, want, env, v, inits):
        for x, w in want.items():
            did = self.did(x)
            if did in inits:
                got = self.part(inits[did], v)[0]
            elif did in env:
                got = env[did]
            else:
                raise Bad("%s is not set for %s" % (x, vshow(v)))
            if got != w:
                raise Bad("%s is %s for %s" % (x, vshow(got), vshow(v)))

    def alts(self, p):
        """the alternatives of a pattern, in order"""
        k = p[0]
        if k == "or":
            return self.alts(p[1]) + self.alts(p[2])
        if k in ("tup", "arr"):
            return [(k, q) for q in itertools.product(*[self.alts(q) for q in p[1]])]
        if k == "str":
            return [(k, tuple(zip([i for i, _ in p[1]], q))) for q in itertools.product(*[self.alts(q) for _, q in p[1]])]
        if k == "ucon":
            return [p] if p[2] is None else [(k, p[1], q) for q in self.alts(p[2])]
        if k == "addr":
            return [(k, q) for q in self.alts(p[1])]
        return [p]

    def redundant(self, arms, vals):
        """some alternative is never the first that matches"""
        al = [q for p in arms for q in self.alts(p)]
        hit = set()
        for v in vals:
            for i, q in enumerate(al):
                if self.matches(q, v) is not None:
                    hit.add(i)
                    break
        return len(hit) < len(al)

    def single(self, ty, p):
        """the pattern of a loop"""
        self.start(ty)
        s, T = self.s, self.T
        n = self.pat(p, ty)
        lt = T.p_genlbl(self.it, s, [0], None, None)[0][1]
        lf = T.p_genlbl(self.it, s, [0], None, None)[0][1]
        g = [("glob", x) for x in (".out", ".nout", ".cap", ".ncap")]
        for x in g:
            s.store[x] = 0
        self.attempt("genonematch", [n, self.val, lt, lf] + [("addr", x) for x in g])
        code, caps = self.getlist(g[0], g[1]), self.getlist(g[2], g[3])
        lits = {}
        self.lits(p, lits)
        for v in self.values(ty, lits):
            e = self.matches(p, v)
            got, env = self.walk(code, v, {lt, lf})
            if got not in (lt, lf):
                raise Bad("%s is neither taken nor skipped" % vshow(v))
            if (got == lt) != (e is not None):
                raise Bad("%s is %s" % (vshow(v), "taken" if got == lt else "skipped"))
            if e is not None:
                self.walk_caps(caps, v, env)
                self.bound(p, e, env, v, {})

    def walk_caps(self, caps, v, env):
        s, T = self.s, self.T
        for o in caps:
            if T.op(s, o) != "Oasn":
                raise Bad("a variable is set by %s" % T.op(s, o))
            a = T.args(s, o)
            env[s.store[fe(a[0], "did")]] = self.part(a[1], v)[0]


def vshow(v):
    if isinstance(v, tuple):
        if v[0] == "t":
            return "(" + ", ".join(vshow(w) for w in v[1]) + ")"
        if v[0] == "u":
            return "`C%d" % v[1] + (" " + vshow(v[2]) if v[2] is not None else "")
        if v[0] == "p":
            return "&" + vshow(v[1])
        if v[0] == "s":
            return repr(v[1])[1:]
    return str(v)


def tn(t):
    b = base(t)
    if isinstance(t, tuple) and t[0] == "name":
        return tn(t[1]) + "~"
    if isinstance(b, str):
        return b[2:]
    if b[0] in ("tuple", "struct"):
        o, e = ("(", ")") if b[0] == "tuple" else ("{", "}")
        return o + ",".join(tn(u) for u in b[1]) + e
    if b[0] == "union":
        return "<" + "|".join(tn(u) if u else "_" for u in b[1]) + ">"
    if b[0] == "array":
        return "%s[%d]" % (tn(b[1]), b[2])
    if b[0] == "slice":
        return tn(b[1]) + "[:]"
    return tn(b[1]) + "#"


def pshow(p):
    k = p[0]
    if k == "_":
        return "_"
    if k == "x":
        return p[1]
    if k == "lit":
        return str(p[1])
    if k == "sl":
        return repr(p[1])[1:]
    if k == "tup":
        return "(" + ", ".join(map(pshow, p[1])) + ")"
    if k == "arr":
        return "[" + ", ".join(map(pshow, p[1])) + "]"
    if k == "str":
        return "[" + ", ".join(".m%d=%s" % (i, pshow(q)) for i, q in p[1]) + "]"
    if k == "ucon":
        return "`C%d" % p[1] + (" " + pshow(p[2]) if p[2] is not None else "")
    if k == "addr":
        return "&" + pshow(p[1])
    if k == "const":
        return "const %s" % pshow(p[2])
    return "(%s || %s)" % (pshow(p[1]), pshow(p[2]))
