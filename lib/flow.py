"""Meaning of source trees and of flattened statement lists over opaque operands.

Both evaluators work on symbolic values: variables, results of calls, operators over them.  A call
may change every variable, and sees all of them; a test of an opaque value goes both ways.  Two
pieces of code agree when on every combination of outcomes they make the same calls with the same
arguments, in the same order, and leave the same values behind."""
from ccast import AnalysisBroken


class Cut(Exception):
    pass


class Need(Exception):
    def __init__(self, v):
        self.v = v


def deref(v):
    """the place that an address leads to"""
    return v[1:] if isinstance(v, tuple) and v[0] == "&" and v[1] in ("elem", "memb", "deref") else ("deref", v)


class World:
    """state of one run: variables, log of effects, outcomes of tests"""
    def __init__(self, outcomes, maxsteps=400):
        self.env = {}
        self.tmp = {}
        self.mem = {}
        self.base = 0
        self.membase = 0
        self.log = []
        self.names = {}
        self.out = outcomes
        self.calls = 0
        self.steps = maxsteps

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Cut()

    def var(self, x):
        if x.startswith("."):
            if x not in self.tmp:
                return ("unset",)
            return self.tmp[x]
        # names ending in 0 are out of the reach of other functions
        return self.env.get(x, ("v", x, 0 if x.endswith("0") else self.base))

    def setvar(self, x, v):
        if x.startswith("."):
            self.tmp[x] = v
        else:
            self.env[x] = v

    def snapshot(self):
        return tuple(sorted((k, v) for k, v in self.env.items() if not k.endswith("0") and v != ("v", k, self.base)))

    def call(self, f, args):
        self.tick()
        self.calls += 1
        # what a pointer to a temporary leads to is seen, and may be changed
        outs = [a[1] for a in args if isinstance(a, tuple) and a[0] == "&" and isinstance(a[1], str) and a[1][0] == "."]
        args = [("&", self.alias(a[1]), self.tmp.get(a[1], ("unset",))) if a[1:] and a[0] == "&" and a[1] in outs else a for a in [x if isinstance(x, tuple) else (x,) for x in args]]
        if f == "__iternext__" and len(args) == 2 and args[1][:1] == ("&",) and len(args[1]) == 3:
            args[1] = args[1][:2] + (("unset",),)      # only ever written through
        for t in outs:
            self.tmp[t] = ("out", self.alias(t), self.calls)
        self.log.append(("call", f, tuple(args), self.snapshot(), tuple(sorted(self.mem.items(), key=repr))))
        self.base = self.membase = self.calls
        self.env = {k: v for k, v in self.env.items() if k.endswith("0")}
        self.mem = {}
        return ("res", self.calls)

    def alias(self, t):
        return self.names.setdefault(t, len(self.names))

    def load(self, loc):
        return self.mem.get(loc, ("m", loc, self.membase))

    def store(self, loc, v):
        # stores to memory are visible in order
        self.log.append(("store", loc, v))
        self.mem[loc] = v

    def test(self, v):
        self.tick()
        neg = False
        while isinstance(v, tuple) and v[0] == "Olnot":
            v, neg = v[1], not neg
        if v in (True, False):
            r = v
        else:
            if v not in self.out:
                raise Need(v)
            r = self.out[v]
        return r != neg


COMM = {}


def op(name, *vals):
    if name == "Olnot" and vals[0] in (True, False) and isinstance(vals[0], bool):
        return not vals[0]
    return (name,) + vals


# ---- the flattened form ------------------------------------------------------------------
class Flat:
    def __init__(self, T, s, stmts):
        self.T, self.s, self.stmts = T, s, stmts
        self.pos = {}
        for i, o in enumerate(stmts):
            if T.isexpr(s, o) and T.littype(s, o) == "Llbl":
                if o in self.pos:
                    raise Bad("a label is emitted twice: control that reaches it the second time cannot be told apart")
                self.pos[o] = i

    def run(self, w):
        T, s = self.T, self.s
        i = 0
        while i < len(self.stmts):
            w.tick()
            o = self.stmts[i]
            i += 1
            if not T.isexpr(s, o):
                if T.get(s, o, "type") == T.E["Ndecl"]:
                    # storage starts here
                    continue
                raise Bad("a statement that is not an expression is left: " + T.show(s, o))
            k = T.op(s, o)
            if k == "Olit":
                continue
            a = T.args(s, o)
            if k == "Ojmp":
                i = self.goto(a[0])
            elif k == "Ocjmp":
                i = self.goto(a[1] if w.test(self.ev(w, a[0])) else a[2])
            elif k == "Oret":
                v = self.ev(w, a[0]) if a and a[0] != 0 else None
                w.log.append(("ret", None if v == ("unset",) else v))
                return
            else:
                self.ev(w, o)
        w.log.append(("ret", None))

    def goto(self, l):
        if l not in self.pos:
            raise Bad("a jump goes to a label that is not emitted")
        return self.pos[l]

    def ev(self, w, o):
        T, s = self.T, self.s
        k = T.op(s, o)
        a = T.args(s, o)
        if k is None:
            raise Bad("an expression without an operator is left")
        if k == "Olit":
            l = a[0]
            lt = T.littype(s, o)
            if lt == "Lint":
                return T.get(s, l, "lit", "intval")
            if lt == "Lbool":
                return bool(T.get(s, l, "lit", "boolval"))
            if lt == "Lvoid":
                return None
            return (lt, T.get(s, l, "lit", "tag"))
        if k == "Ovar":
            return w.var(s.store[fe_(o, "did")][1])
        if k == "Ocall":
            f = self.fn(a[0])
            return w.call(f, [self.ev(w, x) for x in a[1:]])
        if k == "Oasn":
            lhs, rhs = a
            lk = T.op(s, lhs)
            if lk == "Ovar":
                v = self.ev(w, rhs)
                w.setvar(s.store[fe_(lhs, "did")][1], v)
                return v
            loc = self.loc(w, lhs)
            v = self.ev(w, rhs)
            w.store(loc, v)
            return v
        if k in ("Oidx", "Omemb", "Oderef", "Otupmemb"):
            return w.load(self.loc(w, o))
        if k == "Oaddr":
            return ("&",) + self.loc(w, a[0]) if T.op(s, a[0]) != "Ovar" else ("&", s.store[fe_(a[0], "did")][1])
        if k == "Outag":        # only enums are compared, and they are their tag
            return self.ev(w, a[0])
        if k == "Osllen":
            return ("len", self.ev(w, a[0]))
        if k == "Otupget":
            v = self.ev(w, a[0])
            i = self.ev(w, a[1])
            if isinstance(v, tuple) and v[0] == "Otup" and isinstance(i, int):
                return v[1 + i]
            return ("tupget", v, i)
        if k == "Oucon":
            return op(k, *[self.name(x) if j == 0 else self.ev(w, x) for j, x in enumerate(a)])
        if k in ("Opostinc", "Opostdec", "Opreinc", "Opredec", "Oland", "Olor", "Otern", "Oauto") or (k.endswith("eq") and k[1:] in FUSED):
            raise Bad("%s is left in the flattened form" % k)
        return op(k, *[self.ev(w, x) for x in a])

    def name(self, o):
        v = self.T.get(self.s, o, "name", "name")
        return v[1] if isinstance(v, tuple) else v

    def fn(self, o):
        if self.T.op(self.s, o) == "Ovar":
            return self.s.store[fe_(o, "did")][1]
        raise Bad("a call goes through " + self.T.show(self.s, o))

    def loc(self, w, o):
        T, s = self.T, self.s
        k = T.op(s, o)
        a = T.args(s, o)
        if k == "Ovar":
            return ("var", s.store[fe_(o, "did")][1])
        if k == "Oidx":
            b = self.ev(w, a[0])
            return ("elem", b, self.ev(w, a[1]))
        if k == "Omemb" or k == "Otupmemb":
            return ("memb", self.ev(w, a[0]), self.name(a[1]) if k == "Omemb" else self.ev(w, a[1]))
        if k == "Oderef":
            return deref(self.ev(w, a[0]))
        raise Bad("%s is stored to" % k)


FUSED = {"addeq": "Oadd", "subeq": "Osub", "muleq": "Omul", "diveq": "Odiv", "modeq": "Omod", "boreq": "Obor", "bandeq": "Oband", "bxoreq": "Obxor",
         "bsleq": "Obsl", "bsreq": "Obsr"}


def fe_(t, f):
    return ("fld", ("fld", t, "expr"), f)


class Bad(Exception):
    """the emitted code cannot mean what it should"""


class Jump(Exception):
    def __init__(self, k, v=None):
        self.k, self.v = k, v


# ---- the source form -----------------------------------------------------------------------
class Source:
    """meaning of a source tree: operands left to right, each once; increments when the operand's
    whole expression is done; the second operand of && and ||, and the arms of ?:, only when chosen"""
    def __init__(self, cmpop="s"):
        self.pending = []
        self.scopes = []
        self.cls = cmpop

    def drain(self, w, n=0):
        todo, self.pending[n:] = self.pending[n:], []
        for lv, d in todo:
            self.put(w, lv, op("Oadd" if d > 0 else "Osub", self.rd(w, lv), 1))

    def rd(self, w, lv):
        if lv[0] == "var":
            return w.var(lv[1])
        return w.load(lv)

    def put(self, w, lv, v):
        if lv[0] == "var":
            w.setvar(lv[1], v)
        else:
            w.store(lv, v)

    def lv(self, w, e):
        if e[0] == "var":
            return e
        if e[0] == "idx":
            b = self.ev(w, e[1])
            return ("elem", b, self.ev(w, e[2]))
        if e[0] == "memb":
            return ("memb", self.ev(w, e[1]), e[2])
        if e[0] == "deref":
            return deref(self.ev(w, e[1]))
        raise AnalysisBroken("source lvalue %r" % (e,))

    def cond(self, w, e):
        """value of a condition, as a test sees it"""
        return w.test(self.ev(w, e))

    def branch(self, w, e):
        n = len(self.pending)
        v = self.ev(w, e)
        self.drain(w, n)
        return v

    def ev(self, w, e):
        k = e[0]
        if k == "var":
            return w.var(e[1])
        if k in ("int", "bool"):
            return e[1]
        if k == "call":
            return w.call(e[1], [self.ev(w, x) for x in e[2:]])
        if k in ("inc", "dec"):
            l = self.lv(w, e[1])
            v = self.rd(w, l)
            self.pending.append((l, 1 if k == "inc" else -1))
            return v
        if k in ("preinc", "predec"):
            l = self.lv(w, e[1])
            v = op("Oadd" if k == "preinc" else "Osub", self.rd(w, l), 1)
            self.put(w, l, v)
            return v
        if k == "and":
            if not w.test(self.ev(w, e[1])):
                return False
            return w.test(self.branch(w, e[2]))
        if k == "or":
            if w.test(self.ev(w, e[1])):
                return True
            return w.test(self.branch(w, e[2]))
        if k == "not":
            return op("Olnot", self.ev(w, e[1]))
        if k == "tern":
            return self.branch(w, e[2] if w.test(self.ev(w, e[1])) else e[3])
        if k == "asn":
            if e[1][0] == "tup":
                v = self.ev(w, e[2])
                self.destructure(w, e[1], v)
                return v
            if e[1][0] == "gap":
                return self.ev(w, e[2])
            l = self.lv(w, e[1])
            v = self.ev(w, e[2])
            self.put(w, l, v)
            return v
        if k == "fuse":
            l = self.lv(w, e[2])
            old = self.rd(w, l) if not self.late(e[3]) else None
            v = self.ev(w, e[3])
            if old is None:
                old = self.rd(w, l)
            v = op(FUSED[e[1]], old, v)
            self.put(w, l, v)
            return v
        if k == "bin":
            a = self.ev(w, e[2])
            return op(e[1], a, self.ev(w, e[3]))
        if k == "op" and e[1] == "Oaddr":
            return ("&",) + self.lv(w, e[3])
        if k == "op" and e[1] == "Otupmemb":
            return w.load(("memb", self.ev(w, e[3]), self.ev(w, e[4])))
        if k == "op":
            return op(e[1], *[x[1] if x[0] == "name" else self.ev(w, x) for x in e[3:]])
        if k == "un":
            return op(e[1], self.ev(w, e[2]))
        if k == "cmp":
            a = self.ev(w, e[2])
            return op(CMP[e[1]][self.cls], a, self.ev(w, e[3]))
        if k == "tup":
            return op("Otup", *[self.ev(w, x) for x in e[1:]])
        if k == "len":
            return ("len", self.ev(w, e[1]))
        if k in ("idx", "memb", "deref"):
            return self.rd(w, self.lv(w, e))
        if k == "auto":
            v = self.ev(w, e[1])
            self.scopes[-1].append(v)
            return v
        raise AnalysisBroken("source expression %r" % (e,))

    def late(self, e):
        """a compound assignment reads its target after the operand has run"""
        return True

    def destructure(self, w, lhs, v):
        for i, x in enumerate(lhs[1:]):
            y = v[1 + i] if isinstance(v, tuple) and v[0] == "Otup" else ("tupget", v, i)
            if x[0] == "tup":
                self.destructure(w, x, y)
            elif x[0] != "gap":
                self.put(w, self.lv(w, x), y)

    # statements
    def dispose(self, w, keep):
        while len(self.scopes) > keep:
            for v in reversed(self.scopes.pop()):
                w.call("__dispose__", [v])

    def full(self, w, e):
        v = self.ev(w, e)
        self.drain(w)
        return v

    def scoped(self, w, body):
        n = len(self.scopes)
        self.scopes.append([])
        for x in body:
            self.stmt(w, x)
        self.dispose(w, n)

    def loopbody(self, w, body):
        """-> True when the loop is left"""
        n = len(self.scopes)
        try:
            self.scoped(w, body)
        except Jump as j:
            if j.k == "ret":
                raise
            self.dispose(w, n)
            return j.k == "break"
        return False

    def stmt(self, w, x):
        w.tick()
        k = x[0]
        if k == "expr":
            self.full(w, x[1])
        elif k == "decl":
            w.setvar(x[1], self.full(w, x[2]))
        elif k == "block":
            self.scoped(w, x[1])
        elif k == "if":
            v = self.full(w, x[1])
            if w.test(v):
                self.scoped(w, x[2])
            elif x[3] is not None:
                if isinstance(x[3], tuple) and x[3][0] == "if":
                    self.stmt(w, x[3])
                else:
                    self.scoped(w, x[3])
        elif k == "for":
            if x[1]:
                self.stmt(w, x[1])
            while True:
                w.tick()
                if not w.test(self.full(w, x[2])):
                    break
                if self.loopbody(w, x[4]):
                    break
                if x[3]:
                    self.full(w, x[3])
        elif k == "iter":
            # for pat : seq, of an array or slice
            self.iter(w, x)
        elif k == "match":
            v = self.full(w, x[1])
            r = w.call("match", [v])
            if w.test(r):
                self.scoped(w, x[2])
        elif k in ("break", "continue"):
            raise Jump(k)
        elif k == "ret":
            v = self.full(w, x[1]) if x[1] is not None else None
            raise Jump("ret", v)
        else:
            raise AnalysisBroken("source statement %r" % (x,))

    def iter(self, w, x):
        _, kind, seq, body = x
        sv = self.full(w, seq)
        if kind == "trait":
            it, val = ".iter%d" % id(x), ".val%d" % id(x)
            w.tmp[it] = sv
            w.tmp.pop(val, None)
            args = [("&", it), ("&", val)]
            while True:
                w.tick()
                if not w.test(w.call("__iternext__", args)):
                    return
                if w.test(w.call("pattern", [w.tmp[val]])):
                    w.call("bind", [w.tmp[val]])
                    if self.loopbody(w, body):
                        return
                w.call("__iterfin__", args)
        i = 0
        while True:
            w.tick()
            if not w.test(("Olt", i, ("len", self.iterseq(w, seq, sv)))):
                return
            e = w.load(("elem", self.iterseq(w, seq, sv), i))
            if w.test(w.call("pattern", [e])):
                w.call("bind", [w.load(("elem", self.iterseq(w, seq, sv), i))])
                if self.loopbody(w, body):
                    return
            i = ("Oadd", i, 1)

    def iterseq(self, w, seq, sv):
        """a variable that is iterated over is read again at each step"""
        return w.var(seq[1]) if seq[0] == "var" else sv

    def run(self, w, body):
        self.scopes = []
        try:
            self.scoped(w, body)
            w.log.append(("ret", None))
        except Jump as j:
            if j.k != "ret":
                raise AnalysisBroken("stray " + j.k)
            self.dispose(w, 0)
            w.log.append(("ret", j.v))


CMP = {"==": {"s": "Oeq", "u": "Oueq", "f": "Ofeq"}, "!=": {"s": "One", "u": "Oune", "f": "Ofne"},
       "<": {"s": "Olt", "u": "Oult", "f": "Oflt"}, "<=": {"s": "Ole", "u": "Oule", "f": "Ofle"},
       ">": {"s": "Ogt", "u": "Ougt", "f": "Ofgt"}, ">=": {"s": "Oge", "u": "Ouge", "f": "Ofge"}}


def compare(runa, runb, maxdec=7):
    """runs both over every combination of test outcomes -> None, or (outcomes, log a, log b)"""
    work = [{}]
    n = 0
    while work:
        out = work.pop()
        res = []
        need = None
        for r in (runa, runb):
            w = World(out)
            try:
                r(w)
                w.log.append(("end", w.snapshot(), tuple(sorted((k, v) for k, v in w.env.items() if k.endswith("0")))))
                res.append(w.log)
            except Cut:
                res.append(w.log + [("cut",)])
            except Need as e:
                if len(out) >= maxdec:
                    res.append(w.log + [("cut",)])
                    continue
                need = e.v
                break
        if need is not None:
            for b in (False, True):
                o = dict(out)
                o[need] = b
                work.append(o)
            continue
        n += 1
        a, b = res
        if a[-1] == ("cut",) or b[-1] == ("cut",):
            m = min(len(a), len(b)) - 1
            if a[:m] != b[:m]:
                return n, (out, a, b)
            continue
        if a != b:
            return n, (out, a, b)
    return n, None
