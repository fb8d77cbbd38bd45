"""Path-wise abstract interpreter over the clang AST.

Values are known integers, string literals, or opaque terms naming where a value came
from (a field of an object, the result of a call, an operator over terms).  Branches on
opaque conditions fork; loops with opaque bounds are summarised by one abstract
iteration in which everything the loop writes is unknown.  No solver, no execution:
the result of a function is the set of its event sequences and final stores."""
import itertools, re, struct
from ccast import tu, c_sources, strip, callee, args as cargs, body, params, show, AnalysisBroken

NORETURN = {"die", "fatal", "lfatal", "lfatalv", "fatalv", "abort", "exit", "_exit", "__assert_fail",
            "yyerror", "usage"}

WIDTH = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4,
         "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8,
         "_Bool": 1, "bool": 1, "byte": 1, "vlong": 8, "uvlong": 8, "ulong": 8, "uint": 4, "size_t": 8, "ssize_t": 8,
         "uint8_t": 1, "uint16_t": 2, "uint32_t": 4, "uint64_t": 8, "int8_t": 1, "int16_t": 2,
         "int32_t": 4, "int64_t": 8, "intptr_t": 8, "uintptr_t": 8, "off_t": 8, "float": 4, "double": 8}
UNSIGNED = {"unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "byte", "uvlong",
            "ulong", "uint", "size_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "uintptr_t", "_Bool", "bool"}


def twidth(t):
    if t is None:
        return None
    t = re.sub(r"\b(const|volatile|static|register)\b", "", t).strip()
    if t.endswith("*") or "(*)" in t:
        return 8
    if t.startswith("enum "):
        return 4
    return WIDTH.get(t)


def typesize(t, tu, depth=0):
    """(size, alignment) of a C type name, or None"""
    if t is None or depth > 12:
        return None
    t = re.sub(r"\b(const|volatile|static|register)\b", "", t).strip()
    m = re.match(r"^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$", t)
    if m:
        e = typesize(m.group(1) + m.group(3), tu, depth + 1)
        return (e[0] * int(m.group(2)), e[1]) if e else None
    w = twidth(t)
    if w is not None:
        return (w, w)
    tag = None
    m = re.search(r"\((?:unnamed|anonymous).*:(\d+):\d+\)", t)
    if m:
        tag = "@" + m.group(1)
    elif t.startswith(("struct ", "union ")):
        tag = t.split(" ", 1)[1]
    elif t in tu.typedefs:
        d = tu.typedefs[t]
        if d != t and not d.startswith(("struct ", "union ")):
            return typesize(d, tu, depth + 1)
        tag = d.split(" ", 1)[1] if " " in d else d
    else:
        tag = t
    r = tu.records.get(tag)
    if r is None:
        return None
    off = 0
    al = 1
    big = 0
    for f in r.kids:
        if f.kind != "FieldDecl":
            continue
        if any(k.kind == "ConstantExpr" for k in f.kids):
            return None     # bit-field
        q = typesize(f.ctype, tu, depth + 1) or typesize(f.type, tu, depth + 1)
        if q is None:
            return None
        al = max(al, q[1])
        off = (off + q[1] - 1) // q[1] * q[1] + q[0]
        big = max(big, q[0])
    sz = big if "union" in (r.op or "") else off
    return ((sz + al - 1) // al * al, al)


def tunsigned(t):
    t = re.sub(r"\b(const|volatile)\b", "", t or "").strip()
    return t in UNSIGNED or t.endswith("*")


def wrapint(v, t):
    w = twidth(t)
    if w is None:
        return v
    v &= (1 << (8 * w)) - 1
    if not tunsigned(t) and v >> (8 * w - 1):
        v -= 1 << (8 * w)
    return v


def delta(v, base):
    """constant step v - base"""
    if v == base:
        return 0
    if isinstance(v, tuple) and v[0] == "bin" and v[1] == "+" and v[2] == base and isinstance(v[3], int):
        return v[3]
    return None


def lin(t):
    """linear form: ({atom: coefficient}, constant)"""
    if isinstance(t, int):
        return {}, t
    if isinstance(t, tuple):
        if t[0] == "cast":
            return lin(t[2])
        if t[0] == "bin" and t[1] in ("+", "-"):
            a, c = lin(t[2])
            b, d = lin(t[3])
            sg = 1 if t[1] == "+" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + sg * v
                if r[k] == 0:
                    del r[k]
            return r, c + sg * d
        if t[0] == "bin" and t[1] == "*" and (isinstance(t[2], int) or isinstance(t[3], int)):
            k, x = (t[2], t[3]) if isinstance(t[2], int) else (t[3], t[2])
            a, c = lin(x)
            return {q: v * k for q, v in a.items() if v * k}, c * k
        if t[0] == "addr" and isinstance(t[1], tuple) and t[1][0] == "idx":
            a, c = lin(t[1][1] if not (isinstance(t[1][1], tuple) and t[1][1][0] in ("var", "fld", "tmp", "glob", "static")) else ("addr", t[1][1]))
            b, d = lin(t[1][2])
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + v
            return r, c + d
    return {t: 1}, 0


def unlin(l):
    d, c = l
    t = None
    for k in sorted(d, key=repr):
        x = k if d[k] == 1 else ("bin", "*", k, d[k])
        t = x if t is None else ("bin", "+", t, x)
    if t is None:
        return c
    return t if c == 0 else ("bin", "+", t, c)


def lsub(a, b):
    return unlin(lin(("bin", "-", a, b)))


def loopcount(e):
    """trip count of a counting loop event as a normalised term, or None"""
    cterm, entry = e[1], e[2]
    ent = {nm: (v, st) for nm, v, st in entry}
    uid = e[4]

    def walk(t):
        if isinstance(t, tuple):
            if t[0] == "lv" and t[1] == uid:
                yield t[2]
            for x in t[1:]:
                yield from walk(x)
    if isinstance(cterm, tuple) and cterm[0] == "un" and cterm[1] == "!":
        return None
    if isinstance(cterm, tuple) and cterm[0] == "bin" and cterm[1] in NEG and cterm[1] != "==":
        op, a, b = cterm[1:]
    else:
        op, a, b = "!=", cterm, 0
    if isinstance(a, tuple) and a[:2] == ("lv", "bs"):
        return unlin(lin(b))
    d, c = lin(("bin", "-", a, b))          # a - b  op  0
    vs = [k for k in d if isinstance(k, tuple) and k[0] == "lv" and k[1] == uid]
    inner = [k for k in d if k not in vs and any(True for _ in walk(k))]
    if not vs or inner:
        return None
    step = 0
    start = ({k: v for k, v in d.items() if k not in vs}, c)
    st = unlin(start)
    for k in vs:
        v, sp = ent.get(k[2], (None, None))
        if v is None or sp is None or (isinstance(v, tuple) and v[0] == "undef"):
            return None
        step += sp * d[k]
        st = ("bin", "+", st, ("bin", "*", v, d[k]))
    st = unlin(lin(st))
    neg = unlin(lin(("bin", "*", st, -1)))
    if step == 1:
        return {"<": neg, "!=": neg, "<=": unlin(lin(("bin", "+", neg, 1)))}.get(op)
    if step == -1:
        return {">": st, "!=": st, ">=": unlin(lin(("bin", "+", st, 1)))}.get(op)
    return None


def indvars(evs, out):
    """{('lv', uid, name): entry + step*K} for the counting variables of every loop"""
    for e in evs:
        if isinstance(e, tuple) and e and e[0] in ("loop", "loop-exit"):
            for nm, v, sp in e[2]:
                if sp in (1, -1) and v is not None and not (isinstance(v, tuple) and v[0] == "undef"):
                    out[("lv", e[4], nm)] = ("bin", "+", v, ("bin", "*", ("K", e[4]), sp))
            for b in e[3]:
                indvars(b, out)
    return out


def canonterm(t, m, memo=None):
    if not isinstance(t, tuple):
        return t
    memo = memo if memo is not None else {}
    if t in memo:
        return memo[t]
    if t in m:
        r = canonterm(m[t], m, memo)
        r = unlin(lin(r))
    elif t[:1] == ("lv",) or t[:1] == ("var",):
        r = t
    else:
        r = tuple(canonterm(x, m, memo) for x in t)
        if r[:1] == ("bin",) and r[1] in ("+", "-", "*"):
            r = unlin(lin(r))
        elif r[:1] == ("deref",):
            r = ptridx(r[1]) or r
        elif r[:1] == ("fld",):
            x = ptridx(r[1])
            if x:
                r = ("fld", x, r[2])
        elif r[:1] == ("idx",):
            # index through a moved pointer
            x = ptridx(r[1])
            if x:
                r = ("idx", x[1], unlin(lin(("bin", "+", x[2], r[2]))))
            else:
                r = ("idx", r[1], unlin(lin(r[2])))
        elif r[:1] == ("addr",) and isinstance(r[1], tuple) and r[1][:1] == ("idx",):
            r = ("addr", r[1])
    memo[t] = r
    return r


def ptridx(t):
    """base + K as an element location"""
    if isinstance(t, tuple) and t[0] == "bin" and t[1] in ("+",):
        d, c = lin(t)
        ks = [k for k in d if isinstance(k, tuple) and k[0] == "K"]
        rest = [k for k in d if k not in ks]
        ptr = [k for k in rest if d[k] == 1 and isinstance(k, tuple) and k[0] in ("ld", "addr", "obj", "arg", "rarg", "get")]
        if ks and len(ptr) == 1:
            b = ptr[0]
            if b[0] == "addr":
                b = b[1]
            dd = {k: v for k, v in d.items() if k != ptr[0]}
            return ("idx", b, unlin((dd, c)))
    return None


def canon(st, ret=None):
    """rewrite a finished state so that loops are told apart only by trip count and element index"""
    m = indvars(st.events, {})
    memo = {}
    s = st.copy()
    s.events = [canonev(e, m, memo) for e in st.events]
    s.store = {canonterm(k, m, memo): canonterm(v, m, memo) for k, v in st.store.items()}
    s.eq = {canonterm(k, m, memo): v for k, v in st.eq.items()}
    s.ne = {canonterm(k, m, memo): v for k, v in st.ne.items()}
    s.assume = {canonterm(k, m, memo): v for k, v in st.assume.items()}
    return s, canonterm(ret, m, memo)


def canonev(e, m, memo):
    if e and e[0] in ("loop", "loop-exit"):
        n = loopcount(e)
        n = canonterm(n, m, memo) if n is not None else None
        return (e[0], canonterm(e[1], m, memo), n, tuple(tuple(canonev(x, m, memo) for x in b) for b in e[3]), e[4])
    if e and e[0] == "cons":
        return ("cons",) + tuple(tuple((canonterm(k, m, memo), v) for k, v in part) for part in e[1:])
    return tuple(canonterm(x, m, memo) for x in e)


class Program:
    def __init__(self, rels):
        self.tus = [tu(r) for r in rels]
        self.glob = {}
        self.perfile = {}
        for t in self.tus:
            d = {}
            for name, fn in t.funcs.items():
                d[name] = (t, fn)
                if fn.storage != "static":
                    self.glob[name] = (t, fn)
            self.perfile[t] = d
        self.enums = {}
        for t in self.tus:
            self.enums.update(t.enums)

    def find(self, name, t=None):
        if t is not None and name in self.perfile[t]:
            return self.perfile[t][name]
        if name in self.glob:
            return self.glob[name]
        return None

    def func(self, name, rel=None):
        for t in self.tus:
            if rel and not t.path.endswith(rel):
                continue
            if name in t.funcs:
                return t, t.funcs[name]
        raise AnalysisBroken("function %s not found%s" % (name, " in " + rel if rel else ""))


class State:
    __slots__ = ("store", "eq", "ne", "assume", "events", "depth", "count")

    def __init__(self):
        self.store = {}
        self.eq = {}
        self.ne = {}
        self.assume = {}
        self.events = []
        self.depth = ()
        self.count = 0

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.eq = dict(self.eq)
        s.ne = dict(self.ne)
        s.assume = dict(self.assume)
        s.events = list(self.events)
        s.depth = self.depth
        s.count = self.count
        return s


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Interp:
    def __init__(self, prog, prims=None, noinline=(), maxdepth=12, maxstates=4000, inline=None, unroll=600, pure=()):
        self.p = prog
        self.prims = prims or {}
        self.noinline = set(noinline)
        self.inline = inline          # None: inline everything with a body
        self.maxdepth = maxdepth
        self.maxstates = maxstates
        self.unroll = unroll
        self.gotocut = None
        self.uid = itertools.count(1)
        self.nstates = 0
        self.pure = set(pure)
        self.visited = set()
        self.loopnest = 0
        self.retstack = []
        self.consttabs = False        # read the initialisers of tables nothing in the analysed code writes
        self._ct = {}
        self.endless = False          # follow loops without a condition until they are left
        self.logwrites = False        # record stores through pointers and to globals as events

    # ---- running ----------------------------------------------------------
    def run(self, name, argv, init=None, rel=None, st=None):
        t, fn = self.p.func(name, rel)
        st = st or State()
        for k, v in (init or {}).items():
            st.store[k] = v
        self.nstates = 0
        return self.invoke(t, fn, argv, st)

    def invoke(self, t, fn, argv, st):
        """-> list of (state, retval)"""
        self.visited.add(fn.name)
        frame = next(self.uid)
        ps = params(fn)
        for i, p in enumerate(ps):
            v = argv[i] if i < len(argv) else ("undef",)
            st.store[("var", p.id, frame)] = v
        extra = argv[len(ps):]
        if extra:
            st.store[("varargs", frame)] = tuple(extra)
        st.depth = st.depth + (fn.name,)
        out = []
        ctx = (t, frame)
        for s, status, val in self.block(body(fn), st, ctx):
            s.depth = s.depth[:-1]
            if status in ("normal", "return"):
                out.append((s, val))
            elif status == "dead":
                continue
            elif isinstance(status, tuple) and status[0] == "goto":
                raise AnalysisBroken("goto %s not resolved in %s" % (status[1], fn.name))
            else:
                raise AnalysisBroken("stray %s in %s" % (status, fn.name))
        return out

    def tick(self, n=1):
        self.nstates += n
        if self.nstates > self.maxstates * 50:
            raise AnalysisBroken("path budget exceeded")

    # ---- statements: -> list of (state, status, val) -----------------------
    def block(self, n, st, ctx):
        return self.seq(n.kids, st, ctx)

    def seq(self, stmts, st, ctx, start=0):
        cur = [(st, start)]
        out = []
        gotos = 0
        while cur:
            s, i = cur.pop()
            if i >= len(stmts):
                out.append((s, "normal", None))
                continue
            self.tick()
            for s2, status, v in self.stmt(stmts[i], s, ctx):
                if status == "normal":
                    cur.append((s2, i + 1))
                elif isinstance(status, tuple) and status[0] == "goto":
                    k = self.labelindex(stmts, status[1])
                    if k is not None and self.gotocut is not None and gotos > self.gotocut:
                        # a backwards jump taken again and again: bounded unrolling, as for loops
                        s2.events.append(("cut", stmts[k].loc()))
                        out.append((s2, "dead", v))
                    elif k is None or gotos > 40:
                        out.append((s2, status, v))
                    else:
                        gotos += 1
                        cur.append((s2, k))
                else:
                    out.append((s2, status, v))
            if len(cur) + len(out) > self.maxstates:
                raise AnalysisBroken("too many paths")
        return out

    def labelindex(self, stmts, lab):
        for i, x in enumerate(stmts):
            y = x
            while y is not None and y.kind in ("LabelStmt", "CaseStmt", "DefaultStmt"):
                if y.kind == "LabelStmt" and (y.name == lab or y.declid == lab):
                    return i
                y = y.kids[-1] if y.kids else None
        return None

    def stmt(self, n, st, ctx):
        k = n.kind
        if k == "CompoundStmt":
            return self.block(n, st, ctx)
        if k == "DeclStmt":
            states = [st]
            for d in n.kids:
                if d.kind != "VarDecl":
                    continue
                nxt = []
                for s in states:
                    loc = ("var", d.id, ctx[1])
                    if d.storage == "static":
                        loc = ("static", d.name, d.id)
                        nxt.append(s)
                        continue
                    init = [x for x in d.kids if x.kind not in ("FullComment",)] if d.init else []
                    if init:
                        if strip(init[-1]).kind == "InitListExpr":
                            s.store[loc] = ("init", d.id)
                            nxt.extend(self.initlist(strip(init[-1]), loc, s, ctx))
                        else:
                            for s2, v in self.ev(init[-1], s, ctx):
                                s2.store[loc] = v
                                nxt.append(s2)
                    else:
                        if not self.scalar(d):
                            for key in [q for q in s.store if q[0] in ("fld", "idx") and self.under(q, loc)]:
                                del s.store[key]
                        s.store.pop(loc, None)
                        nxt.append(s)
                states = nxt
            return [(s, "normal", None) for s in states]
        if k == "IfStmt":
            cond = n.kids[0]
            th = n.kids[1]
            el = n.kids[2] if len(n.kids) > 2 else None
            out = []
            for s, b in self.cond(cond, st, ctx):
                if b:
                    out.extend(self.stmt(th, s, ctx))
                elif el is not None:
                    out.extend(self.stmt(el, s, ctx))
                else:
                    out.append((s, "normal", None))
            return out
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            return self.loop(n, st, ctx)
        if k == "SwitchStmt":
            return self.switch(n, st, ctx)
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(n.kids[-1], st, ctx)
        if k == "LabelStmt":
            return self.stmt(n.kids[-1], st, ctx)
        if k == "BreakStmt":
            return [(st, "break", None)]
        if k == "ContinueStmt":
            return [(st, "continue", None)]
        if k == "GotoStmt":
            return [(st, ("goto", n.name or n.declid or n.value), None)]
        if k == "ReturnStmt":
            if n.kids:
                return [(s, "return", v) for s, v in self.ev(n.kids[0], st, ctx)]
            return [(st, "return", None)]
        if k in ("NullStmt", "Null"):
            return [(st, "normal", None)]
        return [(s, "dead" if v == ("noreturn",) else "normal", None) for s, v in self.ev(n, st, ctx)]

    def scalar(self, d):
        """a variable with nothing inside"""
        ty = (d.ctype or d.type or "").strip()
        return ty.endswith("*") or ty.startswith("enum ") or ty in ("Mode", "Reg", "PassIn", "ArgType", "AsmOp", "Op", "Ty", "size_t", "uint", "vlong", "uvlong", "int64_t", "uint64_t", "int32_t", "uint32_t", "unsigned char", "short", "unsigned short") or ty in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char")

    def under(self, q, loc):
        while isinstance(q, tuple) and q[0] in ("fld", "idx"):
            q = q[1]
            if q == loc:
                return True
        return False

    def initlist(self, il, loc, st, ctx):
        """struct/array initialiser: fields by position"""
        states = [st]
        fields = self.recfields(il.type)
        for i, x in enumerate(il.kids):
            tgt = ("fld", loc, fields[i]) if fields and i < len(fields) else ("idx", loc, i)
            nxt = []
            for s in states:
                if x.kind == "ImplicitValueInitExpr":
                    sub = self.recfields(x.type)
                    if sub and not (x.type or "").rstrip().endswith("*"):
                        for f in sub:
                            s.store[("fld", tgt, f)] = 0
                    else:
                        s.store[tgt] = 0
                    nxt.append(s)
                elif strip(x).kind == "InitListExpr":
                    nxt.extend(self.initlist(strip(x), tgt, s, ctx))
                else:
                    for s2, v in self.ev(x, s, ctx):
                        s2.store[tgt] = v
                        nxt.append(s2)
            states = nxt
        return states

    def recfields(self, ty):
        ty = re.sub(r"(\[\d+\])+$", "", (ty or "")).replace("struct ", "").replace("const ", "").strip()
        m = re.search(r"\((?:unnamed|anonymous).*:(\d+):\d+\)", ty)
        if m:
            ty = "@" + m.group(1)
        for t in self.p.tus:
            r = t.records.get(ty)
            if r is not None:
                return [f.name for f in r.kids if f.kind == "FieldDecl"]
        return None

    _switches = {}

    def flatten_switch(self, b):
        """-> list of stmts, and map from case label node to index"""
        stmts = []
        labels = []   # (value node or None, index)
        for x in (b.kids if b.kind == "CompoundStmt" else [b]):
            y = x
            while y.kind in ("CaseStmt", "DefaultStmt"):
                if y.kind == "CaseStmt":
                    labels.append((y.kids[0], len(stmts)) if len(y.kids) == 2 else ((y.kids[0], y.kids[1]), len(stmts)))
                else:
                    labels.append((None, len(stmts)))
                y = y.kids[-1]
            stmts.append(y)
        return stmts, labels

    def switch(self, n, st, ctx):
        out = []
        if n not in self._switches:
            stmts, labels = self.flatten_switch(n.kids[-1])
            labels += self.inner_labels(stmts)
            vals = []
            for l, i in labels:
                if l is None:
                    vals.append((None, i))
                else:
                    c = ctx[0].const(l)
                    if c is None:
                        raise AnalysisBroken("non constant case at " + n.loc())
                    vals.append((c, i))
            self._switches[n] = (stmts, vals, [i for c, i in vals if c is None])
        stmts, vals, default = self._switches[n]
        for s, v in self.ev(n.kids[-2], st, ctx):
            v = self.resolve(v, s)
            if isinstance(v, int):
                tgt = [i for c, i in vals if c == v]
                idx = tgt[0] if tgt else (default[0] if default else None)
                out.extend(self.swbody(stmts, idx, s, ctx))
            else:
                done = set()
                for c, i in vals:
                    if c is None or c in s.ne.get(v, ()):
                        continue
                    s2 = s.copy()
                    s2.eq[v] = c
                    out.extend(self.swbody(stmts, i, s2, ctx))
                    done.add(c)
                s2 = s.copy()
                s2.ne[v] = frozenset(s.ne.get(v, frozenset())) | done
                out.extend(self.swbody(stmts, default[0] if default else None, s2, ctx))
        return out

    def inner_labels(self, stmts):
        """case labels within the branches of the statements of a switch: (value, what runs from there)"""
        out = []

        def walk(y, rest):
            if y.kind in ("CaseStmt", "DefaultStmt"):
                body = y.kids[-1]
                out.append((y.kids[0] if y.kind == "CaseStmt" else None, [body] + rest))
                walk(body, rest)
            elif y.kind == "CompoundStmt":
                for j, k in enumerate(y.kids):
                    walk(k, y.kids[j + 1:] + rest)
            elif y.kind == "IfStmt":
                for k in y.kids[1:]:
                    walk(k, rest)
            elif y.kind == "LabelStmt":
                walk(y.kids[-1], rest)
            elif y.kind in ("ForStmt", "WhileStmt", "DoStmt"):
                if any(x.kind in ("CaseStmt", "DefaultStmt") for x in y.walk()) and not any(x.kind == "SwitchStmt" for x in y.walk()):
                    raise AnalysisBroken("a case within a loop at " + y.loc())
        for i, y in enumerate(stmts):
            if y.kind in ("IfStmt", "CompoundStmt", "LabelStmt", "ForStmt", "WhileStmt", "DoStmt"):
                walk(y, stmts[i + 1:])
        return out

    def swbody(self, stmts, idx, s, ctx):
        if idx is None:
            return [(s, "normal", None)]
        if isinstance(idx, list):
            stmts, idx = idx, 0
        return [(a, "normal" if b == "break" else b, c) for a, b, c in self.seq(stmts, s, ctx, idx)]

    def loop(self, n, st, ctx):
        if n.kind == "ForStmt":
            init, cond, inc, bd = n.kids[0], n.kids[2], n.kids[3], n.kids[4]
        elif n.kind == "WhileStmt":
            init, cond, inc, bd = None, n.kids[0], None, n.kids[1]
        else:
            init, cond, inc, bd = None, n.kids[1], None, n.kids[0]
        if cond is not None and cond.kind == "Null":
            cond = None
        if inc is not None and inc.kind == "Null":
            inc = None
        states = [st]
        if init is not None and init.kind != "Null":
            states = [s for s, stt, _ in self.stmt(init, st, ctx) if stt == "normal"]
        out = []
        first = n.kind == "DoStmt"
        work = [(s, 0, first) for s in states]
        while work:
            s, it, skip = work.pop()
            self.tick()
            if skip:
                branches = [(s, True)]
            elif cond is None:
                branches = [(s, True)] if it == 0 or self.endless else None
            else:
                probe = s.copy()
                vs = self.ev(cond, probe, ctx)
                if len(vs) == 1:
                    b = self.truth(vs[0][1], vs[0][0])
                    if b and s.assume:
                        # true only by what an earlier branch assumed: not a constant trip count
                        p2 = s.copy()
                        p2.assume = {}
                        v2 = self.ev(cond, p2, ctx)
                        if len(v2) != 1 or self.truth(v2[0][1], v2[0][0]) is None:
                            b = None
                    branches = [(vs[0][0], b)] if b is not None else None
                else:
                    branches = None
            if branches is None or it > self.unroll or (self.unroll == 0 and branches[0][1] and not skip):
                out.extend(self.summary(n, cond, inc, bd, s, ctx))
                continue
            for s2, b in branches:
                if not b:
                    out.append((s2, "normal", None))
                    continue
                if (cond is None and not self.endless) or (skip and it == 0 and not self.constcond(cond, s2, ctx)):
                    out.extend(self.summary(n, cond, inc, bd, s2, ctx, dofirst=skip))
                    continue
                for s3, status, v in self.stmt(bd, s2, ctx):
                    if status in ("normal", "continue"):
                        if inc is not None:
                            for s4, _ in self.ev(inc, s3, ctx):
                                work.append((s4, it + 1, False))
                        else:
                            work.append((s3, it + 1, False))
                    elif status == "break":
                        out.append((s3, "normal", None))
                    else:
                        out.append((s3, status, v))
        return out

    def constcond(self, cond, s, ctx):
        return ctx[0].const(cond) is not None

    def assigned(self, *nodes):
        ids = {}
        for nd in nodes:
            if nd is None:
                continue
            for x in nd.walk():
                t = None
                if x.kind in ("BinaryOperator", "CompoundAssignOperator") and x.op and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">="):
                    t = strip(x.kids[0])
                elif x.kind == "UnaryOperator" and x.op in ("++", "--", "&"):
                    t = strip(x.kids[0])
                while t is not None and t.kind in ("MemberExpr", "ArraySubscriptExpr") and not t.arrow and x.op != "&":
                    if t.kind == "ArraySubscriptExpr":
                        break
                    t = strip(t.kids[0])
                if t is not None and t.kind == "DeclRefExpr" and t.refkind in ("VarDecl", "ParmVarDecl"):
                    ids[t.refid] = t.ref
        return ids

    def summary(self, n, cond, inc, bd, s, ctx, dofirst=False):
        uid = "L%d.%s" % (n.line or 0, s.count)
        s.count += 1
        ids = self.assigned(cond, inc, bd)
        pre = s
        body_st = s.copy()
        entry = {}
        for i, nm in ids.items():
            loc = ("var", i, ctx[1])
            entry[nm] = body_st.store.get(loc)
            for key in [q for q in body_st.store if q[0] in ("fld", "idx") and self.under(q, loc)]:
                del body_st.store[key]
            body_st.store[loc] = ("lv", uid, nm)
        body_st.events = []
        alts = []
        escapes = []
        breaks = []
        base = dict(body_st.store)
        if cond is not None and not dofirst:
            starts = [a for a, b in self.cond(cond, body_st, ctx) if b]
            probe = pre.copy()
            for i, nm in ids.items():
                probe.store[("var", i, ctx[1])] = ("lv", uid, nm)
            cv = self.ev(cond, probe, ctx)
            cterm = cv[0][1] if cv else None
        else:
            starts = [body_st]
            cterm = None
        self.loopnest += 1
        steps = {}
        changed = {}
        maxcount = []
        beq, bne, bas = dict(pre.eq), dict(pre.ne), dict(pre.assume)

        def cons(x):
            return ("cons",
                    tuple(sorted(((k, v) for k, v in x.eq.items() if beq.get(k) != v), key=repr)),
                    tuple(sorted(((k, tuple(sorted(v))) for k, v in x.ne.items() if bne.get(k) != v), key=repr)),
                    tuple(sorted(((k, v) for k, v in x.assume.items() if bas.get(k) != v), key=repr)))
        for b in starts:
            for s3, status, v in self.stmt(bd, b, ctx):
                maxcount.append(s3.count)
                if status in ("normal", "continue"):
                    if inc is not None:
                        r = [x for x, _ in self.ev(inc, s3, ctx)]
                    else:
                        r = [s3]
                    for x in r:
                        alts.append(tuple(x.events) + (cons(x),))
                        for i, nm in ids.items():
                            d = delta(x.store.get(("var", i, ctx[1])), ("lv", uid, nm))
                            if nm in steps and steps[nm] != d:
                                d = None
                            steps[nm] = d
                elif status == "break":
                    alts.append(tuple(s3.events) + (("break",), cons(s3)))
                    breaks.append(s3)
                elif status == "dead":
                    alts.append(tuple(s3.events) + (("dead",), cons(s3)))
                    continue
                else:
                    alts.append(tuple(s3.events) + (("escape",), cons(s3)))
                    escapes.append((s3, status, v))
                for kx, vx in s3.store.items():
                    if base.get(kx) != vx:
                        changed[kx] = vx
        self.loopnest -= 1
        bodies = tuple(sorted(set(alts), key=repr))
        ent = tuple(sorted(((nm, v, steps.get(nm)) for nm, v in entry.items()), key=lambda x: x[0]))
        ev = ("loop", cterm, ent, bodies, uid)
        out = []
        for s3, status, v in escapes:
            s3.events = list(pre.events) + [("loop-exit", cterm, tuple(sorted(((nm, v, steps.get(nm)) for nm, v in entry.items()), key=lambda x: x[0])), bodies, uid)] + list(s3.events)
            out.append((s3, status, v))
        post = pre
        post.count = max([post.count] + maxcount)
        for i, nm in ids.items():
            post.store[("var", i, ctx[1])] = ("lvout", uid, nm)
        for kx, vx in changed.items():
            if kx[0] == "var" and any(kx[1] == i for i in ids):
                continue
            post.store[kx] = ("lvout", uid, kx, vx)
        post.events.append(ev)
        out.append((post, "normal", None))
        return out

    # ---- conditions: -> list of (state, bool) ------------------------------
    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, int):
            return v != 0
        if v is None:
            return None
        if v[0] in ("str", "addr", "fn", "obj"):
            return True
        if v[0] == "un" and v[1] == "!":
            b = self.truth(v[2], st)
            return None if b is None else not b
        if v[0] == "bin" and v[1] in NEG:
            return self.cmptruth(v, st)
        if 0 in st.ne.get(v, ()):
            return True
        return st.assume.get(v)

    def cmptruth(self, v, st):
        _, op, a, b = v
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, int) and isinstance(b, int):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if op in ("==", "!="):
            if a == b and not (isinstance(a, tuple) and a[0] in ("undef",)):
                return op == "=="
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if a[0] in ("addr", "str", "fn", "obj") and b == 0:
                    return op == "!="
                if b in st.ne.get(a, ()):
                    return op == "!="
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "obj" and b[0] == "obj":
                return (a == b) == (op == "==")
        for o, x, y in ((op, a, b), (SWAP[op], b, a)):
            if ("bin", o, x, y) in st.assume:
                return st.assume[("bin", o, x, y)]
            if ("bin", NEG[o], x, y) in st.assume:
                return not st.assume[("bin", NEG[o], x, y)]
        return None

    def cond(self, n, st, ctx):
        x = strip(n)
        if x.kind == "UnaryOperator" and x.op == "!":
            return [(s, not b) for s, b in self.cond(x.kids[0], st, ctx)]
        if x.kind == "BinaryOperator" and x.op in ("&&", "||"):
            out = []
            for s, b in self.cond(x.kids[0], st, ctx):
                if b == (x.op == "||"):
                    out.append((s, b))
                else:
                    out.extend(self.cond(x.kids[1], s, ctx))
            return out
        out = []
        for s, v in self.ev(n, st, ctx):
            if v == ("noreturn",):
                continue
            out.extend(self.forkon(v, s))
        return out

    def forkon(self, v, s):
        b = self.truth(v, s)
        if b is not None:
            return [(s, b)]
        v = self.resolve(v, s)
        neg = False
        while isinstance(v, tuple) and v[0] == "un" and v[1] == "!":
            v = v[2]
            neg = not neg
        self.tick()
        s2 = s.copy()
        self.learn(v, True, s)
        self.learn(v, False, s2)
        return [(s, not neg), (s2, neg)]

    def learn(self, v, b, st):
        if isinstance(v, tuple) and v[0] == "bin" and v[1] in ("==", "!="):
            a, c = self.resolve(v[2], st), self.resolve(v[3], st)
            if isinstance(a, int):
                a, c = c, a
            if isinstance(c, int) and isinstance(a, tuple):
                if (v[1] == "==") == b:
                    st.eq[a] = c
                else:
                    st.ne[a] = frozenset(st.ne.get(a, frozenset())) | {c}
                return
            v = ("bin", v[1], a, c)
        elif isinstance(v, tuple) and v[0] == "bin" and v[1] in NEG:
            v = ("bin", v[1], self.resolve(v[2], st), self.resolve(v[3], st))
        elif isinstance(v, tuple):
            if b:
                st.ne[v] = frozenset(st.ne.get(v, frozenset())) | {0}
            else:
                st.eq[v] = 0
            return
        st.assume[v] = b

    def resolve(self, v, st):
        if isinstance(v, tuple) and v in st.eq:
            return st.eq[v]
        return v

    # ---- locations ---------------------------------------------------------
    def lv(self, n, st, ctx):
        """-> list of (state, loc)"""
        n = strip(n)
        k = n.kind
        if k == "DeclRefExpr":
            if n.refkind in ("VarDecl", "ParmVarDecl"):
                loc = ("var", n.refid, ctx[1])
                if loc in st.store or self.islocal(n, ctx):
                    return [(st, loc)]
                return [(st, ("glob", n.ref))]
            return [(st, ("glob", n.ref))]
        if k == "MemberExpr":
            out = []
            if not n.name:      # anonymous union/struct member: transparent
                if n.arrow:
                    for s, v in self.ev(n.kids[0], st, ctx):
                        v = self.resolve(v, s)
                        out.append((s, v[1] if isinstance(v, tuple) and v[0] == "addr" else v))
                    return out
                return self.lv(n.kids[0], st, ctx)
            if n.arrow:
                for s, v in self.ev(n.kids[0], st, ctx):
                    v = self.resolve(v, s)
                    if isinstance(v, tuple) and v[0] == "addr":
                        v = v[1]
                    out.append((s, ("fld", v, n.name)))
                return out
            b = strip(n.kids[0])
            if b.kind in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator"):
                for s, l in self.lv(b, st, ctx):
                    if l[0] == "deref":
                        l = l[1]
                    out.append((s, ("fld", l, n.name)))
                return out
            for s, v in self.ev(b, st, ctx):
                out.append((s, ("fld", v, n.name)))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            bn = n.kids[0]
            while bn.kind == "ParenExpr":
                bn = bn.kids[-1]
            row = bn.kind == "ImplicitCastExpr" and bn.cast == "ArrayToPointerDecay"
            for s, b in self.ev(n.kids[0], st, ctx):
                for s2, i in self.ev(n.kids[1], s, ctx):
                    i = self.resolve(i, s2)
                    if isinstance(b, tuple) and b[0] == "addr":
                        b2 = b[1]
                        if not row and isinstance(b2, tuple) and b2[0] == "idx" and isinstance(b2[2], int) and isinstance(i, int):
                            out.append((s2, ("idx", b2[1], b2[2] + i)))
                            continue
                        out.append((s2, ("idx", b2, i)))
                    else:
                        out.append((s2, ("idx", b, i)))
            return out
        if k == "UnaryOperator" and n.op == "__extension__":
            return self.lv(n.kids[0], st, ctx)
        if k == "UnaryOperator" and n.op == "*":
            out = []
            for s, v in self.ev(n.kids[0], st, ctx):
                v = self.resolve(v, s)
                out.append((s, v[1] if isinstance(v, tuple) and v[0] == "addr" else ("deref", v)))
            return out
        if k in ("CompoundLiteralExpr",):
            loc = ("tmp", next(self.uid))
            return [(s, loc) for s in self.initlist(strip(n.kids[0]), loc, st, ctx)]
        if k == "CallExpr" or k == "StmtExpr" or k == "ConditionalOperator":
            return [(s, v) for s, v in self.ev(n, st, ctx)]
        if k == "StringLiteral":
            return [(st, ("str", n.value))]
        if k == "PredefinedExpr":
            return [(st, ("str", "fn"))]
        if k == "UnaryOperator" and n.op in ("++", "--"):
            out = []
            for s, v in self.ev(n, st, ctx):
                out.extend(self.lv(n.kids[0], s, ctx))
            return out
        raise AnalysisBroken("lvalue %s at %s" % (k, n.loc()))

    def islocal(self, n, ctx):
        fnode = n
        # a VarDecl local to the function being run: found by walking up to a DeclStmt
        d = self.localdecls(ctx[0])
        return n.refid in d

    _ld = {}

    def localdecls(self, t):
        if t not in self._ld:
            s = set()
            for fn in t.funcs.values():
                for x in fn.walk():
                    if x.kind == "ParmVarDecl" or (x.kind == "VarDecl" and x.storage != "static" and x.storage != "extern"):
                        s.add(x.id)
            self._ld[t] = s
        return self._ld[t]

    def read(self, loc, st, isarray=False):
        if loc in st.store:
            v = st.store[loc]
            return v
        if loc[0] == "fld":
            b = loc[1]
            if isinstance(b, tuple) and b in st.store and b[0] in ("var", "fld", "idx", "deref", "tmp", "static", "glob"):
                bv = st.store[b]
                if isinstance(bv, tuple) and bv[0] == "ld":
                    return self.read(("fld", bv[1], loc[2]), st)
                if isinstance(bv, tuple) and bv[0] not in ("init", "undef"):
                    return ("get", bv, loc[2])
        if loc[0] == "var":
            return ("undef", loc[1])
        if self.consttabs and loc[0] in ("idx", "fld"):
            v = self.constread(loc)
            if v is not None:
                return v
        return ("ld", loc)

    def vardecls(self, name):
        """every declaration of a variable of that name"""
        d = getattr(self.p, "_vardecls", None)
        if d is None:
            d = self.p._vardecls = {}
            for t in self.p.tus:
                for v in t.root.find("VarDecl"):
                    d.setdefault(v.name, []).append((t, v))
        return d.get(name, [])

    def constinit(self, loc):
        """initialiser expression of a place in a constant table -> (tu, node) or None"""
        if loc[0] == "glob":
            if loc[1] not in self._ct:
                self._ct[loc[1]] = None
                c = [(t, v) for t, v in self.vardecls(loc[1]) if v.init and (v.storage == "static" or t.globals.get(v.name) is v)]
                c = [(t, v) for t, v in c if strip(v.kids[-1]).kind == "InitListExpr"]
                if len(c) == 1:
                    self._ct[loc[1]] = (c[0][0], strip(c[0][1].kids[-1]))
            return self._ct[loc[1]]
        if loc[0] not in ("idx", "fld") or not isinstance(loc[1], tuple):
            return None
        b = self.constinit(loc[1])
        if b is None or b[1].kind != "InitListExpr":
            return None
        t, il = b
        if loc[0] == "idx":
            if not isinstance(loc[2], int):
                return None
            return (t, strip(il.kids[loc[2]])) if 0 <= loc[2] < len(il.kids) else None
        f = self.recfields(il.type)
        if not f or loc[2] not in f or f.index(loc[2]) >= len(il.kids):
            return None
        return (t, strip(il.kids[f.index(loc[2])]))

    def constread(self, loc):
        x = self.constinit(loc)
        if x is None:
            return None
        t, n = x
        if n.kind == "ImplicitValueInitExpr":
            return 0
        if n.kind == "StringLiteral":
            return ("str", n.value)
        c = t.const(n)
        if c is not None:
            return c
        if n.kind == "DeclRefExpr" and n.refkind == "FunctionDecl":
            return ("fn", n.ref)
        return None

    def write(self, loc, v, st):
        if self.logwrites and self.rootvar(loc) is None:
            st.events.append(("store", loc, v))
        for key in [q for q in st.store if q[0] in ("fld", "idx") and self.under(q, loc)]:
            del st.store[key]
        if isinstance(v, tuple) and v[0] == "ld" and loc[0] in ("var", "fld", "idx", "tmp", "deref"):
            # struct copy: carry known fields along
            src = v[1]
            for key in [q for q in st.store if q[0] in ("fld", "idx") and self.under(q, src)]:
                st.store[self.rebase(key, src, loc)] = st.store[key]
        st.store[loc] = v

    def rootvar(self, loc):
        while isinstance(loc, tuple) and loc[0] in ("fld", "idx"):
            loc = loc[1]
        if isinstance(loc, tuple) and loc[0] in ("var", "tmp", "obj"):
            return loc
        return None

    def rebase(self, key, src, dst):
        if key == src:
            return dst
        return (key[0], self.rebase(key[1], src, dst)) + key[2:]

    # ---- expressions: -> list of (state, value) ----------------------------
    def ev(self, n, st, ctx):
        k = n.kind
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups"):
            return self.ev(n.kids[-1], st, ctx)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            sub = n.kids[-1]
            if n.cast in ("ArrayToPointerDecay",):
                x = strip(sub)
                if x.kind == "StringLiteral":
                    return [(st, ("str", x.value))]
                return [(s, ("addr", l) if l[0] != "str" else l) for s, l in self.lv(sub, st, ctx)]
            if n.cast == "FunctionToPointerDecay":
                x = strip(sub)
                return [(st, ("fn", x.ref or "?"))]
            if n.cast == "NullToPointer":
                return [(st, 0)]
            if n.cast == "ToVoid":
                return self.ev(sub, st, ctx)
            out = []
            for s, v in self.ev(sub, st, ctx):
                if n.cast in ("IntegralCast", "IntegralToBoolean", "PointerToIntegral", "BooleanToSignedIntegral"):
                    if isinstance(v, int):
                        v = wrapint(v, n.ctype) if n.cast == "IntegralCast" else (int(v != 0) if n.cast == "IntegralToBoolean" else v)
                    else:
                        a, b = twidth(sub.ctype), twidth(n.ctype)
                        if a and b and b < a and n.cast == "IntegralCast":
                            v = ("cast", n.ctype, v)
                elif isinstance(v, float) and n.cast == "FloatingCast" and n.ctype.strip() == "float":
                    v = struct.unpack("f", struct.pack("f", v))[0]
                elif isinstance(v, float) and n.cast == "FloatingToIntegral":
                    v = wrapint(int(v), n.ctype)
                out.append((s, v))
            return out
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return [(st, int(n.value))]
        if k == "FloatingLiteral":
            return [(st, ("flt", n.value))]
        if k == "StringLiteral":
            return [(st, ("str", n.value))]
        if k == "DeclRefExpr":
            if n.refkind == "EnumConstantDecl":
                return [(st, ctx[0].enums[n.ref])]
            if n.refkind == "FunctionDecl":
                return [(st, ("fn", n.ref))]
            return [(s, self.rval(l, s)) for s, l in self.lv(n, st, ctx)]
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            return [(s, self.rval(l, s)) for s, l in self.lv(n, st, ctx)]
        if k == "UnaryOperator":
            return self.unary(n, st, ctx)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(n, st, ctx)
        if k == "ConditionalOperator":
            out = []
            for s, b in self.cond(n.kids[0], st, ctx):
                out.extend(self.ev(n.kids[1] if b else n.kids[2], s, ctx))
            return out
        if k == "CallExpr":
            return self.call(n, st, ctx)
        if k == "UnaryExprOrTypeTraitExpr":
            c = self.sizeof(n, ctx)
            return [(st, c)]
        if k == "StmtExpr":
            out = []
            b = n.kids[0]
            for s, status, v in self.stmtexpr(b, st, ctx):
                if status == "normal":
                    out.append((s, v))
                elif status == "dead":
                    continue
                else:
                    raise AnalysisBroken("control leaves a statement expression")
            return out
        if k == "CompoundLiteralExpr" or k == "InitListExpr":
            loc = ("tmp", next(self.uid))
            il = strip(n.kids[0]) if k == "CompoundLiteralExpr" else n
            return [(s, ("ld", loc)) for s in self.initlist(il, loc, st, ctx)]
        if k == "VAArgExpr":
            return [(st, ("vaarg", next(self.uid)))]
        if k == "ImplicitValueInitExpr":
            return [(st, 0)]
        if k == "PredefinedExpr":
            return [(st, ("str", "fn"))]
        if k == "OffsetOfExpr":
            return [(st, ("offsetof", next(self.uid)))]
        raise AnalysisBroken("expression %s at %s" % (k, n.loc()))

    def stmtexpr(self, b, st, ctx):
        if not b.kids:
            return [(st, "normal", None)]
        out = []
        last = b.kids[-1]
        for s, status, v in self.seq(b.kids[:-1], st, ctx):
            if status != "normal":
                out.append((s, status, v))
            elif last.kind.endswith("Expr") or last.kind.endswith("Operator"):
                for s2, v2 in self.ev(last, s, ctx):
                    out.append((s2, "normal", v2))
            else:
                out.extend(self.stmt(last, s, ctx))
        return out

    def rval(self, loc, st):
        return self.resolve(self.read(loc, st), st)

    def sizeof(self, n, ctx):
        t = n.argtype or (n.kids[0].type if n.kids else None)
        if n.argtype is None and n.kids:
            t = strip(n.kids[0]).type if n.kids[0].kind == "ParenExpr" else n.kids[0].type
        w = typesize(t, ctx[0])
        if w is not None:
            return w[0]
        return ("sizeof", t)

    def unary(self, n, st, ctx):
        op = n.op
        if op == "__extension__":
            return self.ev(n.kids[0], st, ctx)
        if op == "&":
            x = strip(n.kids[0])
            if x.kind == "DeclRefExpr" and x.refkind == "FunctionDecl":
                return [(st, ("fn", x.ref))]
            out = []
            for s, l in self.lv(n.kids[0], st, ctx):
                if l[0] == "deref":
                    out.append((s, l[1]))
                else:
                    out.append((s, ("addr", l)))
            return out
        if op == "*":
            return [(s, self.rval(l, s)) for s, l in self.lv(n, st, ctx)]
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(n.kids[0], st, ctx):
                v = self.rval(l, s)
                nv = self.arith("+" if op == "++" else "-", v, 1, n)
                self.write(l, nv, s)
                out.append((s, v if n.postfix else nv))
            return out
        out = []
        if op == "!":
            for s, v in self.ev(n.kids[0], st, ctx):
                b = self.truth(v, s)
                out.append((s, int(not b) if b is not None else ("un", "!", v)))
            return out
        for s, v in self.ev(n.kids[0], st, ctx):
            if isinstance(v, int):
                v = {"-": -v, "~": ~v, "+": v}.get(op, v)
                v = wrapint(v, n.ctype)
            elif op != "+":
                v = ("un", op, v)
            out.append((s, v))
        return out

    def arith(self, op, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                     "/": lambda: int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     "%": lambda: a - b * (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
                     "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b,
                     "^": lambda: a ^ b}[op]()
                return wrapint(r, n.ctype) if n is not None and n.kind != "UnaryOperator" else r
            except (ZeroDivisionError, ValueError, OverflowError):
                return ("undef", "arith")
        if op in ("+", "-") and b == 0:
            return a
        if op == "+" and isinstance(a, int):
            if a == 0:
                return b
            a, b = b, a
        # (x + c) + d
        if op in ("+", "-") and isinstance(b, int) and isinstance(a, tuple) and a[0] == "bin" and a[1] == "+" and isinstance(a[3], int):
            c = a[3] + (b if op == "+" else -b)
            return a[2] if c == 0 else ("bin", "+", a[2], c)
        if op == "-" and isinstance(b, int):
            return ("bin", "+", a, -b)
        return ("bin", op, a, b)

    def binary(self, n, st, ctx):
        op = n.op
        if op == "=":
            out = []
            il = strip(n.kids[1])
            for s, v in self.ev(n.kids[1], st, ctx):
                if v == ("noreturn",):
                    continue
                for s2, l in self.lv(n.kids[0], s, ctx):
                    self.write(l, v, s2)
                    out.append((s2, v))
            return out
        if op == ",":
            out = []
            for s, v in self.ev(n.kids[0], st, ctx):
                if v == ("noreturn",):
                    continue
                out.extend(self.ev(n.kids[1], s, ctx))
            return out
        if op in ("&&", "||"):
            return [(s, int(b)) for s, b in self.cond(n, st, ctx)]
        if n.kind == "CompoundAssignOperator":
            o = op[:-1]
            out = []
            for s, l in self.lv(n.kids[0], st, ctx):
                for s2, b in self.ev(n.kids[1], s, ctx):
                    a = self.rval(l, s2)
                    v = self.arith(o, a, b, n)
                    self.write(l, v, s2)
                    out.append((s2, v))
            return out
        out = []
        for s, a in self.ev(n.kids[0], st, ctx):
            for s2, b in self.ev(n.kids[1], s, ctx):
                a2, b2 = self.resolve(a, s2), self.resolve(b, s2)
                if op in NEG:
                    t = self.cmptruth(("bin", op, a2, b2), s2)
                    out.append((s2, int(t) if t is not None else ("bin", op, a2, b2)))
                else:
                    out.append((s2, self.arith(op, a2, b2, n)))
        return out

    # ---- calls -------------------------------------------------------------
    def call(self, n, st, ctx):
        name = callee(n)
        states = [(st, [])]
        if name is None:
            nxt = []
            for s, f in self.ev(n.kids[0], st, ctx):
                nxt.append((s, [f]))
            states = nxt
        for a in cargs(n):
            nxt = []
            for s, acc in states:
                x = strip(a)
                for s2, v in self.ev(a, s, ctx):
                    if v == ("noreturn",):
                        continue
                    nxt.append((s2, acc + [self.resolve(v, s2)]))
            states = nxt
        out = []
        for s, av in states:
            if name is None:
                f, av2 = av[0], av[1:]
                if isinstance(f, tuple) and f[0] == "fn":
                    out.extend(self.docall(f[1], av2, n, s, ctx))
                else:
                    out.extend(self.opaque("*" + show(n.kids[0]), [f] + av2, n, s))
                continue
            out.extend(self.docall(name, av, n, s, ctx))
        return out

    def docall(self, name, av, n, s, ctx):
        self.tick()
        if name in NORETURN and name not in self.prims:
            s.events.append(("noreturn", name))
            return [(s, ("noreturn",))]
        if name in self.prims:
            h = self.prims[name]
            r = h(self, s, av, n, ctx)
            return r
        tgt = self.p.find(name, ctx[0])
        if tgt is not None and name not in self.noinline and (self.inline is None or name in self.inline or self.inline == "all"):
            if name in s.depth or len(s.depth) > self.maxdepth:
                return self.opaque(name, av, n, s)
            return self.invoke(tgt[0], tgt[1], av, s)
        return self.opaque(name, av, n, s)

    def opaque(self, name, av, n, s):
        if name in self.pure:
            return [(s, ("call", name) + tuple(av))]
        s.count += 1
        r = ("ret", name, s.count, tuple(av))
        s.events.append(("call", name, tuple(av), n.loc()))
        return [(s, r)]


def ev_prim(name):
    """primitive that logs an event and returns an opaque result"""
    def h(it, s, av, n, ctx):
        s.count += 1
        s.events.append((name,) + tuple(av) + (n.loc(),))
        return [(s, ("res", name, s.count))]
    return h


def ctype_bits(c):
    """the C locale's class bits of a character, as <ctype.h> macros test them"""
    if not 0 <= c < 128:
        return 0
    ch = chr(c)
    b = 0
    up, lo, dg = "A" <= ch <= "Z", "a" <= ch <= "z", "0" <= ch <= "9"
    b |= 0x100 * up | 0x200 * lo | 0x400 * (up or lo) | 0x800 * dg | 0x1000 * (ch in "0123456789abcdefABCDEF")
    b |= 0x2000 * (ch in " \t\n\v\f\r") | 0x4000 * (32 <= c < 127) | 0x8000 * (32 < c < 127)
    b |= 1 * (ch in " \t") | 2 * (c < 32 or c == 127) | 4 * (32 < c < 127 and not (up or lo or dg)) | 8 * (up or lo or dg)
    return b


def ctype_setup(it, st):
    """<ctype.h> macros read a table through __ctype_b_loc(): give it the C locale's contents"""
    it.prims["__ctype_b_loc"] = lambda it, s, av, n, ctx: [(s, ("ctype",))]

    def case(up):
        def h(it, s, av, n, ctx):
            c = it.resolve(av[0], s)
            if not isinstance(c, int):
                return [(s, ("call", "toupper" if up else "tolower", c))]
            if up and 97 <= c <= 122:
                c -= 32
            elif not up and 65 <= c <= 90:
                c += 32
            return [(s, c)]
        return h
    it.prims["tolower"], it.prims["toupper"] = case(False), case(True)
    for c in range(-128, 256):
        st.store[("idx", ("ld", ("deref", ("ctype",))), c)] = ctype_bits(c)
