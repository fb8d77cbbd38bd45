"""Statement lists through the flow graph: the abstract interpreter runs mkcfg, selfunc, peep and writeasm over
a list of opaque statements, labels and jumps, and the lines that come out are walked next to the list."""
from sel import *  # noqa
from nodes import *  # noqa
from cint import State  # noqa
from ccast import AnalysisBroken, Endless

# statements of a list:  ("s", k) a call   ("l", n) label   ("j", n)   ("c", v, a, b)   ("r",) return   ("x", k) a call that
# never returns   ("d",) dead   ("decl", v)   ("undef", v)   ("set", v, (u..))   ("use", (u..))  ("ref", v)  ("st", v, u) store through a pointer


class Fatal(Exception):
    pass


def lshow(l):
    def f(x):
        k = x[0]
        return {"s": lambda: "s%d" % x[1], "l": lambda: "L%d:" % x[1], "j": lambda: "jmp L%d" % x[1], "c": lambda: "cjmp %s L%d L%d" % x[1:], "r": lambda: "ret", "x": lambda: "never%d" % x[1],
                "d": lambda: "dead", "decl": lambda: "var %s" % x[1], "undef": lambda: "undef %s" % x[1], "set": lambda: "%s = %s" % (x[1], "+".join(x[2]) or "1"),
                "opset": lambda: "%s += %s" % (x[1], "+".join(x[2]) or "1"), "mv": lambda: "%s = %s" % (x[1], x[2][0]), "use": lambda: "use %s" % ",".join(x[1]), "ref": lambda: "f(&%s)" % x[1], "st": lambda: "%s# = %s" % x[1:],
                "clr": lambda: "clear %s" % x[1]}[k]()
    return "; ".join(map(f, l))


class Graph(Sel):
    FILES = ["mi/cfg.c", "mi/reaching.c", "mi/dfcheck.c", "6/isel.c", "6/peep.c", "6/gengas.c", "6/genp9.c", "6/locs.c", "parse/node.c", "parse/type.c", "parse/names.c", "util/util.c"]

    def __init__(self):
        super().__init__()
        p = self.pr
        p["mkbs"] = self.mkbs
        p["bsdup"] = lambda it, s, av, n, ctx: self.newbs(s, s.store[("bs", it.resolve(av[0], s))])
        p["bsclear"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: frozenset())
        p["bsput"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: a | {b})
        p["bsdel"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: a - {b})
        p["bsunion"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: a | self.bs(s, b))
        p["bsintersect"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: a & self.bs(s, b))
        p["bsdiff"] = lambda it, s, av, n, ctx: self.setbs(it, s, av, lambda a, b: a - self.bs(s, b))
        p["bseq"] = lambda it, s, av, n, ctx: [(s, int(self.bs(s, it.resolve(av[0], s)) == self.bs(s, it.resolve(av[1], s))))]
        p["bshas"] = lambda it, s, av, n, ctx: [(s, int(it.resolve(av[1], s) in self.bs(s, it.resolve(av[0], s))))]
        p["bsisempty"] = lambda it, s, av, n, ctx: [(s, int(not self.bs(s, it.resolve(av[0], s))))]
        p["bscount"] = lambda it, s, av, n, ctx: [(s, len(self.bs(s, it.resolve(av[0], s))))]
        p["bsmax"] = lambda it, s, av, n, ctx: [(s, max(self.bs(s, it.resolve(av[0], s)), default=-1) + 1)]
        p["bsiter"] = self.bsiter
        p["bsfree"] = nop()
        p["mkht"] = lambda it, s, av, n, ctx: self.newht(s)
        p["memdup"] = lambda it, s, av, n, ctx: [(s, it.resolve(av[0], s))]
        p["xalloc"] = self.alloc
        p["bprintf"] = self.bprintf
        p["fprintf"] = self.fprintf
        p["strdup"] = lambda it, s, av, n, ctx: [(s, self.strof(it, s, av[0]))]
        p["strlen"] = lambda it, s, av, n, ctx: [(s, len(self.strof(it, s, av[0])[1].strip('"')))]
        p["iprintf"] = self.iprintf
        p["g"] = self.g
        p["fatal"] = self.fatal
        p["lfatal"] = self.fatal
        p["die"] = self.fatal
        p["prologue"] = lambda it, s, av, n, ctx: self.mark(it, s, it.resolve(av[0], s), "ENTRY")
        p["epilogue"] = lambda it, s, av, n, ctx: self.mark(it, s, it.resolve(av[0], s), "EXIT")
        p["gencall"] = lambda it, s, av, n, ctx: self.mark(it, s, it.resolve(av[0], s), self.names.get(it.resolve(av[1], s)) or "?")
        p["handlesmallstructargs"] = nop()
        p["selexpr_"] = nop()
        p["tybase"] = self.T.p_same
        p["isconstfn"] = p["stacknode"] = nop()
        self.opaque = None

    def mkbs(self, it, s, av, n, ctx):
        return self.newbs(s, frozenset())

    def newbs(self, s, v):
        o = self.T.obj(s)
        s.store[("bs", o)] = v
        return [(s, o)]

    def bs(self, s, o):
        if o == 0:
            return frozenset()
        v = s.store.get(("bs", o))
        if v is None:
            raise AnalysisBroken("a set that is not one")
        return v

    def setbs(self, it, s, av, f):
        a = it.resolve(av[0], s)
        b = it.resolve(av[1], s) if len(av) > 1 else None
        if a == 0:
            raise NullDeref("nothing is changed as a set in " + "/".join(list(s.depth)[-3:]))
        s.store[("bs", a)] = frozenset(f(self.bs(s, a), b))
        return [(s, a)]

    def bsiter(self, it, s, av, n, ctx):
        a, p = it.resolve(av[0], s), it.resolve(av[1], s)
        i = it.resolve(it.read(p[1], s), s)
        l = [x for x in self.bs(s, a) if x >= i]
        if not l:
            return [(s, 0)]
        it.write(p[1], min(l), s)
        return [(s, 1)]

    def newht(self, s):
        self.nht += 1
        h = ("ht", "t%d" % self.nht)
        s.ne[h] = frozenset([0])
        return [(s, h)]

    def bprintf(self, it, s, av, n, ctx):
        f = it.resolve(av[2], s)[1].strip('"')
        l = [it.resolve(x, s) for x in av[3:]]
        if any(isinstance(x, tuple) and x[0] != "str" for x in l):
            l = [0 if isinstance(x, tuple) and x[0] != "str" else x for x in l]
        l = [x[1].strip('"') if isinstance(x, tuple) else x for x in l]
        b = it.resolve(av[0], s)
        v = ("str", '"%s"' % (f.replace("%zd", "%d") % tuple(l)))
        s.store[("text", b)] = v
        return [(s, len(v[1]) - 2)]

    def strof(self, it, s, v):
        v = it.resolve(v, s)
        if isinstance(v, tuple) and v[0] == "str":
            return v
        t = s.store.get(("text", v))
        if t is None:
            raise AnalysisBroken("a text that is not known: " + show_(v))
        return t

    def fprintf(self, it, s, av, n, ctx):
        f = it.resolve(av[1], s)[1].strip('"').replace("\\n", "\n").replace("\\t", "\t")
        l = [self.strof(it, s, x)[1].strip('"') if not isinstance(it.resolve(x, s), int) else it.resolve(x, s) for x in av[2:]]
        self.out.append(f.replace("%zd", "%d") % tuple(l))
        return [(s, 0)]

    def iprintf(self, it, s, av, n, ctx):
        self.out.append(("insn", it.resolve(av[1], s)))
        return [(s, 0)]

    def fatal(self, it, s, av, n, ctx):
        raise Fatal(" ".join(x[1].strip('"') for x in (it.resolve(a, s) for a in av) if isinstance(x, tuple) and x[0] == "str"))

    def insn(self, s, iss, op, args):
        T = self.T
        o = T.obj(s, op=op, nargs=len(args))
        for k, a in enumerate(args):
            s.store[("idx", ("fld", o, "args"), k)] = a
        cb = s.store.get(("fld", iss, "curbb"), 0)
        if cb == 0:
            raise Bad("an instruction is put into a block that is not there")
        n = s.store.get(("fld", cb, "ni"), 0)
        il = s.store.get(("fld", cb, "il"), 0)
        if not il:
            il = s.store[("fld", cb, "il")] = T.array(s, [])
        s.store[("idx", il, n)] = o
        s.store[("fld", cb, "ni")] = n + 1

    def g(self, it, s, av, n, ctx):
        l = [it.resolve(a, s) for a in av[1:]]
        self.insn(s, it.resolve(av[0], s), l[0], [a for a in l[1:] if a != 0])
        return [(s, 0)]

    def mark(self, it, s, iss, name):
        k = self.marks.setdefault(name, 100000 + len(self.marks))
        self.insn(s, iss, k, [])
        return [(s, 0)]

    # -- building --------------------------------------------------------------------------------
    def lab(self, n):
        return self.T.expr(self.s, "Olit", [self.T.lit(self.s, "Llbl", lblval=("str", '"L%d"' % n))], self.T.ty(self.s, "Tyvoid"))

    def name_of(self, f, noret=0):
        return self.var(self.s, f, self.T.ty(self.s, "Tycode", (self.T.ty(self.s, "Tyvoid"),)), isglobl=1, isconst=1, isnoret=noret)

    def local(self, v):
        s = self.s
        o = self.var(s, v, self.T.ty(s, "Tyint64"))
        key = ("htent", "reglocs", self.did(v))
        if key not in s.store:
            self.regvar(s, v, "ModeQ")
        return o

    def stmt(self, x):
        s, T = self.s, self.T
        vo, I = T.ty(s, "Tyvoid"), T.ty(s, "Tyint64")
        k = x[0]
        e = lambda op, *a: T.expr(s, op, list(a), vo)
        if k == "l":
            return self.lab(x[1])
        if k == "j":
            return e("Ojmp", self.lab(x[1]))
        if k == "c":
            return e("Ocjmp", self.local(x[1]), self.lab(x[2]), self.lab(x[3]))
        if k == "r":
            return e("Oret")
        if k == "d":
            return e("Odead")
        if k == "decl":
            self.local(x[1])
            return self.decl(s, x[1], I)
        if k in ("s", "x"):
            f = ("s%d" if k == "s" else "never%d") % x[1]
            o = e("Ocall", self.name_of(f, int(k == "x")))
            self.names[o] = f
            return o
        if k == "undef":
            return e("Oundef", self.local(x[1]))
        if k == "mv":
            return e("Oset", self.local(x[1]), self.local(x[2][0]))
        if k in ("set", "opset"):
            r = self.sum(x[2])
            return e("Oset" if k == "set" else "Oaddeq", self.local(x[1]), r)
        if k == "clr":
            return e("Oclear", T.expr(s, "Oaddr", [self.local(x[1])], T.ty(s, "Typtr", (I,))), T.intlit(s, 8, I))
        if k == "use":
            o = e("Ocall", self.name_of("use"), *[self.local(v) for v in x[1]])
            self.names[o] = "use"
            return o
        if k == "ref":
            o = e("Ocall", self.name_of("use"), T.expr(s, "Oaddr", [self.local(x[1])], T.ty(s, "Typtr", (I,))))
            self.names[o] = "use"
            return o
        if k == "st":
            return e("Oset", T.expr(s, "Oderef", [self.local(x[1])], I), self.local(x[2]))
        raise AnalysisBroken("a statement")

    def sum(self, vs):
        s, T = self.s, self.T
        I = T.ty(s, "Tyint64")
        r = T.intlit(s, 1, I)
        for v in vs:
            r = T.expr(s, "Oadd", [r, self.local(v)], I)
        return r

    def begin(self, l, ret="Tyvoid"):
        s, iss = self.state()
        self.s = s
        self.nht = 0
        self.marks = {}
        self.names = {}
        self.out = []
        T = self.T
        s.store[("glob", "tyvoid")] = T.ty(s, "Tyvoid")
        s.store[("glob", "asmsyntax")] = self.E["Gnugaself"]
        fnty = T.ty(s, "Tyfunc", (T.ty(s, ret),))
        fn = T.stmt(s, "Ndecl", "decl", name=T.name(s, "fn"), type=fnty, did=400)
        nodes = [self.stmt(x) for x in l]
        # nodes are numbered, and the table of them is there
        k = 1
        for o in [q[1] for q in list(s.store) if q[0] == "fld" and q[2] == "type" and isinstance(q[1], tuple) and q[1][0] == "o"]:
            s.store[("fld", o, "nid")] = k
            s.store[("idx", ("nodestab",), k)] = o
            k += 1
        s.store[("glob", "nodes")] = ("nodestab",)
        s.store[("glob", "nnodes")] = k
        it = self.interp()
        it.constcond = lambda *a: True          # everything is known, and so are the trips of a loop
        it.zeroed = it.zeroed + ("nextret", "file")
        self.it = it
        # what did stands at the lowest number is a matter of the program
        return it, s, iss, fn, T.array(s, nodes)

    def one(self, it, s, name, args, rel):
        r = it.run(name, args, st=s, rel=rel)
        if len(r) != 1:
            raise AnalysisBroken("%s has %d ways" % (name, len(r)))
        self.s = r[0][0]
        return r[0]

    def graph(self, l, ret="Tyvoid"):
        it, s, iss, fn, arr = self.begin(l, ret)
        s, cfg = self.one(it, s, "mkcfg", [fn, arr, len(l)], "mi/cfg.c")
        return it, s, iss, cfg

    def twice(self, gen):
        """the labels of two functions that are compiled one after the other"""
        got = []
        it, s, iss, fn, arr = self.begin((("s", 0), ("r",), ("s", 1)))
        for _ in range(2):
            s, cfg = self.one(it, s, "mkcfg", [fn, arr, 3], "mi/cfg.c")
            for b in self.blocks(s, cfg):
                if b:
                    for i in range(self.T.get(s, b, "nlbls")):
                        got.append(s.store[("idx", self.T.get(s, b, "lbls"), i)])
        if len(set(got)) != len(got) or len(got) < 2:
            raise Bad("two functions share a label: %s" % ", ".join(x[1].strip('"') for x in got))

    def blocks(self, s, cfg):
        T = self.T
        return [s.store.get(("idx", T.get(s, cfg, "bb"), i), 0) for i in range(T.get(s, cfg, "nbb"))]

    # -- the list and the lines side by side ---------------------------------------------------------
    def emit(self, l, gen="6/gengas.c"):
        it, s, iss, cfg = self.graph(l)
        T = self.T
        f = T.obj(s, cfg=cfg, name=("str", '"fn"'), isexport=0, stksz=0, nargs=0)
        s.store[("fld", ("fld", f, "loc"), "file")] = -1
        for k in ("bb", "nbb"):
            s.store[("fld", iss, k)] = 0
        s.store[("fld", iss, "cfg")] = cfg
        st = T.obj(s, lit=0)
        s.store[("fld", iss, "stksz")] = st
        for b in self.blocks(s, cfg):
            if b:
                nl = T.get(s, b, "nl")
                for i in range(T.get(s, b, "nnl")):
                    s.store[("fld", ("fld", s.store[("idx", nl, i)], "loc"), "file")] = -1
        s, _ = self.one(it, s, "selfunc", [iss, f, ("ht", "globls"), ("ht", "strtab")], "6/isel.c")
        n = len(self.blocks(s, cfg))
        bbs = [s.store.get(("idx", T.get(s, iss, "bb"), i), 0) for i in range(T.get(s, iss, "nbb"))]
        # each block is known by the instructions in it, for the edges
        owner = {}
        for b in bbs:
            if b:
                il = T.get(s, b, "il")
                for i in range(T.get(s, b, "ni")):
                    owner[s.store[("idx", il, i)]] = b
        self.out = []
        s, _ = self.one(it, s, "writeasm", [("fd",), iss, f], gen)
        lines = []
        for x in self.out:
            if isinstance(x, tuple):
                lines.append(("i",) + self.line(s, x[1]) + (owner.get(x[1]),))
            elif x.rstrip("\n").endswith(":"):
                lines.append(("l", x.strip().rstrip(":")))
            elif "TEXT" in x:
                lines.append(("l", "fn"))
        edges = {}
        for b in bbs:
            if b:
                g = lambda w: {bbs[i] if i < len(bbs) else None for i in self.bs(s, T.get(s, b, w))}
                edges[b] = (g("pred"), g("succ"))
        return lines, edges, bbs

    def line(self, s, o):
        op = s.store[("fld", o, "op")]
        for name, k in self.marks.items():
            if k == op:
                return (name, None)
        nm = self.asmop[op]
        a = [s.store[("idx", ("fld", o, "args"), k)] for k in range(s.store[("fld", o, "nargs")])]
        return (nm, [self.decode(s, x) for x in a])

    def follow(self, l, gen):
        lines, edges, bbs = self.emit(l, gen)
        for b, (p, q) in edges.items():
            if None in p or 0 in p or None in q or 0 in q:
                raise Bad("a block has an edge to one that is not there")
            for c in q:
                if b not in edges[c][0]:
                    raise Bad("a block does not know of one before it")
            for c in p:
                if b not in edges[c][1]:
                    raise Bad("a block does not know of one after it")
        at = {}
        for i, x in enumerate(lines):
            if x[0] == "l":
                if x[1] in at:
                    raise Bad("the label %s stands twice" % x[1])
                at[x[1]] = i
        src = {x[1]: i for i, x in enumerate(l) if x[0] == "l"}
        ids = {}
        for did_name, d in self.dids.items():
            lo = self.s.store.get(("htent", "reglocs", d))
            if lo:
                ids[self.T.get(self.s, lo, "reg", "id")] = did_name

        names = set(ids)

        def src_next(i):
            """the next event of the list from place i -> (event, follow places)"""
            seen = set()
            while True:
                if i in seen:
                    return ("loop",), ()
                seen.add(i)
                if i >= len(l):
                    return ("EXIT",), ()
                x = l[i]
                if x[0] in ("l", "decl", "undef"):
                    i += 1
                elif x[0] == "j":
                    i = src[x[1]]
                elif x[0] == "r":
                    return ("EXIT",), ()
                elif x[0] == "c":
                    return ("br", x[1]), (src[x[2]], src[x[3]])
                elif x[0] == "s":
                    return ("s%d" % x[1],), (i + 1,)
                elif x[0] == "x":
                    return ("never%d" % x[1],), ()
                elif x[0] == "d":
                    return ("dead",), ()
                else:
                    raise AnalysisBroken("a statement is followed")

        def jump(i, lb):
            if lb.kind != "lbl" or lb.lbl not in at:
                raise Bad("a jump to %s, which is nowhere" % (lb.lbl if lb.kind == "lbl" else lb.kind))
            return at[lb.lbl]

        def edge(b, c):
            if b is not None and c is not None and b is not c and c not in edges[b][1]:
                raise Bad("control passes between two blocks without an edge")

        def block_at(i):
            while i < len(lines) and lines[i][0] == "l":
                i += 1
            return lines[i][3] if i < len(lines) else None

        def asm_next(i, cur):
            seen = set()
            while True:
                if i in seen:
                    return ("loop",), ()
                seen.add(i)
                if i >= len(lines):
                    return ("fell off",), ()
                x = lines[i]
                if x[0] == "l":
                    i += 1
                    continue
                b = x[3]
                self.passed(edges, cur, b)
                cur = b
                op = x[1]
                if op in ("ENTRY", "Icomment", "Iloc"):
                    i += 1
                elif op == "Imov" and x[2][0].kind == x[2][1].kind == "reg" and x[2][1].id not in names:
                    ids[x[2][1].id] = ids.get(x[2][0].id)       # a temporary of its own
                    i += 1
                elif op == "Ijmp":
                    i = jump(i, x[2][0])
                elif op == "Itest":
                    a, c = x[2]
                    nx = lines[i + 1] if i + 1 < len(lines) else None
                    if nx is None or nx[0] != "i" or nx[1] != "Ijnz" or a.id != c.id:
                        raise AnalysisBroken("a branch of another form")
                    return ("br", ids.get(a.id)), ((jump(i, nx[2][0]), cur), (i + 2, cur))
                elif op == "EXIT":
                    return ("EXIT",), ()
                else:
                    return (op,), ((i + 1, cur),)

        todo = [(0, (0, None))]
        seen = set()
        while todo:
            i, (j, cur) = todo.pop()
            if (i, j, cur) in seen:
                continue
            seen.add((i, j, cur))
            e1, n1 = src_next(i)
            if e1 == ("dead",):
                continue                        # it is never come to
            e2, n2 = asm_next(j, cur)
            if e1 != e2:
                raise Bad("where the statements go on with %s the code goes on with %s" % (" ".join(e1), " ".join(map(str, e2))))
            if e1[0].startswith("never") or e1 == ("loop",):
                continue
            todo.extend(zip(n1, n2))
        return len(seen)

    def passed(self, edges, a, b):
        """control goes from a block to another, through blocks that hold nothing"""
        if a is None or a is b or b is None:
            return
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in edges[x][1]:
                if y is b:
                    return
                if y not in seen and not self.T.get(self.s, y, "ni"):
                    seen.add(y)
                    todo.append(y)
        raise Bad("control passes between two blocks without an edge")

    # -- what is rejected -------------------------------------------------------------------------------
    def rejected(self, l, ret):
        """the complaint about a function of these statements, or None"""
        try:
            it, s, iss, cfg = self.graph(l, ret)
            self.one(it, s, "check", [cfg], "mi/dfcheck.c")
        except Fatal as e:
            return str(e)
        return None
