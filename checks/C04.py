"""Source text denotes the tree the manual gives it: operator tokens by longest match, the
precedence and associativity of every operator, operand order, and the shape of statements.
Decided from the lexer's decision paths, the LALR tables bison builds and the abstract value
of the semantic actions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from ccast import AnalysisBroken, strip
from cint import Program, Interp, State
from lr import Grammar
from nodes import Nodes

# the manual's table (doc/lang.txt 5.2.1), by rising precedence
ASSIGN = {"=": "Oasn", "+=": "Oaddeq", "-=": "Osubeq", "*=": "Omuleq", "/=": "Odiveq", "%=": "Omodeq", "|=": "Oboreq", "^=": "Obxoreq", "&=": "Obandeq",
          "<<=": "Obsleq", ">>=": "Obsreq"}
BIN = [{"||": "Olor"}, {"&&": "Oland"}, {"==": "Oeq", "!=": "One", ">": "Ogt", ">=": "Oge", "<": "Olt", "<=": "Ole"}, {"|": "Obor", "^": "Obxor"}, {"&": "Oband"},
       {"+": "Oadd", "-": "Osub"}, {"*": "Omul", "/": "Odiv", "%": "Omod"}, {"<<": "Obsl", ">>": "Obsr"}]
PREFIX = {"&": "Oaddr", "!": "Olnot", "~": "Obnot", "-": "Oneg", "+": None, "++": "Opreinc", "--": "Opredec"}
POSTFIX = {"++": "Opostinc", "--": "Opostdec", "#": "Oderef"}
PUNCT = {"{": "Tobrace", "}": "Tcbrace", "(": "Toparen", ")": "Tcparen", "[": "Tosqbrac", "]": "Tcsqbrac", ",": "Tcomma", "`": "Ttick", "#": "Tderef", "?": "Tqmark",
         ":": "Tcolon", "::": "Twith", "~": "Tbnot", ";": "Tendln", ";;": "Tendblk", ".": "Tdot", "...": "Tellipsis", "+=": "Taddeq", "++": "Tinc", "+": "Tplus",
         "-=": "Tsubeq", "--": "Tdec", "->": "Tret", "-": "Tminus", "*=": "Tmuleq", "*": "Tmul", "/=": "Tdiveq", "/": "Tdiv", "%=": "Tmodeq", "%": "Tmod", "==": "Teq",
         "=": "Tasn", "|=": "Tboreq", "||": "Tlor", "|": "Tbor", "&=": "Tbandeq", "&&": "Tland", "&": "Tband", "^=": "Tbxoreq", "^": "Tbxor", "<=": "Tle", "<<=": "Tbsleq",
         "<<": "Tbsl", "<": "Tlt", ">=": "Tge", ">>=": "Tbsreq", ">>": "Tbsr", ">": "Tgt", "!=": "Tne", "!": "Tlnot"}
KEYWORDS = {"$noret": "Tattr", "_": "Tgap", "auto": "Tauto", "break": "Tbreak", "const": "Tconst", "continue": "Tcontinue", "elif": "Telif", "else": "Telse",
            "extern": "Tattr", "false": "Tboollit", "for": "Tfor", "generic": "Tgeneric", "goto": "Tgoto", "if": "Tif", "impl": "Timpl", "match": "Tmatch", "pkg": "Tpkg",
            "pkglocal": "Tattr", "sizeof": "Tsizeof", "struct": "Tstruct", "trait": "Ttrait", "true": "Tboollit", "type": "Ttype", "union": "Tunion", "use": "Tuse",
            "var": "Tvar", "void": "Tvoidlit", "while": "Twhile"}


# ---------------------------------------------------------------- lexer
def fixed(v):
    """index of the source character a value is, or None"""
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[2]
    if isinstance(v, tuple) and v[0] == "ld":
        v = v[1]
    if isinstance(v, tuple) and v[0] == "idx" and v[1] == ("ld", ("glob", "fbuf")) and isinstance(v[2], int):
        return v[2]
    return None


def lexer(c, G):
    P = Program(["parse/tok.c"])
    c.unit("parse/tok.c:oper")
    it = Interp(P, {"mktok": lambda it, s, av, n, ctx: [(s, ("tok", it.resolve(av[0], s)))]})
    t, fn = P.func("oper")
    st = State()
    st.store[("glob", "fidx")] = 0
    num = {v: k for k, v in P.enums.items() if k.startswith("T") and k in G.tok}
    seen = {}
    for s, v in it.invoke(t, fn, [], st):
        if any(e[0] == "noreturn" for e in s.events):
            continue
        end = s.store.get(("glob", "fidx"))
        if not isinstance(end, int) or not (isinstance(v, tuple) and v[0] == "tok" and isinstance(v[1], int)):
            raise AnalysisBroken("oper: a path whose token or length is not decided")
        eq = {fixed(k): chr(x) for k, x in s.eq.items() if fixed(k) is not None and isinstance(x, int) and 0 < x < 128}
        ne = {}
        for k, x in s.ne.items():
            if fixed(k) is not None:
                ne.setdefault(fixed(k), set()).update(chr(y) for y in x if isinstance(y, int) and 0 < y < 128)
        eof = set()
        for a, b in s.assume.items():
            if isinstance(a, tuple) and a[0] == "bin" and a[1] in (">=", "<") and isinstance(a[2], int) and b == (a[1] == ">="):
                eof.add(a[2])
        if 0 in eof:
            continue
        if not all(i in eq for i in range(end)):
            # a path on which an earlier character was not tested to be anything (default case that does not fail)
            c.bad("lexer", "junk", "oper() returns a token for a character that starts no operator")
            continue
        w = "".join(eq[i] for i in range(end))
        tok = num.get(v[1], str(v[1]))
        seen.setdefault(w, set()).add(tok)
        # longest match: whatever follows, no longer documented spelling fits
        ctxt = dict(eq)
        longer = [x for x in PUNCT if x.startswith(w) and len(x) > len(w)]
        fits = []
        for x in longer:
            ok = True
            for i in range(len(w), len(x)):
                if i in eof or (i in ctxt and ctxt[i] != x[i]) or x[i] in ne.get(i, ()):
                    ok = False
                    break
            if ok:
                fits.append(x)
        if w in PUNCT:
            c.decide(not fits, "lexer-longest", w, "oper() stops after %r although %s may follow in the source" % (w, ", ".join(map(repr, fits))), "%r is only taken when no longer operator fits" % w)
    for w, tok in sorted(PUNCT.items()):
        got = seen.get(w)
        c.decide(got == {tok}, "lexer", w, "the source text %r is read as %s, not %s" % (w, " or ".join(sorted(got)) if got else "no token", tok), "%r -> %s" % (w, tok))
    for w in sorted(set(seen) - set(PUNCT)):
        c.bad("lexer", "extra:" + w, "oper() reads %r as a token %s the language does not have" % (w, "/".join(sorted(seen[w]))))
    return num


def keywords(c, G, num):
    """constant propagation of every keyword (and its neighbours in the order) through kwd()"""
    P = Program(["parse/tok.c"])
    t, fn = P.func("kwd")
    c.unit("parse/tok.c:kwd")

    def text(v):
        if isinstance(v, tuple) and v[0] == "word":
            return v[1]
        if isinstance(v, tuple) and v[0] == "str":
            return v[1].strip('"')
        return None

    def cmp_(it, s, av, n, ctx):
        a, b = text(it.resolve(av[0], s)), text(it.resolve(av[1], s))
        if a is None or b is None:
            raise AnalysisBroken("kwd: a comparison whose strings are not decided: %r" % (av,))
        return [(s, (a > b) - (a < b))]
    others = set()
    for k in KEYWORDS:
        others |= {k + "a", k[:-1], k + "_", k[:-1] + chr(ord(k[-1]) + 1), "a" + k, k.upper()}
    others |= {"", "in", "zz", "A", "$", "noret"}
    for w in sorted(KEYWORDS) + sorted(x for x in others - set(KEYWORDS) if x):
        want = KEYWORDS.get(w, "Tident")
        it = Interp(P, {"strcmp": cmp_, "streq": lambda it, s, av, n, ctx: [(s, int(text(it.resolve(av[0], s)) == text(it.resolve(av[1], s))))]})
        it.consttabs = True
        got = set()
        for s, v in it.invoke(t, fn, [("word", w)], State()):
            got.add(num.get(v, v) if isinstance(v, int) else repr(v)[:60])
        c.decide(got == {want}, "keyword", w, "the word %r is read as %s, not %s" % (w, "/".join(map(str, got)) or "nothing", want), "%s -> %s" % (w, want))


# ---------------------------------------------------------------- expected trees
class Want:
    """reference reading of a token list, by the manual's table"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def expr(self):
        l = self.tern()
        if self.peek() in ASSIGN:
            op = self.t[self.i]
            self.i += 1
            return (ASSIGN[op], l, self.expr())
        return l

    def tern(self):
        a = self.binary(0)
        if self.peek() == "?":
            self.i += 1
            b = self.binary(0)
            assert self.t[self.i] == ":"
            self.i += 1
            return ("Otern", a, b, self.binary(0))
        return a

    def binary(self, lv):
        if lv == len(BIN):
            return self.prefix()
        l = self.binary(lv + 1)
        while self.peek() in BIN[lv]:
            op = self.t[self.i]
            self.i += 1
            l = (BIN[lv][op], l, self.binary(lv + 1))
        return l

    def prefix(self):
        p = self.peek()
        if p == "auto":
            self.i += 1
            return ("Oauto", self.prefix())
        if p in PREFIX:
            self.i += 1
            x = self.prefix()
            return (PREFIX[p], x) if PREFIX[p] else x
        if p == "`":
            nm = self.t[self.i + 1]
            self.i += 2
            if self.peek() is None or self.peek() in ASSIGN or self.peek() in (")", "]", ":", ",", "?") or any(self.peek() in b and self.peek() not in PREFIX for b in BIN):
                return ("Oucon", ("name", nm))
            return ("Oucon", ("name", nm), self.prefix())
        return self.postfix()

    def postfix(self):
        x = self.atom()
        while True:
            p = self.peek()
            if p in POSTFIX:
                self.i += 1
                x = (POSTFIX[p], x)
            elif p == ".":
                y = self.t[self.i + 1]
                self.i += 2
                x = ("Otupmemb", x, ("int", y)) if y[0].isdigit() else ("Omemb", x, ("name", y))
            elif p == "(":
                self.i += 1
                al = []
                while self.peek() != ")":
                    al.append(self.expr())
                    if self.peek() == ",":
                        self.i += 1
                self.i += 1
                x = ("call", x) + tuple(al)
            elif p == "[":
                self.i += 1
                lo = self.expr() if self.peek() != ":" else None
                if self.peek() == ":":
                    self.i += 1
                    hi = self.expr() if self.peek() != "]" else None
                    self.i += 1
                    x = ("slice", x, lo, hi)
                else:
                    self.i += 1
                    x = ("Oidx", x, lo)
            else:
                return x

    def atom(self):
        p = self.peek()
        self.i += 1
        if p == "(":
            x = self.expr()
            if self.peek() == ":":
                ty = self.t[self.i + 1]
                self.i += 3
                return ("Ocast", x, ("type", ty))
            if self.peek() == ",":
                l = [x]
                while self.peek() == ",":
                    self.i += 1
                    if self.peek() != ")":
                        l.append(self.expr())
                self.i += 1
                return ("Otup",) + tuple(l)
            self.i += 1
            return x
        if p == "[":
            l = []
            while self.peek() != "]":
                l.append(self.expr())
                if self.peek() == ",":
                    self.i += 1
            self.i += 1
            return ("Oarr",) + tuple(("elem", i, x) for i, x in enumerate(l))
        return ("var", p)


# ---------------------------------------------------------------- the grammar's trees
class Trees:
    def __init__(self, c, G, num):
        self.c, self.G = c, G
        self.N = Nodes(G.P)
        self.num = num
        self.op = self.N.opname
        self.failed = set()
        pr = dict(self.N.prims())
        self.uid = 0
        for f in list(G.P.tus[1].funcs) + ["mkexprl", "mkcall", "mksliceexpr", "mkstab"]:
            if f.startswith("mk") and f not in pr:
                pr[f] = self.maker(f)
        for f in ("mkexprl", "mkcall", "mksliceexpr", "mkloopstmt", "mkiterstmt", "mkifstmt", "mkmatchstmt", "mkmatch", "mkblock", "mkidxinit", "mkint", "mkintlit",
                  "mktype", "mktyunres", "mkstab", "mkboollit", "mkstr"):
            pr[f] = self.maker(f)
        pr["mkexpr"] = self.mkexpr
        pr["lappend"] = self.lappend
        pr["linsert"] = self.linsert
        for f in ("lfatal", "fatal", "die"):
            pr.setdefault(f, lambda it, s, av, n, ctx: (s.events.append(("noreturn",)), [(s, ("noreturn",))])[1])
        for f in ("putdcl", "puttype", "installucons", "addinit", "putlbl", "setuname", "genlblstr", "lfree"):
            pr[f] = self.effect(f)
        self.it = G.interp(pr)

    def maker(self, name):
        def h(it, s, av, n, ctx):
            self.uid += 1
            a = []
            for x in av[1:]:
                x = it.resolve(x, s)
                a.append(x)
            t = ("mk", name, self.uid) + tuple(a)
            s.ne[t] = frozenset([0])
            if name == "mkidxinit":
                # (loc, index, init): the initialiser itself, with its index set
                s.store[("fld", ("fld", av[2], "expr"), "idx")] = av[1]
                s.ne[av[1]] = frozenset([0])
                return [(s, av[2])]
            s.store[("fld", ("fld", t, "expr"), "idx")] = 0
            return [(s, t)]
        return h

    def mkexpr(self, it, s, av, n, ctx):
        r = self.N.mkexpr(it, s, av, n, ctx)
        for s2, t in r:
            s2.store.setdefault(("fld", ("fld", t, "expr"), "idx"), 0)
        return r

    def effect(self, name):
        def h(it, s, av, n, ctx):
            s.events.append((name,) + tuple(it.resolve(x, s) for x in av))
            return [(s, 0)]
        return h

    def listat(self, it, s, loc):
        v = it.resolve(it.read(loc, s), s)
        if v == 0 or (isinstance(v, tuple) and v[0] in ("undef", "ld", "cast")):
            return ()
        if isinstance(v, tuple) and v[0] == "list":
            return v[1:]
        raise AnalysisBroken("a list in a semantic action is not one built there: %r" % (v,))

    def lappend(self, it, s, av, n, ctx):
        loc, nloc = (a[1] if isinstance(a, tuple) and a[0] == "addr" else a for a in av[:2])
        l = self.listat(it, s, loc) + (it.resolve(av[2], s),)
        s.store[loc] = ("list",) + l
        s.store[nloc] = len(l)
        return [(s, 0)]

    def linsert(self, it, s, av, n, ctx):
        loc, nloc = (a[1] if isinstance(a, tuple) and a[0] == "addr" else a for a in av[:2])
        l = list(self.listat(it, s, loc))
        l.insert(it.resolve(av[2], s), it.resolve(av[3], s))
        s.store[loc] = ("list",) + tuple(l)
        s.store[nloc] = len(l)
        return [(s, 0)]

    # ---- tokens
    def tokname(self, w):
        if w in PUNCT:
            return PUNCT[w]
        if w == "\n":
            return "Tendln"
        if w in KEYWORDS:
            return KEYWORDS[w]
        if w[0].isdigit():
            return "Tintlit"
        return "Tident"

    def parse(self, words, pre, post):
        all_ = pre + words + post
        toks = [self.tokname(w) for w in all_]
        d, at = self.G.parse(toks)
        return d, at, toks, all_

    def value(self, words, pre=["const", "X", "="], post=["\n"]):
        """abstract value of the words read as one expression (or whatever pre/post embed)"""
        d, at, toks, all_ = self.parse(words, pre, post)
        if d is None:
            return ("syntax-error", all_[at] if at < len(all_) else "end"), None
        root = ("tok", 0)
        lo, hi = len(pre), len(pre) + len(words)
        sub = None
        for x in (d if isinstance(d, list) else [d]):
            sub = self.G.subtree(x, lo, hi)
            if sub is not None:
                break
        if sub is None:
            raise AnalysisBroken("no derivation spans %s" % " ".join(words))
        st = State()

        def hook(x, name, st):
            w = all_[x[1]]
            st.store[("fld", x, "id")] = ("word", w)
            st.ne[("word", w)] = frozenset([0])
            if w.isdigit():
                st.store[("fld", x, "intval")] = ("word", w)
                st.store[("fld", x, "inttype")] = 0
        v, s = self.G.mean(self.it, sub, st, toks, hook)
        for k in (("node",), ("tok",)):
            if k in v:
                return v[k], s
        if len(v) == 1:
            return list(v.values())[0], s
        raise AnalysisBroken("value of %s has parts %s" % (" ".join(words), sorted(v)))

    def nm(self, t):
        if isinstance(t, tuple) and t[0] == "mk" and t[1] == "mkname":
            return self.word(t[3])
        return repr(t)[:60]

    def word(self, t):
        if isinstance(t, tuple) and t[0] == "word":
            return t[1]
        return repr(t)[:60]

    def tree(self, t, s):
        """a value as the same kind of tree Want makes"""
        if t is None or t == 0:
            return None
        if t[0] == "n":
            op = self.op.get(t[1], str(t[1]))
            if op == "Ovar":
                return ("var", self.nm(t[2][0]))
            if op == "Olit":
                x = t[2][0]
                return ("var", self.word(x[3])) if x[0] == "mk" and x[1] == "mkint" else ("lit", repr(x)[:60])
            if op in ("Omemb",):
                return (op, self.tree(t[2][0], s), ("name", self.nm(t[2][1])))
            if op == "Otupmemb":
                return (op, self.tree(t[2][0], s), ("int", self.word(t[2][1][3])))
            if op == "Oucon":
                return (op, ("name", self.nm(t[2][0]))) + tuple(self.tree(x, s) for x in t[2][1:])
            if op == "Ocast":
                ty = s.store.get(("fld", ("fld", t, "expr"), "type"))
                return (op, self.tree(t[2][0], s), ("type", self.nm(ty[3]) if isinstance(ty, tuple) and ty[:2] == ("mk", "mktyunres") else repr(ty)[:50]))
            return (op,) + tuple(self.tree(x, s) for x in t[2])
        if t[0] == "mk":
            a = t[3:]
            if t[1] == "mkexprl":
                op = self.op.get(a[0], str(a[0]))
                l = a[1][1:] if isinstance(a[1], tuple) and a[1][0] == "list" else ()
                if len(l) != a[2]:
                    return (op, "count of %r for %d elements" % (a[2], len(l)))
                if op == "Oarr":
                    r = []
                    for x in l:
                        ix = s.store.get(("fld", ("fld", x, "expr"), "idx"))
                        r.append(("elem", ix[3] if isinstance(ix, tuple) and ix[:2] == ("mk", "mkintlit") else ("lit" if isinstance(ix, tuple) and ix[0] == "lit" else repr(ix)[:40]), self.tree(x, s)))
                    return (op,) + tuple(r)
                return (op,) + tuple(self.tree(x, s) for x in l)
            if t[1] == "mkcall":
                l = a[1][1:] if isinstance(a[1], tuple) and a[1][0] == "list" else ()
                if len(l) != a[2]:
                    return ("call", self.tree(a[0], s), "count of %r for %d arguments" % (a[2], len(l)))
                return ("call", self.tree(a[0], s)) + tuple(self.tree(x, s) for x in l)
            if t[1] == "mksliceexpr":
                return ("slice",) + tuple(self.tree(x, s) for x in a)
            return (t[1],) + tuple(self.tree(x, s) if isinstance(x, tuple) and x[0] in ("n", "mk") else x for x in a)
        return ("?", repr(t)[:60])

    def expr(self, group, words):
        src = " ".join(words)
        w = Want(words)
        want = w.expr()
        assert w.i == len(words), src
        v, s = self.value(words)
        if s is None:
            self.c.bad(group, src, "%s does not parse (stops at %s)" % (src, v[1]))
            return
        got = self.tree(v, s)
        if got != want:
            k = (group, got[0] if got else None, want[0])
            if k in self.failed:
                self.c.groups[group] = self.c.groups.get(group, 0) + 1
                return
            self.failed.add(k)
        self.c.decide(got == want, group, src, "%s is read as %s, the manual says %s" % (src, sh(got), sh(want)), "%s = %s" % (src, sh(want)))


def sh(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] in ("var", "name", "int", "type"):
        return str(t[1])
    return "%s(%s)" % (t[0], ", ".join(sh(x) for x in t[1:]))


def expressions(c, T):
    bins = [o for b in BIN for o in b] + list(ASSIGN)
    for o in bins:
        T.expr("binary", ["a", o, "b"])
    for o in bins:
        for p in bins:
            T.expr("binary-pairs", ["a", o, "b", p, "c"])
    reps = [list(b)[-1] for b in BIN] + ["+="]
    for o in reps:
        for p in reps:
            for q in reps:
                T.expr("binary-triples", ["a", o, "b", p, "c", q, "d"])
    pre = list(PREFIX) + ["auto"]
    post = [["++"], ["--"], ["#"], [".", "m"], [".", "1"], ["[", "i", "]"], ["[", "i", ":", "j", "]"], ["[", ":", "j", "]"], ["[", "i", ":", "]"], ["[", ":", "]"], ["(", ")"],
            ["(", "p", ")"], ["(", "p", ",", "q", ",", "r", ")"]]
    for p in pre:
        T.expr("prefix", [p, "a"])
        for o in reps:
            T.expr("prefix-binary", [p, "a", o, "b"])
            T.expr("prefix-binary", ["a", o, p, "b"])
        for q in pre:
            T.expr("prefix-prefix", [p, q, "a"])
        for q in post:
            T.expr("prefix-postfix", [p, "a"] + q)
    for q in post:
        T.expr("postfix", ["a"] + q)
        for r in post:
            T.expr("postfix-postfix", ["a"] + q + r)
        for o in reps:
            T.expr("postfix-binary", ["a", o, "b"] + q)
            T.expr("postfix-binary", ["a"] + q + [o, "b"])
    for p in [[], ["a"], ["-", "a"], ["a", "+", "b"], ["a", "&&", "b"], ["a", "=", "b"], ["a", ".", "m"], ["(", "a", "+", "b", ")"]]:
        T.expr("union-constructor", ["`", "Tag"] + p)
    T.expr("union-constructor", ["a", "==", "`", "Tag", "b", "&&", "c"])
    for o in reps:
        for p in reps:
            T.expr("parentheses", ["(", "a", o, "b", ")", p, "c"])
            T.expr("parentheses", ["a", o, "(", "b", p, "c", ")"])
        T.expr("cast", ["(", "a", o, "b", ":", "T", ")"])
        T.expr("index", ["a", "[", "b", o, "c", "]"])
        T.expr("index", ["a", "[", "b", o, "c", ":", "d", o, "e", "]"])
        T.expr("arguments", ["f", "(", "b", o, "c", ",", "d", o, "e", ")"])
        T.expr("tuple", ["(", "b", o, "c", ",", "d", o, "e", ",", "g", ")"])
        T.expr("sequence", ["[", "b", o, "c", ",", "d", o, "e", ",", "g", "]"])
        if o not in ASSIGN:
            T.expr("ternary", ["a", o, "b", "?", "c", o, "d", ":", "e", o, "f"])
    T.expr("ternary", ["x", "=", "a", "?", "b", ":", "c"])


def statements(c, T):
    """shape of control statements: which part becomes which argument"""
    PRE = ["const", "X", "=", "{", "\n"]
    POST = ["\n", "}", "\n"]

    def block(t, s):
        v = s.store.get(("fld", ("fld", t, "block"), "stmts"))
        n = s.store.get(("fld", ("fld", t, "block"), "nstmts"))
        l = v[1:] if isinstance(v, tuple) and v[0] == "list" else ()
        if (n or 0) != len(l):
            return ["count %r for %d statements" % (n, len(l))]
        return [form(x, s) for x in l]

    def form(t, s):
        if t is None or t == 0:
            return None
        if isinstance(t, tuple) and t[0] == "mk":
            a = t[3:]
            if t[1] == "mkblock":
                return ("block",) + tuple(block(t, s))
            if t[1] == "mkifstmt":
                return ("if",) + tuple(form(x, s) for x in a)
            if t[1] == "mkloopstmt":
                return ("loop",) + tuple(form(x, s) for x in a)
            if t[1] == "mkiterstmt":
                return ("iter",) + tuple(form(x, s) for x in a)
            if t[1] == "mkmatch":
                return ("arm",) + tuple(form(x, s) for x in a)
            if t[1] == "mkmatchstmt":
                l = a[1][1:] if isinstance(a[1], tuple) and a[1][0] == "list" else ()
                if len(l) != a[2]:
                    return ("match", form(a[0], s), "count")
                return ("match", form(a[0], s)) + tuple(form(x, s) for x in l)
            if t[1] == "mkboollit":
                return ("true",) if a[0] == 1 else ("bool", a[0])
        return T.tree(t, s)

    def var(x):
        return ("var", x)

    def blk(*xs):
        return ("block",) + tuple(var(x) for x in xs)
    def nx(words):
        return words
    cases = [
        (["if", "a", "\n", "b", "\n", "c", "\n", ";;"], ("if", var("a"), blk("b", "c"), None)),
        (["if", "a", "\n", "b", "\n", "else", "c", "\n", ";;"], ("if", var("a"), blk("b"), blk("c"))),
        (["if", "a", "\n", "b", "\n", "elif", "d", "\n", "e", "\n", "else", "c", "\n", ";;"], ("if", var("a"), blk("b"), ("if", var("d"), blk("e"), blk("c")))),
        (["if", "a", "\n", "b", "\n", "elif", "d", "\n", "e", "\n", "elif", "g", "\n", "h", "\n", ";;"],
         ("if", var("a"), blk("b"), ("if", var("d"), blk("e"), ("if", var("g"), blk("h"), None)))),
        (["if", "a", "\n", "if", "b", "\n", "c", "\n", "else", "d", "\n", ";;", "\n", ";;"], ("if", var("a"), ("block", ("if", var("b"), blk("c"), blk("d"))), None)),
        (["if", "a", "\n", "if", "b", "\n", "c", "\n", ";;", "\n", "else", "d", "\n", ";;"], ("if", var("a"), ("block", ("if", var("b"), blk("c"), None)), blk("d"))),
        (["while", "a", "\n", "b", "\n", "c", "\n", ";;"], ("loop", None, var("a"), None, blk("b", "c"))),
        (["for", "i", "\n", "a", "\n", "n", "\n", "b", "\n", "c", "\n", ";;"], ("loop", var("i"), var("a"), var("n"), blk("b", "c"))),
        (["for", "i", "\n", "\n", "n", "\n", "b", "\n", ";;"], ("loop", var("i"), ("true",), var("n"), blk("b"))),
        (["for", "\n", "a", "\n", "\n", "b", "\n", ";;"], ("loop", None, var("a"), None, blk("b"))),
        (["for", "i", ":", "s", "\n", "b", "\n", ";;"], ("iter", var("i"), var("s"), blk("b"))),
        (["match", "x", "\n", "|", "a", ":", "b", "\n", "|", "c", ":", "d", "\n", "e", "\n", "|", "g", ":", "h", "\n", ";;"],
         ("match", var("x"), ("arm", var("a"), blk("b")), ("arm", var("c"), blk("d", "e")), ("arm", var("g"), blk("h")))),
        (["break"], ("Obreak",)), (["continue"], ("Ocontinue",)), (["->", "a", "+", "b"], ("Oret", ("Oadd", var("a"), var("b")))),
        (["->", "a", "=", "b"], ("Oret", ("Oasn", var("a"), var("b")))),
    ]

    def norm(t):
        """drop empty statements; a block of a single argument list"""
        if isinstance(t, tuple):
            return tuple(norm(x) for x in t if not (t[0] == "block" and x is None))
        return t
    for words, want in cases:
        src = " ".join(w if w != "\n" else ";" for w in words)
        v, s = T.value(words, PRE, POST)
        if s is None:
            c.bad("statements", src, "%s does not parse (stops at %s)" % (src, v[1]))
            continue
        got = norm(form(v, s))
        if got and got[0] == "block" and len(got) == 2:
            got = got[1]
        c.decide(got == want, "statements", src, "%s is read as %s, not %s" % (src, sh(got), sh(want)), "%s = %s" % (src, sh(want)))


FIELDS = {"mkifstmt": ("Nifstmt", [("ifstmt", "cond"), ("ifstmt", "iftrue"), ("ifstmt", "iffalse")]),
          "mkloopstmt": ("Nloopstmt", [("loopstmt", "init"), ("loopstmt", "cond"), ("loopstmt", "step"), ("loopstmt", "body")]),
          "mkiterstmt": ("Niterstmt", [("iterstmt", "elt"), ("iterstmt", "seq"), ("iterstmt", "body")]),
          "mkmatchstmt": ("Nmatchstmt", [("matchstmt", "val"), ("matchstmt", "matches"), ("matchstmt", "nmatches")]),
          "mkmatch": ("Nmatch", [("match", "pat"), ("match", "block")]),
          "mkexprl": ("Nexpr", [("expr", "op"), ("expr", "args"), ("expr", "nargs")])}


def constructors(c, G):
    """the node constructors put every part into the field the rest of the compiler reads"""
    P = Program(["parse/node.c"])
    E = P.enums

    def node(it, s, av, n, ctx):
        t = ("node",)
        s.store[("fld", t, "type")] = it.resolve(av[1], s)
        s.ne[t] = frozenset([0])
        return [(s, t)]
    for f, (nt, fields) in sorted(FIELDS.items()):
        c.unit("parse/node.c:" + f)
        it = Interp(P, {"mknode": node, "mkstab": lambda it, s, av, n, ctx: [(s, ("stab",))]})
        t, fn = P.func(f)
        av = [("a", i) for i in range(len(fields) + 1)]
        outs = it.invoke(t, fn, av, State())
        for s, v in outs:
            good = v == ("node",) and s.store.get(("fld", ("node",), "type")) == E[nt]
            c.decide(good, "constructor", f, "%s does not return a new %s node" % (f, nt))
            for i, (a, b) in enumerate(fields):
                x = s.store.get(("fld", ("fld", ("node",), a), b))
                c.decide(x == ("a", i + 1), "constructor", "%s.%s" % (f, b), "%s does not put its parameter %d into %s.%s" % (f, i + 2, a, b), "%s: %s.%s" % (f, a, b))
    # expressions built from lists: arguments in order, all of them
    N = Nodes(P)
    pr = N.prims()
    pr["mkname"] = lambda it, s, av, n, ctx: [(s, ("nm", it.resolve(av[1], s)))]
    for k in (0, 1, 2):
        it = Interp(P, {**pr, "lappend": lambda it, s, av, n, ctx: (s.events.append(("push", av[0], it.resolve(av[2], s))), [(s, 0)])[1]})
        t, fn = P.func("mkcall")
        st = State()
        for i in range(k):
            st.store[("idx", ("args",), i)] = ("arg", i)
        outs = it.invoke(t, fn, [("loc",), ("fn",), ("args",), k], st)
        for s, v in outs:
            want = [("arg", i) for i in range(k)]
            got = [e[2] for e in s.events if e[0] == "push"]
            good = isinstance(v, tuple) and v[0] == "n" and v[1] == E["Ocall"] and v[2] == (("fn",),) and got == want
            c.decide(good, "constructor", "mkcall%d" % k, "mkcall with %d arguments builds %s then %s" % (k, N.show(v), got), "mkcall keeps %d arguments in order" % k)
    c.unit("parse/node.c:mkcall,mksliceexpr")
    for base in (0, 1):
        for off in (0, 1):
            it = Interp(P, pr)
            t, fn = P.func("mksliceexpr")
            st = State()
            for x in (("sl",), ("base",), ("off",)):
                st.ne[x] = frozenset([0])
            for s, v in it.invoke(t, fn, [("loc",), ("sl",), ("base",) if base else 0, ("off",) if off else 0], st):
                a = v[2] if isinstance(v, tuple) and v[0] == "n" and v[1] == E["Oslice"] else ()
                good = len(a) == 3 and a[0] == ("sl",) and (a[1] == ("base",) if base else a[1] == ("lit", 0))
                if good:
                    if off:
                        good = a[2] == ("off",)
                    else:
                        x = a[2]
                        good = x[0] == "n" and x[1] == E["Omemb"] and x[2][0] == ("sl",) and "len" in repr(x[2][1])
                c.decide(good, "constructor", "mksliceexpr%d%d" % (base, off), "mksliceexpr %s builds %s" % ("lo,hi" if base and off else "with a missing bound", N.show(v)), "mksliceexpr(%d,%d)" % (base, off))


def main(c):
    G = Grammar()
    constructors(c, G)
    num = lexer(c, G)
    keywords(c, G, num)
    T = Trees(c, G, num)
    c.unit("parse/gram.y:expr..atomicexpr, stmt (%d states)" % len(G.states))
    expressions(c, T)
    statements(c, T)
    c.need("lexer", len(PUNCT))
    c.need("keyword", len(KEYWORDS))
    c.need("binary-pairs", 800)
    c.need("statements", 16)


if __name__ == "__main__":
    report.run("C04", "every operator spelling is read by longest match as its token; for every combination of operators the tree derived from the LALR tables and the semantic "
               "actions equals the tree of the manual's precedence table; control statements keep each part in its place", main,
               ["bison's automaton is the one the build compiles", "the operand x of a shape stands for every expression (LR parsing is context free)"])
