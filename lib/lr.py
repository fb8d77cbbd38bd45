"""The LALR automaton bison builds for the current gram.y, and the abstract meaning of its
semantic actions: what tree a token sequence denotes, decided from the tables and the actions."""
import os, re, subprocess
import xml.etree.ElementTree as ET
import ccast
from ccast import AnalysisBroken, strip
from cint import Program, Interp, State


class Grammar:
    def __init__(self):
        d = os.path.join(ccast.tmpdir(), "lr")
        os.makedirs(d, exist_ok=True)
        x = os.path.join(d, "g.xml")
        r = subprocess.run(["bison", "--xml=" + x, "-y", "-d", "-o", os.path.join(d, "g.c"), os.path.join(ccast.REPO, "parse/gram.y")], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("bison failed: " + r.stderr[:300])
        g = ET.parse(x).getroot()
        self.rules = {}
        for ru in g.find("grammar").find("rules"):
            self.rules[int(ru.get("number"))] = (ru.find("lhs").text, [s.text for s in ru.find("rhs").findall("symbol")])
        self.tok = {}
        for t in g.find("grammar").find("terminals"):
            self.tok[t.get("name")] = int(t.get("token-number"))
        self.states = []
        for s in g.find("automaton"):
            sh, go, red = {}, {}, {}
            for t in s.find("actions").find("transitions"):
                (sh if t.get("type") == "shift" else go)[t.get("symbol")] = int(t.get("state"))
            for t in s.find("actions").find("reductions"):
                if t.get("enabled", "true") == "true":
                    red.setdefault(t.get("symbol"), t.get("rule"))
            self.states.append((sh, go, red))
        c = g.find("automaton")
        self.conflicts = sum(1 for s in c for k in (s.find("solved-conflicts") or []))
        self.P = Program(["parse/gram.c", "parse/node.c"])
        self.tu = self.P.tus[0]
        self.yyparse = self.tu.funcs["yyparse"]
        self._actions()

    def _actions(self):
        self.case = {}
        for sw in self.yyparse.find("SwitchStmt"):
            c = strip(sw.kids[-2])
            if c.ref == "yyn":
                self.switch = sw
                it = Interp(self.P)
                self.stmts, labels = it.flatten_switch(sw.kids[-1])
                for l, i in labels:
                    if l is not None:
                        self.case[self.tu.const(l) - 1] = i  # gram.c counts rules from 1, the XML from 0
        if not self.case:
            raise AnalysisBroken("no semantic actions found in yyparse")
        self.var = {}
        for v in self.yyparse.find("VarDecl"):
            if v.name in ("yyvsp", "yyval", "yylen"):
                self.var[v.name] = v.id

    # ---- derivations
    def parse(self, toks):
        """-> derivation tree (rule, kids, start, end) / ("tok", i) or None on a syntax error"""
        st = [0]
        vals = []
        i = 0
        toks = list(toks) + ["$end"]
        steps = 0
        while True:
            steps += 1
            if steps > 100000:
                raise AnalysisBroken("LR loop")
            sh, go, red = self.states[st[-1]]
            t = toks[i] if i < len(toks) else "$end"
            if t in sh:
                st.append(sh[t])
                vals.append(("tok", i))
                i += 1
                continue
            r = red.get(t, red.get("$default"))
            if r is None:
                return None, i
            if r == "accept":
                return vals[0] if len(vals) == 1 else vals, i
            r = int(r)
            lhs, rhs = self.rules[r]
            if r == 0:
                return vals, i
            n = len(rhs)
            kids = vals[len(vals) - n:] if n else []
            if n:
                del vals[len(vals) - n:]
                del st[len(st) - n:]
            lo = self.lo(kids[0]) if kids else i
            hi = self.hi(kids[-1]) if kids else i
            vals.append((r, kids, lo, hi))
            st.append(self.states[st[-1]][1][lhs])

    def lo(self, t):
        return t[1] if t[0] == "tok" else t[2]

    def hi(self, t):
        return t[1] + 1 if t[0] == "tok" else t[3]

    def subtree(self, t, lo, hi):
        """outermost derivation spanning exactly tokens lo..hi-1"""
        if t[0] == "tok":
            return t if (t[1], t[1] + 1) == (lo, hi) else None
        if (t[2], t[3]) == (lo, hi):
            return t
        for k in t[1]:
            if self.lo(k) <= lo and hi <= self.hi(k) and self.lo(k) != self.hi(k):
                r = self.subtree(k, lo, hi)
                if r is not None:
                    return r
        return None

    # ---- meaning
    def interp(self, prims):
        it = Interp(self.P, prims, maxdepth=8)
        it.inline = set(self.tu.funcs) - {"yyparse"}
        return it

    def mean(self, it, t, st, toks, hook=None):
        """value of a derivation: {path: value}; st is threaded through"""
        if t[0] == "tok":
            x = ("tok", t[1])
            if ("fld", x, "type") not in st.store:
                st.store[("fld", x, "type")] = self.tok[toks[t[1]]]
                st.ne[x] = frozenset([0])
                if hook:
                    hook(x, toks[t[1]], st)
            return {("tok",): x}, st
        r, kids, lo, hi = t
        vs = []
        for k in kids:
            v, st = self.mean(it, k, st, toks, hook)
            vs.append(v)
        if r not in self.case:
            return (vs[0] if vs else {}), st
        frame = next(it.uid)
        ctx = (self.tu, frame)
        PS = ("PS", frame)
        yyval = ("var", self.var["yyval"], frame)
        st.store[("var", self.var["yyvsp"], frame)] = PS
        st.store[("var", self.var["yylen"], frame)] = len(kids)
        n = len(kids)

        def put(root, d):
            for p, v in d.items():
                loc = root
                for f in p:
                    loc = ("fld", loc, f)
                st.store[loc] = v
        for i, d in enumerate(vs):
            k = i - n + 1
            put(("idx", PS, k), d)
            if k == 0:
                put(("deref", PS), d)
        if vs:
            put(yyval, vs[0])
        outs = it.swbody(self.stmts, self.case[r], st, ctx)
        outs = [(s, status) for s, status, v in outs if status in ("normal", "break") and not any(e[0] == "noreturn" for e in s.events)]
        if len(outs) != 1:
            raise AnalysisBroken("action of rule %d (%s) has %d outcomes" % (r, self.rules[r][0], len(outs)))
        s = outs[0][0]
        out = {}
        for loc, v in s.store.items():
            p = []
            l = loc
            while isinstance(l, tuple) and l[0] == "fld":
                p.append(l[2])
                l = l[1]
            if l == yyval and p:
                out[tuple(reversed(p))] = v
        return out, s
