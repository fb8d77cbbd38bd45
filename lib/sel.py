"""Instruction selection over expression shapes with opaque operands: runs the abstract interpreter over
6/isel.c (and 6/simp.c before it, where asked), and reads the emitted instructions back."""
import sys
from tree import *  # noqa
from cint import State, Program  # noqa
from ccast import AnalysisBroken
import x86
from x86 import L, Mach, Bad

VA = {"__builtin_va_start", "__builtin_va_end"}


class SelInterp(TreeInterp):
    """adds argument lists, and tables and static variables that start out as they are initialised"""
    MAXREC = 60

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.consttabs = True
        self.parents = set()
        self.maxdepth = 60

    # stores into places nothing was ever stored below need no search
    def note(self, loc):
        while isinstance(loc, tuple) and loc[0] in ("fld", "idx"):
            loc = loc[1]
            if loc in self.parents:
                return
            self.parents.add(loc)

    def write(self, loc, v, st):
        if not isinstance(v, tuple) or v[0] != "ld":
            if loc not in self.parents:
                self.note(loc)
                st.store[loc] = v
                return
        self.note(loc)
        super().write(loc, v, st)
        if isinstance(v, tuple) and v[0] == "ld":
            self.parents.add(loc)
            for q in st.store:
                if q[0] in ("fld", "idx"):
                    self.note(q)

    def initial(self, name):
        """a variable that is not an array and has no object behind it: its initialiser"""
        return [(t, v) for t, v in self.vardecls(name) if v.storage != "extern"]

    def read(self, loc, st, isarray=False):
        v = super().read(loc, st, isarray)
        if isinstance(v, tuple) and v == ("ld", loc):
            b = loc
            while isinstance(b, tuple) and b[0] in ("fld", "idx"):
                b = b[1]
            if isinstance(b, tuple) and b[0] == "glob":
                ds = self.initial(b[1])
                if ds and all(t.globals.get(v.name) is not v or v.storage == "static" for t, v in ds) or b[1] in self.zeroed:
                    if not ds:
                        return 0
                    init = [v for t, v in ds if v.init]
                    if not init:
                        return 0
                    if len(ds) == 1 and b is loc:
                        cst = ds[0][0].const(strip(init[0].kids[-1]))
                        if cst is not None:
                            return cst
                    if loc is not b and len(init) == 1:
                        # beyond what the initialiser lists
                        x = self.constinit(loc)
                        if x is None:
                            return 0
            if isinstance(b, tuple) and b[0] == "var" and b is not loc and ("zeroed", b) in st.store:
                return 0
        return v

    zeroed = ()

    def constread(self, loc):
        v = super().constread(loc)
        if v is None and loc[0] in ("idx", "fld"):
            b = self.constinit(loc[1]) if isinstance(loc[1], tuple) else None
            if b is not None and b[1].kind in ("InitListExpr", "ImplicitValueInitExpr") and self.constinit(loc) is None:
                return 0
        return v

    def ev(self, n, st, ctx):
        if n.kind == "VAArgExpr":
            out = []
            for s, v in self.ev(n.kids[0], st, ctx):
                v = self.resolve(v, s)
                key = v[1] if isinstance(v, tuple) and v[0] in ("addr", "ld") else v
                pos = s.store.get(("vapos", key))
                if pos is None:
                    raise AnalysisBroken("an argument list that was not started in " + "/".join(s.depth[-2:]))
                fr, i = pos
                args = s.store.get(("varargs", fr), ())
                if i >= len(args):
                    raise AnalysisBroken("read beyond the arguments in " + "/".join(s.depth[-2:]))
                s.store[("vapos", key)] = (fr, i + 1)
                out.append((s, args[i]))
            return out
        return super().ev(n, st, ctx)

    def docall(self, name, av, n, s, ctx):
        if name == "__builtin_va_start":
            v = av[0]
            key = v[1] if isinstance(v, tuple) and v[0] in ("addr", "ld") else v
            s.store[("vapos", key)] = (ctx[1], 0)
            return [(s, 0)]
        if name in ("__builtin_va_end",):
            return [(s, 0)]
        return super().docall(name, av, n, s, ctx)


def nop(v=0):
    return lambda it, s, av, n, ctx: [(s, v)]


class Sel:
    FILES = ["6/isel.c", "6/locs.c", "6/typeinfo.c", "6/simp.c", "parse/type.c", "parse/node.c", "parse/names.c", "mi/flatten.c", "util/util.c"]
    MODES = ("ModeNone", "ModeB", "ModeW", "ModeL", "ModeQ", "ModeF", "ModeD")

    def __init__(self, files=None):
        self.P = Program(files or self.FILES)
        self.T = Trees(self.P)
        self.E = self.P.enums
        E = self.E
        self.modename = {E[m]: m for m in self.MODES}
        self.regname = {v: k for k, v in E.items() if re_reg(k)}
        self.asmop = {v: k for k, v in E.items() if re_op(k)}
        self.loctype = {E[k]: k for k in ("Loclbl", "Locreg", "Locmem", "Locmeml", "Loclit", "Loclitl")}
        self._co = {}
        self.pr = self.T.prims()
        for k in ("free", "dbgiprintf", "printf", "fprintf", "lfree_", "dumpn", "dumpcfg"):
            self.pr[k] = nop()
        for k in ("zalloc", "malloc", "calloc"):
            self.pr[k] = self.alloc
        for k in ("xrealloc", "realloc"):
            self.pr[k] = self.realloc
        self.pr["strdup"] = lambda it, s, av, n, ctx: [(s, it.resolve(av[0], s))]
        del self.pr["tybase"]               # names of types are followed
        self.pr["coreg"] = self.coreg
        self.pr["hthas"] = lambda it, s, av, n, ctx: [(s, int(self.htkey(it, s, av) in s.store))]
        self.pr["htget"] = lambda it, s, av, n, ctx: [(s, s.store.get(self.htkey(it, s, av), 0))]
        self.pr["htput"] = self.htput
        self.pr["itop"] = self.pr["ptoi"] = self.T.p_same
        self.pr["fold"] = self.T.p_same
        self.pr["isenum"] = self.isenum
        self.pr["tyeq"] = lambda it, s, av, n, ctx: [(s, int(it.resolve(av[0], s) == it.resolve(av[1], s)))]
        self.pr["hasparams"] = nop()
        self.pr["regalloc"] = nop()
        self.pr["genlblstr"] = self.genlblstr
        self.pr["asmname"] = self.asmname

    # -- stand-ins --------------------------------------------------------------------------
    def alloc(self, it, s, av, n, ctx):
        return [(s, self.T.obj(s))]

    def realloc(self, it, s, av, n, ctx):
        p = it.resolve(av[0], s)
        return [(s, self.T.obj(s) if p == 0 else p)]

    def htkey(self, it, s, av):
        t, k = it.resolve(av[0], s), it.resolve(av[1], s)
        if not (isinstance(t, tuple) and t[0] == "ht"):
            raise AnalysisBroken("a table that is not modelled is used: " + show_(t))
        if isinstance(k, tuple) and k[0] == "o":
            # variables are the same when their declarations are
            d = s.store.get(fe(k, "did")) if s.store.get(("fld", k, "type")) == self.E["Nexpr"] else s.store.get(("fld", ("fld", k, "decl"), "did"))
            if d is not None:
                k = d
        return ("htent", t[1], k)

    def htput(self, it, s, av, n, ctx):
        s.store[self.htkey(it, s, av)] = it.resolve(av[2], s)
        return [(s, 1)]

    def isenum(self, it, s, av, n, ctx):
        t = it.resolve(av[0], s)
        if isinstance(t, tuple) and t[0] == "ty" and t[1] != "Tyunion":
            tgt = self.P.find("isenum", ctx[0])
        tgt = self.P.find("isenum", ctx[0])
        return it.invoke(tgt[0], tgt[1], av, s)

    def genlblstr(self, it, s, av, n, ctx):
        self.T.k += 1
        return [(s, ("str", '".L%d"' % self.T.k))]

    def asmname(self, it, s, av, n, ctx):
        o = it.resolve(av[0], s)
        d = s.store.get(("fld", ("fld", o, "decl"), "did"))
        if isinstance(d, tuple):
            return [(s, ("str", '"%s"' % d[1]))]
        return [(s, ("str", '"d%s"' % (d if d is not None else "o%s" % (o[1],))))]

    def coreg(self, it, s, av, n, ctx):
        r, m = (it.resolve(a, s) for a in av[:2])
        if (r, m) not in self._co:
            got = []
            pr = dict(self.pr)
            del pr["coreg"]
            pr["locphysreg"] = lambda it, s, av, n, ctx: (got.append(it.resolve(av[0], s)), [(s, 0)])[1]
            i2 = SelInterp(self.P, prims=pr)
            res = i2.run("coreg", [r, m], rel="6/locs.c")
            if len(res) != 1 or len(got) != 1 or not isinstance(got[0], int):
                self._co[(r, m)] = None
            else:
                self._co[(r, m)] = got[0]
        k = self._co[(r, m)]
        if k is None:
            raise Bad("no register like %s of mode %s" % (self.regname.get(r), self.modename.get(m)))
        return it.docall("locphysreg", [k], n, s, ctx)

    # -- setting up ------------------------------------------------------------------------------
    def interp(self):
        it = SelInterp(self.P, prims=self.pr)
        it.zeroed = ("physregs", "locmap", "insnid", "debugopt")
        return it

    def state(self):
        """a fresh selection state -> (State, Isel object)"""
        s = State()
        T = self.T
        T.k = 1000
        bb = T.obj(s)
        iss = T.obj(s, curbb=bb)
        for t in ("globls", "envoff", "stkoff", "reglocs"):
            s.store[("fld", iss, t)] = ("ht", t)
            s.ne[("ht", t)] = frozenset([0])
        s.store[("glob", "maxregid")] = self.E["Nreg"] + 100
        s.store[("glob", "debugopt")] = ("debugopt",)
        s.store[("glob", "decls")] = ("declstab",)
        s.store[("glob", "ndecls")] = 500
        self.bb = bb
        self.is_ = iss
        self.dids = {}
        return s, iss

    def did(self, name):
        return self.dids.setdefault(name, len(self.dids) + 1)

    def decl(self, s, name, ty, **f):
        """the declaration of a variable"""
        d = self.did(name)
        k = ("idx", ("declstab",), d)
        if k not in s.store:
            s.store[k] = self.T.stmt(s, "Ndecl", "decl", name=self.T.name(s, name), type=ty, did=d, **f)
        return s.store[k]

    def var(self, s, name, ty, **f):
        dcl = self.decl(s, name, ty, **f)
        o = self.T.expr(s, "Ovar", [self.T.get(s, dcl, "decl", "name")], ty)
        s.store[fe(o, "did")] = self.did(name)
        return o

    def regvar(self, s, name, mode):
        """a variable that lives in a register"""
        T = self.T
        k = s.store[("glob", "maxregid")]
        s.store[("glob", "maxregid")] = k + 1
        l = T.obj(s, type=self.E["Locreg"], mode=self.E[mode])
        s.store[("fld", ("fld", l, "reg"), "id")] = k
        s.store[("htent", "reglocs", self.did(name))] = l
        return l

    # -- reading back ---------------------------------------------------------------------------
    def decode(self, s, o):
        g = lambda *p: self.T.get(s, o, *p)
        if not (isinstance(o, tuple) and o[0] == "o"):
            raise Bad("an operand is missing")
        kind = self.loctype.get(g("type"))
        mode = self.modename.get(g("mode"))
        if kind is None or mode in (None, "ModeNone"):
            raise Bad("an operand without a kind or a mode")
        if kind == "Locreg":
            col, rid = g("reg", "colour"), g("reg", "id")
            if col:
                return L("reg", mode, id=rid, reg=self.regname[col])
            return L("reg", mode, id=rid)
        if kind == "Loclit":
            v = g("lit")
            if not isinstance(v, int):
                raise AnalysisBroken("a literal that is not known: " + show_(v))
            return L("lit", mode, lit=v)
        if kind in ("Loclbl", "Loclitl"):
            v = g("lbl")
            return L("lbl" if kind == "Loclbl" else "litl", mode, lbl=v[1].strip('"') if isinstance(v, tuple) and v[0] == "str" else v)
        b, i = g("mem", "base"), g("mem", "idx")
        l = L("mem", mode, base=self.decode(s, b) if b else None, idx=self.decode(s, i) if i else None)
        if kind == "Locmem":
            l.disp = g("mem", "constdisp")
            if not isinstance(l.disp, int):
                raise AnalysisBroken("a displacement that is not known")
        else:
            v = g("mem", "lbldisp")
            l.lbl = v[1].strip('"') if isinstance(v, tuple) and v[0] == "str" else v
        sc = g("mem", "scale")
        l.scale = sc if l.idx is not None else 1
        if l.idx is None and sc not in (0, 1):
            raise Bad("a scale without an index")
        return l

    def insns(self, s, bb=None):
        T = self.T
        bb = bb or self.bb
        out = []
        il = T.get(s, bb, "il")
        for i in range(T.get(s, bb, "ni")):
            o = s.store.get(("idx", il, i))
            n = T.get(s, o, "nargs")
            op = self.asmop.get(T.get(s, o, "op"))
            if op is None:
                raise AnalysisBroken("an instruction that is not known")
            out.append((op, [self.decode(s, s.store.get(("idx", ("fld", o, "args"), k), 0)) for k in range(n)]))
        return out


def re_reg(k):
    import re
    return bool(re.match(r"^R(xmm\d+[fd]|r\d+[bwd]?|[abcd][lh]|[re]?[abcd]x|[re]?(si|di|sp|bp)|(si|di|sp|bp)l|rip)$", k))


def re_op(k):
    import re
    return bool(re.match(r"^I[a-z]", k))
