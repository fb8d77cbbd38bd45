"""Constant data: what the assembly that the compiler writes for an initialised variable, a string or a type
descriptor holds, byte by byte, against the layout of its type."""
from aggr import *  # noqa
import re, struct
from matchc import Fatal

# values: int, float, bytes, None (void), ("tup", vs) ("str", {i: v}) ("arr", {i: v}) ("ucon", k, v|None)
#         ("slc", base, lo, hi) with base ("arr", {}) or ("cv", name)   ("fn", name)
STR = ("slice", "Tybyte")


class Data(Aggr):
    FILES = Aggr.FILES + ["6/blob.c", "6/gengas.c", "6/genp9.c", "6/gen.c"]

    def __init__(self):
        super().__init__()
        pr = self.pr
        pr["fprintf"] = self.fprintf
        pr["fputs"] = lambda it, s, av, n, ctx: self.emit(it, s, av[1], [])
        pr["fputc"] = pr["putc"] = lambda it, s, av, n, ctx: self.emit(it, s, ("str", '"%c"'), [av[0]])
        pr["bprintf"] = self.bprintf
        pr["snprintf"] = self.bprintf
        pr["strlen"] = lambda it, s, av, n, ctx: [(s, len(self.text(it, s, av[0])))]
        pr["strdup"] = lambda it, s, av, n, ctx: [(s, ("str", '"%s"' % self.text(it, s, av[0])))]
        pr["genlocallblstr"] = self.genlblstr
        pr["isprint"] = lambda it, s, av, n, ctx: [(s, int(32 <= it.resolve(av[0], s) < 127))]
        pr["__ctype_b_loc"] = lambda it, s, av, n, ctx: [(s, ("ctype",))]
        pr["tydedup"] = self.T.p_same
        pr["fatal"] = self.fatal
        for k in ("xalloc", "zalloc", "malloc"):
            pr[k] = self.alloc
        pr["tydescid"] = self.tydescid
        pr["asmname"] = self.asmname
        pr["linsert"] = self.linsert
        pr["getcwd"] = nop()
        self.uflds = {}
        for t in self.P.tus:
            if t.path.endswith("6/blob.c"):
                for f in t.root.find("FieldDecl"):
                    self.uflds[f.name] = (f.ctype or f.type or "").strip()

    def chars(self, it, v):
        """(array, index) a pointer to characters points at"""
        p = it.normptr(v)
        if not p and isinstance(v, tuple) and v[0] in ("o", "lst"):
            p = (v, 0)
        if not p and isinstance(v, tuple) and v[0] == "addr":
            p = (v[1][1], v[1][2]) if v[1][0] == "idx" and isinstance(v[1][2], int) else (v[1], 0)
        if not p and isinstance(v, tuple) and v[0] == "bin" and v[1] == "+" and isinstance(v[3], int):
            q = self.chars(it, v[2])
            p = q and (q[0], q[1] + v[3])
        return p

    # -- text ------------------------------------------------------------------------------
    def text(self, it, s, v):
        v = it.resolve(v, s)
        if isinstance(v, tuple) and v[0] == "str":
            t = v[1]
            return unquote(t) if t.startswith('"') else t
        p = self.chars(it, v)
        if not p:
            raise AnalysisBroken("text that is not known: " + show_(v))
        out = ""
        for i in range(4096):
            ch = it.resolve(it.read(("idx", p[0], p[1] + i), s), s)
            if not isinstance(ch, int):
                raise AnalysisBroken("text that is not known: " + show_(v))
            if ch == 0:
                return out
            out += chr(ch & 255)
        raise AnalysisBroken("text without an end")

    def puttext(self, it, s, v, text):
        v = it.resolve(v, s)
        p = self.chars(it, v)
        if not p:
            raise AnalysisBroken("text is put into a place that is not known: " + show_(v))
        for i, ch in enumerate(text + "\0"):
            it.write(("idx", p[0], p[1] + i), ord(ch), s)

    def format(self, it, s, fmt, args):
        fmt = self.text(it, s, fmt)
        args = list(args)
        out = []
        at = 0
        for m in re.finditer(r"%([-0 #+]*)(\*|\d*)(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q)?([a-zA-Z%])", fmt):
            out.append(fmt[at:m.start()])
            at = m.end()
            k = m.group(5)
            if k == "%":
                out.append("%")
                continue
            if m.group(2) == "*" or m.group(3):
                raise AnalysisBroken("a format that is not modelled: " + fmt)
            if not args:
                raise Bad("%r is printed with an argument missing" % fmt)
            v = it.resolve(args.pop(0), s)
            if k == "s":
                out.append(self.text(it, s, v))
                continue
            if not isinstance(v, int):
                raise AnalysisBroken("a number that is not known is printed: %s with %r" % (show_(v), fmt))
            if k == "c":
                out.append(chr(v & 255))
                continue
            w = {"hh": 8, "h": 16, None: 32}.get(m.group(4), 64)
            v &= (1 << w) - 1
            if k in "di" and v >> (w - 1):
                v -= 1 << w
            if k not in "diuxXo":
                raise AnalysisBroken("a format that is not modelled: " + fmt)
            out.append(("%" + m.group(1) + m.group(2) + ("d" if k in "diu" else k)) % v)
        out.append(fmt[at:])
        return "".join(out)

    def emit(self, it, s, fmt, args):
        self.out.append(self.format(it, s, fmt, args))
        return [(s, 0)]

    def fprintf(self, it, s, av, n, ctx):
        return self.emit(it, s, av[1], av[2:])

    def bprintf(self, it, s, av, n, ctx):
        t = self.format(it, s, av[2], av[3:])
        z = it.resolve(av[1], s)
        if isinstance(z, int) and len(t) + 1 > z:
            raise AnalysisBroken("a text is cut off")
        self.puttext(it, s, av[0], t)
        return [(s, len(t))]

    def fatal(self, it, s, av, n, ctx):
        raise Fatal(self.text(it, s, av[1]))

    def tydescid(self, it, s, av, n, ctx):
        t = it.resolve(av[2], s)
        self.desc = getattr(self, "desc", {})
        nm = "tydesc%d" % self.desc.setdefault(t, len(self.desc))
        self.puttext(it, s, av[0], nm)
        return [(s, ("str", '"%s"' % nm))]

    def idof(self, ty):
        return "tydesc%d" % self.desc.setdefault(self.typ(ty), len(self.desc))

    def linsert(self, it, s, av, n, ctx):
        a, cn, at, v = (it.resolve(x, s) for x in av[:4])
        cnt, lst = it.resolve(it.read(cn[1], s), s), it.resolve(it.read(a[1], s), s)
        old = [s.store.get(("idx", lst, i)) for i in range(cnt)]
        old.insert(at, v)
        it.write(a[1], self.T.array(s, old), s)
        it.write(cn[1], len(old), s)
        return [(s, 0)]

    def asmname(self, it, s, av, n, ctx):
        d = s.store.get(("fld", ("fld", it.resolve(av[0], s), "decl"), "did"))
        for k, v in self.dids.items():
            if v == d and k in self.named:
                return [(s, ("str", '"%s"' % k))]
        return super().asmname(it, s, av, n, ctx)

    # strings are found again by what they spell
    def htkey(self, it, s, av):
        t, k = it.resolve(av[0], s), it.resolve(av[1], s)
        if t == ("ht", "strtab"):
            return ("htent", "strtab", self.bytesof(it, s, k))
        return super().htkey(it, s, av)

    def bytesof(self, it, s, k):
        loc = k[1] if isinstance(k, tuple) and k[0] == "addr" else ("deref", k)
        n = it.resolve(it.read(("fld", loc, "len"), s), s)
        buf = it.resolve(it.read(("fld", loc, "buf"), s), s)
        return bytes(it.resolve(it.read(("idx", buf, i), s), s) & 255 for i in range(n))

    def htput(self, it, s, av, n, ctx):
        k = self.htkey(it, s, av)
        if k[1] == "strtab" and k not in s.store:
            self.strkeys[k[2]] = it.resolve(av[1], s)
        s.store[k] = it.resolve(av[2], s)
        return [(s, 1)]

    def htkeys(self, it, s, av, n, ctx):
        if it.resolve(av[0], s) == ("ht", "strtab"):
            ks = list(self.strkeys.values())
            p = av[1]
            it.write(p[1] if isinstance(p, tuple) and p[0] == "addr" else ("deref", p), len(ks), s)
            return [(s, self.T.array(s, ks))]
        return super().htkeys(it, s, av, n, ctx)

    # members of a union share their bytes
    def interp(self):
        it = super().interp()
        orig = it.read
        self_ = self

        def read(loc, st, isarray=False):
            if loc[0] == "idx" and isinstance(loc[2], int):
                p = loc[1]
                if isinstance(p, tuple) and p[0] in ("ld", "deref") and isinstance(p[1], tuple) and p[1][0] == "str":
                    p = p[1]
                if isinstance(p, tuple) and p[0] == "str":
                    t = self_.text(it, st, p) + "\0"
                    if not 0 <= loc[2] < len(t):
                        raise Bad("a text is read beyond its end")
                    return ord(t[loc[2]])
                while isinstance(p, tuple) and p[0] in ("ld", "deref", "idx") and p != ("ctype",):
                    p = p[1]
                if p == ("ctype",):
                    return ctype(loc[2])
            v = orig(loc, st, isarray)
            if v == ("ld", loc) and isinstance(loc, tuple) and loc[0] == "fld":
                for k, u in list(st.store.items()):
                    if k[0] == "fld" and k[1] == loc[1] and k[2] != loc[2] and isinstance(u, float):
                        a, b = self_.uflds.get(k[2]), self_.uflds.get(loc[2])
                        if a in ("float", "double") and b:
                            raw = struct.pack("<f" if a == "float" else "<d", u)
                            w = {"uint64_t": 8, "uint32_t": 4, "unsigned int": 4, "unsigned long": 8}.get(b)
                            if w and w <= len(raw):
                                return int.from_bytes(raw[:w], "little")
            return v
        it.read = read
        return it

    def begin(self):
        super().begin()
        self.it.nstates = 0
        s = self.s
        self.out = []
        self.strkeys = {}
        self.named = {"x"}
        self.lams = {}
        s.store[("fld", ("glob", "file"), "stmts")] = 0
        s.store[("fld", ("glob", "file"), "nstmts")] = 0
        s.ne[("ht", "strtab")] = frozenset([0])
        s.store[("glob", "asmsyntax")] = self.E["Gnugaself"]
        self.fnty = ("func", "Tyint", ("Tyint",))

    # -- building -------------------------------------------------------------------------------
    def val(self, v, ty):
        s, T = self.s, self.T
        t, b = self.typ(ty), base(ty)

        def lit(l):
            s.store[("fld", ("fld", l, "lit"), "type")] = t
            o = T.expr(s, "Olit", [l], t)
            s.store[fe(o, "isconst")] = 1
            return o

        def ex(op, args):
            o = T.expr(s, op, args, t)
            s.store[fe(o, "isconst")] = 1
            if args:
                s.ne[("args", o)] = frozenset([0])
            else:
                s.store[fe(o, "args")] = 0
            return o
        if v is None:
            return lit(T.lit(s, "Lvoid"))
        if isinstance(v, float):
            return lit(T.lit(s, "Lflt", fltval=v))
        if isinstance(v, bytes):
            l = T.lit(s, "Lstr")
            q = ("fld", ("fld", l, "lit"), "strval")
            s.store[("fld", q, "len")] = len(v)
            s.store[("fld", q, "buf")] = T.array(s, [ch - 256 if ch > 127 else ch for ch in v])
            return lit(l)
        if isinstance(v, int):
            if b == "Tybool":
                return lit(T.lit(s, "Lbool", boolval=v))
            if b == "Tychar":
                return lit(T.lit(s, "Lchr", chrval=v))
            return lit(T.lit(s, "Lint", intval=v))
        k = v[0]
        if k == "tup":
            return ex("Otup", [self.val(a, u) for a, u in zip(v[1], b[1])])
        if k in ("str", "arr"):
            l = []
            for i, a in v[1].items():
                n = self.val(a, b[1][i] if k == "str" else b[1])
                s.store[("fld", ("fld", n, "expr"), "idx")] = T.name(s, "m%d" % i) if k == "str" else T.intlit(s, i, T.ty(s, "Tyuint64"))
                l.append(n)
            return ex("Ostruct" if k == "str" else "Oarr", l)
        if k == "ucon":
            a = [T.name(s, "C%d" % v[1])]
            if v[2] is not None:
                a.append(self.val(v[2], b[1][v[1]]))
            return ex("Oucon", a)
        if k == "slc":
            if v[1][0] == "cv":
                bt, bv = self.cvs[v[1][1]]
                o = self.var(s, v[1][1], self.typ(bt), isglobl=1, isconst=1)
                s.store[("htent", "globls", self.did(v[1][1]))] = ("str", '"%s"' % v[1][1])
                s.store[fe(o, "isconst")] = 1
            else:
                n = max(v[1][1], default=-1) + 1
                o = self.val(v[1], ("array", b[1], n))
            u = T.ty(s, "Tyuint64")
            return ex("Oslice", [o, T.intlit(s, v[2], u), T.intlit(s, v[3], u)])
        if k == "fn":
            return self.fnval(v[1], t)
        if k == "lam":
            l = T.lit(s, "Lfunc", fnval=T.stmt(s, "Nfunc", "func", type=t))
            o = lit(l)
            self.lams[v[1]] = o
            return o
        raise AnalysisBroken("a value")

    def fnval(self, name, t):
        s = self.s
        self.named.add(name)
        self.decl(s, name, t, isglobl=1, isconst=1)
        s.store[("htent", "globls", self.did(name))] = ("str", '"%s"' % name)
        o = self.var(s, name, t)
        s.store[fe(o, "isconst")] = 1
        return o

    # -- meaning -----------------------------------------------------------------------------------
    def leafs(self, v, ty, at=0):
        """(offset, bytes, what): what is a number, ("str", bytes), ("data", value, type, offset) or ("sym", name)"""
        b = base(ty)
        if v is None and not (isinstance(b, tuple)):
            return
        if isinstance(v, float):
            raw = struct.pack("<f" if b == "Tyflt32" else "<d", v)
            yield (at, len(raw), int.from_bytes(raw, "little"))
        elif isinstance(v, bytes):
            yield (at, 8, ("str", v) if v else None)
            yield (at + 8, 8, len(v))
        elif isinstance(v, int):
            w = sizeof(b)
            yield (at, w, v & ((1 << 8 * w) - 1))
        elif v[0] == "tup":
            for o, a, t in zip(offsets(ty), v[1], b[1]):
                yield from self.leafs(a, t, at + o)
        elif v[0] == "str":
            for i, (o, t) in enumerate(zip(offsets(ty), b[1])):
                yield from self.leafs(v[1][i], t, at + o) if i in v[1] else zeros(t, at + o)
        elif v[0] == "arr":
            for i in range(b[2]):
                yield from self.leafs(v[1][i], b[1], at + i * sizeof(b[1])) if i in v[1] else zeros(b[1], at + i * sizeof(b[1]))
        elif v[0] == "ucon":
            yield (at, 4, v[1])
            if v[2] is not None:
                t = b[1][v[1]]
                yield from self.leafs(v[2], t, at + up(4, alignof(t)))
        elif v[0] == "slc":
            if v[1][0] == "cv":
                yield (at, 8, ("sym", v[1][1], v[2] * sizeof(b[1])))
            elif v[1][1]:
                yield (at, 8, ("data", v[1], ("array", b[1], max(v[1][1]) + 1), v[2] * sizeof(b[1])))
            yield (at + 8, 8, v[3] - v[2])
        elif v[0] == "fn":
            yield (at + 8, 8, ("sym", v[1], 0))
        elif v[0] == "lam":
            yield (at + 8, 8, v)
        else:
            raise AnalysisBroken("a value")

    # -- running -----------------------------------------------------------------------------------
    def emitdecl(self, ty, v, vis, rel):
        """the assembly for  const x : ty = v"""
        self.begin()
        s, T = self.s, self.T
        t = self.typ(ty)
        init = self.val(v, ty) if v != "none" else 0
        d = self.decl(s, "x", t, isglobl=1, isconst=int(v != "none" and not (isinstance(v, tuple) and v[0] == "lam")), vis=self.E[vis], init=init)
        s.store[("htent", "globls", self.did("x"))] = ("str", '"x"')
        fn, nfn, bl, nbl = (T.obj(s) for _ in range(4))
        cells = [("fld", T.obj(s), "cell") for _ in range(4)]
        for cl in cells:
            s.store[cl] = 0
        res = self.it.run("simpglobl", [d, ("ht", "globls")] + [("addr", cl) for cl in cells], rel="6/simp.c", st=s)
        s = self.one(res, "simpglobl")
        n = s.store[cells[3]]
        lst = s.store[cells[2]]
        for i in range(n):
            s = self.one(self.it.run("genblob", [("FILE",), self.it.resolve(s.store[("idx", lst, i)], s), ("ht", "globls"), ("ht", "strtab")], rel=rel, st=s), "genblob")
        s = self.one(self.it.run("genstrings", [("FILE",), ("ht", "strtab")], rel=rel, st=s), "genstrings")
        self.s = s
        return "".join(self.out)

    def one(self, res, what):
        if not res:
            raise Bad("the compiler dies in %s" % what)
        if len(res) > 1:
            raise AnalysisBroken("%s branches on something unknown: %s" % (what, forkwhy(res)))
        return res[0][0]

    def emittype(self, ty, rel, vis="Visintern", imported=0):
        self.begin()
        s = self.s
        t = self.typ(ty)
        self.marktypes(s, vis, imported)
        s = self.one(self.it.run("gentype", [("FILE",), t], rel=rel, st=s), "gentype")
        self.s = s
        return "".join(self.out)

    def marktypes(self, s, vis, imported):
        for k in [k for k in s.store if k[0] == "fld" and k[2] == "type" and isinstance(k[1], tuple) and k[1][0] == "ty"]:
            t = k[1]
            if t[1] == "Tyname" and ("fld", t, "name") not in s.store:
                s.store[("fld", t, "name")] = self.T.name(s, self.nameof(t))
                if self.ns:
                    s.store[("fld", ("fld", s.store[("fld", t, "name")], "name"), "ns")] = ("str", '"%s"' % self.ns)
            for f, v in (("isemitted", 0), ("isimport", imported), ("vis", self.E[vis])):
                s.store.setdefault(("fld", t, f), v)

    ns = None

    def nameof(self, t):
        self.nms = getattr(self, "nms", {})
        return "nm%d" % self.nms.setdefault(t, len(self.nms))


class Reader:
    """a type descriptor, read the way lib/std/introspect.myr reads it"""
    def __init__(self, D, img, lbl):
        self.D = D
        self.b = img.lab[lbl][1]
        self.names = {v: k for k, v in D.E.items() if k.startswith("Ty") and k[2:3].islower() and k != "Tyhandlers"}

    def packed(self, at):
        b = self.b
        if at >= len(b) or not isinstance(b[at], int):
            raise Bad("the descriptor ends where a number should be")
        n = 1
        while b[at] & (0xff << (8 - n)) & 0xff != (0xff << (9 - n)) & 0xff and n < 8:
            n += 1
        v = b[at] & ~(~0 << (8 - n))
        for i in range(1, n):
            if at + i >= len(b) or not isinstance(b[at + i], int):
                raise Bad("a number of the descriptor ends early")
            v |= b[at + i] << (i * 8 - n)
        return v, at + n

    def name(self, at):
        n, at = self.packed(at)
        q = self.b[at:at + n]
        if len(q) < n or any(not isinstance(z, int) for z in q):
            raise Bad("a name of the descriptor ends early")
        return bytes(q).decode("latin1"), at + n

    def sized(self, at, ty, what, nm=None):
        """a descriptor behind its length"""
        n, at = self.packed(at)
        if at + n > len(self.b):
            raise Bad("%s: the length %d leads beyond the end" % (what, n))
        e = self.desc(at, at + n, ty, what, nm)
        if e != at + n:
            raise Bad("%s: it has %d bytes, its length says %d" % (what, e - at, n))
        return e

    def kind(self, at, what):
        k = self.b[at] if at < len(self.b) else None
        if not isinstance(k, int):
            raise Bad("%s: there is no kind" % what)
        return k

    def want(self, got, exp, what):
        if got != exp:
            raise Bad("%s is %s, not %s" % (what, got, exp))

    def info(self, at, ty, what):
        n, at = self.packed(at)
        self.want(n, sizeof(ty), "the size of " + what)
        n, at = self.packed(at)
        self.want(n, alignof(ty), "the alignment of " + what)
        return at

    def desc(self, at, end, ty, what, toplevel=None):
        """-> where it ends"""
        E = self.D.E
        k = self.kind(at, what)
        at += 1
        if ty is None:
            self.want(k, E["Tybad"], "the kind of " + what)
            return at
        if isinstance(ty, tuple) and ty[0] == "name" and toplevel:
            self.want(k, E["Tyname"], "the kind of " + what)
            nm, at = self.name(at)
            self.want(nm, toplevel, "the name of " + what)
            return self.sized(at, ty[1], what + "~")
        kn = {"name": "Tyname", "ptr": "Typtr", "slice": "Tyslice", "array": "Tyarray", "func": "Tyfunc", "tuple": "Tytuple", "struct": "Tystruct", "union": "Tyunion"}[ty[0]] if isinstance(ty, tuple) else ty
        self.want(self.names.get(k & 0x7f), kn, "the kind of " + what)
        self.want(k & 0x80, 0x80 if kn == "Tyname" else 0, "the mark of " + what)
        if not isinstance(ty, tuple):
            return at
        if ty[0] == "name":
            r = self.b[at] if at < len(self.b) else None
            self.want(r, ("ref", self.D.idof(ty), 0), "the reference to " + what)
            return at + 8
        if ty[0] in ("ptr", "slice"):
            return self.sized(at, ty[1], "what %s holds" % what)
        if ty[0] == "array":
            at = self.info(at, ty, what)
            n, at = self.packed(at)
            self.want(n, ty[2], "the number of elements of " + what)
            return self.sized(at, ty[1], "the element of " + what)
        subs = (ty[1],) + tuple(ty[2]) if ty[0] == "func" else ty[1]
        if ty[0] != "func":
            at = self.info(at, ty, what)
        n, at = self.packed(at)
        self.want(n, len(subs), "the number of parts of " + what)
        for i, t in enumerate(subs):
            w = "part %d of %s" % (i, what)
            if ty[0] in ("struct", "union"):
                nm, at = self.name(at)
                q = ("m%d" if ty[0] == "struct" else "C%d") % i
                self.want(nm, q, "the name of " + w)
            at = self.sized(at, t, w)
        return at


def ctype(ch):
    """the bits by which <ctype.h> knows a character"""
    if not 0 <= ch < 128:
        return 0
    q = chr(ch)
    al, pr = q.isalnum(), 32 <= ch < 127
    bits_ = [q.isupper(), q.islower(), q.isalpha(), q.isdigit(), q in "0123456789abcdefABCDEF", q in " \t\n\r\f\v", pr, pr and q != " ", q in " \t", not pr, pr and q != " " and not al, al]
    return sum(((1 << i) << 8 if i < 8 else (1 << i) >> 8) for i, b in enumerate(bits_) if b)


def zeros(t, at):
    for o, w, f in leaves(t):
        yield (at + o, w, 0)


def unquote(t):
    body = t[1:-1] if t.endswith('"') and len(t) > 1 else t[1:]
    return re.sub(r'\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)', lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1)) or
                  (chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" else chr(int(m.group(1), 8)) if m.group(1)[0] in "01234567" else m.group(1)), body)


class Image:
    """what an assembler makes of the directives: label -> (alignment, bytes and references, is it global)"""
    def __init__(self, text, plan9=False):
        self.lab = {}
        self.globl = set()
        self.comm = {}
        if plan9:
            self.plan9(text)
        else:
            self.gas(text)

    def gas(self, text):
        cur = None
        al = 0
        for ln in split(text):
            w = ln.split(None, 1)
            d, a = w[0], w[1] if len(w) > 1 else ""
            if d.endswith(":"):
                if d[:-1] in self.lab:
                    raise Bad("the label %s is there twice" % d[:-1])
                cur = []
                self.lab[d[:-1]] = (al, cur)
                al = 0
            elif d in (".section", ".text", ".data"):
                cur = None
                al = 0
            elif d == ".align":
                cur = None
                al = int(a)
            elif d == ".globl":
                self.globl.add(a)
            elif d == ".comm":
                p = a.split(",")
                self.comm[p[0]] = int(p[1])
            elif not re.match(r"\.[a-z_]+$", d):
                raise Bad("a line that is no directive: %r" % ln)
            elif d in (".weak_def_can_be_hidden",):
                pass
            else:
                if cur is None:
                    raise Bad("data without a label: %s" % ln)
                if d in (".byte", ".short", ".long", ".quad"):
                    n = {".byte": 1, ".short": 2, ".long": 4, ".quad": 8}[d]
                    m = re.match(r"([A-Za-z_.$][\w.$]*)\s*(?:\+\s*(-?\d+))?$", a)
                    if m:
                        if n != 8:
                            raise Bad("an address in %d bytes" % n)
                        cur.extend([("ref", m.group(1), int(m.group(2) or 0))] + [("cont",)] * 7)
                    else:
                        v = int(a)
                        if not -(1 << 8 * n - 1) <= v < 1 << 8 * n:
                            v &= (1 << 8 * n) - 1       # the assembler truncates
                        cur.extend(v.to_bytes(n, "little", signed=v < 0))
                elif d == ".fill":
                    p = [int(q) for q in a.split(",")]
                    if p[0] < 0 or p[0] > 1 << 30:
                        raise Bad("a gap of %d bytes" % p[0])
                    cur.extend((p[2].to_bytes(p[1], "little") if p[1] else b"") * p[0])
                elif d == ".ascii":
                    cur.extend(ascii_(a))
                else:
                    raise AnalysisBroken("a directive that is not modelled: " + ln)

    def plan9(self, text):
        sz = {}
        for ln in split(text):
            ln = ln.split("//")[0].strip() if '"' not in ln else ln
            m = re.match(r"GLOBL (\S+?)(<>)?\+0\(SB\),(?:2,)?\$(-?\d+)$", ln)
            if m:
                if m.group(1) in self.lab:
                    raise Bad("%s is declared twice" % m.group(1))
                self.lab[m.group(1)] = (16, [0] * int(m.group(3)))
                sz[m.group(1)] = set()
                if not m.group(2):
                    self.globl.add(m.group(1))
                continue
            m = re.match(r"DATA (\S+?)(<>)?\+(\d+)\(SB\)/(\d+),\$(.*)$", ln, re.S)
            if not m:
                raise AnalysisBroken("a directive that is not modelled: " + ln)
            l, o, n, v = m.group(1), int(m.group(3)), int(m.group(4)), m.group(5)
            if l not in self.lab:
                raise Bad("data for %s, which is not declared" % l)
            if v.startswith('"'):
                b = list(ascii_(v))
                if len(b) != n:
                    raise Bad("%d bytes of text in %d" % (len(b), n))
            elif re.match(r"-?\d+$", v):
                b = list((int(v) & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
            else:
                m = re.match(r"(\S+?)(<>)?\+(\d+)\(SB\)$", v)
                if not m or n != 8:
                    raise AnalysisBroken("a directive that is not modelled: " + ln)
                b = [("ref", m.group(1), int(m.group(3)))] + [("cont",)] * 7
            got = self.lab[l][1]
            if o + n > len(got):
                raise Bad("data at %d of the %d bytes of %s" % (o, len(got), l))
            for i, q in enumerate(b):
                if o + i in sz[l]:
                    raise Bad("byte %d of %s is given twice" % (o + i, l))
                sz[l].add(o + i)
                got[o + i] = q


def split(text):
    """lines; a quoted newline does not end one"""
    return [q.strip() for q in text.split("\n") if q.strip()]


def ascii_(a):
    a = a.strip()
    if len(a) < 2 or a[0] != '"' or a[-1] != '"':
        raise Bad("text that is not quoted: " + a)
    out = bytearray()
    i, a = 0, a[1:-1]
    while i < len(a):
        ch = a[i]
        if ch == '"':
            raise Bad("a quote within a text: " + a)
        if ch != "\\":
            out.append(ord(ch))
            i += 1
            continue
        m = re.match(r"[0-7]{1,3}", a[i + 1:])
        if m:
            out.append(int(m.group(0), 8) & 255)
            i += 1 + len(m.group(0))
        elif a[i + 1:i + 2] in ('"', "\\"):
            out.append(ord(a[i + 1]))
            i += 2
        else:
            raise Bad("an escape in a text: " + a[i:i + 3])
    return bytes(out)


def number(l, o, w):
    q = l[o:o + w]
    if len(q) < w or any(not isinstance(z, int) for z in q):
        return None
    return int.from_bytes(bytes(q), "little")


def compare(D, img, lbl, off, v, ty, p9, depth=0):
    """the data at lbl+off are v"""
    if lbl not in img.lab:
        raise Bad("there are no data for %s" % lbl)
    al, l = img.lab[lbl]
    n = sizeof(ty)
    if len(l) != n:
        raise Bad("%s has %d bytes, its type %d" % (lbl if depth else "the variable", len(l), n))
    if al % max(alignof(ty), 1) if al else alignof(ty) > 1 and n:
        raise Bad("%s is aligned to %d, its type to %d" % (lbl, al, alignof(ty)))
    for o, w, want in D.leafs(v, ty):
        if want is None:
            continue
        if isinstance(want, int):
            got = number(l, o, w)
            if got != want:
                raise Bad("the %d bytes at %d are %s, not %d" % (w, o, got if got is not None else l[o], want))
            continue
        r = l[o]
        if not (isinstance(r, tuple) and r[0] == "ref"):
            raise Bad("at %d there is no address" % o)
        if want[0] == "sym":
            if r != ("ref", want[1], want[2]):
                raise Bad("at %d there is the address %s+%d, not %s+%d" % (o, r[1], r[2], want[1], want[2]))
        elif want[0] == "str":
            got = img.lab.get(r[1])
            if got is None or r[2] != 0 or any(not isinstance(q, int) for q in got[1]) or bytes(got[1]) != want[1]:
                raise Bad("at %d there is the address of %r, not of %r" % (o, bytes(q for q in got[1] if isinstance(q, int)) if got else None, want[1]))
        elif want[0] == "lam":
            s, T = D.s, D.T
            for k in range(s.store[("fld", ("glob", "file"), "nstmts")]):
                d = s.store[("idx", s.store[("fld", ("glob", "file"), "stmts")], k)]
                if T.get(s, d, "decl", "init") == D.lams[want[1]]:
                    nm = D.it.resolve(D.asmname(D.it, s, [d], None, None)[0][1], s)[1].strip('"')
                    if r != ("ref", nm, 0):
                        raise Bad("at %d there is the address %s+%d, not that of the function literal" % (o, r[1], r[2]))
                    if s.store.get(("htent", "globls", T.get(s, d, "decl", "did"))) != ("str", '"%s"' % nm):
                        raise Bad("the function literal at %d is known by another name" % o)
                    break
            else:
                raise Bad("the function literal at %d is compiled nowhere" % o)
        elif want[0] == "data":
            if r[2] != want[3]:
                raise Bad("at %d there is the address of byte %d of an array, not of byte %d" % (o, r[2], want[3]))
            compare(D, img, r[1], 0, want[1], want[2], p9, depth + 1)
