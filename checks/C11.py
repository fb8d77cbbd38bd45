"""C11: constant data and type descriptors hold what the source says."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from data import *  # noqa
from ccast import AnalysisBroken

I = "Tyint"
CHEAP = bool(os.environ.get("VSA_FIRST"))
GAS, P9 = "6/gengas.c", "6/genp9.c"
INTS = ["Tyint8", "Tyint16", "Tyint32", "Tyint", "Tyint64", "Tybyte", "Tyuint8", "Tyuint16", "Tyuint32", "Tyuint", "Tyuint64"]
SC = INTS + ["Tybool", "Tychar", "Tyflt32", "Tyflt64"]
FN = ("func", I, (I,))
S1 = ("struct", ("Tybyte", I))
S2 = ("struct", ("Tyint64", "Tybyte"))
U1 = ("union", (None, "Tyint64", "Tybyte"))
U2 = ("union", (None, None, None))
U3 = ("union", (("tuple", ("Tybyte", "Tyint64")), "Tyint16"))
AGG = [S1, S2, U1, U2, U3, ("struct", ("Tybyte", "Tyint16", "Tybyte", I, "Tybyte", "Tyint64", "Tybyte")), ("struct", (S1, "Tybyte", S2)), ("struct", (U1, "Tybyte", U2)),
       ("array", I, 4), ("array", "Tybyte", 7), ("array", S1, 3), ("array", S2, 3), ("array", U1, 3), ("array", ("array", "Tyint16", 3), 3), STR, ("struct", (STR, "Tybyte", STR)),
       ("array", STR, 3), ("slice", I), ("slice", S2), ("slice", STR), ("slice", ("slice", I)), FN, ("struct", ("Tybyte", FN)), ("array", FN, 2), ("union", (STR, FN)),
       ("struct", (("tuple", ("Tybyte", "Tyint64")), "Tybyte")), ("array", ("tuple", ("Tyint16", "Tybyte", "Tyint16")), 3), ("name", S1), ("struct", (("name", S2), ("name", "Tyint16"))),
       ("array", ("name", U1), 2), ("struct", ("Tyflt32", "Tyflt64", "Tybool", "Tychar")), ("struct", ("Tybyte", ("slice", S1), "Tyint16")), ("union", (("slice", I), "Tybyte")),
       ("struct", ("Tybyte", "Tyvoid", "Tyint16")), ("array", "Tyflt64", 3), ("struct", (("array", "Tybyte", 3), "Tyint64", ("array", S1, 2))), ("union", (S2, ("name", S1), None)),
       ("struct", ("Tybyte", ("union", ("Tybyte", None)), "Tybyte")), ("array", ("struct", ("Tyint64", "Tybyte", STR)), 2)]
TEXTS = [b"", b"a", b'a"b\\c', b"\n\t\x00\x7f", "h\u00e9llo \u4e2d".encode(), bytes(range(256)), b"x" * 59, b"x" * 60, b"x" * 61, b"y" * 119 + b'"' + b"\\", b"z" * 8, b"0123456789", b"\x001", b"\x0012"]


class Gen:
    def __init__(self, rnd, D):
        self.r = rnd
        self.k = 0
        self.D = D

    def num(self, ty):
        w = bits(ty)
        m = (1 << w) - 1
        n = self.r.choice((0, 1, 2, 7, 127, 128, 200, 255, 256, 32767, 32768, 65535, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff, 0x123456789abcdef0, 1 << 63, m, m >> 1, 10)) & m
        if ty in ("Tyint8", "Tyint16", "Tyint32", "Tyint", "Tyint64") and n >> (w - 1):
            n |= ~m                                  # a negative literal is kept sign extended
            n &= (1 << 64) - 1
        return n

    def val(self, ty, d=0):
        r, b = self.r, base(ty)
        if b == "Tyvoid":
            return None
        if b == "Tybool":
            return r.randrange(2)
        if b == "Tychar":
            return r.choice((0, 65, 0xe9, 0x4e2d, 0x1f600, 0x10ffff))
        if b in FLT:
            return r.choice((0.0, 1.5, -2.25, 0.1, 1e10, 3.0, -0.0, 1e-3))
        if isinstance(b, str):
            return self.num(b)
        if b == STR:
            return r.choice(TEXTS)
        k = b[0]
        if k == "tuple":
            return ("tup", tuple(self.val(t, d + 1) for t in b[1]))
        if k == "struct":
            ix = list(range(len(b[1])))
            r.shuffle(ix)
            if r.random() < .5:
                ix = ix[:r.randint(1, len(ix))]
            return ("str", {i: self.val(b[1][i], d + 1) for i in ix})
        if k == "array":
            ix = range(b[2]) if r.random() < .5 else sorted(r.sample(range(b[2]), r.randint(1, b[2])))
            # the number of elements is that of the literal, so the last one is there
            ix = sorted(set(ix) | {b[2] - 1})
            return ("arr", {i: self.val(b[1], d + 1) for i in ix})
        if k == "union":
            i = r.randrange(len(b[1]))
            return ("ucon", i, self.val(b[1][i], d + 1) if b[1][i] else None)
        if k == "slice":
            if r.random() < .3:
                self.k += 1
                n = r.randint(1, 4)
                nm = "cv%d" % self.k
                self.D.cvs[nm] = (("array", b[1], n), None)
                lo = r.randint(0, n)
                return ("slc", ("cv", nm), lo, r.randint(lo, n))
            n = r.randint(0, 3)
            lo = r.randint(0, n)
            ix = sorted(set(r.sample(range(n), r.randint(1, n))) | {n - 1}) if n else []
            return ("slc", ("arr", {i: self.val(b[1], d + 1) for i in ix}), lo, r.randint(lo, n))
        if k == "func":
            self.k += 1
            return (r.choice(("fn", "fn", "lam")), "f%d" % self.k)
        raise AnalysisBroken("values of a type")


def vshow(v):
    if isinstance(v, tuple) and v[0] in ("str", "arr"):
        return "[%s]" % ", ".join("%s=%s" % (i, vshow(a)) for i, a in v[1].items())
    if isinstance(v, tuple) and v[0] == "tup":
        return "(%s)" % ", ".join(map(vshow, v[1]))
    if isinstance(v, tuple) and v[0] == "ucon":
        return "`C%d %s" % (v[1], vshow(v[2]) if v[2] is not None else "")
    if isinstance(v, tuple) and v[0] == "slc":
        return "%s[%d:%d]" % (v[1][1] if v[1][0] == "cv" else vshow(v[1]), v[2], v[3])
    if isinstance(v, bytes):
        return repr(v if len(v) < 30 else v[:10] + b".." + v[-10:])
    return str(v[1] if isinstance(v, tuple) else v)


def cases(D):
    out = []
    rnd = random.Random(11)
    g = Gen(rnd, D)
    n = int(os.environ.get("VSA_N", 0)) or (6 if CHEAP else 60 if os.environ.get("VERIF_TIER") == "thorough" else 18)
    for ty in SC:
        seen = set()
        for _ in range(12):
            v = g.val(ty)
            if repr(v) not in seen:
                seen.add(repr(v))
                out.append(("scalars", ty, v, "Visintern"))
        out.append(("unset", ty, "none", "Visexport"))
    for t in TEXTS:
        out.append(("texts", STR, t, "Visintern"))
        out.append(("texts", ("struct", (STR, STR)), ("str", {0: t, 1: t}), "Visexport"))
    for ty in AGG:
        seen = set()
        out.append(("unset", ty, "none", "Visintern"))
        for _ in range(n):
            v = g.val(ty)
            if repr(v) not in seen:
                seen.add(repr(v))
                out.append(("aggregates", ty, v, rnd.choice(("Visintern", "Visexport", "Vishidden"))))
    return out


def types():
    out = list(SC) + ["Tyvoid", "Tyvalist"] + AGG + [("ptr", I), ("ptr", ("ptr", S1)), ("ptr", ("name", S1)), ("slice", ("name", I)), ("func", "Tyvoid", ()), ("func", I, (I, "Tyvalist")),
                                                     ("tuple", (I, "Tybyte")), ("tuple", ("Tybyte", "Tyint64", ("name", I))), ("name", I), ("name", ("name", I)), ("name", U1)]
    for n in (0, 1, 31, 32, 127, 128, 255, 256, 4095, 16383, 16384, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28, (1 << 35) - 1, 1 << 35, 1 << 42):
        out.append(("array", "Tybyte", n))
        if n < 1 << 40:
            out.append(("array", I, n))
    for n in (8, 20, 40, 130):
        out.append(("struct", ("Tybyte",) * n))
        out.append(("union", (None,) * n))
        out.append(("tuple", (I,) * n))
        out.append(("func", I, (I,) * n))
    return out


def onedata(j):
    grp, ty, v, vis = j
    D = DATA
    what = "%s = %s" % (tyshow(ty), vshow(v))
    for rel in (GAS, P9):
        try:
            p9 = rel == P9
            img = Image(D.emitdecl(ty, v, vis, rel), p9)
            if v == "none":
                if p9:
                    got = img.lab.get("x")
                    n = len(got[1]) if got else None
                    if got and any(got[1]):
                        raise Bad("an unset variable has data")
                else:
                    n = img.comm.get("x")
                if n != sizeof(ty):
                    raise Bad("%s bytes are reserved for a type of %d" % (n, sizeof(ty)))
            else:
                compare(D, img, "x", 0, v, ty, p9)
            if not p9 and ("x" in img.globl) != (vis != "Visintern"):
                raise Bad("it is %sglobal" % ("" if "x" in img.globl else "not "))
        except (Bad, Fatal) as e:
            return (grp, what, "%s (%s)" % (e, rel))
        except NullDeref as e:
            return (grp, what, "the compiler crashes: %s (%s)" % (e, rel))
    return (grp, what, None)


def onetype(j):
    ty, vis, imp, ns = j
    D = DATA
    what = tyshow(ty) + ("" if vis == "Visintern" else ", exported") + (", %s" % ns if ns else "")
    for rel in (GAS, P9):
        try:
            D.ns = ns
            img = Image(D.emittype(ty, rel, vis, imp), rel == P9)
            lbl = D.idof(ty)
            if lbl not in img.lab:
                raise Bad("there is no descriptor")
            nm = None
            if isinstance(ty, tuple) and ty[0] == "name":
                nm = (ns + "." if ns else "") + D.nameof(D.typ(ty))
            rd = Reader(D, img, lbl)
            e = rd.sized(0, ty, "the type", nm)
            if e != len(rd.b):
                raise Bad("the descriptor has %d bytes, its length says %d" % (len(rd.b), e))
            if nm and (lbl in img.globl) != (vis != "Visintern"):
                raise Bad("the descriptor is %sglobal" % ("" if lbl in img.globl else "not "))
        except (Bad, Fatal) as e:
            return ("types", what, "%s (%s)" % (e, rel))
        except NullDeref as e:
            return ("types", what, "the compiler crashes: %s (%s)" % (e, rel))
        finally:
            D.ns = None
    return ("types", what, None)


def work(k):
    out = []
    for f, j in JOBS[k::NW]:
        try:
            out.append(f(j))
        except AnalysisBroken as e:
            out.append(("?", repr(j)[:200], ("broken", str(e))))
        if CHEAP and out[-1][2]:
            break
    return out


def run(c):
    global DATA, JOBS, NW
    DATA = Data()
    DATA.cvs = {}
    DATA.desc = {}
    JOBS = [(onedata, j) for j in cases(DATA)]
    for t in types():
        JOBS.append((onetype, (t, "Visintern", 0, None)))
        if "'name'" in repr(t):
            JOBS.append((onetype, (t, "Visexport", 0, "pk")))
    NW = 8
    import multiprocessing as mp
    with mp.get_context("fork").Pool(NW) as p:
        res = [r for l in p.map(work, range(NW), chunksize=1) for r in l]
    broken = None
    for grp, t, e in res:
        if isinstance(e, tuple):
            broken = broken or "%s: %s" % (t, e[1])
        elif e is None:
            c.ok(grp, t)
        else:
            c.bad(grp, t, "%s: %s" % (t, e))
    for f in ("6/simp.c:simpconstinit,extractsub,simpblob", "6/blob.c:blobrec,bloblit,blobslice,blobstruct,blobucon,blobvar", "6/gengas.c:genblob,writeblob,writebytes,encodemin,genstrings,gentype",
              "6/genp9.c:genblob,writeblob,writebytes,encodemin,genstrings,gentype", "6/typeinfo.c:tydescblob,tydescsub,namedesc,namevec,encodetypeinfo,blobsz"):
        c.unit(f)
    if broken and not c.viol:
        raise AnalysisBroken(broken)
    if not CHEAP:
        c.need("aggregates", 300)
        c.need("scalars", 100)
        c.need("types", 100)
        c.need("texts", 20)


if __name__ == "__main__":
    report.run("C11", "the bytes and addresses that the directives for an initialised variable, a text or a type descriptor make up are those of the value under the layout of its type, "
               "and nothing more or less", run,
               ["an assembler gives each directive its documented meaning", "the initialiser has been folded (C06)"])
