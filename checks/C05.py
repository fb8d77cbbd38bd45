"""Literals denote the value the manual gives them: escapes, unicode, digits and bases, type suffixes,
merging of strings, from source characters to the literal node."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from ccast import AnalysisBroken, strip
from cint import Program, Interp, State, wrapint, lin, ctype_setup
from lr import Grammar
from C04 import fixed, Trees, PUNCT  # noqa

ESC = {"n": 10, "r": 13, "t": 9, "b": 8, '"': 34, "'": 39, "v": 11, "\\": 92, "0": 0}
SUFFIX = {"l": "Tyint64", "i": "Tyint32", "s": "Tyint16", "b": "Tyint8", "ul": "Tyuint64", "ui": "Tyuint32", "us": "Tyuint16", "ub": "Tyuint8", "": None}
FB = ("ld", ("glob", "fbuf"))


def rec(name, ret=None):
    def h(it, s, av, n, ctx):
        a = tuple(it.resolve(x, s) for x in av)
        s.events.append((name,) + a)
        return [(s, (("call", name) + a) if ret is None else ret)]
    return h


def dead(it, s, av, n, ctx):
    return [(s, ("noreturn",))]


def mktok(it, s, av, n, ctx):
    t = ("tok", it.resolve(av[0], s))
    s.ne[t] = frozenset([0])
    return [(s, t)]


FATAL = {"lfatal": dead, "fatal": dead, "die": dead}


def uncast(v):
    while isinstance(v, tuple) and v[0] == "cast":
        v = v[2]
    return v


def start(chars=None):
    st = State()
    st.store[("glob", "fidx")] = 0
    if chars is not None:
        st.store[("glob", "fbufsz")] = len(chars)
        for i, b in enumerate(chars):
            st.store[("idx", FB, i)] = wrapint(b, "char")
    return st


def live(outs):
    return [(s, v) for s, v in outs if v != ("noreturn",) and not any(e[0] in ("noreturn", "cut") for e in s.events)]


def calls_of(s, name):
    return [e for e in s.events if e[0] == name]


def escapes(c, P):
    t, fn = P.func("decode")
    c.unit("parse/tok.c:decode")
    it = Interp(P, {**FATAL, "append": rec("append"), "appendc": rec("appendc"), "unichar": rec("unichar"), "hexval": rec("hexval")}, pure={"isxdigit"})
    got = {}
    for s, v in live(it.invoke(t, fn, [("buf",), ("len",), ("sz",)], start())):
        ch = None
        end = False
        for k, x in s.eq.items():
            if fixed(k) == 0 and isinstance(x, int):
                ch = chr(x & 0xff) if 0 <= x else None
        for a, b in s.assume.items():
            if isinstance(a, tuple) and a[0] == "bin" and a[1] in (">=", "<") and isinstance(a[2], int) and b == (a[1] == ">="):
                end = True
        if end:
            continue
        ap = calls_of(s, "append")
        apc = calls_of(s, "appendc")
        got.setdefault(ch, []).append((v, ap, apc, s))
    for e, val in ESC.items():
        for v, ap, apc, s in got.get(e, [(None, [], [], None)]):
            ok = v == val and [x[-1] for x in ap] == [val] and not apc and s.store.get(("glob", "fidx")) == 1
            c.decide(ok, "escape", e, "the escape \\%s is %s in the text and has value %s, not %d" % (e, [x[-1] for x in ap + apc], v, val), "\\%s = %d" % (e, val))
    for v, ap, apc, s in got.get("x", []):
        d, k = lin(v) if isinstance(v, tuple) else ({}, v)
        idx = {}
        for a, m in d.items():
            a = uncast(a)
            if isinstance(a, tuple) and a[:2] == ("call", "hexval"):
                idx[fixed(a[2])] = m
        ok = idx == {1: 16, 2: 1} and k == 0 and len(ap) == 1 and not apc and uncast(ap[0][-1]) == uncast(v) and s.store.get(("glob", "fidx")) == 3
        c.decide(ok, "escape", "x", "\\xDD is not the byte 16*D1+D2 appended once: %s" % (v,), "\\xDD")
    for v, ap, apc, s in got.get("u", []):
        ok = isinstance(v, tuple) and v == ("call", "unichar") and not ap and len(apc) == 1 and uncast(apc[0][-1]) == v
        c.decide(ok, "escape", "u", "\\u{} does not append its code point as UTF-8 and have it as its value", "\\u{x}")
    for e in list(ESC) + ["x", "u"]:
        c.decide(e in got, "escape-known", e, "the escape \\%s is not accepted" % e)
    for e in got:
        if e not in ESC and e not in ("x", "u"):
            c.bad("escape", "extra", "decode() accepts the undocumented escape %r" % (e,))


def hexdigits(c, P):
    """constant propagation over the whole domain of a byte"""
    c.unit("parse/tok.c:hexval,ishexval")
    want = {ord(x): int(x, 16) for x in "0123456789abcdefABCDEF"}
    for name in ("hexval", "ishexval"):
        if name not in P.tus[0].funcs:
            continue
        t, fn = P.func(name)
        for ch in range(1, 128):
            it = Interp(P, dict(FATAL))
            st = State()
            ctype_setup(it, st)
            r = [v for s, v in live(it.invoke(t, fn, [ch], st))]
            if name == "hexval":
                c.decide(ch not in want or r == [want[ch]], "hexval", chr(ch), "hexval(%r) is %s" % (chr(ch), r), chr(ch))
            else:
                c.decide(len(r) == 1 and isinstance(r[0], int) and bool(r[0]) == (ch in want), "ishexval", chr(ch), "ishexval(%r) is %s" % (chr(ch), r), chr(ch))


def unichar(c, P):
    """transfer function of the digit loop"""
    t, fn = P.func("unichar")
    c.unit("parse/tok.c:unichar")
    loops = list(fn.find("WhileStmt", "ForStmt", "DoStmt"))
    if len(loops) != 1:
        raise AnalysisBroken("unichar: expected one loop over the digits")
    for digits in ("", "4", "7f", "1F600", "10ffff", "0010FFFF", "abcde"):
        src = ("{" + digits + "}").encode()
        it = Interp(P, dict(FATAL))
        st = start(src)
        ctype_setup(it, st)
        r = live(it.invoke(t, fn, [], st))
        want = int(digits or "0", 16)
        c.decide(len(r) == 1 and r[0][1] == want and r[0][0].store.get(("glob", "fidx")) == len(src), "unicode", digits, "\\u{%s} has the value %s" % (digits, [v for s, v in r]), "\\u{%s}" % digits)
    for digits in ("110000", "FFFFFFFFFF"):
        it = Interp(P, dict(FATAL))
        st = start(("{" + digits + "}").encode())
        ctype_setup(it, st)
        r = live(it.invoke(t, fn, [], st))
        c.decide(not r, "unicode", digits, "\\u{%s} is accepted as %s although it is no code point" % (digits, [v for s, v in r]), "\\u{%s} rejected" % digits)


def utf8(cp):
    n = 1 if cp < 0x80 else 2 if cp < 0x800 else 3 if cp < 0x10000 else 4
    if n == 1:
        return [cp]
    out = []
    for i in range(n - 1):
        out.append(0x80 | (cp & 0x3f))
        cp >>= 6
    out.append(((0xff << (8 - n)) & 0xff) | cp)
    return out[::-1]


def utf(c, P):
    """both directions are bitwise linear within one length, so a basis decides them; the limits between lengths are the boundaries"""
    t, fn = P.func("appendc")
    t2, fn2 = P.func("readutf")
    c.unit("parse/tok.c:appendc,encode,readutf")
    pts = set()
    for lo, hi in ((0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)):
        pts |= {lo, lo + 1, hi, hi - 1, (lo + hi) // 2}
        for b in range(21):
            for x in (1 << b, lo | 1 << b, hi & ~(1 << b)):
                if lo <= x <= hi:
                    pts.add(x)
    for cp in sorted(pts):
        want = utf8(cp)
        it = Interp(P, {**FATAL, "append": rec("append", 0)})
        r = live(it.invoke(t, fn, [("buf",), ("len",), ("sz",), cp], State()))
        got = [[(e[-1] & 0xff) if isinstance(e[-1], int) else e[-1] for e in calls_of(s, "append")] for s, v in r]
        c.decide(got == [want], "utf8-out", "%x" % cp, "\\u{%x} becomes the bytes %s, not %s" % (cp, got, want), "U+%04X" % cp)
        it = Interp(P, {**FATAL, "append": rec("append", 0)})
        st = start(want)
        st.store[("glob", "fidx")] = 1
        r = live(it.invoke(t2, fn2, [wrapint(want[0], "char"), ("buf",), ("len",), ("sz",)], st))
        got = [v for s, v in r]
        c.decide(len(r) == 1 and isinstance(got[0], int) and got[0] & 0xffffffff == cp and r[0][0].store.get(("glob", "fidx")) == len(want), "utf8-in", "%x" % cp,
                 "the source character U+%04X is read as %s" % (cp, got), "U+%04X" % cp)


def numbers(c, P):
    E = P.enums
    t, fn = P.func("numlit")
    c.unit("parse/tok.c:numlit,number")
    it = Interp(P, {**FATAL, "number": rec("number")})
    got = {}
    for s, v in live(it.invoke(t, fn, [], start())):
        w = {}
        for k, x in s.eq.items():
            if fixed(k) is not None and isinstance(x, int) and x > 0:
                w[fixed(k)] = chr(x)
        if any(isinstance(a, tuple) and a[0] == "bin" and a[1] in (">=", "<") and b == (a[1] == ">=") for a, b in s.assume.items()):
            continue
        e = calls_of(s, "number")
        got["".join(w[i] for i in sorted(w))] = (e[0][1] if len(e) == 1 else None, s.store.get(("glob", "fidx")))
    want = {"0x": (16, 2), "0o": (8, 2), "0b": (2, 2), "0": (10, 0), "": (10, 0)}
    for k in sorted(set(want) | set(got)):
        c.decide(got.get(k) == want.get(k), "base", k or "digit", "a number starting with %r is read with base and from position %s, not %s" % (k, got.get(k), want.get(k)), "%s -> base %s" % (k or "digits", want.get(k, ("",))[0]))
    # suffixes
    t, fn = P.func("number")
    it = Interp(P, {**FATAL, "mktok": mktok, "strtoull": rec("strtoull"), "strtoul": rec("strtoull"), "strtod": rec("strtod"), "strdupn": rec("strdupn")}, pure={"isxdigit"}, noinline=["hexval"])
    seen = {}
    for s, v in live(it.invoke(t, fn, [("base",)], start())):
        if not (isinstance(v, tuple) and v[0] == "tok"):
            raise AnalysisBroken("number() returns %r" % (v,))
        chars = {}
        for k, x in s.eq.items():
            k = uncast(k)
            if isinstance(k, tuple) and k[0] == "ld" and k[1][0] == "idx" and k[1][1] == FB and isinstance(x, int):
                d, o = lin(k[1][2])
                if any("lvout" in repr(a) for a in d):
                    chars[o] = chr(x)
        if v[1] == E["Tintlit"]:
            w = "".join(chars[i] for i in sorted(chars)).lower()
            iv = uncast(s.store.get(("fld", v, "intval")))
            ty = s.store.get(("fld", v, "inttype"))
            end = lin(s.store.get(("glob", "fidx")))[1] if isinstance(s.store.get(("glob", "fidx")), tuple) else None
            seen.setdefault(w, set()).add((ty, end))
            e = calls_of(s, "strtoull")
            ok = len(e) == 1 and isinstance(iv, tuple) and iv[:2] == ("call", "strtoull") and iv[4] == ("base",) and iv[2][0] == "addr"
            c.decide(ok, "value", "int", "an integer literal's value is %r, not all its digits in its base as 64 bits" % (iv,), "intval = strtoull(digits, base)")
        elif v[1] == E["Tfloatlit"]:
            fv = s.store.get(("fld", v, "fltval"))
            c.decide(isinstance(fv, tuple) and fv[:2] == ("call", "strtod"), "value", "float", "a floating point literal's value is %r" % (fv,), "fltval = strtod(text)")
        else:
            c.bad("value", "token", "number() makes a token of type %s" % v[1])
    for w, ty in SUFFIX.items():
        want = {(E[ty] if ty else None, len(w))}
        got = {(x if x != 0 else None, y if y is not None else 0) for x, y in seen.get(w, set())}
        got = {(None if isinstance(x, tuple) else x, y) for x, y in got}
        c.decide(got == want, "suffix", w or "none", "the integer suffix %r gives type and length %s, not %s (%s)" % (w, got or "nothing", want, ty), "%s -> %s" % (w or "no suffix", ty))
    for w in sorted(set(seen) - set(SUFFIX)):
        c.bad("suffix", "extra:" + w, "the integer suffix %r is accepted" % w)
    digitloop(c, P, t, fn)


def digitloop(c, P, t, fn):
    """what the digit loop keeps of each character: constant propagation of short digit strings through it"""
    E = P.enums

    def run(txt, base, nodot=False):
        it = Interp(P, {**FATAL, "mktok": mktok, "strtoull": rec("strtoull"), "strtoul": rec("strtoull"), "strtod": rec("strtod"), "strdupn": rec("strdupn")})
        st = start(txt.encode())
        ctype_setup(it, st)
        st.store[("glob", "curtok")] = ("prev",) if nodot else 0
        if nodot:
            st.store[("fld", ("prev",), "type")] = E["Tdot"]
            st.ne[("prev",)] = frozenset([0])
        out = []
        for s, v in live(it.invoke(t, fn, [base], st)):
            e = calls_of(s, "strtoull") + calls_of(s, "strtod")
            if len(e) != 1:
                raise AnalysisBroken("number: digits converted %d times" % len(e))
            b = e[0][1][1] if isinstance(e[0][1], tuple) and e[0][1][0] == "addr" else e[0][1]
            txtout = ""
            i = 0
            while True:
                x = s.store.get(("idx", b, i))
                if x is None or x == 0 or not isinstance(x, int):
                    txtout += "" if x == 0 else "?"
                    break
                txtout += chr(x & 0xff)
                i += 1
            out.append((e[0][0], txtout, s.store.get(("glob", "fidx"))))
        return out
    cases = [("123", 10, False, ("strtoull", "123", 3)), ("1_000_5", 10, False, ("strtoull", "10005", 7)), ("fF09", 16, False, ("strtoull", "fF09", 4)), ("_f_F_", 16, False, ("strtoull", "fF", 5)), ("1_0", 2, False, ("strtoull", "10", 3)), ("7_1", 8, False, ("strtoull", "71", 3)), ("1_0.2_5", 10, False, ("strtod", "10.25", 7)),
             ("777", 8, False, ("strtoull", "777", 3)), ("1011", 2, False, ("strtoull", "1011", 4)), ("1.5", 10, False, ("strtod", "1.5", 3)),
             ("2.5e10", 10, False, ("strtod", "2.5e10", 6)), ("1e-3", 10, False, ("strtod", "1e-3", 4)), ("1.2", 10, True, ("strtoull", "1", 1)), ("1E+07", 10, False, ("strtod", "1E+07", 5)),
             ("1e", 16, False, ("strtoull", "1e", 2))]
    for txt, base, nodot, want in cases:
        try:
            got = run(txt, base, nodot)
        except AnalysisBroken as e:
            raise
        c.decide(got == [want], "digits", "%s/%d%s" % (txt, base, "/dot" if nodot else ""), "the digits %s in base %d are converted as %s, not %s" % (txt, base, got, want), "%s base %d" % (txt, base))
    for txt, base in (("12", 2), ("8", 8), ("a", 10), ("19", 8)):
        c.decide(run(txt, base) == [], "digits-reject", "%s/%d" % (txt, base), "the digits %s are accepted in base %d" % (txt, base), "%s not base %d" % (txt, base))


def strings(c, P):
    E = P.enums
    prims = {**FATAL, "mktok": mktok, "append": rec("append", 0), "decode": rec("decode")}
    c.unit("parse/tok.c:strlit,charlit")
    t, fn = P.func("strlit")
    # the loop's transfer function, by the class of the next character
    for txt, want in ((b'"ab"', ["a", "b", 0]), (b'"a\xc3\xa9 \x01"', ["a", 0xc3, 0xa9, " ", 1, 0]), (b'""', [0]), (b'"\\x"', None), (b'"a\'b"', ["a", "'", "b", 0]), (b'"/*"', ["/", "*", 0])):
        it = Interp(P, prims)
        st = start(txt)
        r = live(it.invoke(t, fn, [], st))
        if want is None:
            it = Interp(P, {**prims, "decode": lambda it, s, av, n, ctx: (s.events.append(("decode",)), s.store.__setitem__(("glob", "fidx"), s.store[("glob", "fidx")] + 1), [(s, 7)])[-1]})
            r = live(it.invoke(t, fn, [], start(txt)))
            good = len(r) == 1 and len(calls_of(r[0][0], "decode")) == 1 and [e[-1] for e in calls_of(r[0][0], "append")] == [0]
            c.decide(good, "string", "escape", "a backslash in a string is not decoded as an escape", "string escapes are decoded")
            continue
        w = [ord(x) if isinstance(x, str) else x for x in want]
        good = len(r) == 1
        if good:
            s, v = r[0]
            got = [e[-1] & 0xff if isinstance(e[-1], int) else e[-1] for e in calls_of(s, "append")]
            good = got == w and v[1] == E["Tstrlit"] and s.store.get(("glob", "fidx")) == len(txt)
        c.decide(good, "string", repr(txt), "the string literal %r keeps the bytes %s" % (txt, [e[-1] for e in calls_of(r[0][0], "append")] if r else "of no literal"), repr(txt))
    # its length does not count the terminator: the same variable append() advances, read before the last append
    it = Interp(P, {**FATAL, "mktok": mktok, "decode": rec("decode"), "malloc": rec("malloc"), "realloc": rec("realloc")})
    for n in (0, 1, 3, 40):
        r = live(it.invoke(t, fn, [], start(b'"' + b"a" * n + b'"')))
        got = [s.store.get(("fld", ("fld", v, "strval"), "len")) for s, v in r]
        c.decide(got == [n], "string-length", str(n), "a string literal of %d bytes has length %s" % (n, got), "%d bytes" % n)
    t, fn = P.func("charlit")
    for txt, rd in ((b"'a'", "readutf"), (b"'\\n'", "decode")):
        def reader(name):
            def h(it, s, av, n, ctx):
                s.events.append((name,) + tuple(it.resolve(x, s) for x in av))
                if name == "decode":
                    s.store[("glob", "fidx")] = s.store[("glob", "fidx")] + 1
                return [(s, ("val", name))]
            return h
        it = Interp(P, {**prims, "readutf": reader("readutf"), "decode": reader("decode")})
        r = live(it.invoke(t, fn, [], start(txt)))
        good = len(r) == 1 and r[0][1][1] == E["Tchrlit"] and uncast(r[0][0].store.get(("fld", r[0][1], "chrval"))) == ("val", rd)
        if good and rd == "readutf":
            good = uncast(calls_of(r[0][0], "readutf")[0][1]) == ord("a")
        c.decide(good, "char", rd, "the value of a character literal is not what %s() reads" % rd, "chrval = %s()" % rd)
    it = Interp(P, {**prims, "readutf": rec("readutf")})
    c.decide(not live(it.invoke(t, fn, [], start(b"'ab'"))), "char", "multiple", "a character literal of two characters is accepted", "'ab' rejected")


def nodes(c, G):
    """from token to literal node"""
    Pn = Program(["parse/node.c"])
    E = Pn.enums
    c.unit("parse/node.c:mkint,mkchar,mkfloat,mkbool,mkstr; parse/gram.y:littok,strlit")

    def node(it, s, av, n, ctx):
        t = ("node",)
        s.store[("fld", t, "type")] = it.resolve(av[1], s)
        s.ne[t] = frozenset([0])
        return [(s, t)]
    for f, lt, fld in (("mkint", "Lint", "intval"), ("mkchar", "Lchr", "chrval"), ("mkfloat", "Lflt", "fltval"), ("mkbool", "Lbool", "boolval")):
        t, fn = Pn.func(f)
        it = Interp(Pn, {"mknode": node})
        for s, v in it.invoke(t, fn, [("loc",), ("v",)], State()):
            l = ("fld", ("node",), "lit")
            good = s.store.get(("fld", l, "littype")) == E[lt] and uncast(s.store.get(("fld", l, fld))) == ("v",) and s.store.get(("fld", ("node",), "type")) == E["Nlit"]
            c.decide(good, "literal-node", f, "%s does not make a %s literal of its argument: %s = %s" % (f, lt, fld, s.store.get(("fld", l, fld))), "%s: %s" % (f, fld))
    t, fn = Pn.func("mkstr")
    it = Interp(Pn, {"mknode": node, "malloc": rec("malloc", ("mem",)), "memcpy": rec("memcpy", 0), "memmove": rec("memcpy", 0)})
    st = State()
    st.store[("val",)] = ("ld", ("S",))
    for s, v in it.invoke(t, fn, [("loc",), ("S",)], State()):
        l = ("fld", ("fld", ("node",), "lit"), "strval")
        ln = s.store.get(("fld", l, "len"))
        mc = calls_of(s, "memcpy")
        good = "'len'" in repr(ln) and len(mc) == 1 and mc[0][1] == ("mem",) and "'buf'" in repr(mc[0][2]) and uncast(mc[0][3]) == uncast(ln) and s.store.get(("fld", l, "buf")) == ("mem",)
        c.decide(good, "literal-node", "mkstr", "mkstr does not copy the whole text and its length", "mkstr copies len bytes")
    # tokens: littok rules
    T = Trees(c, G, None)
    pr = T.it.prims
    for f in ("mkint", "mkchar", "mkfloat", "mkbool", "mkvoid", "mkstr"):
        pr[f] = T.maker(f)
    pr["strcmp"] = lambda it, s, av, n, ctx: [(s, 0 if it.resolve(av[0], s) == it.resolve(av[1], s) else 1)]
    pr["malloc"] = rec("malloc", ("mem",))
    pr["memcpy"] = rec("memcpy", 0)

    def value(toks, fields):
        full = ["Tconst", "Tident", "Tasn"] + toks + ["Tendln"]
        d, at = G.parse(full)
        if d is None:
            return None, None
        sub = None
        for x in (d if isinstance(d, list) else [d]):
            sub = sub or G.subtree(x, 3, 3 + len(toks))

        def hook(x, name, st):
            for f, v in fields.items():
                st.store[("fld", x, f)] = (v + (x[1] - 3,)) if isinstance(v, tuple) and len(v) == 1 else v
        v, s = G.mean(T.it, sub, State(), full, hook)
        v = v.get(("node",))
        if not (isinstance(v, tuple) and v[0] == "n" and v[1] == G.P.enums["Olit"]):
            return None, None
        return v[2][0], s
    for tok, f, mk in (("Tchrlit", "chrval", "mkchar"), ("Tfloatlit", "fltval", "mkfloat"), ("Tintlit", "intval", "mkint")):
        for ty in ((0, 14) if tok == "Tintlit" else (0,)):
            v, s = value([tok], {f: ("V",), "inttype": ty})
            good = v is not None and v[1] == mk and uncast(v[3]) == ("V", 0)
            if good and tok == "Tintlit":
                lt = s.store.get(("fld", ("fld", v, "lit"), "type"))
                good = (isinstance(lt, tuple) and lt[0] == "mk" and lt[1] == "mktype" and lt[3] == ty) if ty else lt is None
            c.decide(good, "token-literal", "%s%s" % (tok, "-typed" if ty else ""), "the token %s does not become a literal of its own value%s" % (tok, " and suffix type" if ty else ""), "%s -> %s" % (tok, mk))
    for word, want in (("true", 1), ("false", 0)):
        v, s = value(["Tboollit"], {"id": ("str", '"%s"' % word)})
        good = v is not None and v[1] == "mkbool" and v[3] == want
        c.decide(good, "token-literal", word, "the literal %s is not the boolean of that name" % word, word)
    v, s = value(["Tstrlit", "Tstrlit"], {"strval": ("SV",)})
    mc = calls_of(s, "memcpy") if s else []
    good = v is not None and v[1] == "mkstr" and len(mc) == 2
    if good:
        l0, l1 = mc[0][3], mc[1][3]
        var = v[3][1] if v[3][0] in ("undef", "ld") else None
        sv = {k[2]: x for k, x in s.store.items() if k[0] == "fld" and k[1][0] == "var" and k[1][1] == var}
        good = (mc[0][1] == ("mem",) and "('SV', 0)" in repr(mc[0][2]) and "'buf'" in repr(mc[0][2]) and "'len'" in repr(l0) and "('SV', 0)" in repr(l0)
                and lin(mc[1][1]) == lin(("bin", "+", ("mem",), l0)) and "('SV', 1)" in repr(mc[1][2]) and "'buf'" in repr(mc[1][2]) and "'len'" in repr(l1) and "('SV', 1)" in repr(l1)
                and "len" in sv and lin(sv["len"]) == lin(("bin", "+", l0, l1)) and sv.get("buf") == ("mem",))
    c.decide(good, "token-literal", "strings", "adjacent string literals are not merged into one", "adjacent strings are copied into one")


def main(c):
    P = Program(["parse/tok.c"])
    escapes(c, P)
    hexdigits(c, P)
    unichar(c, P)
    utf(c, P)
    numbers(c, P)
    strings(c, P)
    G = Grammar()
    nodes(c, G)
    c.need("escape", 9)
    c.need("suffix", 9)
    c.need("utf8-out", 40)
    c.need("digits", 10)


if __name__ == "__main__":
    report.run("C05", "decision paths of the escape, base and suffix code equal the manual's tables; UTF-8 encoding and decoding decided on a basis of each length; every literal token "
               "becomes a literal node with its own value and type", main, ["strtoull/strtod of the C library convert digit strings correctly"])
