"""Meaning of amd64 instruction lists over opaque values.

Values are bit-vector terms in a normal form (linear combinations, sorted and/or/xor, extensions and
extractions pushed inwards), so that two ways of computing the same thing are usually the same term;
where they are not, terms are compared on corner valuations of their symbols.  Nothing is executed:
registers and memory hold terms."""
import itertools, re
from zlib import crc32
from ccast import AnalysisBroken


class Bad(Exception):
    """the instruction list does something that has no meaning (or that no processor offers)"""


# ---------------------------------------------------------------------------------------------
# terms: ("c",w,v) ("x",w,name) ("ld",w,region,byteoff,version) ("lin",w,k,((t,c),..)) ("and"|"or"|"xor",w,ts)
# ("mul",w,a,b) ("shl"|"shr"|"sar"|"rol",w,a,n) ("udiv"|"urem"|"sdiv"|"srem",w,a,b) ("zx"|"sx",w,t)
# ("ext",w,lo,t) ("cat",w,(lowest..highest)) ("b",1,op,a,b) ("f",w,op,args) ("lbl",64,name)

def W(t):
    return t[1]


def c(w, v):
    return ("c", w, v & ((1 << w) - 1))


def x(w, name):
    return ("x", w, name)


def isc(t):
    return t[0] == "c"


def sgn(w, v):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def parts(t):
    """linear combination: const, {term: coef}"""
    if t[0] == "c":
        return t[2], {}
    if t[0] == "lin":
        return t[2], dict(t[3])
    return 0, {t: 1}


def lin(w, k, d):
    m = (1 << w) - 1
    d = {t: v & m for t, v in d.items() if v & m}
    k &= m
    if not d:
        return ("c", w, k)
    if k == 0 and len(d) == 1:
        (t, v), = d.items()
        if v == 1:
            return t
    return ("lin", w, k, tuple(sorted(d.items(), key=repr)))


def same(a, b):
    if W(a) != W(b):
        raise Bad("operands of different widths, %d and %d bits" % (W(a), W(b)))


def add(a, b):
    same(a, b)
    k, d = parts(a)
    k2, d2 = parts(b)
    for t, v in d2.items():
        d[t] = d.get(t, 0) + v
    return lin(W(a), k + k2, d)


def scale(a, n):
    k, d = parts(a)
    return lin(W(a), k * n, {t: v * n for t, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    same(a, b)
    if isc(a):
        return scale(b, a[2])
    if isc(b):
        return scale(a, b[2])
    # products of linear forms are kept as they are, but for constant factors
    a, b = sorted((a, b), key=repr)
    return ("mul", W(a), a, b)


def not_(a):
    return add(neg(a), c(W(a), -1))


def bitop(op, a, b):
    same(a, b)
    w = W(a)
    m = (1 << w) - 1
    ts = []
    for t in (a, b):
        ts += list(t[2]) if t[0] == op else [t]
    k = m if op == "and" else 0
    rest = []
    for t in ts:
        if isc(t):
            k = k & t[2] if op == "and" else k | t[2] if op == "or" else k ^ t[2]
        else:
            rest.append(t)
    if op == "xor":
        rest = [t for t in set(rest) if rest.count(t) % 2]
    else:
        rest = list(set(rest))
    if (op == "and" and k == 0) or (op == "or" and k == m):
        return ("c", w, k)
    if not rest:
        return ("c", w, k)
    if op == "xor" and k == m:
        return not_(bitop("xor", _nary("xor", w, rest), c(w, 0)))
    if (op == "and" and k == m) or (op != "and" and k == 0):
        return _nary(op, w, rest)
    if op == "and" and (k & (k + 1)) == 0 and len(rest) == 1:
        return zx(w, ext(k.bit_length(), 0, rest[0]))
    return _nary(op, w, rest + [("c", w, k)])


def _nary(op, w, ts):
    if len(ts) == 1:
        return ts[0]
    return (op, w, tuple(sorted(ts, key=repr)))


def shift(op, a, n):
    """n: a count, as a term of any width"""
    w = W(a)
    if isc(n):
        k = n[2]
        if k >= w:
            return (op, w, a, ("c", 8, k & 255))
        if k == 0:
            return a
        if op == "shl":
            return scale(a, 1 << k)
        if op == "rol":
            return (op, w, a, ("c", 8, k))
        if isc(a):
            v = a[2] if op == "shr" else sgn(w, a[2])
            return c(w, v >> k)
        n = ("c", 8, k)
    return (op, w, a, n if W(n) == 8 else ext(8, 0, n) if W(n) > 8 else zx(8, n))


def divide(op, a, b):
    same(a, b)
    if isc(a) and isc(b) and b[2]:
        w = W(a)
        p, q = (sgn(w, a[2]), sgn(w, b[2])) if op[0] == "s" else (a[2], b[2])
        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        return c(w, d if op.endswith("div") else p - d * q)
    return (op, W(a), a, b)


def zx(w, t):
    v = W(t)
    if w == v:
        return t
    if w < v:
        raise Bad("extended to fewer bits")
    if isc(t):
        return ("c", w, t[2])
    if t[0] == "zx":
        return ("zx", w, t[2])
    return ("zx", w, t)


def sx(w, t):
    v = W(t)
    if w == v:
        return t
    if w < v:
        raise Bad("extended to fewer bits")
    if isc(t):
        return c(w, sgn(v, t[2]))
    if t[0] == "sx":
        return ("sx", w, t[2])
    if t[0] == "zx":
        return ("zx", w, t[2])
    return ("sx", w, t)


def ext(w, lo, t):
    v = W(t)
    if lo == 0 and w == v:
        return t
    if lo + w > v:
        raise Bad("bits beyond a value")
    k = t[0]
    if k == "c":
        return c(w, t[2] >> lo)
    if k == "ext":
        return ext(w, lo + t[2], t[3])
    if k in ("zx", "sx"):
        u = W(t[2])
        if lo + w <= u:
            return ext(w, lo, t[2])
        if lo >= u and k == "zx":
            return ("c", w, 0)
        if lo == 0:
            return (zx if k == "zx" else sx)(w, t[2])
    if k == "cat":
        out = []
        pos = 0
        for p in t[2]:
            a, b = max(lo, pos), min(lo + w, pos + W(p))
            if a < b:
                out.append(ext(b - a, a - pos, p))
            pos += W(p)
        return cat(out)
    if k == "ld" and lo % 8 == 0 and w % 8 == 0:
        return ("ld", w, t[2], t[3] + lo // 8, t[4])
    if k in ("and", "or", "xor"):
        r = ext(w, lo, t[2][0])
        for p in t[2][1:]:
            r = bitop(k, r, ext(w, lo, p))
        return r
    if lo == 0 and k == "lin":
        r = c(w, t[2])
        for p, cf in t[3]:
            r = add(r, scale(ext(w, 0, p), cf))
        return r
    if lo == 0 and k == "mul":
        return mul(ext(w, 0, t[2]), ext(w, 0, t[3]))
    if k in ("shr", "sar") and isc(t[3]) and t[3][2] + lo + w <= v:
        return ext(w, lo + t[3][2], t[2])
    return ("ext", w, lo, t)


def cat(ps):
    """lowest bits first"""
    out = []
    for p in ps:
        if p[0] == "cat":
            out += p[2]
        else:
            out.append(p)
    ps, out = out, []
    for p in ps:
        if out:
            q = out[-1]
            if isc(q) and isc(p):
                out[-1] = ("c", W(q) + W(p), q[2] | p[2] << W(q))
                continue
            if q[0] == "ld" and p[0] == "ld" and q[2] == p[2] and q[4] == p[4] and q[3] * 8 + W(q) == p[3] * 8:
                out[-1] = ("ld", W(q) + W(p), q[2], q[3], q[4])
                continue
            ql, qt = (q[2], q[3]) if q[0] == "ext" else (0, q)
            if p[0] == "ext" and p[3] == qt and p[2] == ql + W(q):
                out[-1] = ext(W(q) + W(p), ql, qt)
                continue
            # the upper half of an extension, whose lower half is known by what was extended
            if p[0] == "ext" and p[3][0] in ("sx", "zx") and p[2] == W(q) + ql and ql == 0 and ext(W(q), 0, p[3]) == q:
                out[-1] = ext(W(q) + W(p), 0, p[3])
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and isc(out[1]) and out[1][2] == 0:
        return zx(W(out[0]) + W(out[1]), out[0])
    return ("cat", sum(W(p) for p in out), tuple(out))


# ---- conditions ------------------------------------------------------------------------------
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "feq": "fneu", "fneu": "feq", "fne": "fequ", "fequ": "fne", "flt": "fgeu", "fgeu": "flt", "fgt": "fleu", "fleu": "fgt",
       "fge": "fltu", "fltu": "fge", "fle": "fgtu", "fgtu": "fle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "feq": "feq", "fne": "fne", "flt": "fgt", "fgt": "flt", "fle": "fge", "fge": "fle",
        "fun": "fun", "fequ": "fequ", "fneu": "fneu", "fltu": "fgtu", "fgtu": "fltu", "fleu": "fgeu", "fgeu": "fleu"}
# of floats: the comparisons ending in u hold as well if an operand is not a number


def cmp(op, a, b):
    same(a, b)
    w = W(a)
    if isc(a) and isc(b) and op[0] != "f":
        p, q = (sgn(w, a[2]), sgn(w, b[2])) if op[0] == "s" else (a[2], b[2])
        return c(1, {"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q}[op[1:] if op[0] in "su" else op])
    if repr(a) > repr(b):
        a, b, op = b, a, SWAP[op]
    # the test of a condition
    if op in ("eq", "ne"):
        for p, q in ((a, b), (b, a)):
            if isc(q) and q[2] in (0, 1) and p[0] == "zx" and W(p[2]) == 1:
                return p[2] if (op == "ne") == (q[2] == 0) else bnot(p[2])
            if isc(q) and W(q) == 1:
                return p if (op == "ne") == (q[2] == 0) else bnot(p)
        # an unsigned less-than-one and the like stay as they are
    if op in ("ne", "ugt", "uge", "sgt", "sge", "fne", "fneu", "fgt", "fge", "flt", "fle"):
        return ("not", 1, ("b", 1, NEG[op], a, b))
    return ("b", 1, op, a, b)


def bnot(t):
    if t[0] == "c":
        return c(1, 1 - t[2])
    return t[2] if t[0] == "not" else ("not", 1, t)


def fop(w, op, *a):
    return ("f", w, op, tuple(a))


def i2f(w, t):
    """a signed integer to a float: of the value, whatever width it was extended to"""
    if t[0] == "zx":
        return ("f", w, "i2f", (("u", t[2]),))
    if t[0] == "sx":
        return ("f", w, "i2f", (("s", t[2]),))
    return ("f", w, "i2f", (("s", t),))


# ---- valuations ------------------------------------------------------------------------------
def syms(t, out):
    if not isinstance(t, tuple):
        return out
    if t and t[0] in ("x", "ld", "lbl"):
        out.add(t)
        return out
    for p in t:
        syms(p, out)
    return out


class NoValue(Exception):
    pass


def val(t, env):
    k = t[0]
    if k == "c":
        return t[2]
    if k in ("x", "ld", "lbl"):
        return env[t]
    w = t[1]
    m = (1 << w) - 1
    if k == "lin":
        return (t[2] + sum(cf * val(p, env) for p, cf in t[3])) & m
    if k in ("and", "or", "xor"):
        r = val(t[2][0], env)
        for p in t[2][1:]:
            v = val(p, env)
            r = r & v if k == "and" else r | v if k == "or" else r ^ v
        return r
    if k == "mul":
        return val(t[2], env) * val(t[3], env) & m
    if k in ("shl", "shr", "sar", "rol"):
        a, n = val(t[2], env), val(t[3], env)
        if n >= w:
            raise NoValue()
        if k == "shl":
            return a << n & m
        if k == "shr":
            return a >> n
        if k == "sar":
            return sgn(w, a) >> n & m
        return (a << n | a >> (w - n)) & m
    if k in ("udiv", "urem", "sdiv", "srem"):
        a, b = val(t[2], env), val(t[3], env)
        if k[0] == "s":
            a, b = sgn(w, a), sgn(w, b)
        if b == 0:
            raise NoValue()
        d = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return (d if k.endswith("div") else a - d * b) & m
    if k == "zx":
        return val(t[2], env)
    if k == "sx":
        return sgn(W(t[2]), val(t[2], env)) & m
    if k == "ext":
        return val(t[3], env) >> t[2] & m
    if k == "cat":
        r = sh = 0
        for p in t[2]:
            r |= val(p, env) << sh
            sh += W(p)
        return r
    if k == "not":
        return 1 - val(t[2], env)
    if k == "b":
        a, b = val(t[3], env), val(t[4], env)
        op = t[2]
        if op[0] == "f":
            # some values stand for NaN, the others are ordered
            un = a & 7 == 7 or b & 7 == 7
            if op == "fun":
                return int(un)
            return int(op.endswith("u") if un else {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op[1:3]])
        v = W(t[3])
        if op[0] == "s":
            a, b = sgn(v, a), sgn(v, b)
        o = op[1:] if op[0] in "su" else op
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o])
    if k == "f":
        v = repr((t[2], tuple(val(p, env) if p[0] not in ("s", "u") else (p[0], val(p[1], env)) for p in t[3])))
        return (crc32(v.encode()) << 32 | crc32(b"+" + v.encode())) & m
    if k == "ite":
        return val(t[3] if val(t[2], env) else t[4], env)
    raise AnalysisBroken("value of a term " + k)


def merged(ss):
    """loads that overlap are parts of one -> (symbols, {load: (symbol, bit)})"""
    by = {}
    for s in ss:
        if s[0] == "ld":
            by.setdefault((s[2], s[4]), []).append(s)
    out = {s for s in ss if s[0] != "ld"}
    inside = {}
    for (r, v), ls in by.items():
        group = []
        for s in sorted(ls, key=lambda s: (s[3], -s[1])) + [None]:
            if group and (s is None or s[3] >= max(g[3] + g[1] // 8 for g in group)):
                lo = group[0][3]
                big = ("ld", 8 * (max(g[3] + g[1] // 8 for g in group) - lo), r, lo, v)
                out.add(big)
                for g in group:
                    if g != big:
                        inside[g] = (big, 8 * (g[3] - lo))
                group = []
            if s is not None:
                group.append(s)
    return out, inside


def valuations(ss, inside=()):
    for env in valuations_(ss):
        for s in inside:
            big, lo = inside[s]
            env[s] = env[big] >> lo & (1 << s[1]) - 1
        yield env


def valuations_(ss):
    ss = sorted(ss, key=repr)
    seed = 12345
    base = []
    for s in ss:
        w = W(s)
        m = (1 << w) - 1
        base.append([0, 1, m, 1 << (w - 1), m >> 1, 0x0123456789abcdef & m, 0xf0e1d2c3b4a59687 & m, 7 & m, 3 & m, 0x80 & m, 0xff00 & m])
    n = 0
    if len(ss) <= 2:
        for vs in itertools.product(*base):
            yield dict(zip(ss, vs))
    for i in range(120):
        env = {}
        for j, s in enumerate(ss):
            seed = (seed * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
            r = seed >> 11
            env[s] = base[j][r % len(base[j])] if i % 3 else (seed ^ seed >> 29) & (1 << W(s)) - 1
        yield env


def differ(a, b):
    """None if the terms are the same (or agree on every valuation tried), else what separates them"""
    if a == b:
        return None
    if W(a) != W(b):
        return "%d bits for %d" % (W(a), W(b))
    for env in valuations(*merged(syms(a, syms(b, set())))):
        try:
            p, q = val(a, env), val(b, env)
        except NoValue:
            continue
        if p != q:
            return ", ".join("%s=%#x" % (show(s), v) for s, v in env.items()) + " gives %#x, not %#x" % (p, q)
    return None


def numbers(t):
    """the term when no float is a NaN"""
    if isinstance(t, tuple):
        if t and t[0] == "b" and t[2][0] == "f":
            if t[2] == "fun":
                return c(1, 0)
            o = t[2][1:3]
            return cmp(o if o in ("eq", "ne") else "u" + o, numbers(t[3]), numbers(t[4]))
        if t and t[0] == "not":
            return bnot(numbers(t[2]))
        return tuple(numbers(p) for p in t)
    return t


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return "%d" % sgn(t[1], t[2])
    if k == "x":
        return str(t[2])
    if k == "lbl":
        return "&" + str(t[2])
    if k == "ld":
        return "[%s%+d]%s.%d" % (show(t[2]), t[3], "'" * t[4] if isinstance(t[4], int) else "", t[1])
    if k == "lin":
        return "(" + " + ".join((["%d" % sgn(t[1], t[2])] if t[2] else []) + [(show(p) if cf == 1 else "%d*%s" % (sgn(t[1], cf), show(p))) for p, cf in t[3]]) + ")"
    if k in ("and", "or", "xor"):
        return "(" + (" %s " % k).join(show(p) for p in t[2]) + ")"
    if k in ("zx", "sx"):
        return "%s%d(%s)" % (k, t[1], show(t[2]))
    if k == "ext":
        return "%s<%d:%d>" % (show(t[3]), t[2] + t[1] - 1, t[2])
    if k == "cat":
        return "{" + ",".join(show(p) for p in reversed(t[2])) + "}"
    if k == "not":
        return "!" + show(t[2])
    if k == "b":
        return "(%s %s %s)" % (show(t[3]), t[2], show(t[4]))
    if k == "f":
        return "%s%d(%s)" % (t[2], t[1], ", ".join(show(p) if p[0] not in ("s", "u") else p[0] + ":" + show(p[1]) for p in t[3]))
    return "%s(%s)" % (k, ", ".join(show(p) for p in t[2:]))


# ---------------------------------------------------------------------------------------------
# locations and instructions as the code generator describes them

WIDTH = {"ModeB": 8, "ModeW": 16, "ModeL": 32, "ModeQ": 64, "ModeF": 32, "ModeD": 64}


class L:
    """a Loc: kind reg/mem/lit/lbl/litl"""
    def __init__(self, kind, mode, **k):
        self.kind = kind
        self.mode = mode
        self.id = self.reg = self.lit = self.lbl = self.base = self.idx = None
        self.scale = 1
        self.disp = 0
        self.__dict__.update(k)

    @property
    def w(self):
        return WIDTH[self.mode]

    @property
    def flt(self):
        return self.mode in ("ModeF", "ModeD")

    def __repr__(self):
        m = self.mode[4:].lower()
        if self.kind == "reg":
            return ("%%%s" % self.reg[1:]) if self.reg else "v%s%s" % (self.id, m)
        if self.kind == "lit":
            return "$%d" % self.lit
        if self.kind == "mem":
            return "%s%s(%s%s)%s" % (self.lbl or "", self.disp or "", self.base or "", ",%r*%d" % (self.idx, self.scale) if self.idx else "", m)
        return ("$" if self.kind == "litl" else "") + str(self.lbl)


def physname(r):
    """Reg enumerator -> (register, lowest bit, width)"""
    m = re.match(r"^Rxmm(\d+)([fd])$", r)
    if m:
        return "xmm" + m.group(1), 0, 32 if m.group(2) == "f" else 64
    m = re.match(r"^Rr(\d+)([bwd]?)$", r)
    if m:
        return "r" + m.group(1), 0, {"b": 8, "w": 16, "d": 32, "": 64}[m.group(2)]
    m = re.match(r"^R([abcd])h$", r)
    if m:
        return m.group(1) + "x", 8, 8
    m = re.match(r"^R([abcd])l$", r)
    if m:
        return m.group(1) + "x", 0, 8
    m = re.match(r"^R(si|di|sp|bp)l$", r)
    if m:
        return m.group(1), 0, 8
    m = re.match(r"^R(r|e|)([abcd]x|si|di|sp|bp|ip)$", r)
    if m:
        return m.group(2), 0, {"r": 64, "e": 32, "": 16}[m.group(1)]
    raise AnalysisBroken("register " + r)


JCC = {"p": "p", "np": "np", "z": "eq", "nz": "ne", "l": "slt", "le": "sle", "g": "sgt", "ge": "sge", "b": "ult", "be": "ule", "a": "ugt", "ae": "uge"}


class Mach:
    """registers, memory and flags, all terms"""
    def __init__(self, frame="bp"):
        self.vr = {}                # register id -> term
        self.ph = {}                # register -> [(lo, term)] covering 64 bits
        self.mem = {}               # region (term without its constant part) -> {byte offset: 8-bit term}
        self.order = []             # regions written, latest last
        self.flags = None
        self.stores = []            # (region, off, w, term), in order
        self.version = 0
        self.apart = False      # different opaque pointers lead to different places
        self.frames = {("x", 64, "bp"), ("x", 64, "sp")}       # regions no opaque pointer leads into
        self.log = []
        self.sp = 0

    # -- registers
    def phys(self, r):
        if r not in self.ph:
            self.ph[r] = [(0, ("x", 64, r))]
        return self.ph[r]

    def getphys(self, r, lo, w):
        out = []
        for l, t in self.phys(r):
            a, b = max(l, lo), min(l + W(t), lo + w)
            if a < b:
                out.append(ext(b - a, a - l, t))
        return cat(out)

    def setphys(self, r, lo, t):
        w = W(t)
        if r.startswith("xmm"):
            if w < 64:
                t = cat([t, ext(64 - w, w, self.getphys(r, 0, 64))])
                w = 64
        elif w == 32:
            t, w = zx(64, t), 64
        new = []
        for l, o in self.phys(r):
            if l < lo:
                e = min(l + W(o), lo)
                new.append((l, ext(e - l, 0, o)))
            if l + W(o) > lo + w:
                s = max(l, lo + w)
                new.append((s, ext(l + W(o) - s, s - l, o)))
        new.append((lo, t))
        self.ph[r] = sorted(new, key=lambda z: z[0])

    # -- operands
    def addr(self, l):
        a = c(64, l.disp)
        if l.lbl:
            if l.disp:
                raise Bad("a label and a displacement in one address")
            a = ("lbl", 64, l.lbl)
            if l.base is not None and l.base.reg != "Rrip":
                a = add(a, self.get(l.base))
        else:
            if l.base is None:
                raise Bad("an address without a base")
            a = add(a, self.get(l.base))
        if l.base is not None and l.base.w != 64:
            raise Bad("an address in a register of %d bits" % l.base.w)
        if l.idx is not None:
            if l.idx.w != 64:
                raise Bad("an index in a register of %d bits" % l.idx.w)
            if l.scale not in (1, 2, 4, 8):
                raise Bad("an address scaled by %r" % l.scale)
            a = add(a, scale(self.get(l.idx), l.scale))
        if not -2**31 <= l.disp < 2**31:
            raise Bad("a displacement of more than 32 bits")
        return a

    def region(self, a):
        k, d = parts(a)
        return lin(64, 0, d) if d else c(64, 0), sgn(64, k)

    def load(self, a, w):
        r, off = self.region(a)
        m = self.mem.get(r, {})
        out = []
        i = 0
        while i < w // 8:
            b = m.get(off + i)
            n = 1
            if b is None:
                out.append(("ld", 8, r, off + i, 0 if r in self.frames or r[0] == "lbl" else self.version_of(r)))
            else:
                # as many bytes of one value as follow each other
                v, k = b
                while i + n < w // 8 and m.get(off + i + n) == (v, k + n):
                    n += 1
                out.append(ext(8 * n, 8 * k, v))
            i += n
        return cat(out)

    def version_of(self, r):
        return self.version

    def store(self, a, t):
        r, off = self.region(a)
        if r not in self.frames and r[0] != "lbl" and not self.apart:
            # another opaque pointer may lead to the same place
            for q in [q for q in self.mem if q != r and q not in self.frames and q[0] != "lbl"]:
                del self.mem[q]
            self.version += 1
        m = self.mem.setdefault(r, {})
        for i in range(W(t) // 8):
            m[off + i] = (t, i)
        self.stores.append((r, off, W(t), t))

    def get(self, l, w=None):
        if l.kind == "reg":
            if l.reg:
                r, lo, pw = physname(l.reg)
                if pw != l.w:
                    raise Bad("%r used as %d bits" % (l, l.w))
                return self.getphys(r, lo, pw)
            if l.id not in self.vr:
                raise Bad("register %r is read before it is set" % l)
            t = self.vr[l.id]
            if W(t) != l.w:
                raise Bad("register %r read as %d bits, holds %d" % (l, l.w, W(t)))
            return t
        if l.kind == "lit":
            return c(w or l.w, l.lit)
        if l.kind == "litl":
            return ("lbl", 64, l.lbl)
        if l.kind == "mem":
            return self.load(self.addr(l), w or l.w)
        raise Bad("%r is read as a value" % l)

    def put(self, l, t):
        if l.kind == "reg":
            if W(t) != l.w:
                raise Bad("%d bits put into %r" % (W(t), l))
            if l.reg:
                r, lo, pw = physname(l.reg)
                if pw != l.w:
                    raise Bad("%r used as %d bits" % (l, l.w))
                self.setphys(r, lo, t)
            else:
                self.vr[l.id] = t
        elif l.kind == "mem":
            self.store(self.addr(l), t)
        else:
            raise Bad("%r is written" % l)

    # -- instructions
    def step(self, op, a):
        mems = [l for l in a if l.kind == "mem"]
        if len(mems) > 1:
            raise Bad("two operands in memory: %s %s" % (op, ", ".join(map(repr, a))))
        f = getattr(self, "i_" + op[1:], None)
        if f:
            return f(*a)
        if op.startswith("Iset") and op[4:] in JCC:
            if a[0].w != 8:
                raise Bad("a flag set into %d bits" % a[0].w)
            return self.put(a[0], zx(8, self.cond(JCC[op[4:]])))
        if op.startswith("Ij") and op[2:] in JCC:
            return ("jcc", self.cond(JCC[op[2:]]), a[0].lbl)
        raise AnalysisBroken("instruction " + op)

    def cond(self, cc):
        if self.flags is None:
            raise Bad("a condition without a comparison before it")
        k, a, b = self.flags
        if cc in ("p", "np") and k != "comis":
            raise Bad("parity of integers")
        if k == "cmp":
            return cmp(cc, a, b)
        if k == "test":
            if a != b:
                if cc in ("eq", "ne"):
                    return cmp(cc, bitop("and", a, b), c(W(a), 0))
                raise Bad("an ordering after test of two values")
            if cc in ("eq", "ne", "slt", "sge"):
                return cmp(cc, a, c(W(a), 0))
            if cc in ("sgt", "sle"):
                return cmp(cc, a, c(W(a), 0))
            raise Bad("an unsigned ordering after test")
        if k == "comis":
            f = {"p": "fun", "np": "fun", "eq": "fequ", "ne": "fne", "ult": "fltu", "ule": "fleu", "ugt": "fgt", "uge": "fge"}.get(cc)
            if not f:
                raise Bad("a signed condition after a comparison of floats")
            return bnot(cmp(f, a, b)) if cc == "np" else cmp(f, a, b)
        raise Bad("flags")

    def ints(self, *ls):
        ws = {l.w for l in ls if l.kind != "lit"}
        if any(l.flt for l in ls if l.kind == "reg"):
            raise Bad("an integer instruction on a float register: " + ", ".join(map(repr, ls)))
        if len(ws) > 1:
            raise Bad("operands of different widths: " + ", ".join(map(repr, ls)))
        return ws.pop()

    def imm(self, l, w):
        if l.kind == "lit" and w == 64 and not -2**31 <= l.lit < 2**31:
            raise Bad("an immediate that does not fit in 32 bits: %d" % l.lit)
        if l.kind == "lit" and w < 64 and not -2**(w - 1) <= l.lit < 2**w:
            raise Bad("an immediate of more than %d bits: %d" % (w, l.lit))

    def two(self, s, d, f):
        w = self.ints(s, d)
        self.imm(s, w)
        self.put(d, f(self.get(d), self.get(s, w)))
        self.flags = None

    def i_mov(self, s, d):
        w = d.w if s.kind in ("lit", "litl") else s.w
        if s.kind == "lbl":
            raise Bad("a label is loaded from")
        if s.flt or (d.flt and s.kind == "lit"):
            raise Bad("mov of a float: %r, %r" % (s, d))
        if s.kind == "lit" and not (d.kind == "reg" and w == 64):
            self.imm(s, w)
        if s.kind == "litl" and w != 64:
            raise Bad("an address in %d bits" % w)
        if s.kind in ("reg", "mem") and s.w != d.w:
            # the suffix comes from the source: that much of memory is written
            if s.kind == "reg" and d.kind == "mem":
                return self.store(self.addr(d), self.get(s))
            # the printer takes the part of a register that fits; only a narrower part makes sense
            if s.kind == "reg" and s.w > d.w:
                return self.put(d, ext(d.w, 0, self.get(s)))
            raise Bad("mov from %r to %r" % (s, d))
        self.put(d, self.get(s, w))

    def i_movzx(self, s, d):
        if s.w >= d.w or d.kind != "reg" or s.kind not in ("reg", "mem"):
            raise Bad("movzx %r, %r" % (s, d))
        self.put(d, zx(d.w, self.get(s)))

    def i_movsx(self, s, d):
        if s.w >= d.w or d.kind != "reg" or s.kind not in ("reg", "mem"):
            raise Bad("movsx %r, %r" % (s, d))
        self.put(d, sx(d.w, self.get(s)))

    def i_lea(self, s, d):
        if s.kind != "mem" or d.kind != "reg" or d.w != 64:
            raise Bad("lea %r, %r" % (s, d))
        self.put(d, self.addr(s))

    def i_add(self, s, d):
        self.two(s, d, add)

    def i_sub(self, s, d):
        self.two(s, d, sub)

    def i_and(self, s, d):
        self.two(s, d, lambda p, q: bitop("and", p, q))

    def i_or(self, s, d):
        self.two(s, d, lambda p, q: bitop("or", p, q))

    def i_xor(self, s, d):
        if s.kind == "reg" and d.kind == "reg" and (s.id, s.reg) == (d.id, d.reg):
            self.ints(s, d)
            self.put(d, c(d.w, 0))          # whatever it held
            self.flags = None
            return
        self.two(s, d, lambda p, q: bitop("xor", p, q))

    def i_imul(self, s, d):
        if d.w == 8 or d.kind != "reg":
            raise Bad("imul %r, %r" % (s, d))
        self.two(s, d, mul)

    def i_imul_r(self, s):
        if s.w != 8 or s.kind == "lit":
            raise Bad("one operand imul of %r" % s)
        a = self.getphys("ax", 0, 8)
        self.setphys("ax", 0, mul(sx(16, a), sx(16, self.get(s))))
        self.flags = None

    def i_mul(self, s):
        w = s.w
        if s.kind == "lit":
            raise Bad("mul of %r" % s)
        p = mul(zx(2 * w, self.getphys("ax", 0, w)), zx(2 * w, self.get(s)))
        if w == 8:
            self.setphys("ax", 0, p)
        else:
            self.setphys("ax", 0, ext(w, 0, p))
            self.setphys("dx", 0, ext(w, w, p))
        self.flags = None

    def div(self, s, signed):
        w = s.w
        if s.kind == "lit" or s.flt:
            raise Bad("division by %r" % s)
        b = self.get(s)
        if w == 8:
            t = self.getphys("ax", 0, 16)
            lo = ext(8, 0, t)
            ok = t == (sx if signed else zx)(16, lo)
        else:
            lo, hi = self.getphys("ax", 0, w), self.getphys("dx", 0, w)
            ok = hi == (shift("sar", lo, c(8, w - 1)) if signed else c(w, 0))
        if not ok:
            raise Bad("the upper half of the dividend is not the %s extension of the lower one" % ("sign" if signed else "zero"))
        q, r = divide("sdiv" if signed else "udiv", lo, b), divide("srem" if signed else "urem", lo, b)
        if w == 8:
            self.setphys("ax", 0, cat([q, r]))
        else:
            self.setphys("ax", 0, q)
            self.setphys("dx", 0, r)
        self.flags = None

    def i_idiv(self, s):
        self.div(s, True)

    def i_div(self, s):
        self.div(s, False)

    def cx(self, w):
        self.setphys("dx", 0, shift("sar", self.getphys("ax", 0, w), c(8, w - 1)))

    def i_cwd(self):
        self.cx(16)

    def i_cdq(self):
        self.cx(32)

    def i_cqo(self):
        self.cx(64)

    def one(self, d, f):
        if d.flt or d.kind not in ("reg", "mem"):
            raise Bad("an integer instruction on %r" % d)
        self.put(d, f(self.get(d)))

    def i_neg(self, d):
        self.one(d, neg)
        self.flags = None

    def i_not(self, d):
        self.one(d, not_)

    def sh(self, op, s, d):
        if s.kind == "lit":
            n = c(64, s.lit)
            if not 0 <= s.lit < 256:
                raise Bad("a shift by %d" % s.lit)
        elif s.kind == "reg" and s.reg == "Rcl":
            n = self.get(s)
        else:
            raise Bad("a shift by %r" % s)
        self.one(d, lambda t: shift(op, t, n))
        self.flags = None

    def i_shl(self, s, d):
        self.sh("shl", s, d)

    def i_shr(self, s, d):
        self.sh("shr", s, d)

    def i_sar(self, s, d):
        self.sh("sar", s, d)

    def i_rol(self, s, d):
        self.sh("rol", s, d)

    def i_cmp(self, s, d):
        w = self.ints(s, d)
        self.imm(s, w)
        if d.kind == "lit":
            raise Bad("cmp with a literal on the right")
        self.flags = ("cmp", self.get(d), self.get(s, w))

    def i_test(self, s, d):
        w = self.ints(s, d)
        self.imm(s, w)
        if d.kind == "lit":
            raise Bad("test with a literal on the right")
        self.flags = ("test", self.get(d), self.get(s, w))

    # floats
    def flts(self, *ls):
        ws = {l.w for l in ls}
        if len(ws) > 1 or any(l.kind in ("lit", "litl", "lbl") for l in ls) or any(not l.flt for l in ls if l.kind == "reg"):
            raise Bad("operands of a float instruction: " + ", ".join(map(repr, ls)))
        return ws.pop()

    def i_movs(self, s, d):
        if s.kind == "reg" and s.flt and d.kind == "mem" and s.w != d.w:
            return self.store(self.addr(d), self.get(s))
        self.flts(s, d)
        if s.kind == "mem" and d.kind == "reg" and d.reg:
            r, lo, w = physname(d.reg)
            self.ph[r] = [(0, zx(64, self.get(s)))]     # a load clears the rest of the register
            return
        self.put(d, self.get(s))

    def farith(self, op, s, d):
        w = self.flts(s, d)
        if d.kind != "reg":
            raise Bad("a float computed in memory")
        self.put(d, fop(w, op, self.get(d), self.get(s)))

    def i_adds(self, s, d):
        self.farith("fadd", s, d)

    def i_subs(self, s, d):
        self.farith("fsub", s, d)

    def i_muls(self, s, d):
        self.farith("fmul", s, d)

    def i_divs(self, s, d):
        self.farith("fdiv", s, d)

    def i_comis(self, s, d):
        self.flts(s, d)
        if d.kind != "reg":
            raise Bad("comis of a float in memory")
        self.flags = ("comis", self.get(d), self.get(s))

    def f2i(self, s, d, w):
        if s.w != w or (s.kind == "reg" and not s.flt) or s.kind not in ("reg", "mem"):
            raise Bad("a float of %d bits converted from %r" % (w, s))
        if d.kind != "reg" or d.flt or d.w not in (32, 64):
            raise Bad("a float converted to %r" % d)
        self.put(d, fop(d.w, "f2i", self.get(s)))

    def i_cvttsd2si(self, s, d):
        self.f2i(s, d, 64)

    def i_cvttss2si(self, s, d):
        self.f2i(s, d, 32)

    def i_cvttsi2sd(self, s, d):
        if d.kind != "reg" or not d.flt or s.kind not in ("reg", "mem") or s.flt or s.w not in (32, 64):
            raise Bad("an integer converted from %r to %r" % (s, d))
        self.put(d, i2f(d.w, self.get(s)))

    def f2f(self, s, d, a, b):
        if s.kind not in ("reg", "mem") or not s.flt or d.kind != "reg" or not d.flt or (s.w, d.w) != (a, b):
            raise Bad("a float converted from %r to %r" % (s, d))
        self.put(d, fop(b, "f2f", self.get(s)))

    def i_cvttsd2ss(self, s, d):
        self.f2f(s, d, 64, 32)

    def i_cvttss2sd(self, s, d):
        self.f2f(s, d, 32, 64)

    # control
    def i_jmp(self, t):
        if t.kind != "lbl":
            raise Bad("jump to %r" % t)
        return ("jmp", t.lbl)

    def i_comment(self, *a):
        pass

    def i_loc(self, *a):
        pass

    def i_push(self, s):
        sp = self.getphys("sp", 0, 64)
        v = self.get(s)
        if W(v) != 64:
            raise Bad("push of %d bits" % W(v))
        sp = add(sp, c(64, -8))
        self.setphys("sp", 0, sp)
        self.store(sp, v)

    def i_pop(self, d):
        sp = self.getphys("sp", 0, 64)
        v = self.load(sp, 64)
        self.setphys("sp", 0, add(sp, c(64, 8)))
        self.put(d, v)

    def i_ret(self):
        return ("ret",)

    def i_call(self, f):
        return ("call", f)

    def i_callind(self, f):
        return ("callind", f)
