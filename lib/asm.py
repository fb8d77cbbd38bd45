"""AT&T x86-64 assembly front end and abstract executor (terms over the registers at entry)."""
import os, re
import ccast
from ccast import AnalysisBroken

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REG = {}
for i, r in enumerate(R64):
    REG[r] = (r, 64)
    if i < 8:
        b = r[1:]
        REG["e" + b] = (r, 32)
        REG[b] = (r, 16)
        REG[(b[0] + "l") if b[1] == "x" else b + "l"] = (r, 8)
    else:
        REG[r + "d"] = (r, 32)
        REG[r + "w"] = (r, 16)
        REG[r + "b"] = (r, 8)
W = {"b": 8, "w": 16, "l": 32, "q": 64}


class Insn:
    __slots__ = ("line", "pre", "op", "args", "file")

    def __repr__(self):
        return "%s:%d %s%s %s" % (self.file, self.line, " ".join(self.pre) + " " if self.pre else "", self.op, self.args)


class Asm:
    def __init__(self, rel):
        self.rel = rel
        self.insns = []
        self.labels = {}
        self.globl = set()
        self.data = {}       # label -> list of directives
        self.sets = {}
        self.parse(open(os.path.join(ccast.REPO, rel)).read())

    def parse(self, txt):
        def blank(m):
            return "\n" * m.group(0).count("\n")
        txt = re.sub(r"/\*.*?\*/", blank, txt, flags=re.S)
        sect = "text"
        cur = None
        for no, ln in enumerate(txt.split("\n"), 1):
            ln = self.uncomment(ln).strip()
            while True:
                m = re.match(r"([\w.$]+)\s*:\s*", ln)
                if not m:
                    break
                if sect == "text":
                    self.labels[m.group(1)] = len(self.insns)
                else:
                    cur = m.group(1)
                    self.data[cur] = []
                ln = ln[m.end():]
            if not ln:
                continue
            if ln.startswith("."):
                w = ln.split(None, 1)
                if w[0] in (".globl", ".global"):
                    self.globl.update(x.strip() for x in w[1].split(","))
                elif w[0] == ".text":
                    sect = "text"
                elif w[0] in (".data", ".bss", ".section"):
                    sect = "text" if "text" in ln else "data"
                elif w[0] == ".set":
                    k, v = w[1].split(",", 1)
                    self.sets[k.strip()] = v.strip()
                elif sect == "data" and cur is not None:
                    self.data[cur].append(ln)
                continue
            for part in ln.split(";"):
                part = part.strip()
                if part:
                    self.insns.append(self.insn(part, no))

    def uncomment(self, ln):
        q = False
        i = 0
        while i < len(ln):
            if ln[i] == '"':
                q = not q
            elif not q and ln[i] == "#":
                return ln[:i]
            elif not q and ln[i:i + 2] == "//":
                return ln[:i]
            i += 1
        return ln

    def insn(self, s, no):
        x = Insn()
        x.line, x.file, x.pre = no, self.rel, []
        w = s.split(None, 1)
        while w[0] in ("lock", "rep", "repe", "repz", "repne", "repnz"):
            x.pre.append(w[0])
            w = w[1].split(None, 1)
        x.op = w[0]
        x.args = [self.operand(a) for a in self.splitargs(w[1])] if len(w) > 1 else []
        return x

    def splitargs(self, s):
        out, d, cur = [], 0, ""
        for ch in s:
            if ch == "(":
                d += 1
            if ch == ")":
                d -= 1
            if ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        out.append(cur.strip())
        return out

    def num(self, s):
        s = s.strip()
        neg = False
        e = s.replace(" ", "")
        if re.fullmatch(r"[-+~()0-9a-fA-FxX*]+", e) and re.search(r"\d", e):
            try:
                e2 = re.sub(r"\b0[xX]([0-9a-fA-F]+)", lambda m: str(int(m.group(1), 16)), e)
                e2 = re.sub(r"(?<![\w])0+(\d)", r"\1", e2)
                return int(eval(e2, {"__builtins__": {}}))
            except Exception:
                return None
        if s in self.sets:
            return self.num(self.sets[s])
        return None

    def operand(self, a):
        if a.startswith("*"):
            return ("ind", self.operand(a[1:]))
        if a.startswith("$"):
            v = self.num(a[1:])
            return ("imm", v if v is not None else ("sym", a[1:]))
        seg = None
        m = re.match(r"%([fg]s):(.*)$", a)
        if m:
            seg, a = m.group(1), m.group(2)
        elif a.startswith("%"):
            return ("reg", a[1:])
        m = re.match(r"(.*?)\(([^()]*)\)$", a)
        if m:
            parts = [p.strip() for p in m.group(2).split(",")]
            d = m.group(1).strip()
            dv = self.num(d) if d else 0
            if dv is None:
                dv = ("sym", d)
            base = parts[0][1:] if parts[0] else None
            idx = parts[1][1:] if len(parts) > 1 and parts[1] else None
            sc = self.num(parts[2]) if len(parts) > 2 else 1
            return ("mem", seg, dv, base, idx, sc)
        v = self.num(a)
        if seg:
            return ("mem", seg, v if v is not None else ("sym", a), None, None, 1)
        if v is not None:
            return ("mem", None, v, None, None, 1)
        return ("sym", a)


MASK = (1 << 64) - 1


def add(a, b):
    """linear sums: ("lin", const, ((term, coef), ...))"""
    ca, ta = lin(a)
    cb, tb = lin(b)
    d = dict(ta)
    for k, v in tb:
        d[k] = d.get(k, 0) + v
    return mklin(ca + cb, d)


def lin(a):
    if isinstance(a, int):
        return a, ()
    if a[0] == "lin":
        return a[1], a[2]
    return 0, ((a, 1),)


def mklin(c, d):
    t = tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))
    if not t:
        return c
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ("lin", c, t)


def mulk(a, k):
    c, t = lin(a)
    return mklin(c * k, {x: v * k for x, v in t})


def lo(w, t):
    if w == 64:
        return t
    if isinstance(t, int):
        return t & ((1 << w) - 1)
    if t[0] == "zx" and t[1] >= w:
        return lo(w, t[2])
    if t[0] == "zx" and t[1] < w:
        return t
    if t[0] == "ins" and t[1] >= w:
        return lo(w, t[3])
    if t[0] == "lo":
        return lo(min(w, t[1]), t[2])
    return ("lo", w, t)


class St:
    def __init__(self):
        self.r = {r: ("in", r) for r in R64}
        self.mem = {}
        self.ev = []
        self.flags = None
        self.cond = []
        self.visits = {}

    def copy(self):
        s = St()
        s.r, s.mem, s.ev, s.flags = dict(self.r), dict(self.mem), list(self.ev), self.flags
        s.cond, s.visits = list(self.cond), dict(self.visits)
        return s


SYSCLOB = ("rcx", "r11")
NOFALL = {"ret", "retq", "jmp", "hlt", "ud2"}
CC = {"je": "eq", "jz": "eq", "jne": "ne", "jnz": "ne", "jb": "ult", "jc": "ult", "jnae": "ult", "jae": "uge", "jnb": "uge", "jnc": "uge", "ja": "ugt", "jnbe": "ugt",
      "jbe": "ule", "jna": "ule", "jl": "lt", "jnge": "lt", "jge": "ge", "jnl": "ge", "jg": "gt", "jnle": "gt", "jle": "le", "jng": "le", "js": "neg", "jns": "nonneg"}


class Exec:
    """all paths from a label; loops are unrolled `unroll` times, then cut"""

    def __init__(self, a, unroll=2, maxpaths=400, noreturn=()):
        self.a, self.unroll, self.maxpaths = a, unroll, maxpaths
        self.noreturn = set(noreturn)
        self.fresh = 0
        self.cuts = 0

    def new(self, tag):
        self.fresh += 1
        return ("new", tag, self.fresh)

    def rd(self, s, o, w):
        if o[0] == "imm":
            return o[1]
        if o[0] == "reg":
            if o[1] not in REG:
                return ("xreg", o[1])
            r, rw = REG[o[1]]
            return lo(min(w, rw), s.r[r])
        if o[0] == "mem":
            ad = self.ea(s, o)
            return self.load(s, ad, w)
        if o[0] == "sym":
            return self.load(s, ("sym", o[1]), w)
        raise AnalysisBroken("operand %s" % (o,))

    def load(self, s, ad, w):
        if (ad, w) in s.mem:
            return s.mem[(ad, w)]
        v = ("ld", w, ad, len([e for e in s.ev if e[0] in ("syscall", "call")]))
        s.ev.append(("load", w, ad))
        return v if w == 64 else ("zx", w, v)

    def ea(self, s, o):
        _, seg, d, base, idx, sc = o
        t = d
        if base == "rip":
            return t
        if base:
            t = add(t, s.r[REG[base][0]])
        if idx:
            t = add(t, mulk(s.r[REG[idx][0]], sc))
        if seg:
            t = ("seg", seg, t)
        return t

    def wr(self, s, o, w, v):
        if o[0] == "reg":
            if o[1] not in REG:
                s.ev.append(("xreg", o[1], v))
                return
            r, rw = REG[o[1]]
            if rw == 64:
                s.r[r] = v
            elif rw == 32:
                s.r[r] = lo(32, v) if isinstance(v, int) else ("zx", 32, lo(32, v))
            else:
                s.r[r] = ("ins", rw, s.r[r], lo(rw, v))
            return
        ad = self.ea(s, o) if o[0] == "mem" else ("sym", o[1])
        self.store(s, ad, w, v)

    def store(self, s, ad, w, v):
        s.mem[(ad, w)] = lo(w, v) if w < 64 else v
        s.ev.append(("store", w, ad, lo(w, v)))

    def width(self, x, base):
        suf = x.op[len(base):]
        if suf in W:
            return W[suf]
        for o in x.args[::-1]:
            if o[0] == "reg" and o[1] in REG:
                return REG[o[1]][1]
        return 64

    def run(self, label):
        if label not in self.a.labels:
            raise AnalysisBroken("no label %s in %s" % (label, self.a.rel))
        work = [(self.a.labels[label], St())]
        done = []
        n = 0
        while work:
            pc, s = work.pop()
            n += 1
            if n > 20000 or len(done) > self.maxpaths:
                raise AnalysisBroken("too many paths in %s" % self.a.rel)
            if pc >= len(self.a.insns):
                s.ev.append(("fallsoff",))
                done.append(s)
                continue
            for q, s2 in self.step(pc, s):
                if q is None:
                    done.append(s2)
                else:
                    if q <= pc:
                        s2.visits[q] = s2.visits.get(q, 0) + 1
                        if s2.visits[q] > self.unroll:
                            self.cuts += 1
                            continue
                    work.append((q, s2))
        return done

    def target(self, o):
        if o[0] == "sym":
            return o[1]
        return None

    def step(self, pc, s):
        x = self.a.insns[pc]
        op, A = x.op, x.args
        nxt = [(pc + 1, s)]
        if op in ("ret", "retq"):
            ra = self.load(s, s.r["rsp"], 64)
            s.ev.append(("ret", ra, s.r["rsp"]))
            s.r["rsp"] = add(s.r["rsp"], 8)
            return [(None, s)]
        if op in CC:
            s2 = s.copy()
            s.cond.append((CC[op], s.flags, True))
            s2.cond.append((CC[op], s.flags, False))
            t = self.target(A[0])
            if t not in self.a.labels:
                raise AnalysisBroken("jump to unknown %s at %r" % (t, x))
            return [(self.a.labels[t], s), (pc + 1, s2)]
        if op == "jmp":
            if A[0][0] == "ind":
                s.ev.append(("jmp", self.rd(s, A[0][1], 64), s.r["rsp"]))
                return [(None, s)]
            t = self.target(A[0])
            if t in self.a.labels:
                return [(self.a.labels[t], s)]
            s.ev.append(("tail", t))
            return [(None, s)]
        if op in ("call", "callq"):
            t = self.target(A[0]) if A[0][0] != "ind" else ("ptr", self.rd(s, A[0][1], 64))
            s.ev.append(("call", t, s.r["rsp"]))
            if t in self.noreturn:
                return [(None, s)]
            if t in self.a.labels and not isinstance(t, tuple):
                # a local routine: only its register writes matter here
                for r in self.clobbers(t):
                    s.r[r] = self.new(r)
            else:
                for r in ("rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"):
                    s.r[r] = self.new(r)
            return nxt
        if op == "syscall":
            s.ev.append(("syscall", dict(s.r)))
            s.r["rax"] = ("sysret", s.r["rax"] if isinstance(s.r["rax"], int) else "?", len(s.ev))
            for r in SYSCLOB:
                s.r[r] = self.new(r)
            if isinstance(s.r["rax"][1], int) and s.r["rax"][1] in (60, 231):
                return [(None, s)]
            return nxt
        if op in ("std", "cld", "nop", "mfence", "pause", "emms", "vzeroupper", "cpuid", "rdtsc", "lfence", "sfence"):
            s.ev.append((op,))
            if op == "cpuid":
                for r in ("rax", "rbx", "rcx", "rdx"):
                    s.r[r] = self.new(r)
            if op == "rdtsc":
                for r in ("rax", "rdx"):
                    s.r[r] = self.new(r)
            return nxt
        m = re.match(r"(movs|stos|lods|cmps|scas)([bwlq])$", op)
        if m and not A:
            s.ev.append(("string", tuple(x.pre), m.group(1), m.group(2), s.r["rdi"], s.r["rsi"], s.r["rcx"], s.r["rax"]))
            for r in {"movs": ("rdi", "rsi"), "stos": ("rdi",), "lods": ("rsi", "rax"), "cmps": ("rdi", "rsi"), "scas": ("rdi",)}[m.group(1)]:
                k = {"b": 1, "w": 2, "l": 4, "q": 8}[m.group(2)]
                s.r[r] = add(s.r[r], mulk(s.r["rcx"], k)) if x.pre else add(s.r[r], k)
            if x.pre:
                s.r["rcx"] = 0
            return nxt
        m = re.match(r"mov([sz])([bwl])([wlq])$", op)
        if m:
            v = self.rd(s, A[0], W[m.group(2)])
            v = ("zx", W[m.group(2)], lo(W[m.group(2)], v)) if m.group(1) == "z" else ("sx", W[m.group(2)], lo(W[m.group(2)], v))
            self.wr(s, A[1], W[m.group(3)], v)
            return nxt
        if re.match(r"mov(abs)?[bwlq]?$", op):
            w = self.width(x, "movabs" if op.startswith("movabs") else "mov")
            self.wr(s, A[1], w, self.rd(s, A[0], w))
            return nxt
        if re.match(r"lea[lq]?$", op):
            self.wr(s, A[1], 64, self.ea(s, A[0]) if A[0][0] == "mem" else ("sym", A[0][1]))
            return nxt
        if re.match(r"push[q]?$", op):
            v = self.rd(s, A[0], 64)
            s.r["rsp"] = add(s.r["rsp"], -8)
            self.store(s, s.r["rsp"], 64, v)
            return nxt
        if re.match(r"pop[q]?$", op):
            v = self.load(s, s.r["rsp"], 64)
            s.r["rsp"] = add(s.r["rsp"], 8)
            self.wr(s, A[0], 64, v)
            return nxt
        m = re.match(r"(xchg|xadd|cmpxchg)([bwlq]?)$", op)
        if m:
            w = self.width(x, m.group(1))
            mem = [a for a in A if a[0] in ("mem", "sym")]
            if not mem:
                if m.group(1) == "xchg":
                    a, b = self.rd(s, A[0], w), self.rd(s, A[1], w)
                    self.wr(s, A[0], w, b)
                    self.wr(s, A[1], w, a)
                    return nxt
                raise AnalysisBroken("register form of %r" % x)
            reg = [a for a in A if a[0] == "reg"][0]
            ad = self.ea(s, mem[0])
            old = ("atomic", w, ad)
            src = self.rd(s, reg, w)
            s.ev.append(("rmw", "lock" in x.pre or m.group(1) == "xchg", m.group(1), w, ad, src, lo(w, s.r["rax"])))
            if m.group(1) == "cmpxchg":
                self.wr(s, ("reg", {8: "al", 16: "ax", 32: "eax", 64: "rax"}[w]), w, old)
                s.flags = ("cmp", w, "rax", old)
            else:
                self.wr(s, reg, w, old)
            return nxt
        m = re.match(r"(cmp|test)([bwlq]?)$", op)
        if m:
            w = self.width(x, m.group(1))
            s.flags = (m.group(1), w, self.rd(s, A[1], w), self.rd(s, A[0], w))
            return nxt
        m = re.match(r"(add|sub|and|or|xor|sal|shl|shr|sar|rol|ror|imul|adc|sbb)([bwlq]?)$", op)
        if m:
            k = m.group(1)
            w = self.width(x, k)
            if len(A) == 3:
                v = self.mul(self.rd(s, A[1], w), self.rd(s, A[0], w))
                self.wr(s, A[2], w, v)
                s.flags = ("res", w, v)
                return nxt
            if len(A) == 1:
                A = [("imm", 1), A[0]]
            if k == "xor" and A[0] == A[1]:
                v = 0
            else:
                a, b = self.rd(s, A[1], w), self.rd(s, A[0], w)
                if k == "add" and w == 64:
                    v = add(a, b)
                elif k == "sub" and w == 64:
                    v = add(a, mulk(b, -1))
                elif k == "imul":
                    v = self.mul(a, b)
                else:
                    v = (k, w, a, b)
            if "lock" in x.pre:
                s.ev.append(("rmw", True, k, w, self.ea(s, A[1]), self.rd(s, A[0], w), None))
            self.wr(s, A[1], w, v)
            s.flags = ("res", w, v)
            return nxt
        m = re.match(r"(inc|dec|neg|not|mul|div|idiv)([bwlq]?)$", op)
        if m:
            k = m.group(1)
            w = self.width(x, k)
            a = self.rd(s, A[0], w)
            if k in ("mul", "div", "idiv"):
                s.r["rax"], s.r["rdx"] = self.new("rax"), self.new("rdx")
                return nxt
            v = add(a, 1) if k == "inc" and w == 64 else add(a, -1) if k == "dec" and w == 64 else (k, w, a)
            if "lock" in x.pre:
                s.ev.append(("rmw", True, k, w, self.ea(s, A[0]), 1, None))
            self.wr(s, A[0], w, v)
            s.flags = ("res", w, v)
            return nxt
        m = re.match(r"set(\w+)$", op)
        if m:
            self.wr(s, A[0], 8, ("cc", m.group(1), s.flags))
            return nxt
        if any(a[0] == "reg" and a[1] not in REG for a in A) or op in ("fldcw", "fnstcw", "stmxcsr", "ldmxcsr", "fnstsw", "fstcw", "fstsw", "fldenv", "fnstenv", "fnclex", "fstenv", "fclex", "fwait", "wait"):
            # vector / x87: only a store to memory or a general register is visible here
            d = A[-1] if A else None
            if d and d[0] == "reg" and d[1] in REG:
                self.wr(s, d, 64, self.new(op))
            elif d and d[0] == "mem":
                ad = self.ea(s, d)
                s.ev.append(("store", 0, ad, ("x", op)))
            s.ev.append(("x", op, tuple(A)))
            return nxt
        raise AnalysisBroken("instruction not modelled: %r" % x)

    def mul(self, a, b):
        if isinstance(b, int):
            return mulk(a, b)
        if isinstance(a, int):
            return mulk(b, a)
        return ("mul", a, b)

    def clobbers(self, lbl):
        out = set()
        pc = self.a.labels[lbl]
        seen, work = set(), [pc]
        while work:
            p = work.pop()
            if p in seen or p >= len(self.a.insns):
                continue
            seen.add(p)
            x = self.a.insns[p]
            if x.args and x.args[-1][0] == "reg" and x.args[-1][1] in REG and not x.op.startswith(("cmp", "test", "push")):
                out.add(REG[x.args[-1][1]][0])
            if x.op in ("call", "callq"):
                out.update(self.clobbers(self.target(x.args[0])) if self.target(x.args[0]) in self.a.labels else R64)
            if x.op in CC or x.op == "jmp":
                t = self.target(x.args[0])
                if t in self.a.labels:
                    work.append(self.a.labels[t])
            if x.op not in NOFALL:
                work.append(p + 1)
        return sorted(out)
