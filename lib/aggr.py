"""Aggregates: what the code that builds, copies, reads and changes them does to memory, against the
layout and the meaning the language gives them."""
from calls import *  # noqa
import x86

# shapes beyond those of shape.py, each with its type last:
# ("tup", (e..), ty) ("str", ((i, e)..), ty) ("arr", ((i, e)..), ty) ("ucon", k, e|None, ty)
# ("memb", e, i, ty) ("tmemb", e, i, ty) ("idx", e, i, ty) ("slc", e, lo, hi, ty) ("len", e, ty)
# ("tag", e, ty) ("data", e, k, ty) ("tget", e, i, ty) ("size", t, ty)
NEW = ("tup", "str", "arr", "ucon", "memb", "tmemb", "idx", "slc", "len", "tag", "data", "tget", "size")
CTOR = ("tup", "str", "arr", "ucon", "slc")


def offsets(ty):
    """offset of each part of a struct or tuple"""
    n, out = 0, []
    for t in base(ty)[1]:
        n = up(n, alignof(t))
        out.append(n)
        n += sizeof(t)
    return out


def uoff(t):
    """where the value of a union lies behind its tag"""
    return up(4, alignof(t))


class Aggr(Calls):
    FILES = Calls.FILES + ["parse/fold.c"]

    def __init__(self):
        super().__init__()
        self.alias = {}

    def begin(self):
        super().begin()
        # operands with names of their own do not overlap, except for those in alias
        self.m.apart = True

    def ty(self, e):
        if e[0] in NEW:
            return e[-1]
        return super().ty(e)

    def place(self, name, ty, kind):
        if name in self.vars:
            return
        super().place(name, ty, kind)
        al = self.alias.get(name)
        if al:
            # a pointer to another variable
            self.place(*al)
            t, k, where, v = self.vars[name]
            a = self.vars[al[0]][2][1]
            self.m.vr[where[1]] = a
            self.vars[name] = (t, k, where, a)

    def build(self, e):
        s, T = self.s, self.T
        k = e[0]
        if k not in NEW:
            return super().build(e)
        t = self.typ(self.ty(e))
        if k == "tup":
            return T.expr(s, "Otup", [self.build(a) for a in e[1]], t)
        if k in ("str", "arr"):
            l = []
            for i, a in e[1]:
                n = self.build(a)
                s.store[("fld", ("fld", n, "expr"), "idx")] = T.name(s, "m%d" % i) if k == "str" else T.intlit(s, i, T.ty(s, "Tyuint64"))
                l.append(n)
            return T.expr(s, "Ostruct" if k == "str" else "Oarr", l, t)
        if k == "ucon":
            a = [T.name(s, "C%d" % e[1])]
            if e[2] is not None:
                a.append(self.build(e[2]))
            return T.expr(s, "Oucon", a, t)
        if k == "memb":
            return T.expr(s, "Omemb", [self.build(e[1]), T.name(s, "m%d" % e[2])], t)
        if k == "tmemb":
            return T.expr(s, "Otupmemb", [self.build(e[1]), T.lit(s, "Lint", intval=e[2])], t)
        if k == "idx":
            return T.expr(s, "Oidx", [self.build(e[1]), self.build(e[2])], t)
        if k == "slc":
            return T.expr(s, "Oslice", [self.build(a) for a in e[1:4]], t)
        if k == "len":
            return T.expr(s, "Osllen", [self.build(e[1])], t)
        if k == "tag":
            return T.expr(s, "Outag", [self.build(e[1])], t)
        if k == "data":
            return T.expr(s, "Oudata", [self.build(e[1])], t)
        if k == "tget":
            return T.expr(s, "Otupget", [self.build(e[1]), T.intlit(s, e[2], T.ty(s, "Tyuint64"))], t)
        if k == "size":
            return T.expr(s, "Osize", [T.stmt(s, "Ndecl", "decl", type=self.typ(e[1]))], t)
        raise AnalysisBroken("shape " + k)

    def wide(self, e):
        """an index, which no negative value gets past the bounds check"""
        v = self.sem(e)
        return v if W(v) == 64 else zx(64, v)

    def where(self, e):
        k = e[0]
        if k in ("memb", "tmemb"):
            b = self.ty(e[1])
            if isinstance(base(b), tuple) and base(b)[0] == "ptr":
                a, b = self.sem(e[1]), base(b)[1]
            else:
                a = self.where(e[1])
            return x86.add(a, c(64, offsets(b)[e[2]]))
        if k == "idx":
            b = base(self.ty(e[1]))
            a = self.where(e[1])
            if b[0] == "slice":
                a = self.m.load(a, 64)
            return x86.add(a, x86.mul(self.wide(e[2]), c(64, sizeof(b[1]))))
        if k == "tget":
            return x86.add(self.where(e[1]), c(64, offsets(self.ty(e[1]))[e[2]]))
        if k == "data":
            return x86.add(self.where(e[1]), c(64, uoff(e[3])))
        return super().where(e)

    def sem(self, e):
        k = e[0]
        if k in ("memb", "tmemb", "idx", "tget", "data"):
            return self.m.load(self.where(e), bits(e[-1]))
        if k == "tag":
            if isint(self.ty(e[1])):
                return self.sem(e[1])
            return self.m.load(self.where(e[1]), 32)
        if k == "len":
            b = base(self.ty(e[1]))
            if b[0] == "array":
                return c(64, b[2])
            return self.m.load(x86.add(self.where(e[1]), c(64, 8)), 64)
        if k == "size":
            return c(bits(e[2]), sizeof(e[1]))
        if k == "ucon":
            return c(32, e[1])
        if k == "addr":
            return self.where(e[1])
        return super().sem(e)

    def parts(self, e):
        k, ty = e[0], self.ty(e)
        b = base(ty)
        shift = lambda o, l: [(o + o2, w, t) for o2, w, t in l]
        zero = lambda o, t: [(o + o2, w, c(8 * w, 0)) for o2, w, f in leaves(t)]
        if k == "tup":
            return [p for o, a in zip(offsets(ty), e[1]) for p in shift(o, self.parts(a))]
        if k == "str":
            given = dict(e[1])
            return [p for i, (o, t) in enumerate(zip(offsets(ty), b[1])) for p in (shift(o, self.parts(given[i])) if i in given else zero(o, t))]
        if k == "arr":
            given = dict(e[1])
            n = sizeof(b[1])
            return [p for i in range(b[2]) for p in (shift(i * n, self.parts(given[i])) if i in given else zero(i * n, b[1]))]
        if k == "ucon" and isaggr(ty):
            out = [(0, 4, c(32, e[1]))]
            if e[2] is not None:
                out += shift(uoff(self.ty(e[2])), self.parts(e[2]))
            return out
        if k == "slc":
            q = base(self.ty(e[1]))
            a = self.where(e[1]) if q[0] == "array" else self.sem(e[1]) if q[0] == "ptr" else self.m.load(self.where(e[1]), 64)
            lo, hi = self.wide(e[2]), self.wide(e[3])
            return [(0, 8, x86.add(a, x86.mul(lo, c(64, sizeof(q[1]))))), (8, 8, x86.sub(hi, lo))]
        return super().parts(e)

    def show(self, e):
        k = e[0]
        if k == "tup":
            return "(%s)" % ", ".join(map(self.show, e[1]))
        if k in ("str", "arr"):
            return "[%s]" % ", ".join(".%s=%s" % ("m%d" % i if k == "str" else "[%d]" % i, self.show(a)) for i, a in e[1])
        if k == "ucon":
            return "`C%d %s" % (e[1], self.show(e[2]) if e[2] is not None else "")
        if k in ("memb", "tmemb"):
            return "%s.%s%d" % (self.show(e[1]), "m" if k == "memb" else "", e[2])
        if k == "idx":
            return "%s[%s]" % (self.show(e[1]), self.show(e[2]))
        if k == "slc":
            return "%s[%s:%s]" % tuple(map(self.show, e[1:4]))
        if k == "size":
            return "sizeof(%s)" % tyshow(e[1])
        if k in ("len", "tag", "data"):
            return "%s.%s" % (self.show(e[1]), k)
        if k == "tget":
            return "part %d of %s" % (e[2], self.show(e[1]))
        if k == "v":
            return "%s:%s@%s" % (e[1], tyshow(e[2]), e[3]) + ("->" + self.alias[e[1]][0] if e[1] in self.alias else "")
        return super().show(e)

    # -- following the code: the way on when a bounds check is passed ------------------------
    def runthrough(self, stmts):
        T = self.T
        marks = {}
        for t in stmts:
            s = self.s
            if T.isexpr(s, t) and T.op(s, t) == "Olit" and T.littype(s, t) == "Llbl":
                lv = T.get(s, T.args(s, t)[0], "lit", "lblval")
                marks[lv[1].strip('"')] = len(self.insns(s))
                continue
            self.call("isel", "6/isel.c", self.is_, t)
        ins = self.insns(self.s)
        aborts = lambda l: marks[l] < len(ins) and ins[marks[l]][0] == "Icall" and ins[marks[l]][1][0].lbl == "abortoob"
        pc = n = 0
        while pc < len(ins):
            op, a = ins[pc]
            self.trace.append("%s %s" % (op[1:], ", ".join(map(repr, a))))
            r = self.m.step(op, a)
            pc += 1
            n += 1
            if n > 5000:
                raise Bad("the code does not end")
            if not r:
                continue
            lbl = r[-1]
            if r[0] not in ("jcc", "jmp") or lbl not in marks:
                raise Bad("control leaves the statement: " + self.trace[-1])
            if r[0] == "jmp":
                if aborts(lbl):
                    raise Bad("the bounds check always fails")
                pc = marks[lbl]
            elif not aborts(lbl):
                # the other way is the failing one, or this is no bounds check
                o = ins[pc]
                if not (o[0] == "Icall" and o[1][0].lbl == "abortoob" or o[0] == "Ijmp" and o[1][0].lbl in marks and aborts(o[1][0].lbl)):
                    raise AnalysisBroken("a branch that is no bounds check: " + self.trace[-1])
                pc = marks[lbl]

    def do_assign(self, l, e):
        tl, te = self.build(l), self.build(e)
        n = self.T.expr(self.s, "Oasn", [tl, te], self.typ(self.ty(l)))
        ty = self.ty(l)
        want = self.parts(e)
        if l[0] == "v":
            where = self.vars[l[1]][2]
        else:
            where = ("mem", self.where(l), 8 * sizeof(ty))
        m = self.m
        before = {nm: v for nm, v in ((nm, m.vr[w[1]]) for nm, (t, k, w, v0) in self.vars.items() if w[0] == "reg")}
        st, r = self.flatten(n)
        st, r = self.lower(st, r)
        self.runthrough(st + ([r] if r else []))
        lo = None
        if where[0] == "mem":
            lo = m.region(where[1])
        for r, off, w, t in m.stores:
            if r == ("x", 64, "bp") and off < -4096:
                continue
            if lo is not None and r == lo[0] and lo[1] <= off and off + w // 8 <= lo[1] + sizeof(ty):
                continue
            raise Bad("writes %d bytes at %s%+d" % (w // 8, x86.show(r), off))
        for o, w, t in want:
            if where[0] == "mem":
                now = m.load(x86.add(where[1], c(64, o)), 8 * w)
            else:
                now = ext(8 * w, 8 * o, m.vr[where[1]])
            d = differ(now, t)
            if d:
                raise Bad("byte %d on is %s, not %s" % (o, x86.show(now), x86.show(t)))
        for nm, v in before.items():
            if nm != l[1] and differ(m.vr[self.vars[nm][2][1]], v):
                raise Bad("%s is changed" % nm)
        for r in ("bp", "sp"):
            if m.getphys(r, 0, 64) != x(64, r):
                raise Bad("%%r%s is changed" % r)
        return "%d parts" % len(want)
