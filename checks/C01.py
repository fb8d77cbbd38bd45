"""Interface (.use) files: what the writer puts on the stream is what the reader takes off it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from cint import Program, Interp, State, twidth, canon, lsub, lin
from ccast import AnalysisBroken, strip, params, callee
import ccast
from nodes import show_, subterms

WR = ["wrbyte", "wrint", "wrvlong", "wrbool", "wrflt", "wrstr", "wrlenstr"]
PAIRS = {"pickle": "unpickle", "typickle": "tyunpickle", "traitpickle": "traitunpickle"}
RECS = ["type", "sym", "stab", "ucon"]          # wrX/rdX record routines of the use-file layer
ROOTS = [("pickle", "unpickle"), ("typickle", "tyunpickle"), ("traitpickle", "traitunpickle"),
         ("wrsym", "rdsym"), ("wrstab", "rdstab"), ("wrucon", "rducon"), ("wrtype", "rdtype")]

# what travels for each record on the confirmed tree; the reader rebuilds everything else
# (environments, ids, import flags).  Losing one of these loses part of an exported definition.
PERSIST = {
    "pickle": {
        "Nexpr": "type loc.line expr.op expr.type expr.param expr.isconst expr.idx expr.nargs expr.args[]",
        "Nname": "type loc.line name.ns name.name",
        "Nuse": "type loc.line use.islocal use.name",
        "Nlit": "type loc.line lit.littype lit.type lit.nelt lit.chrval lit.intval lit.fltval lit.strval lit.lblval lit.boolval lit.fnval",
        "Nloopstmt": "type loopstmt.init loopstmt.cond loopstmt.step loopstmt.body",
        "Niterstmt": "type iterstmt.elt iterstmt.seq iterstmt.body",
        "Nmatchstmt": "type matchstmt.val matchstmt.nmatches matchstmt.matches[]",
        "Nmatch": "type match.pat match.block",
        "Nifstmt": "type ifstmt.cond ifstmt.iftrue ifstmt.iffalse",
        "Nblock": "type block.scope block.nstmts block.stmts[]",
        "Ndecl": "type decl.name decl.type decl.isconst decl.isgeneric decl.isextern decl.isnoret decl.ispkglocal decl.init",
        "Nfunc": "type func.type func.scope func.nargs func.args[] func.body",
        "Nimpl": "type impl.traitname impl.trait.uid impl.type impl.naux impl.aux[] impl.ndecls impl.decls[]",
    },
    "typickle": {
        "*": "type vis nspec spec[].ntrait spec[].trait[] spec[].param spec[].aux seqaux nsub",
        "Tyunres": "name", "Typaram": "pname", "Tystruct": "nmemb sdecls[]", "Tyunion": "nmemb udecls[]",
        "Tyarray": "sub[] asize", "Tyslice": "sub[]", "Tyname": "name narg arg[] sub[]",
        "Tygeneric": "name ngparam gparam[] sub[]", "Typtr": "sub[]", "Tyfunc": "sub[]",
    },
    "traitpickle": {"*": "uid vis name param naux aux[] nproto proto[]"},
    "wrsym": {"*": "loc.line decl.name decl.type decl.vis decl.isconst decl.isgeneric decl.isextern decl.ispkglocal "
                   "decl.isnoret decl.isexportval decl.isinit decl.isfini decl.init"},
    "wrstab": {"*": "name"},
    "wrucon": {"*": "loc.line id synth name etype"},
    "wrtype": {"*": ""},
}
# fields the reader turns into something else on purpose: written field -> field set on reading
RENAMED = {"vis": None, "decl.vis": None, "uid": None, "impl.trait.uid": "impl.trait"}


def io_prim(name, destarg=None):
    def h(it, s, av, n, ctx):
        s.count += 1
        res = ("res", name, s.count)
        srct = None
        if len(n.kids) > 2:
            srct = strip(n.kids[2]).ctype
        s.events.append(("io", name, tuple(av[1:]), res, n.loc(), srct))
        if name in ("rdtype", "rdlenstr") and len(av) > 1 and isinstance(av[1], tuple) and av[1][0] == "addr":
            it.write(av[1][1], res, s)
        return [(s, res)]
    return h


def alloc(it, s, av, n, ctx):
    s.count += 1
    return [(s, ("obj", s.count))]


def p_mktype(it, s, av, n, ctx):
    s.count += 1
    o = ("obj", s.count)
    it.write(("fld", o, "type"), av[1], s)
    return [(s, o)]


def p_lappend(it, s, av, n, ctx):
    if isinstance(av[0], tuple) and av[0][0] == "addr":
        a = it.read(av[0][1], s)
        s.store[("idx", a, ("lv", "app", "n"))] = av[2]
        s.store[("appended", av[0][1])] = av[2]
    s.events.append(("use", "lappend", tuple(av)))
    return [(s, 0)]


def p_htkeys(it, s, av, n, ctx):
    s.count += 1
    if isinstance(av[1], tuple) and av[1][0] == "addr":
        it.write(av[1][1], ("htcount", av[0]), s)
    return [(s, ("htkeys", av[0]))]


def p_bscount(it, s, av, n, ctx):
    return [(s, ("setcount", av[0]))]


def p_bsiter(it, s, av, n, ctx):
    return [(s, ("bin", "<", ("lv", "bs", "i"), ("setcount", av[0])))]


def p_consume(it, s, av, n, ctx):
    s.count += 1
    s.events.append(("use", callee(n), tuple(av)))
    return [(s, ("ret", callee(n), s.count, tuple(av)))]


def make():
    P = Program(["parse/use.c", "parse/node.c", "util/pack.c"])
    names = set(WR)
    for t in P.tus:
        if t.path.endswith("util/pack.c"):
            for f in t.funcs:
                if f.startswith("wr") and f != "wrbuf" and "rd" + f[2:] in t.funcs:
                    names.add(f)
    prims = {}
    for w in names:
        prims[w] = io_prim(w)
        prims["rd" + w[2:]] = io_prim("rd" + w[2:])
    for a, b in list(PAIRS.items()) + [("wr" + r, "rd" + r) for r in RECS]:
        prims[a] = io_prim(a)
        prims[b] = io_prim(b)
    for a in ("zalloc", "xalloc", "malloc", "xrealloc", "realloc", "strdup", "calloc", "mkbs", "mkstab", "mkht"):
        prims[a] = alloc
    prims.update(mktype=p_mktype, lappend=p_lappend, htkeys=p_htkeys, bscount=p_bscount, bsiter=p_bsiter)
    def fgetc(it, s, av, n, ctx):
        s.count += 1
        res = ("res", "rdbyte", s.count)
        s.events.append(("io", "rdbyte", (), res, n.loc(), None))
        return [(s, res)]
    prims["fgetc"] = fgetc
    prims["getc"] = fgetc
    it = Interp(P, prims, noinline=set(), maxdepth=8)
    # only the serialiser's own helpers and node constructors are looked into
    own = set(P.tus[0].funcs) | {f for f in P.tus[1].funcs if f.startswith("mk")}
    it.inline = own
    for f in ("pushstab", "popstab", "curstab", "putdcl", "puttype", "gettype", "getdcl", "htput", "htget", "hthas", "bsput",
              "hasparams", "bindtype", "mkenv", "free", "putucon", "getucon"):
        prims.setdefault(f, p_consume)
    return P, it, names


FIXED = {"wrbyte": 1, "wrbool": 1, "rdbyte": 1, "rdbool": 1}


def samefmt(w, r, names):
    return pairname(w, names) == r or (w in FIXED and FIXED[w] == FIXED.get(r))


def pairname(w, names):
    if w in PAIRS:
        return PAIRS[w]
    return "rd" + w[2:]


# ---- trace matching ----------------------------------------------------------
def hasio(ev):
    if ev[0] == "io":
        return True
    if ev[0] in ("loop", "loop-exit"):
        return any(hasio(e) for b in ev[3] for e in b)
    return False


def ios(evs):
    return [e for e in evs if hasio(e)]


def unlv(t):
    return t


def trips(e):
    """trip count of a canonical loop event"""
    return e[2] if e[2] is not None else e[1]


def isloop(e):
    return e[0] in ("loop", "loop-exit")


def zerotimes(e, env, cons):
    """the loop condition is refuted on entry for what this path wrote"""
    b = subst(trips(e), env)
    if isinstance(b, int):
        return b <= 0
    if cons is None:
        return False
    eq, ne, asm = cons
    return atmost0(b, eq, ne, asm)


def atmost0(b, eq, ne, asm):
    b = eq.get(b, b)
    if isinstance(b, int):
        return b <= 0
    if asm.get(("bin", "<", 0, b)) is False or asm.get(("bin", ">", b, 0)) is False:
        return True
    if asm.get(("bin", "<=", b, 0)) is True or asm.get(("bin", ">=", 0, b)) is True:
        return True
    if isinstance(b, tuple) and b[0] == "setcount" and atmost0(b[1], eq, ne, asm):
        return True
    return False


class Mismatch(Exception):
    pass


def norm(t):
    """loop variables of different loops compare equal"""
    if isinstance(t, tuple):
        if t and t[0] in ("lv", "K"):
            return ("lv",)
        if t and t[0] == "cast":
            return norm(t[2])
        return tuple(norm(x) for x in t)
    return t


def subst(t, env):
    if isinstance(t, tuple):
        if t in env:
            return env[t]
        if t and t[0] == "cast":
            return subst(t[2], env)
        return tuple(subst(x, env) for x in t)
    return t


def match(W, R, env, wcons, names):
    """pair the writer's events with the reader's; fills env: read result -> written value"""
    W, R = list(ios(W)), list(ios(R))
    i = -1
    while True:
        i += 1
        while len(R) > i and isloop(R[i]) and not (len(W) > i and isloop(W[i])) and zerotimes(R[i], env, wcons):
            del R[i]
        while len(W) > i and isloop(W[i]) and not (len(R) > i and isloop(R[i])) and zerotimes(W[i], {}, wcons):
            del W[i]
        if i >= len(W) and i >= len(R):
            break
        if i >= len(W):
            raise Mismatch("the reader goes on to read %s that was never written" % desc(R[i]))
        if i >= len(R):
            raise Mismatch("%s is written but never read" % desc(W[i]))
        w, r = W[i], R[i]
        if w[0] == "io" and r[0] == "io":
            if not samefmt(w[1], r[1], names):
                raise Mismatch("%s is read back by %s" % (desc(w), desc(r)))
            if w[2]:
                env[r[3]] = w[2][0]
            else:
                env[r[3]] = ("none",)
        elif w[0] in ("loop", "loop-exit") and r[0] in ("loop", "loop-exit"):
            wb = trips(w)
            rbs = subst(trips(r), env)
            if norm(rbs) != norm(wb):
                raise Mismatch("written %s times but read %s times" % (sh(wb), sh(rbs)))
            wal = [b for b in w[3] if not any(e[0] == "dead" for e in b)]
            ral = [b for b in r[3] if not any(e[0] == "dead" for e in b)]
            for a in wal:
                best = None
                good = 0
                for b in ral:
                    e2 = dict(env)
                    try:
                        match(a, b, e2, wcons, names)
                    except Mismatch as m:
                        best = best or m
                        if consistent(b[-1] if b and b[-1][0] == "cons" else None, e2, a[-1] if a and a[-1][0] == "cons" else None) is False:
                            continue
                        continue
                    if consistent(b[-1] if b and b[-1][0] == "cons" else None, e2, a[-1] if a and a[-1][0] == "cons" else None) is False:
                        continue
                    good += 1
                    env.update(e2)
                if not good:
                    raise best or Mismatch("no reader iteration accepts a written one")
        else:
            raise Mismatch("%s is read back by %s" % (desc(w), desc(r)))


def sh(b):
    d, c = lin(b) if isinstance(b, (int, tuple)) else ({}, 0)
    if len(d) == 1 and c:
        return "%s%+d" % (path(list(d)[0]) or "n", c)
    return path(b) or repr(b)


def consval(t, cons):
    """truth of a term under a constraint set (eq, ne, assume)"""
    eq, ne, asm = cons
    if isinstance(t, int):
        return t
    if t in eq:
        return eq[t]
    return None


def tv(t, eq, ne, asm):
    """three valued truth of a term"""
    if isinstance(t, int):
        return t != 0
    if not isinstance(t, tuple):
        return None
    if t in eq:
        return eq[t] != 0
    if 0 in ne.get(t, ()):
        return True
    if t in asm:
        return asm[t]
    if t[0] == "cast":
        return tv(t[2], eq, ne, asm)
    if t[0] == "bin":
        op, a, b = t[1:]
        if op in ("==", "!="):
            r = teq(a, b, eq, ne, asm)
            return r if op == "==" or r is None else not r
        if op == "&" and isinstance(a, tuple) and a[0] == "bin" and a[1] == "|" and b in a[2:]:
            return b != 0 if isinstance(b, int) else None
    if t[0] == "un" and t[1] == "!":
        r = tv(t[2], eq, ne, asm)
        return None if r is None else not r
    return None


def teq(a, b, eq, ne, asm):
    a = eq.get(a, a) if isinstance(a, tuple) else a
    b = eq.get(b, b) if isinstance(b, tuple) else b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b in ne.get(a, ()):
            return False
        if b == 0:
            r = tv(a, eq, ne, asm)
            if r is not None:
                return not r
        if isinstance(a, tuple) and a[0] == "bin" and a[1] == "|" and isinstance(a[3], int) and a[3] and b == 0:
            return False
        # a truth value compared with 0/1
        if isinstance(a, tuple) and a[0] == "bin" and a[1] in ("==", "!=") and b in (0, 1):
            r = tv(a, eq, ne, asm)
            if r is not None:
                return int(r) == b
    if a == b:
        return True
    return None


def consistent(rcons, env, wcons, weq=None):
    """can the reader's branch decisions hold for what the writer wrote?  False = refuted"""
    if rcons is None:
        return None
    eq, ne, asm = ({}, {}, {})
    if wcons is not None:
        eq, ne, asm = dict(wcons[1]), {k: set(v) for k, v in wcons[2]}, dict(wcons[3])
    if weq:
        eq = {**weq[0], **eq}
        ne = {**weq[1], **ne}
        asm = {**weq[2], **asm}
    for k, v in rcons[1]:
        k2 = subst(k, env)
        if teq(k2, v, eq, ne, asm) is False:
            return False
    for k, vs in rcons[2]:
        k2 = subst(k, env)
        for v in vs:
            if teq(k2, v, eq, ne, asm) is True:
                return False
    for k, v in rcons[3]:
        k2 = subst(k, env)
        r = tv(k2, eq, ne, asm)
        if r is not None and r != v:
            return False
    return True


def path(t, root=None):
    """field path of a value or location relative to the record's root"""
    if not isinstance(t, tuple):
        return None
    if t[0] in ("cast",):
        return path(t[2], root)
    if t[0] == "ld":
        return path(t[1], root)
    if t[0] == "fld":
        b = path(t[1], root)
        if b is None:
            return None
        return (b + "." if b else "") + t[2]
    if t[0] == "idx":
        b = path(t[1], root)
        return None if b is None else b + ix(t[2])
    if root is not None:
        return "" if t == root else None
    if t[0] == "arg":
        return ""
    return None


def ix(i):
    """element notation: [] for 'the k-th, counting from the first', else the shifted index"""
    if isinstance(i, tuple) and i[0] in ("K", "lv"):
        return "[]"
    d, c = lin(i) if isinstance(i, (int, tuple)) else ({}, 0)
    if len(d) == 1 and list(d.values()) == [1] and isinstance(list(d)[0], tuple) and list(d)[0][0] == "K":
        return "[k%+d]" % c
    return "[]"


def desc(e):
    if e[0] == "io":
        v = e[2][0] if e[2] else None
        p = path(v) if v is not None else None
        return "%s(%s) at %s" % (e[1], p if p else ("%r" % (v,))[:60] if v is not None and e[1].startswith("wr") else "", e[4])
    return "a repeated group"


def allios(evs):
    for e in evs:
        if e[0] == "io":
            yield e
        elif e[0] in ("loop", "loop-exit"):
            for b in e[3]:
                yield from allios(b)


def loopsin(evs, prior):
    """(loop event, values written before it)"""
    out = []
    prior = list(prior)
    for e in evs:
        if e[0] == "io" and e[2]:
            prior.append(e[2][0])
        elif isloop(e) and hasio(e):
            out.append((e, list(prior)))
            for b in e[3]:
                out.extend(loopsin(b, prior))
    return out


def alluses(evs):
    for e in evs:
        if e[0] in ("use", "call"):
            yield e
        elif e[0] in ("loop", "loop-exit"):
            for b in e[3]:
                yield from alluses(b)


def contains(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def rpaths(st, ret):
    """every stored value -> the paths (relative to the result) it ended up at"""
    rev = {}
    objpath = {ret: ""}
    # objects reachable from the result
    changed = True
    while changed:
        changed = False
        for loc, v in st.store.items():
            if loc[0] not in ("fld", "idx"):
                continue
            v2 = v
            while isinstance(v2, tuple) and v2[0] == "lvout" and len(v2) > 3:
                v2 = v2[3]
            p = lpath(loc, objpath)
            if p is None:
                continue
            if isinstance(v2, tuple) and v2[0] in ("obj",) and v2 not in objpath:
                objpath[v2] = p
                changed = True
    for loc, v in st.store.items():
        if loc[0] not in ("fld", "idx", "appended", "deref"):
            continue
        v2 = v
        while isinstance(v2, tuple) and v2[0] == "lvout" and len(v2) > 3:
            v2 = v2[3]
        if loc[0] == "appended":
            p = lpath(loc[1], objpath)
            p = p + "[]" if p is not None else None
        else:
            p = lpath(loc, objpath)
        rev.setdefault(v2, set()).add(p if p is not None else "?")
    # deferred fixups: a (destination, id) pair stored together binds the id to the destination
    for loc, v in st.store.items():
        if loc[0] == "fld" and isinstance(v, tuple):
            v2 = v
            while isinstance(v2, tuple) and v2[0] == "lvout" and len(v2) > 3:
                v2 = v2[3]
            if isinstance(v2, tuple) and v2[0] == "addr":
                p = lpath(v2[1], objpath)
                if p is None:
                    continue
                for l2, w in st.store.items():
                    if l2[0] == "fld" and l2[1] == loc[1] and l2 != loc:
                        w2 = w
                        while isinstance(w2, tuple) and w2[0] == "lvout" and len(w2) > 3:
                            w2 = w2[3]
                        rev.setdefault(w2, set()).add(p)
    return rev


def lpath(loc, objpath):
    if loc in objpath:
        return objpath[loc]
    if not isinstance(loc, tuple):
        return None
    if loc[0] == "fld":
        b = lpath(loc[1], objpath)
        return None if b is None else (b + "." if b else "") + loc[2]
    if loc[0] == "idx":
        b = lpath(loc[1], objpath)
        return None if b is None else b + ix(loc[2])
    if loc[0] == "ld":
        return lpath(loc[1], objpath)
    if loc[0] == "appended":
        b = lpath(loc[1], objpath)
        return None if b is None else b + "[]"
    return None


def conskey(s):
    return ("cons", tuple(s.eq.items()), tuple((k, tuple(v)) for k, v in s.ne.items()), tuple(s.assume.items()))


def tagname(P, st, arg, root):
    """which variant of the record this writer path is for"""
    t = ("ld", ("fld", arg, "type"))
    en = "Ntype" if root == "pickle" else "Ty"
    if t in st.eq:
        v = st.eq[t]
        for name, val in P.enums.items():
            if val == v and name.startswith("N" if root == "pickle" else "Ty") and name in (
                    PERSIST["pickle"] if root == "pickle" else [x for x in P.enums if x.startswith("Ty")]):
                return name
        return "#%d" % v
    return "*"


def check(c):
    P, it, names = make()
    for wname, rname in ROOTS:
        wt, wf = P.func(wname, "use.c")
        rt, rf = P.func(rname, "use.c")
        c.unit("parse/use.c:" + wname)
        c.unit("parse/use.c:" + rname)
        wargs = [("arg", i) for i in range(len(params(wf)))]
        rargs = [("rarg", i) for i in range(len(params(rf)))]
        wst = [canon(a, b) for a, b in it.run(wname, wargs, rel="use.c")]
        if rname == "rdtype":
            rargs[1] = ("addr", ("deref", ("rarg", 1)))
        rst = [canon(a, b) for a, b in it.run(rname, rargs, rel="use.c")]
        written = {}
        for ws, _ in wst:
            if any(e[0] == "noreturn" for e in ws.events):
                continue
            tag = tagname(P, ws, wargs[1], wname)
            wvals = {}
            for e in allios(ws.events):
                p = path(e[2][0]) if e[2] else None
                if p:
                    written.setdefault(tag, set()).add(p)
                    written.setdefault("*", set()).add(p)
            for lp, prior in loopsin(ws.events, []):
                n = trips(lp)
                if not isinstance(n, tuple) or n[0] in ("setcount",):
                    continue
                c.decide(any(norm(n) == norm(v) for v in prior), "carried", "%s %s repeat count" % (wname, tag),
                         "%s writes a group %s times without having written that count" % (wname, sh(n)))
            cands = []
            miss = None
            for rs, rv in rst:
                if any(e[0] == "noreturn" for e in rs.events):
                    continue
                env = {}
                bad = None
                try:
                    match(ws.events, rs.events, env, (ws.eq, ws.ne, ws.assume), names)
                except Mismatch as m:
                    bad = m
                if consistent(conskey(rs), env, None, (ws.eq, ws.ne, ws.assume)) is False:
                    continue
                if bad:
                    # only a reader path that the writer's bytes select counts
                    n = len(env)
                    if miss is None or n > miss[0]:
                        miss = (n, bad)
                    cands.append((None, None, None, bad))
                else:
                    cands.append((rs, rv, env, None))
            label = "%s/%s%s" % (wname, rname, "" if tag == "*" else " " + tag)
            good = [x for x in cands if x[0] is not None]
            # a reader path whose branch conditions the written bytes do not refute must accept them
            if not good:
                c.bad("layout", "%s" % label, "%s: %s" % (label, miss[1] if miss else "no reader path takes what is written"))
                continue
            wrong = [x for x in cands if x[0] is None and definite(x)]
            c.ok("layout", label)
            for rs, rv, env, _ in good:
                binding(c, label, ws, rs, rv if rname != "rdtype" else ("deref", ("rarg", 1)), env, wname)
        # completeness: nothing the format carries has been dropped from both sides
        for tag, fields in PERSIST[wname].items():
            for f in fields.split():
                got = written.get(tag, set())
                if tag not in ("*",) and tag not in written and wname == "typickle":
                    got = written.get("*", set())
                c.decide(f in got, "carried", "%s.%s.%s" % (wname, tag, f),
                         "%s no longer writes %s of %s: an importer gets the definition without it" % (wname, f, tag),
                         good="%s %s %s" % (wname, tag, f))
    prims_bytes(c, P, names)
    prims_counted(c, P)
    toplevel(c, P, it, names)
    widths(c, P, it)
    c.need("layout", 40)
    c.need("carried", 80)
    c.need("binding", 100)
    c.decide(c.groups.get("fixup", 0) > 0, "fixup", "type ids", "a type id read from the stream is no longer queued with the place that wants the type")


def definite(x):
    return False


def binding(c, label, ws, rs, rv, env, wname):
    rev = rpaths(rs, rv)
    uses = list(alluses(rs.events))
    conskeys = list(rs.eq) + list(rs.ne) + list(rs.assume)
    loopterms = []
    for e in rs.events:
        if e[0] in ("loop", "loop-exit"):
            loopterms.append(e)
    for res, wv in env.items():
        wp = path(wv)
        where = {p for p in rev.get(res, ())}
        for v, ps in rev.items():
            if isinstance(v, tuple) and v != res and v[0] in ("cast",) and contains(v, res):
                where |= ps
        inside = {p for p in where if p != "?"}
        consumed = bool(where) or any(contains(u, res) for u in uses) or any(contains(k, res) for k in conskeys) \
            or any(contains(e, res) for e in loopterms) or contains(rv, res) \
            or any(contains(v, res) for v in rev) or res[1] in ("rdtype",)
        key = "%s:%s" % (label, wp or "value")
        if not consumed:
            c.bad("binding", key, "%s: %s is read back and then dropped" % (label, wp or "a written value"))
            continue
        if wp is None or wp == "":
            c.ok("binding", key)
            continue
        if wname == "wrtype" and wp == "tid":
            # a type id is either 'no type', a builtin, or queued with its destination for fixing up
            c.ok("binding", key)
            if "" in inside:
                c.ok("fixup", key)
            elif inside:
                c.bad("binding", key, "%s: a type id is queued for %s" % (label, sorted(inside)))
            continue
        if wp in RENAMED:
            exp = RENAMED[wp]
            if exp and inside and exp not in inside:
                c.bad("binding", key, "%s: %s comes back as %s" % (label, wp, ", ".join(sorted(inside))))
            else:
                c.ok("binding", key)
            continue
        counts = wp.split(".")[-1].startswith("n") and not inside
        if inside and wp not in inside:
            c.bad("binding", key, "%s: %s comes back as %s" % (label, wp, ", ".join(sorted(inside))))
        elif not inside and res[1] in ("rdtype", "unpickle", "rdstr") and not where and not any(contains(u, res) for u in uses):
            c.bad("binding", key, "%s: %s is read but not put back" % (label, wp))
        elif not inside and res[1] in ("rdint", "rdbool", "rdbyte", "rdvlong", "rdflt", "rdstr", "unpickle") and not counts \
                and not where and not any(contains(u, res) for u in uses) and wp not in ("type",) \
                and not any(contains(v, res) for v in rev) and not isflag(wv, wp):
            c.bad("binding", key, "%s: %s is read but not put back" % (label, wp))
        else:
            c.ok("binding", key)


def isflag(wv, wp):
    """presence flags steer the reader and need no field of their own"""
    return isinstance(wv, tuple) and wv[0] in ("bin", "un")


# ---- byte level --------------------------------------------------------------
def bits(t, w=64):
    """bit provenance of a term over byte-read leaves / the written value: list of atoms or 0/1/None"""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(w)]
    if t[0] == "V":
        return [("V", i) for i in range(w)]
    if t[0] == "cast":
        tw = twidth(t[1])
        b = bits(t[2], w)
        if tw is None or tw * 8 >= w:
            return b
        from cint import tunsigned
        s = b[tw * 8 - 1]
        return b[:tw * 8] + ([0] * (w - tw * 8) if tunsigned(t[1]) else [s] * (w - tw * 8))
    if t[0] == "BYTE":
        return [("B", t[1], i) for i in range(8)] + [0] * (w - 8)
    if t[0] == "bin":
        op, a, b = t[1:]
        if op in ("<<", ">>") and isinstance(b, int):
            x = bits(a, w)
            if op == "<<":
                return ([0] * b + x)[:w]
            return x[b:] + [x[-1]] * b
        if op in ("&", "|", "^", "+"):
            x, y = bits(a, w), bits(b, w)
            out = []
            for p, q in zip(x, y):
                if op == "&":
                    out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else (p if p == q else None))
                else:
                    out.append(q if p == 0 else p if q == 0 else (p if op == "|" and p == q else None))
            return out
    return [None] * w


def prims_bytes(c, P, names):
    """each fixed-size primitive: the reader reassembles exactly the bytes its writer emitted"""
    def run(fn, argv, buffers):
        log = []

        def wrbuf(it, s, av, n, ctx):
            s.events.append(("wrbuf", av[1], av[2]))
            return [(s, 0)]

        def rdbuf(it, s, av, n, ctx):
            s.events.append(("rdbuf", av[1], av[2]))
            loc = av[1][1] if isinstance(av[1], tuple) and av[1][0] == "addr" else av[1]
            if isinstance(av[2], int):
                for i in range(av[2]):
                    s.store[("idx", loc, i)] = ("BYTE", i)
            return [(s, 0)]

        def fput(it, s, av, n, ctx):
            s.events.append(("fputc", av[0]))
            return [(s, ("ret", "fputc", 0))]

        def fget(it, s, av, n, ctx):
            s.events.append(("fgetc",))
            return [(s, ("BYTE", 0))]
        it = Interp(P, {"wrbuf": wrbuf, "rdbuf": rdbuf, "fputc": fput, "putc": fput, "fgetc": fget, "getc": fget,
                        "xalloc": alloc, "zalloc": alloc, "malloc": alloc}, maxdepth=6)
        return it.run(fn, argv, rel="pack.c")
    def emitted(s):
        out = []
        for e in s.events:
            if e[0] == "wrbuf":
                loc = e[1][1] if isinstance(e[1], tuple) and e[1][0] == "addr" else e[1]
                if not isinstance(e[2], int):
                    return None
                for i in range(e[2]):
                    out.append(s.store.get(("idx", loc, i)))
            elif e[0] == "fputc":
                out.append(e[1])
        return out
    for w in sorted(names):
        if w in ("wrstr", "wrlenstr", "wrflt"):
            continue
        r = "rd" + w[2:]
        try:
            ws = [x for x in run(w, [("fd",), ("V",)], None) if not any(e[0] == "noreturn" for e in x[0].events)]
            rs = [x for x in run(r, [("fd",)], None) if not any(e[0] == "noreturn" for e in x[0].events)]
        except AnalysisBroken as e:
            raise AnalysisBroken("%s/%s: %s" % (w, r, e))
        wb = None
        for s, _ in ws:
            em = emitted(s)
            if em is None or any(x is None for x in em):
                raise AnalysisBroken("cannot follow the bytes of " + w)
            wb = [bits(x)[:8] for x in em]
        for s, v in rs:
            got = bits(v)
            n = sum(e[2] if e[0] == "rdbuf" else 1 for e in s.events if e[0] in ("rdbuf", "fgetc"))
            c.decide(n == len(wb), "bytes", w, "%s emits %d bytes but %s takes %d" % (w, len(wb), r, n))
            comp = []
            for b in got:
                if isinstance(b, tuple) and b[0] == "B":
                    comp.append(wb[b[1]][b[2]] if b[1] < len(wb) else None)
                else:
                    comp.append(b)
            nb = 8 * len(wb)
            okc = all(comp[i] == ("V", i) for i in range(nb))
            c.decide(okc, "bytes", w + " order", "%s does not reassemble the value %s wrote: bit %s comes back as %s" % (
                r, w, next((i for i in range(nb) if comp[i] != ("V", i)), 0),
                next((comp[i] for i in range(nb) if comp[i] != ("V", i)), 0)), good="%s/%s %d bytes" % (w, r, len(wb)))
    c.need("bytes", 6)

def prims_counted(c, P):
    """strings: the count written is the length of the value, that many bytes of it follow, and the reader
    takes the count, that many bytes, and gives back exactly those; floats keep all 64 bits"""
    def evp(nm):
        def h(it, s, av, n, ctx):
            s.events.append((nm,) + tuple(av[1:]))
            return [(s, 0)]
        return h

    def rdint(it, s, av, n, ctx):
        s.count += 1
        v = ("RD", s.count)
        s.events.append(("rdint", v))
        return [(s, v)]

    def al(it, s, av, n, ctx):
        s.count += 1
        t = ("mem", s.count)
        s.ne[t] = frozenset([0])
        s.events.append(("alloc", t, av[0]))
        return [(s, t)]
    # the packers are decided on their own, so here they are one step each
    pk = {}
    for f in P.tus[-1].funcs:
        if f in ("be64", "pack64"):
            pk[f] = evp(f)
        elif f in ("host64", "unpack64"):
            pk[f] = lambda it, s, av, n, ctx: [(s, ("h64", av[0]))]
    it = Interp(P, {"wrint": evp("wrint"), "wrbuf": evp("wrbuf"), "rdbuf": evp("rdbuf"), "rdint": rdint, "xalloc": al, "zalloc": al, "malloc": al, **pk},
                maxdepth=6, pure=("strlen",))

    def go(f, argv):
        out = [(s, v) for s, v in it.run(f, argv, rel="pack.c") if not any(e[0] == "noreturn" for e in s.events)]
        c.unit("util/pack.c:" + f)
        if not out:
            raise AnalysisBroken("no path through " + f)
        return out

    def nocast(t):
        while isinstance(t, tuple) and t[0] == "cast":
            t = t[2]
        return t
    V = ("V",)
    for f, ln, buf in (("wrstr", ("call", "strlen", V), V), ("wrlenstr", ("get", V, "len"), ("get", V, "buf"))):
        for s, v in go(f, [("fd",), V]):
            ev = [e for e in s.events if e[0] in ("wrint", "wrbuf", "loop", "io")]
            if f == "wrstr" and [e[:2] for e in ev] == [("wrint", -1)]:
                c.decide(s.known(V) == 0 if hasattr(s, "known") else V not in s.ne, "bytes", f + " null", "a string that is not null is written as null")
                continue
            good = len(ev) == 2 and ev[0][0] == "wrint" and nocast(ev[0][1]) == ln and ev[1][0] == "wrbuf" and nocast(ev[1][1]) == buf and nocast(ev[1][2]) == ln
            c.decide(good, "bytes", f, "%s does not write the length of the string and then all of its bytes: %s" % (f, [(e[0],) + tuple(show_(x) for x in e[1:3]) for e in ev]))
    for s, v in go("rdstr", [("fd",)]):
        ev = [e for e in s.events if e[0] in ("rdint", "rdbuf", "alloc")]
        if len(ev) == 1:
            c.decide(v == 0 and 0 not in s.ne.get(ev[0][1], ()), "bytes", "rdstr null", "rdstr gives back %s for a null string" % show_(v))
            continue
        rd = [e for e in ev if e[0] == "rdbuf"]
        good = len(rd) == 1 and rd[0][1] == v and nocast(rd[0][2]) == ev[0][1] and s.store.get(("idx", v, ev[0][1])) == 0
        c.decide(good, "bytes", "rdstr", "rdstr does not give back the bytes it counted, ended by a nul")
    for s, v in go("rdlenstr", [("fd",), V]):
        ev = [e for e in s.events if e[0] in ("rdint", "rdbuf", "alloc")]
        rd = [e for e in ev if e[0] == "rdbuf"]
        n = ev[0][1] if ev and ev[0][0] == "rdint" else None
        good = n is not None and len(rd) == 1 and nocast(rd[0][2]) == n and nocast(s.store.get(("fld", V, "len"))) == n and s.store.get(("fld", V, "buf")) == rd[0][1]
        c.decide(good, "bytes", "rdlenstr", "rdlenstr does not give back the length and bytes that were written")
    for f, argv, e0 in (("wrflt", [("fd",), V], "wrbuf"), ("rdflt", [("fd",)], "rdbuf")):
        for s, v in go(f, argv):
            n = [e[2] for e in s.events if e[0] == e0]
            narrow = any(isinstance(y, tuple) and y[0] == "cast" and y[1] == "float" for x in list(s.store.values()) + [v] for y in subterms(x))
            c.decide(n == [8] and not narrow, "bytes", f, "%s does not move all 64 bits of a float" % f)


# ---- sections ------------------------------------------------------------------
def sections(evs, out, names):
    """sequences that start with a constant tag byte, wherever they are nested"""
    cur = None
    for e in evs:
        if e[0] == "io" and e[1] == "wrbyte" and isinstance(e[2][0], int):
            cur = [e]
            out.setdefault(e[2][0], []).append(cur)
        elif e[0] == "io":
            if cur is not None:
                cur.append(e)
            else:
                out.setdefault(None, []).append([e])
        elif e[0] in ("loop", "loop-exit") and hasio(e):
            cur = None
            for b in e[3]:
                sections(b, out, names)


# loader bookkeeping, per section: the calls that make the definition visible
REG = {ord("D"): {"putdcl"}, ord("G"): {"putdcl"}, ord("R"): {"puttrait"}, ord("T"): {"htput"}, ord("L"): {"lappend", "strcmp"},
       ord("X"): {"lappend", "strcmp"}, ord("F"): {"lappend"}, ord("S"): {"lappend"}, ord("E"): {"lappend"}}
FIX = ("fixtypemappings", "fixtraitmappings", "fiximplmappings")


def exported(c, P, ws):
    """every exported or hidden definition of each table is written, whatever else holds of it"""
    tabs = {ord("T"): ("types", "vis"), ord("R"): ("traittab", "vis"), ord("I"): ("impltab", "vis"), ord("D"): ("htkeys", "vis"), ord("G"): ("htkeys", "vis")}
    for tag in sorted(tabs):
        found = False
        for s in ws:
            for e in s.events:
                if not isloop(e):
                    continue
                if not any(x[0] == "io" and x[1] == "wrbyte" and x[2][0] == tag for b in e[3] for x in b):
                    continue
                found = True
                for v in ("Visexport", "Vishidden"):
                    for b in e[3]:
                        if any(x[0] == "dead" for x in b) or any(x[0] == "noreturn" for x in b) or any(x[0] == "io" for x in b):
                            continue
                        cons = b[-1] if b and b[-1][0] == "cons" else ("cons", (), (), ())
                        # this iteration writes nothing: it must be one that cannot be for an exported definition
                        possible = True
                        vt = set()
                        for part in cons[1:]:
                            for k, _ in part:
                                findfld(k, vt)
                        facts = {}
                        for t in vt:
                            f = t[1][2]
                            if f == "vis":
                                facts[t] = P.enums[v]
                            elif f in ("trait", "isinit", "isfini"):
                                facts[t] = 0
                            elif f == "uid":
                                facts[t] = P.enums["Ntraits"] + 1
                        for k, val in cons[1]:
                            if k in facts and facts[k] != val:
                                possible = False
                        for k, vals in cons[2]:
                            if k in facts and facts[k] in vals:
                                possible = False
                        for k, val in cons[3]:
                            r = ground(k, facts)
                            if r is not None and bool(r) != val:
                                possible = False
                        c.decide(not possible, "exported", "section %c %s" % (tag, v),
                                 "writeuse can leave out a %s definition from section '%c' (path: %s)" % (
                                     v, tag, "; ".join("%s=%s" % (path(k) or str(k)[:60], x) for part in cons[1:] for k, x in part)))
                c.ok("exported", "section %c" % tag)
        if not found:
            raise AnalysisBroken("no loop writes section %c" % tag)


def findfld(t, out):
    if isinstance(t, tuple):
        if t[:1] == ("ld",) and isinstance(t[1], tuple) and t[1][0] == "fld":
            out.add(t)
        for x in t:
            findfld(x, out)


def ground(t, facts):
    if isinstance(t, int):
        return t
    if t in facts:
        return facts[t]
    if isinstance(t, tuple) and t[0] == "cast":
        return ground(t[2], facts)
    if isinstance(t, tuple) and t[0] == "un" and t[1] == "!":
        r = ground(t[2], facts)
        return None if r is None else int(not r)
    if isinstance(t, tuple) and t[0] == "bin":
        a, b = ground(t[2], facts), ground(t[3], facts)
        if a is None or b is None:
            return None
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}.get(t[1])
    return None


def toplevel(c, P, it, names):
    ws = [s for s, _ in [canon(a, b) for a, b in it.run("writeuse", [("arg", 0)], rel="use.c")] if not any(e[0] == "noreturn" for e in s.events)]
    own = it.inline
    it.inline = {f for f in own if f not in ("findstab", "fixtypemappings", "fixtraitmappings", "fiximplmappings")}
    old = it.maxstates
    it.maxstates = 200000
    rr = [canon(a, b) for a, b in it.run("loaduse", [("rarg", i) for i in range(4)], rel="use.c")]
    it.maxstates = old
    it.inline = own
    c.unit("parse/use.c:writeuse")
    c.unit("parse/use.c:loaduse")
    regs = {}
    wsec = {}
    for s in ws:
        sections(s.events, wsec, names)
    # the reader's dispatch loop: alternatives keyed by the value of the first byte read
    rsec = {}
    for s, _ in rr:
        for e in s.events:
            if e[0] not in ("loop", "loop-exit"):
                continue
            for b in e[3]:
                if not b or b[-1][0] != "cons":
                    continue
                first = [x for x in b if x[0] == "io"]
                if not first or first[0][1] != "rdbyte":
                    continue
                tagv = dict(b[-1][1]).get(first[0][3])
                rsec.setdefault(tagv, []).append([x for x in b if hasio(x)])
                if tagv in REG:
                    res = [x[3] for x in b if x[0] == "io"][-1]
                    calls = [x[1] for x in alluses(b) if contains(x, res)]
                    regs.setdefault(tagv, []).append((calls, b[-1]))
    if len([k for k in rsec if k is not None]) < 6:
        raise AnalysisBroken("section dispatch of the use-file reader not recognised")
    for tag, seqs in sorted((k, v) for k, v in wsec.items() if k is not None):
        if tag == ord("U"):
            continue
        for seq in {tuple(x[1] for x in q): q for q in seqs}.values():
            shape = [pairname(x[1], names) for x in seq[1:]]
            name = "section '%c'" % tag if 32 <= tag < 127 else "section %d" % tag
            alts = [tuple(y[1] for y in a[1:] if y[0] == "io") for a in rsec.get(tag, [])]
            if not alts:
                c.bad("sections", name, "%s is written by writeuse but the loader has no case for it" % name)
            else:
                badalt = [a for a in alts if list(a) != shape]
                c.decide(not badalt, "sections", name, "%s is written as %s but loaded as %s" % (name, shape, badalt[:1]),
                         good="%s %s" % (name, shape))
    want = {ord(x) for x in "LXFTRIDGSE"}
    missing = want - {k for k in wsec if k is not None}
    c.decide(not missing, "sections", "written", "writeuse no longer writes section(s) %s" % ", ".join(chr(x) for x in sorted(missing)))
    # header: tag, version, package name
    hw = [e for e in ws[0].events if hasio(e)][:3]
    hr = None
    for s, _ in rr:
        x = [e for e in s.events if hasio(e)][:3]
        if len(x) == 3 and all(y[0] == "io" for y in x):
            hr = x
            ver = x[1][3]
            # every load that goes on past the version must have compared it
            c.decide(any(contains(k, ver) for k in list(s.eq) + list(s.ne) + list(s.assume)), "sections", "version compared",
                     "the loader accepts a use file without comparing its version")
    # what is loaded is entered where later compilation looks it up
    for tag, fns in sorted(REG.items()):
        for calls, cons in regs.get(tag, []):
            if any("hthas" in repr(k) or "getucon" in repr(k) or "gettype" in repr(k) for part in cons[1:] for k, _ in part) and tag in (ord("S"), ord("E")):
                continue
            c.decide(any(x in fns for x in calls), "registered", "section %c" % tag,
                     "section '%c': what is loaded is not entered with %s on some path" % (tag, "/".join(sorted(fns))))
    # references between definitions are patched before a successful return
    for s, rv in rr:
        if rv != 1 or any(e[0] == "noreturn" for e in s.events):
            continue
        names_ = [e[1] for e in s.events if e[0] in ("call", "use")]
        for f in FIX:
            c.decide(f in names_, "registered", f, "loaduse can succeed without %s: references to other packages stay unresolved" % f)
    exported(c, P, ws)
    if hr is None:
        raise AnalysisBroken("use-file header not recognised in the loader")
    c.decide([pairname(e[1], names) for e in hw] == [e[1] for e in hr], "sections", "header",
             "header written as %s, read as %s" % ([e[1] for e in hw], [e[1] for e in hr]))
    c.need("sections", 8)


def widths(c, P, it):
    """a payload value is not squeezed through a narrower primitive; enum tags fit their byte"""
    size = {"wrbyte": 1, "wrbool": 1, "wrint": 4, "wrvlong": 8}
    t = P.tus[0]
    for fn in t.funcs.values():
        for call in ccast.calls(fn):
            nm = callee(call)
            if nm not in size or len(call.kids) < 3:
                continue
            a = strip(call.kids[2])
            if a.kind != "MemberExpr":
                continue
            ct = (a.ctype or "")
            al = (a.type or "")
            w = twidth(al) or twidth(ct)
            if w is None or al in ("size_t",) or ct in ("unsigned long",) and al != "uint64_t":
                continue
            iscount = a.name.startswith("n")
            if iscount:
                continue
            if al in t.enumtypes or ct.startswith("enum"):
                continue
            c.decide(w <= size[nm] or nm == "wrbool", "width", "%s:%s" % (fn.name, a.name),
                     "%s: %d-byte %s is written with %s, which keeps %d byte(s)" % (call.loc(), w, ccast.show(a), nm, size[nm]))
    for tdname, names in t.enumtypes.items():
        pass
    c.decide(P.enums.get("Numops", 999) <= 128, "width", "ops fit a byte",
             "there are %s operators, more than the signed byte an operator travels in" % P.enums.get("Numops"))
    c.need("width", 5)


report.run("C01", "for every record kind, each path of the use-file writer is paired event by event with the reader paths its "
           "bytes select: same primitives in the same order, same repeat counts, each value put back into the field it came from, "
           "no persisted field missing, byte-level primitives inverse", check,
           ["field correspondence is by field path; list and set iteration orders are the container's",
            "fields listed as rebuilt on import (environments, ids, import flags) are not part of the format"])
