"""C13: laying out a function as blocks and lines keeps its flow of control."""
import os, sys, random, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report
from graph import *  # noqa
from ccast import AnalysisBroken, Endless

CHEAP = bool(os.environ.get("VSA_FIRST"))
DEEP = os.environ.get("VERIF_TIER") == "thorough"
GENS = ("6/gengas.c", "6/genp9.c")


def wellformed(l):
    """labels stand once, jumps have targets, and what runs off the end is a return"""
    labs = [x[1] for x in l if x[0] == "l"]
    if len(set(labs)) != len(labs):
        return False
    for x in l:
        if x[0] == "j" and x[1] not in labs or x[0] == "c" and not {x[2], x[3]} <= set(labs):
            return False
    return True


def renum(l):
    k = itertools.count()
    return tuple((x[0], next(k)) if x[0] in ("s", "x") else x for x in l)


def flows():
    """statement lists: all the short ones, and longer ones at random"""
    seen, out = set(), []

    def add(g, l):
        l = renum(l)
        if wellformed(l) and l not in seen:
            seen.add(l)
            out.append((g, l))
    two = [("s",), ("x",), ("l", 0), ("l", 1), ("j", 0), ("j", 1), ("c", "p", 0, 1), ("c", "p", 1, 0), ("r",)]
    for n in range(0, 4 if CHEAP else 5):
        for l in itertools.product(two, repeat=n):
            # a name for a label is as good as another
            ls = [x[1] for x in l if x[0] == "l"]
            if ls == sorted(ls) and (not ls or ls[0] == 0):
                add("short lists", l)
    rnd = random.Random(13)
    for _ in range(150 if CHEAP else 6000 if DEEP else 1500):
        nl = rnd.randint(1, 5)
        n = rnd.randint(2, 9)
        l = []
        for _ in range(n):
            k = rnd.random()
            l.append(("s",) if k < .35 else ("j", rnd.randrange(nl)) if k < .55 else ("c", "pq"[rnd.randrange(2)], rnd.randrange(nl), rnd.randrange(nl)) if k < .8 else ("r",) if k < .88 else ("x",) if k < .96 else ("d",))
        for i in range(nl):
            l.insert(rnd.randint(0, len(l)), ("l", i))
        # names of labels may begin alike
        nm = dict(zip(range(nl), rnd.sample((1, 2, 10, 12, 123, 21, 100), nl)))
        if rnd.random() < .5:
            l = [x if x[0] not in "ljc" else x[:2] + tuple(nm[y] for y in x[2:]) if x[0] == "c" else (x[0], nm[x[1]]) for x in l]
        add("lists with jumps", tuple(l))
    for _ in range(100 if CHEAP else 3000 if DEEP else 700):
        add("programs", tuple(program(rnd)))
    return out


def program(rnd, uses=()):
    """what flattening makes of ifs, loops, matches, breaks and returns"""
    k = itertools.count()
    out = []

    def stmts(d, brk, cont):
        for _ in range(rnd.randint(0 if d else 1, 3)):
            r = rnd.random()
            if d > 2:
                r *= .5
            if r < .3:
                out.append(("s",))
            elif r < .36:
                out.append(("r",))
            elif r < .40:
                out.append(("x",))
            elif r < .46 and brk is not None:
                out.append(("j", rnd.choice((brk, cont))))
            elif r < .5:
                out.append(("s",))
            elif r < .72:
                a, b, e = next(k), next(k), next(k)
                cond(a, b)
                out.append(("l", a))
                stmts(d + 1, brk, cont)
                out.append(("j", e))
                out.append(("l", b))
                if rnd.random() < .6:
                    stmts(d + 1, brk, cont)
                out.append(("j", e)) if rnd.random() < .5 else None
                out.append(("l", e))
            elif r < .9:
                c, b, e, st = next(k), next(k), next(k), next(k)
                out.append(("j", c))
                out.append(("l", b))
                stmts(d + 1, e, st)
                out.append(("l", st))
                if rnd.random() < .5:
                    out.append(("s",))
                out.append(("l", c))
                cond(b, e)
                out.append(("l", e))
            else:
                b, e = next(k), next(k)
                out.append(("l", b))
                stmts(d + 1, e, b)
                out.append(("j", b))
                out.append(("l", e))

    def cond(t, f):
        if rnd.random() < .3:
            m = next(k)
            out.append(("c", "p", m, f) if rnd.random() < .5 else ("c", "p", t, m))
            out.append(("l", m))
        out.append(("c", "q", t, f))
    stmts(0, None, None)
    return out


# -- diagnostics ------------------------------------------------------------------------------------------
def guarded(rnd):
    """a program that declares locals without a value, sets and uses them"""
    l = program(rnd)
    vs = ["u", "v", "w"][:rnd.randint(1, 3)]
    out = [("undef", v) for v in vs]
    for x in l:
        if x[0] == "s":
            r, v = rnd.random(), rnd.choice(vs)
            if r < .4:
                x = ("set", v, tuple(rnd.sample([w for w in vs if w != v], rnd.randint(0, min(1, len(vs) - 1)))) if rnd.random() < .25 else ())
                if x[2] and rnd.random() < .5:
                    x = ("mv",) + x[1:]
            elif r < .48:
                x = ("clr", v)
            elif r < .56:
                x = ("ref", v)
            elif r < .8:
                x = ("use", (v,))
        elif x[0] == "c" and rnd.random() < .12:
            x = ("c", rnd.choice(vs)) + x[2:]
        out.append(x)
    return tuple(out)


def reads(x):
    return x[2] if x[0] in ("set", "mv") else x[1] if x[0] == "use" else (x[1],) if x[0] == "c" else (x[1], x[2]) if x[0] == "st" else ()


def nexts(l, i, src):
    x = l[i]
    return {"j": lambda: (src[x[1]],), "c": lambda: (src[x[2]], src[x[3]]), "r": tuple, "x": tuple, "d": tuple}.get(x[0], lambda: (i + 1,))()


def paths(l):
    """what may happen before each place: the places control comes to, and the variables without a value there"""
    src = {x[1]: i for i, x in enumerate(l) if x[0] == "l"}
    vs = {x[1] for x in l if x[0] == "undef"}
    state = {0: frozenset()}
    todo = [0]
    off = False
    bad = set()
    while todo:
        i = todo.pop()
        st = state[i]
        if i >= len(l):
            off = True
            continue
        x = l[i]
        for v in reads(x):
            if v in st:
                bad.add(v)
        if x[0] == "undef":
            st = st | {x[1]}
        elif x[0] in ("set", "mv", "clr"):
            st = st - {x[1]}
        for j in nexts(l, i, src):
            new = state.get(j, frozenset()) | st
            if j not in state or new != state[j]:
                state[j] = new
                todo.append(j)
    return bad, off, state


def deadloop(l, state):
    """do statements that control never comes to lead around among themselves"""
    src = {x[1]: i for i, x in enumerate(l) if x[0] == "l"}
    nx = {i: nexts(l, i, src) for i in range(len(l)) if i not in state}
    while True:
        # those nothing dead leads to go
        to = {j for js in nx.values() for j in js}
        gone = [i for i in nx if i not in to]
        if not gone:
            return bool(nx)
        for i in gone:
            del nx[i]


SELF = (("undef", "u"), ("set", "u", ("u",)))


def diags():
    rnd = random.Random(31)
    out, seen = [("undefined", SELF, ["u"])], set()
    for _ in range(400 if CHEAP else 6000 if DEEP else 1800):
        l = renum(guarded(rnd))
        if l in seen or not wellformed(l):
            continue
        seen.add(l)
        bad, off, state = paths(l)
        if deadloop(l, state):
            continue
        out.append(("undefined", l, sorted(bad)))
        if rnd.random() < .5:
            out.append(("returns", l, off))
    return out


def oneflow(j):
    g, l = j
    for gen in GENS:
        try:
            GR.follow(l, gen)
        except (Bad, Fatal, Endless) as e:
            return (g, lshow(l), "%s (%s)" % (e, gen))
        except NullDeref as e:
            return (g, lshow(l), "the compiler crashes: %s (%s)" % (e, gen))
    return (g, lshow(l), None)


def onediag(j):
    g, l, want = j
    try:
        if g == "undefined":
            e = GR.rejected(l, "Tyvoid")
            if bool(e) != bool(want):
                return (g, lshow(l), "it is rejected (%s), though no way leads to a use without a value" % e if e else "it is accepted, though %s may be used without a value" % ", ".join(want))
        else:
            # uses without a value are no matter here
            l = tuple(x for x in l if x[0] != "undef")
            e = GR.rejected(l, "Tyint64")
            if bool(e) != bool(want):
                return (g, lshow(l), "a function with a result is rejected (%s), though no way leads to its end" % e if e else "a function with a result is accepted, though control may come to its end without one")
    except (Bad, Endless) as e:
        return (g, lshow(l), str(e))
    except NullDeref as e:
        return (g, lshow(l), "the compiler crashes: %s" % e)
    return (g, lshow(l), None)


def work(k):
    out = []
    for f, j in JOBS[k::NW]:
        try:
            out.append(f(j))
        except AnalysisBroken as e:
            out.append(("?", repr(j)[:300], ("broken", str(e))))
        if CHEAP and out[-1][2]:
            break
    return out


def run(c):
    global GR, JOBS, NW
    GR = Graph()
    try:
        for gen in GENS:
            GR.twice(gen)
        c.ok("labels", "two functions of a file share no label")
    except Bad as e:
        c.bad("labels", "two functions", str(e))
    JOBS = [(oneflow, j) for j in flows()] + [(onediag, j) for j in diags()]
    NW = 8
    import multiprocessing as mp
    with mp.get_context("fork").Pool(NW) as p:
        res = [r for l in p.map(work, range(NW), chunksize=1) for r in l]
    broken = None
    nbad = 0
    for g, t, e in res:
        if isinstance(e, tuple):
            broken = broken or "%s: %s" % (t, e[1])
        elif e is None:
            c.ok(g, t)
        else:
            nbad += 1
            if nbad < 40:
                c.bad(g, t, "%s: %s" % (t, e))
    for f in ("mi/cfg.c:mkcfg,mkbb,label,strlabel,addnode,addlabel,islabel,isnonretcall,delete,noexit,trimdead,trim", "6/isel.c:selfunc,mkasmbb,isel,selcjmp", "6/peep.c:peep,deadcode,nopjmp",
              "6/gengas.c:writeasm", "6/genp9.c:writeasm", "mi/reaching.c:reaching,collectdefs,genkill,assignee", "mi/dfcheck.c:check,checkret,checkpredret,checkreach,checkundef"):
        c.unit(f)
    if broken and not c.viol:
        raise AnalysisBroken(broken)
    if not CHEAP:
        c.need("short lists", 300)
        c.need("lists with jumps", 1000)
        c.need("programs", 300)
        c.need("undefined", 300)
        c.need("returns", 100)


if __name__ == "__main__":
    report.run("C13", "walking the lines a function is laid out as beside its statement list, the same statements come in the same order on every way; each passing from block to block has an edge; "
               "and a function is rejected for a value not set, or a result not given, exactly when a way leads there", run,
               ["a conditional jump may go either way", "sets (util/bitset.c) and tables (util/htab.c) keep what is put into them"])
