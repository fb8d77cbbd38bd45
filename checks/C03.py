"""Machine-instruction tables: what the allocator and the printers believe about each
instruction and register is what the printed x86-64 instruction does."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import report, ctab
from ccast import tu, AnalysisBroken
from cint import Program, Interp, canon

W = {"b": 1, "w": 2, "l": 4, "q": 8}


def fmt(s, syntax):
    """format string -> (mnemonic with {n} for operand-mode suffixes, [(operand, kind)])"""
    i = 0           # next operand, 0-based
    out = ""
    ops = []
    j = 0
    while j < len(s):
        ch = s[j]
        if ch != "%":
            out += ch
            j += 1
            continue
        j += 1
        m = re.match(r"\d+", s[j:])
        idx = i
        if m:
            idx = int(m.group()) - 1
            j += len(m.group())
        k = s[j]
        j += 1
        if (k.islower()) != (syntax == "gas"):
            raise AnalysisBroken("format letter %%%s in %r is not one %s prints" % (k, s, syntax))
        if k in "tT":
            out += "{%d}" % (idx + 1)
        else:
            out += "<%d>" % (idx + 1)
            ops.append((idx + 1, k.lower()))
            i += 1
    out = out.strip()
    mn, _, rest = out.partition(" ")
    if "<" in mn:
        mn, rest = "", out
    opl = [x.strip() for x in rest.split(",")] if rest.strip() else []
    return mn.split("\t")[0], opl, ops


# operation -> (operands read, operands written, fixed registers read, fixed registers written)
def two(r, w, fr=(), fw=()):
    return (frozenset(r), frozenset(w), frozenset(fr), frozenset(fw))


CC = {"z": "eq", "e": "eq", "nz": "ne", "ne": "ne", "l": "slt", "le": "sle", "g": "sgt", "ge": "sge",
      "b": "ult", "be": "ule", "a": "ugt", "ae": "uge"}
CC9 = {"EQ": "eq", "NE": "ne", "LT": "slt", "LE": "sle", "GT": "sgt", "GE": "sge", "CS": "ult", "LO": "ult", "LS": "ule",
       "HI": "ugt", "A": "ugt", "CC": "uge", "HS": "uge", "AE": "uge", "B": "ult", "BE": "ule", "Z": "eq", "NZ": "ne"}


def gasmodel(mn, n):
    """canonical (operation, sizing operand(s)) of a GNU-as mnemonic template"""
    m = re.match(r"^([a-z0-9]+?)((?:\{\d\})*)$", mn)
    if not m:
        m2 = re.match(r"^([a-z]+)\{(\d)\}([a-z0-9]*)$", mn)
        if not m2:
            return None
        return None
    b, suf = m.group(1), tuple(int(x) for x in re.findall(r"\d", m.group(2)))
    sx = {
        "mov": "mov", "lea": "lea", "add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor", "not": "not", "neg": "neg",
        "sal": "shl", "shl": "shl", "sar": "sar", "shr": "shr", "rol": "rol", "test": "test", "cmp": "cmp", "push": "push", "pop": "pop",
        "mul": "mul1", "div": "div1", "idiv": "idiv1", "adds": "fadd", "subs": "fsub", "muls": "fmul", "divs": "fdiv",
        "comis": "fcmp", "ucomis": "fcmp", "cwd": "cwd", "cdq": "cdq", "cqo": "cqo", "cwtd": "cwd", "cltd": "cdq", "cqto": "cqo",
        "jmp": "jmp", "call": "call", "ret": "ret", "cvttsd2si": "d2i", "cvttss2si": "s2i", "cvtsi2s": "i2f", "cvtsd2ss": "d2f", "cvtss2sd": "f2d"}
    if b == "imul":
        return ("imul1" if n == 1 else "imul2"), suf
    if b == "movz" and len(suf) == 2:
        return "movzx", suf
    if b == "movs" and len(suf) == 2:
        return "movsx", suf
    if b == "movs" and len(suf) == 1:
        return "fmov", suf
    if b in sx:
        return sx[b], suf
    if b.startswith("set") and b[3:] in CC:
        return "set." + CC[b[3:]], suf
    if b.startswith("j") and b[1:] in CC:
        return "j." + CC[b[1:]], suf
    return None


def p9model(mn, n):
    m = re.match(r"^([A-Z0-9]+?)((?:\{\d\})*)(ZX|SX)?$", mn)
    if mn == "CVTTS{1}2S{2}":
        return "d2i", (2,)
    if mn == "CVTTSS2S{2}":
        return "s2i", (2,)
    if mn == "CVTS{1}2S{2}":
        return "i2f", (2,)
    if not m:
        return None
    b, suf, ext = m.group(1), tuple(int(x) for x in re.findall(r"\d", m.group(2))), m.group(3)
    if b == "MOV" and ext:
        return ("movzx" if ext == "ZX" else "movsx"), suf
    sx = {"MOV": "mov", "LEA": "lea", "ADD": "add", "SUB": "sub", "AND": "and", "OR": "or", "XOR": "xor", "NOT": "not", "NEG": "neg",
          "SAL": "shl", "SHL": "shl", "SAR": "sar", "SHR": "shr", "ROL": "rol", "TEST": "test", "CMP": "cmp", "PUSH": "push", "POP": "pop",
          "MUL": "mul1", "DIV": "div1", "IDIV": "idiv1", "ADDS": "fadd", "SUBS": "fsub", "MULS": "fmul", "DIVS": "fdiv",
          "COMIS": "fcmp", "UCOMIS": "fcmp", "CWD": "cwd", "CDQ": "cdq", "CQO": "cqo", "JMP": "jmp", "CALL": "call", "RET": "ret",
          "CVTSD2SS": "d2f", "CVTSS2SD": "f2d", "MOVS": "fmov"}
    if b == "IMUL":
        return ("imul1" if n == 1 else "imul2"), suf
    if b in sx:
        return sx[b], suf
    if b.startswith("SET") and b[3:] in CC9:
        return "set." + CC9[b[3:]], suf
    if b.startswith("J") and b[1:] in CC9:
        return "j." + CC9[b[1:]], suf
    return None


# effects with operands in AT&T order (source, destination) = (1, 2)
EFF = {}
for o in ("mov", "movzx", "movsx", "lea", "fmov", "d2i", "s2i", "i2f", "d2f", "f2d"):
    EFF[o] = two([1], [2])
for o in ("add", "sub", "and", "or", "xor", "shl", "sar", "shr", "rol", "imul2", "fadd", "fsub", "fmul", "fdiv"):
    EFF[o] = two([1, 2], [2])
for o in ("cmp", "test", "fcmp"):
    EFF[o] = two([1, 2], [])
for o in ("neg", "not"):
    EFF[o] = two([1], [1])
EFF["imul1"] = two([1], [], ["ax"], ["ax"])        # byte form: AX = AL * operand
EFF["mul1"] = two([1], [], ["ax"], ["ax", "dx"])
EFF["div1"] = EFF["idiv1"] = two([1], [], ["ax", "dx"], ["ax", "dx"])
for o in ("cwd", "cdq", "cqo"):
    EFF[o] = two([], [], ["ax"], ["dx"])
EFF["push"] = two([1], [])
EFF["pop"] = two([], [])            # only ever names the frame pointer, which is never allocated
EFF["jmp"] = two([1], [])
EFF["call"] = two([1], [], ["di", "si", "dx", "cx", "8", "9"] + ["x%d" % i for i in range(8)], ["ax"])
EFF["ret"] = two([], [], ["ax", "x0"])
for x in set(CC.values()):
    EFF["set." + x] = two([], [1])
    EFF["j." + x] = two([1], [])
# operand whose mode must pick the size suffix, where the operands' sizes can differ
SIZING = {"shl": {(2,)}, "sar": {(2,)}, "shr": {(2,)}, "rol": {(2,)}, "lea": {(2,)}, "d2i": {(2,)}, "s2i": {(2,)}, "i2f": {(2,)},
          "movzx": {(1, 2)}, "movsx": {(1, 2)}, "mov": {(1,), (2,)}, "d2f": {()}, "f2d": {()}}


def hwgas(name):
    """hardware register and width of a GNU-as register name"""
    m = re.match(r"^%([a-z0-9]+)$", name)
    if not m:
        return None
    r = m.group(1)
    if re.match(r"^xmm\d+$", r):
        return "x" + r[3:], 16
    m = re.match(r"^r(\d+)([bwd]?)$", r)
    if m:
        return m.group(1), {"b": 1, "w": 2, "d": 4, "": 8}[m.group(2)]
    if r in ("ah", "bh", "ch", "dh"):
        return r, 1
    if r == "rip":
        return "ip", 8
    m = re.match(r"^([abcd])l$", r)
    if m:
        return m.group(1) + "x", 1
    if r in ("sil", "dil", "spl", "bpl"):
        return r[:2], 1
    m = re.match(r"^([re]?)([abcd]x|si|di|sp|bp)$", r)
    if m:
        return m.group(2), {"": 2, "e": 4, "r": 8}[m.group(1)]
    return None


def hwp9(name, w):
    m = re.match(r"^R(\d+)(B?)$", name)
    if m:
        return m.group(1)
    m = re.match(r"^X(\d+)$", name)
    if m:
        return "x" + m.group(1)
    if name in ("AX", "BX", "CX", "DX", "SI", "DI", "SP", "BP") and w > 1:
        return name.lower()
    if name in ("AL", "BL", "CL", "DL") and w == 1:
        return name[0].lower() + "x"
    if name in ("AH", "BH", "CH", "DH") and w == 1:
        return name.lower()
    if name in ("SIB", "DIB", "SPB", "BPB") and w == 1:
        return name[:2].lower()
    if name == "IP":
        return "ip"
    return None


def check(c):
    ra, gas, p9, locs = tu("6/ra.c"), tu("6/gengas.c"), tu("6/genp9.c"), tu("6/locs.c")
    for t in ("6/ra.c", "6/gengas.c", "6/genp9.c", "6/locs.c"):
        c.unit(t)
    E = ra.enums
    ops = None
    for names in ra.enumtypes.values():
        if "Iadd" in names and "Icall" in names:
            ops = names
        if "Rrax" in names:
            regs = names
    if ops is None:
        raise AnalysisBroken("instruction enumeration not found")
    use, dfn = ctab.table(ra, "usetab"), ctab.table(ra, "deftab")
    gf, pf = ctab.table(gas, "insnfmt"), ctab.table(p9, "insnfmt")
    gr, pr = ctab.table(gas, "regnames"), ctab.table(p9, "regnames")
    gm, pm = ctab.table(gas, "modenames"), ctab.table(p9, "modenames")
    modes = ctab.table(locs, "regmodes")
    modenm = {E[m]: m for m in ("ModeB", "ModeW", "ModeL", "ModeQ", "ModeF", "ModeD")}
    width = {E["ModeB"]: 1, E["ModeW"]: 2, E["ModeL"]: 4, E["ModeQ"]: 8, E["ModeF"]: 16, E["ModeD"]: 16}
    hw = {}
    # --- registers
    for r in regs:
        i = E[r]
        if r in ("Rnone", "Nreg"):
            continue
        h = hwgas(gr[i])
        if h is None:
            c.bad("register", r, "%s is printed as %r, which is not an x86-64 register" % (r, gr[i]))
            continue
        hw[i] = h
        c.decide(width.get(modes[i]) == h[1], "register", r + " width", "%s prints as %s (%d bytes) but has mode %s" % (
            r, gr[i], h[1], modenm.get(modes[i])))
        h9 = hwp9(pr[i], h[1])
        c.decide(h9 == h[0], "register", r + " plan9", "%s is %s for gas but %s for Plan 9" % (r, gr[i], pr[i]))
    seen = {}
    for i, h in hw.items():
        k = (h, modes[i])
        c.decide(k not in seen, "register", "distinct %s" % regs[i], "%s and %s print as the same register" % (regs[i], regs[seen.get(k, i)]))
        seen[k] = i
    c.decide([gm[E[m]] for m in ("ModeB", "ModeW", "ModeL", "ModeQ", "ModeF", "ModeD")] == ["b", "w", "l", "q", "s", "d"], "register", "gas suffixes",
             "gas operand-size suffixes are %s" % gm)
    c.decide([pm[E[m]] for m in ("ModeB", "ModeW", "ModeL", "ModeQ", "ModeF", "ModeD")] == ["B", "W", "L", "Q", "S", "D"], "register", "Plan 9 suffixes",
             "Plan 9 operand-size suffixes are %s" % pm)
    ms = ctab.table(ra, "modesize")
    want = {"ModeB": 1, "ModeW": 2, "ModeL": 4, "ModeQ": 8, "ModeF": 4, "ModeD": 8}
    for m, w in want.items():
        c.decide(ms[E[m]] == w, "register", "size of " + m, "%s is given %s bytes" % (m, ms[E[m]]))
    # --- alias rows
    rm, cm = ctab.table(ra, "regmap"), ctab.table(ra, "colourmap")
    inrow = {}
    rowhw = []
    for ri, row in enumerate(rm):
        hs = {hw[x][0] for x in row if x}
        c.decide(len(hs) == 1, "alias", "row %d" % ri, "clobber row %d mixes the registers %s" % (ri, sorted(hs)))
        for mode, x in enumerate(row):
            if not x:
                continue
            c.decide(modes[x] == mode, "alias", "row %d mode %s" % (ri, modenm.get(mode)), "clobber row %d lists %s under mode %s" % (ri, regs[x], modenm.get(mode)))
            inrow[x] = ri
        rowhw.append(hs)
        h = sorted(hs)[0] if hs else None
        c.decide(not [1 for q in rowhw[:-1] if q & hs], "alias", "row %d once" % ri, "hardware register %s has two clobber rows" % h)
        c.decide(h not in ("sp", "bp", "ip", "ah", "bh", "ch", "dh"), "alias", "row %d allocatable" % ri, "%s can be allocated" % h)
        wantm = ["ModeF", "ModeD"] if h and h.startswith("x") else ["ModeB", "ModeW", "ModeL", "ModeQ"]
        c.decide(all(row[E[m]] for m in wantm), "alias", "row %d complete" % ri, "clobber row of %s lacks a width" % h)
    for x, ri in inrow.items():
        got = cm[x] if x < len(cm) else 0
        c.decide(got == ri, "alias", "colour of " + regs[x], "%s (row %d) is mapped to clobber row %s (%s)" % (regs[x], ri, got, sorted(rowhw[got])))
    kk = ctab.table(ra, "_K")
    nint = len([1 for h in rowhw if not sorted(h)[0].startswith("x")])
    c.decide(kk[E["Classint"]] <= nint, "alias", "int colours", "%d integer colours are promised, %d exist" % (kk[E["Classint"]], nint))
    c.decide(kk[E["Classflt"]] <= len(rowhw) - nint, "alias", "float colours", "%d float colours are promised, %d exist" % (kk[E["Classflt"]], len(rowhw) - nint))
    cr = ctab.table(locs, "crtab", "coreg")
    for x in inrow:
        for m, nm in modenm.items():
            fl = nm in ("ModeF", "ModeD")
            if fl != hw[x][0].startswith("x"):
                continue
            y = cr[x][m] if x < len(cr) and isinstance(cr[x], list) and m < len(cr[x]) else 0
            c.decide(y and hw[y][0] == hw[x][0] and modes[y] == m, "alias", "%s as %s" % (regs[x], nm),
                     "%s viewed at %s becomes %s" % (regs[x], nm, regs[y] if y else "nothing"))
    # --- instructions
    def fixed(tab, i):
        e = tab[i]
        r = e[1] if isinstance(e, list) and len(e) > 1 and isinstance(e[1], list) else []
        return {hw[x][0] for x in r if x in hw}

    def opnds(tab, i):
        e = tab[i]
        l = e[0] if isinstance(e, list) and e and isinstance(e[0], list) else []
        out = []
        for x in l:
            if not x:
                break
            out.append(x)
        return set(out)

    def gaps(tab, i):
        for part in tab[i] if isinstance(tab[i], list) else []:
            if isinstance(part, list) and 0 in part and any(part[part.index(0):]):
                return True
        return False
    for op in ops:
        i = E[op]
        g, p = gf[i], pf[i]
        if op in ("Inone", "Imovt", "Ilbl", "Ifile", "Iloc", "Icomment") or not isinstance(g, str):
            continue
        gmn, gop, gk = fmt(g, "gas")
        pmn, pop, pk = fmt(p, "p9")
        if gmn.startswith("\t") or not gmn:
            continue
        G = gasmodel(gmn, len(gop))
        Pm = p9model(pmn, len(pop))
        if G is None or Pm is None:
            raise AnalysisBroken("%s prints as %r / %r, outside the instruction model" % (op, g.strip(), p.strip()))
        go, gs = G
        po, ps = Pm
        ind = "*" in g
        c.decide(go == po, "syntax", op, "%s is %s (%s) for gas but %s (%s) for Plan 9" % (op, g.split()[0], go, p.split()[0], po))
        if go in SIZING:
            c.decide(gs in SIZING[go], "syntax", op + " size", "%s takes its size from operand %s" % (op, gs))
            if go == po:
                c.decide(ps in SIZING[go], "syntax", op + " Plan 9 size", "%s takes its Plan 9 size from operand %s" % (op, ps))
        gorder = [int(x) for x in re.findall(r"<(\d)>", g and " ".join(gop))]
        porder = [int(x) for x in re.findall(r"<(\d)>", " ".join(pop))]
        wantp = list(reversed(gorder)) if go == "cmp" else gorder
        c.decide(gorder == sorted(gorder), "syntax", op + " operand order", "%s prints its operands in the order %s" % (op, gorder))
        c.decide(porder == wantp, "syntax", op + " Plan 9 operand order", "%s prints its Plan 9 operands in the order %s, gas %s" % (op, porder, gorder))
        c.decide(("*" in g) == ("*" in p), "syntax", op + " indirection", "%s is indirect in one syntax only" % op)
        r, w, fr, fw = EFF[go]
        if ind:
            fr = fr | {"ax"}
        c.decide(r <= opnds(use, i), "effects", op + " reads", "%s reads operand(s) %s, the allocator is told %s" % (op, sorted(r), sorted(opnds(use, i))))
        c.decide(w <= opnds(dfn, i), "effects", op + " writes", "%s writes operand(s) %s, the allocator is told %s" % (op, sorted(w), sorted(opnds(dfn, i))))
        c.decide(opnds(dfn, i) <= w, "effects", op + " overwrites nothing else", "%s is said to overwrite operand(s) %s but leaves them alone" % (op, sorted(opnds(dfn, i) - w)))
        c.decide(fr <= fixed(use, i), "effects", op + " fixed reads", "%s reads %s, which the allocator is not told about" % (op, sorted(fr - fixed(use, i))))
        c.decide(fw <= fixed(dfn, i), "effects", op + " fixed writes", "%s writes %s, which the allocator is not told about" % (op, sorted(fw - fixed(dfn, i))))
        for nm, tab in (("use", use), ("def", dfn)):
            c.decide(not gaps(tab, i), "effects", op + " %s list" % nm, "the %s list of %s has a hole, so its tail is ignored" % (nm, op))
    collected(c)
    elided(c)
    c.need("register", 250)
    c.need("alias", 250)
    c.need("effects", 380)
    c.need("syntax", 200)
    c.need("collected", 8)
    c.need("elided", 4)


def collected(c):
    """uses()/defs() hand the allocator every register the tables and the operands name"""
    P = Program(["6/ra.c"])
    E = P.enums
    for fn, tab in (("uses", "usetab"), ("defs", "deftab")):
        it = Interp(P, {}, maxdepth=6, pure=("isfixreg",))
        it.inline = set(P.tus[0].funcs) - {"isfixreg"}
        it.logwrites = True
        it.unroll = 0
        c.unit("6/ra.c:" + fn)
        seen = set()
        for s, ret in it.run(fn, [("insn",), ("out",)]):
            s, ret = canon(s, ret)
            for e in loops(s.events):
                memtype = {k for b in e[3] for k, v in b[-1][1] if fldof(k, "type") and v in (E["Locmem"], E["Locmeml"])}
                for b in e[3]:
                    if any(x[0] == "dead" for x in b):
                        continue
                    if fn == "uses" and memtype and not any(k in memtype for k, v in b[-1][1]):
                        left = [m for m in ("Locmem", "Locmeml") if not any(k in memtype and E[m] in v for k, v in b[-1][2])]
                        c.decide(not left, "collected", "uses mem kinds", "uses() passes over %s operands" % " ".join(left))
                    cons = b[-1]
                    eq = dict(cons[1])
                    ne = {k: set(v) for k, v in cons[2]}
                    stored = [x[2] for x in b if x[0] == "store"]
                    for part in ("l", "r"):
                        ent = [k for k in list(eq) + list(ne) if entry(k, tab, part)]
                        if not ent:
                            continue
                        seen.add(part)
                        if any(eq.get(k) == 0 for k in ent):
                            continue
                        isreg = [k for k in eq if fldof(k, "type") and eq[k] == E["Locreg"]]
                        free = [k for k in eq if k[0] == "call" and k[1] == "isfixreg" and eq[k] == 0]
                        notreg = [k for k in ne if fldof(k, "type") and E["Locreg"] in ne[k]]
                        if part == "l" and (notreg or not free or not isreg):
                            fixedr = [k for k in ne if k[0] == "call" and k[1] == "isfixreg" and 0 in ne[k]]
                            c.decide(notreg or fixedr, "collected", "%s operand skipped" % fn,
                                     "%s can skip a register operand that %s lists" % (fn, tab))
                            continue
                        c.decide(any(contains(v, ent[0]) and regid(v) for v in stored), "collected", "%s %s" % (fn, part),
                                 "%s does not report a register that %s.%s lists" % (fn, tab, part))
                    if fn == "uses":
                        mem = [k for k in eq if fldof(k, "type") and eq[k] in (E["Locmem"], E["Locmeml"])]
                        if not mem:
                            continue
                        seen.add("mem")
                        for f in ("base", "idx"):
                            if any(fldof(k, f) and eq[k] == 0 for k in eq):
                                continue
                            if any(k[0] == "call" and k[1] == "isfixreg" and 0 in ne[k] for k in ne):
                                continue
                            c.decide(any(regid(v) and fldof(v[1][1][1], f) for v in stored), "collected", "uses mem.%s %s" % (f, eq[mem[0]]),
                                     "uses() can leave out the %s register of a memory operand" % f)
                n = e[2]
                if isinstance(n, int):
                    pass
        for part in ("l", "r") + (("mem",) if fn == "uses" else ()):
            c.decide(part in seen, "collected", "%s scans %s" % (fn, part), "%s never looks at %s" % (fn, {"mem": "memory operands"}.get(part, tab + "." + part)))


def loops(evs):
    for e in evs:
        if e[0] in ("loop", "loop-exit"):
            yield e
            for b in e[3]:
                yield from loops(b)


def entry(k, tab, part):
    """k is the value tab[op].part[i]"""
    return isinstance(k, tuple) and k[0] == "ld" and k[1][0] == "idx" and isinstance(k[1][1], tuple) and k[1][1][0] == "fld" and k[1][1][2] == part \
        and contains(k, ("glob", tab))


def fldof(k, f):
    return isinstance(k, tuple) and k[0] == "ld" and isinstance(k[1], tuple) and k[1][0] == "fld" and k[1][2] == f


def regid(v):
    return isinstance(v, tuple) and v[0] == "ld" and v[1][0] == "fld" and v[1][2] == "id" and isinstance(v[1][1], tuple) and v[1][1][0] == "fld" and v[1][1][2] == "reg"


def contains(t, x):
    return t == x or (isinstance(t, tuple) and any(contains(y, x) for y in t))


def elided(c):
    """an instruction is only left unprinted when it moves a register onto itself"""
    for rel in ("6/gengas.c", "6/genp9.c"):
        P = Program([rel, "6/locs.c", "6/ra.c"])
        E = P.enums
        out = {}

        def pr(it, s, av, n, ctx):
            s.events.append(("print", n.loc()))
            return [(s, 0)]
        it = Interp(P, {k: pr for k in ("fputc", "fputs", "fprintf", "locprint", "putc")}, maxdepth=6, pure=("dumbmov", "issubreg", "coreg", "isfloatmode", "strtol", "isdigit"))
        own = set(P.tus[0].funcs)
        it.inline = own - {"locprint"}
        it.unroll = 0
        it.gotocut = 4
        c.unit(rel + ":iprintf")
        opk = ("ld", ("fld", ("insn",), "op"))
        n = 0
        for s, _ in it.run("iprintf", [("fd",), ("insn",)], rel=rel.split("/")[1]):
            if any(e[0] == "noreturn" for e in s.events):
                continue
            if any(e[0] in ("print", "loop", "loop-exit") for e in s.events):
                continue
            n += 1
            op = s.eq.get(opk)
            nm = [k for k in ("Imov", "Imovs") if E[k] == op]
            c.decide(bool(nm), "elided", "%s op" % rel, "%s leaves out an instruction that is not a plain move (%s)" % (
                rel, next((k for k, v in E.items() if v == op and k.startswith("I")), "any operation")))
            dm = [k for k in s.ne if k[0] == "call" and k[1] == "dumbmov" and 0 in s.ne[k]]
            c.decide(bool(dm), "elided", "%s %s same register" % (rel, nm and nm[0]), "%s leaves out a move without establishing that both operands are one register" % rel)
        if n == 0:
            c.ok("elided", rel + ": nothing is left out")
            c.ok("elided", rel + ": nothing is left out (2)")
    P = Program(["6/ra.c"])
    E = P.enums
    it = Interp(P, {}, pure=())
    it.inline = set()
    a, b = ("A",), ("B",)
    ca, cb = ("ld", ("fld", ("fld", a, "reg"), "colour")), ("ld", ("fld", ("fld", b, "reg"), "colour"))
    c.unit("6/ra.c:dumbmov")
    for s, v in it.run("dumbmov", [a, b]):
        if v == 0:
            continue
        t = ("ld", ("fld", a, "type")), ("ld", ("fld", b, "type"))
        both = all(s.eq.get(x) == E["Locreg"] for x in t)
        samecol = v in (("bin", "==", ca, cb), ("bin", "==", cb, ca)) or s.assume.get(("bin", "==", ca, cb)) is True or s.assume.get(("bin", "==", cb, ca)) is True \
            or s.assume.get(("bin", "!=", ca, cb)) is False or s.assume.get(("bin", "!=", cb, ca)) is False
        c.decide(both and samecol, "elided", "dumbmov", "a move can count as redundant without both operands being the same register")


report.run("C03", "the use/def tables, format tables of both assembler syntaxes, register names, width-alias and clobber tables are read from the "
           "syntax tree and compared entry by entry with the x86-64 effect of the mnemonic they print; uses()/defs() report every register named; "
           "an instruction is left unprinted only on paths that establish a move of one register to itself", check,
           ["the x86-64 and Plan 9 mnemonic model is the one in this file"])
