"""C front end: the type-checked clang AST of /repo's C sources as light Python
objects, plus a constant evaluator and a call index.  Nothing here runs repo code."""
import json, os, subprocess, sys, tempfile, shutil, atexit

REPO = os.environ.get("VP_REPO", "/repo")
INCS = ["", "util", "parse", "mi", "6"]


class AnalysisBroken(Exception):
    """an anchor vanished or a construct is outside the analysed fragment"""


class Endless(AnalysisBroken):
    """recursion deeper than the input can call for"""
    pass


class N:
    __slots__ = ("kind", "kids", "line", "file", "type", "name", "value", "op",
                 "ref", "refkind", "refid", "id", "cast", "member", "arrow", "postfix",
                 "parent", "storage", "declid", "haselse", "prev", "ctype", "argtype", "init")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kids = []

    def __repr__(self):
        return "<%s %s:%s %s>" % (self.kind, self.file, self.line, self.name or self.ref or self.op or self.value or "")

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids))

    def find(self, *kinds):
        for n in self.walk():
            if n.kind in kinds:
                yield n

    def loc(self):
        return "%s:%s" % (os.path.relpath(self.file, REPO) if self.file else "?", self.line)


class _Pos:
    file = None
    line = None


def _updloc(loc, pos):
    """clang omits file/line when unchanged since the last printed location"""
    if not loc:
        return None
    if "spellingLoc" in loc or "expansionLoc" in loc:
        r = None
        for k, v in loc.items():
            if k == "spellingLoc":
                _updloc(v, pos)
            elif k == "expansionLoc":
                r = _updloc(v, pos)
        return r
    if "file" in loc:
        pos.file = loc["file"]
    if "line" in loc:
        pos.line = loc["line"]
    if "offset" in loc or "line" in loc:
        return (pos.file, pos.line)
    return None


def _conv(d, pos, parent):
    n = N()
    n.parent = parent
    n.kind = d.get("kind", "Null")
    here = None
    for k, v in d.items():
        if k == "loc":
            here = _updloc(v, pos) or here
        elif k == "range":
            b = _updloc(v.get("begin"), pos)
            here = here or b
            _updloc(v.get("end"), pos)
        elif k == "id":
            n.id = v
        elif k == "name":
            n.name = v
        elif k == "value":
            n.value = v
        elif k == "opcode":
            n.op = v
        elif k == "type":
            n.type = v.get("qualType")
            n.ctype = v.get("desugaredQualType", n.type)
        elif k == "argType":
            n.argtype = v.get("qualType")
        elif k == "castKind":
            n.cast = v
        elif k == "isArrow":
            n.arrow = v
        elif k == "isPostfix":
            n.postfix = v
        elif k == "storageClass":
            n.storage = v
        elif k == "hasElse":
            n.haselse = v
        elif k == "previousDecl":
            n.prev = v
        elif k == "tagUsed":
            n.op = v
        elif k == "init":
            n.init = v
        elif k == "referencedDecl":
            n.ref = v.get("name")
            n.refkind = v.get("kind")
            n.refid = v.get("id")
        elif k == "referencedMemberDecl":
            n.refid = v
        elif k in ("declId", "targetLabelDeclId"):
            n.declid = v
        elif k == "inner" or k == "array_filler":
            pass
    if here:
        n.file, n.line = here
    elif parent is not None:
        n.file, n.line = parent.file, parent.line
    if "array_filler" in d:
        kids = d["array_filler"][1:]
    else:
        kids = d.get("inner", [])
    for k in kids:
        if isinstance(k, dict):
            n.kids.append(_conv(k, pos, n))
    return n


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vsa-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_gram = None


def gramdir():
    """bison output for the current gram.y, built outside /repo"""
    global _gram
    if _gram is None:
        d = os.path.join(tmpdir(), "gram")
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["bison", "-y", "-d", "-o", os.path.join(d, "gram.c"),
                            os.path.join(REPO, "parse/gram.y")], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("bison failed: " + r.stderr[:500])
        cfg = os.path.join(REPO, "config.h")
        if not os.path.exists(cfg):
            with open(os.path.join(d, "config.h"), "w") as f:
                f.write('#define Instroot "/usr/local"\n#define Asmcmd {"as", "-g", "-o", NULL}\n'
                        '#define Defaultasm Gnugaself\n#define Symprefix ""\n')
        _gram = d
    return _gram


def cflags():
    g = gramdir()
    fl = ["-I" + g]
    for i in INCS:
        fl.append("-I" + os.path.join(REPO, i))
    return fl


class TU:
    def __init__(self, path):
        self.path = path
        src = path
        if path.endswith("parse/gram.c"):
            src = os.path.join(gramdir(), "gram.c")
        cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] + cflags() + [src]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode != 0:
            raise AnalysisBroken("clang rejects %s: %s" % (path, r.stderr.decode()[:400]))
        d = json.loads(r.stdout)
        pos = _Pos()
        pos.file = src
        self.root = N()
        self.root.kind = "TranslationUnitDecl"
        self.enums = {}
        self.enumtypes = {}   # type name -> [enumerators]
        self.records = {}
        self.funcs = {}
        self.protos = {}
        self.globals = {}
        self.byid = {}
        self.typedefs = {}
        for x in d.get("inner", []):
            n = _conv(x, pos, self.root)
            self.root.kids.append(n)
            if n.kind == "EnumDecl":
                v = -1
                names = []
                for e in n.kids:
                    if e.kind != "EnumConstantDecl":
                        continue
                    v = v + 1
                    for k in e.kids:
                        cv = self.const(k)
                        if cv is not None:
                            v = cv
                    self.enums[e.name] = v
                    self.byid[e.id] = v
                    names.append(e.name)
                self.enumtypes[n.name or ("anon@%s:%s" % (n.file, n.line))] = names
                n.value = names
            elif n.kind == "TypedefDecl":
                self.typedefs[n.name] = n.type
            elif n.kind == "RecordDecl" and n.kids:
                self.records[n.name or n.id] = n
            elif n.kind == "FunctionDecl":
                if any(k.kind == "CompoundStmt" for k in n.kids):
                    self.funcs[n.name] = n
                else:
                    self.protos.setdefault(n.name, n)
            elif n.kind == "VarDecl":
                if n.name not in self.globals or n.init:
                    self.globals[n.name] = n

        for r in self.root.find("RecordDecl"):
            if r.kids and r.line and "@%d" % r.line not in self.records:
                self.records["@%d" % r.line] = r

    # -- constant evaluation ------------------------------------------------
    def const(self, n):
        k = n.kind
        if k == "IntegerLiteral":
            return int(n.value)
        if k == "CharacterLiteral":
            return int(n.value)
        if k == "ConstantExpr":
            if n.value is not None:
                try:
                    return int(n.value)
                except ValueError:
                    pass
            return self.const(n.kids[0])
        if k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
            v = self.const(n.kids[-1]) if n.kids else None
            return v
        if k == "DeclRefExpr" and n.refkind == "EnumConstantDecl":
            return self.enums.get(n.ref)
        if k == "UnaryOperator" and n.kids:
            v = self.const(n.kids[0])
            if v is None:
                return None
            return {"-": lambda: -v, "~": lambda: ~v, "+": lambda: v, "!": lambda: int(not v)}.get(n.op, lambda: None)()
        if k == "BinaryOperator" and len(n.kids) == 2:
            a, b = self.const(n.kids[0]), self.const(n.kids[1])
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b,
                        "%": lambda: a % b, "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b,
                        "&": lambda: a & b, "^": lambda: a ^ b}.get(n.op, lambda: None)()
            except (ZeroDivisionError, ValueError):
                return None
        return None


_tus = {}


def tu(rel):
    if rel not in _tus:
        p = os.path.join(REPO, rel)
        if not p.endswith("gram.c") and not os.path.exists(p):
            raise AnalysisBroken("missing source " + rel)
        _tus[rel] = TU(p)
    return _tus[rel]


def c_sources(*dirs):
    out = []
    for d in dirs or ("util", "parse", "mi", "6", "muse"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and f not in ("gram.c", "bootstrap.c", "match_test.c"):
                out.append(d + "/" + f)
        if d == "parse":
            out.append("parse/gram.c")
    return out


def _load_one(rel):
    return rel


def tus(rels):
    return [tu(r) for r in rels]


# -- expression helpers -----------------------------------------------------
def strip(n):
    """drop parens and casts"""
    while n is not None and n.kind in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr", "ExprWithCleanups") and n.kids:
        n = n.kids[-1]
    return n


def callee(n):
    """name of a directly called function, or None"""
    if n.kind != "CallExpr" or not n.kids:
        return None
    f = strip(n.kids[0])
    if f.kind == "DeclRefExpr" and f.refkind == "FunctionDecl":
        return f.ref
    return None


def args(n):
    return n.kids[1:]


def calls(n, name=None):
    for c in n.find("CallExpr"):
        cn = callee(c)
        if name is None or cn == name:
            yield c


def body(fn):
    for k in fn.kids:
        if k.kind == "CompoundStmt":
            return k
    return None


def params(fn):
    return [k for k in fn.kids if k.kind == "ParmVarDecl"]


def show(n, depth=0):
    """compact rendering of an expression, for reports and for structural keys"""
    n = strip(n)
    if n is None:
        return "?"
    k = n.kind
    if k == "DeclRefExpr":
        return n.ref or "?"
    if k == "MemberExpr":
        b = show(n.kids[0]) if n.kids else "?"
        return b + ("->" if n.arrow else ".") + (n.name or "")
    if k in ("IntegerLiteral", "CharacterLiteral", "FloatingLiteral"):
        return str(n.value)
    if k == "StringLiteral":
        return n.value or '""'
    if k == "CallExpr":
        return "%s(%s)" % (show(n.kids[0]), ", ".join(show(a) for a in n.kids[1:]))
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(%s %s %s)" % (show(n.kids[0]), n.op, show(n.kids[1]))
    if k == "UnaryOperator":
        return (show(n.kids[0]) + n.op) if n.postfix else (n.op + show(n.kids[0]))
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (show(n.kids[0]), show(n.kids[1]))
    if k == "ConditionalOperator":
        return "(%s ? %s : %s)" % tuple(show(x) for x in n.kids[:3])
    if k == "UnaryExprOrTypeTraitExpr":
        return "%s(%s)" % (n.name or "sizeof", n.argtype or (show(n.kids[0]) if n.kids else ""))
    if k == "InitListExpr":
        return "{%s}" % ", ".join(show(x) for x in n.kids)
    if k == "ImplicitValueInitExpr":
        return "0"
    return k + ("(%s)" % ", ".join(show(x) for x in n.kids) if n.kids else "")


def dump(n, ind=0, out=None):
    out = out if out is not None else sys.stdout
    out.write("%s%s %s %s %s %s\n" % ("  " * ind, n.kind, n.name or "", n.ref or "", n.op or "", n.value if n.value is not None else ""))
    for k in n.kids:
        dump(k, ind + 1, out)


def enclosing_function(n):
    while n is not None and n.kind != "FunctionDecl":
        n = n.parent
    return n
