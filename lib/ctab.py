"""constant tables of C sources as python values"""
from ccast import AnalysisBroken, strip, body


def unq(s):
    import ast
    try:
        return ast.literal_eval(s)
    except Exception:
        return s.strip('"')


def val(t, n):
    x = strip(n)
    if x.kind == "InitListExpr":
        return [val(t, k) for k in x.kids]
    if x.kind == "StringLiteral":
        return unq(x.value)
    if x.kind == "ImplicitValueInitExpr":
        return 0
    if x.kind == "DeclRefExpr" and x.refkind == "FunctionDecl":
        return ("fn", x.ref)
    if x.kind == "CompoundLiteralExpr":
        return val(t, x.kids[0])
    c = t.const(n)
    if c is not None:
        return c
    if x.kind == "UnaryOperator" and x.op == "&":
        return ("&", strip(x.kids[0]).ref)
    if x.kind == "DeclRefExpr":
        return ("ref", x.ref)
    return ("?", x.kind)


def table(t, name, fn=None):
    """initialiser of a global (or of a local of function fn)"""
    if fn is not None:
        for v in t.funcs[fn].find("VarDecl"):
            if v.name == name or name is None and v.init and strip(v.kids[-1]).kind == "InitListExpr":
                return val(t, v.kids[-1])
    g = t.globals.get(name)
    if g is None or not g.init:
        raise AnalysisBroken("table %s not found in %s" % (name, t.path))
    return val(t, g.kids[-1])
