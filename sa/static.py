"""Syntactic helpers for whole-package rules: what a name means, what an expression can be, who calls a function."""
import ast
from .prog import AnchorMissing

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def enclosing(prog, node):
    while True:
        node = prog.parent.get(node)
        if node is None or isinstance(node, FUNCS + (ast.Lambda,)):
            return node


def own(fn):
    """the nodes of a function, not those of functions nested in it"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))


def local_import(fn, name):
    for x in ast.walk(fn) if fn else ():
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                if (a.asname or a.name.split(".")[0]) == name:
                    return x, a
    return None


def dotted(prog, mod, expr):
    """the dotted name of what `expr` refers to, or None"""
    if isinstance(expr, ast.Attribute):
        b = dotted(prog, mod, expr.value)
        if b is None:
            return None
        if b in prog.mods:
            return norm(prog, prog.resolve(b, expr.attr)) or f"{b}.{expr.attr}"
        return f"{b}.{expr.attr}"
    if isinstance(expr, ast.Name):
        fn = enclosing(prog, expr)
        while fn is not None:
            r = local_import(fn, expr.id)
            if r:
                x, a = r
                if isinstance(x, ast.Import):
                    return a.name if a.asname else a.name.split(".")[0]
                base = x.module or ""
                if x.level:
                    base = mod.package(x.level) + ("." + base if base else "")
                return f"{base}.{a.name}"
            if expr.id in params(fn) or assigned(fn, expr.id):
                return None
            fn = enclosing(prog, fn)
        return norm(prog, prog.resolve(mod.name, expr.id))
    return None


def norm(prog, r):
    if not r:
        return None
    if r[0] in ("mod", "ext"):
        return r[1]
    k, m, node = r
    nm = getattr(node, "name", None)
    return f"{m.name}.{nm}" if nm else None


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def assigned(fn, name):
    """the expressions a local name is assigned (None for one that cannot be told)"""
    out = []
    if isinstance(fn, ast.Lambda):
        return out
    for x in own(fn):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(x.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)):
                    out.append(None)
        elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name) and x.target.id == name and x.value is not None:
            out.append(x.value)
        elif isinstance(x, (ast.For, ast.AsyncFor)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
            out.append(None)
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                if i.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(i.optional_vars)):
                    out.append(i.context_expr)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
            out.append(None)
    return out


def leaves(prog, mod, expr, depth=8):
    """the expressions an expression can stand for: [(module, expr or None)]"""
    if expr is None or depth == 0:
        return [(mod, None)]
    if isinstance(expr, ast.IfExp):
        return leaves(prog, mod, expr.body, depth - 1) + leaves(prog, mod, expr.orelse, depth - 1)
    if isinstance(expr, ast.BoolOp):
        return [y for x in expr.values for y in leaves(prog, mod, x, depth - 1)]
    if isinstance(expr, ast.Name):
        fn = enclosing(prog, expr)
        while fn is not None:
            vs = assigned(fn, expr.id)
            if vs:
                return [y for x in vs for y in leaves(prog, mod, x, depth - 1)]
            if expr.id in params(fn):
                return param_leaves(prog, mod, fn, expr.id, depth - 1)
            fn = enclosing(prog, fn)
        r = prog.resolve(mod.name, expr.id)
        if r and r[0] == "assign":
            v = getattr(r[2], "value", None)
            return leaves(prog, r[1], v, depth - 1) if v is not None else [(mod, expr)]
    return [(mod, expr)]


def callers(prog, fn):
    """calls that name this module-level function or method: [(module, call)] (by name; methods by attribute)"""
    out = []
    meth = isinstance(prog.parent.get(fn), ast.ClassDef)
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                f = x.func
                if meth and isinstance(f, ast.Attribute) and f.attr == fn.name:
                    out.append((m, x))
                elif not meth and isinstance(f, (ast.Name, ast.Attribute)) and (f.id if isinstance(f, ast.Name) else f.attr) == fn.name:
                    out.append((m, x))
    return out


def argument(fn, call, name, method=False):
    """the expression bound to a parameter at a call; None if it cannot be told; 'default' node if omitted"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
        if k.arg is None:
            return None
    ps = [x.arg for x in fn.args.posonlyargs + fn.args.args]
    if method and ps:
        ps = ps[1:]
    if name in ps:
        i = ps.index(name)
        if any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return None
        if i < len(call.args):
            return call.args[i]
    d = fn.args.defaults
    allp = fn.args.posonlyargs + fn.args.args
    for p, v in zip(allp[len(allp) - len(d):], d):
        if p.arg == name:
            return v
    for p, v in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
        if p.arg == name:
            return v
    return None


def param_leaves(prog, mod, fn, name, depth):
    if isinstance(fn, ast.Lambda) or depth <= 0:
        return [(mod, None)]
    meth = isinstance(prog.parent.get(fn), ast.ClassDef)
    cs = callers(prog, fn)
    if not cs:
        return [(mod, None)]
    out = []
    for m, c in cs:
        out += leaves(prog, m, argument(fn, c, name, meth), depth - 1)
    return out
