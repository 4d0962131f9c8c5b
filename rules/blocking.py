"""C14: blocking engine requests are issued from worker threads, never directly from a coroutine."""
import ast
import glob
import os
from sa.dom import *
from sa.prog import REPO
from sa.wire import WireWorld
from . import settle as S

FIXED = S.FIXED
LOGGING = {"Log"}


class RealFeatures(WireWorld):
    """feature queries reach the engine too"""

    def __init__(self, src="", **kw):
        super().__init__(src, **kw)
        self.e.models.pop("pulumi.runtime.settings.monitor_supports_feature", None)

    def resp_SupportsFeature(self, e, st, node):
        return self.msg(e, st, node, "SupportsFeature", hasSupport=V(Sym("hasSupport", "bool", frozenset())))


def request_methods():
    """the methods of every generated client stub"""
    out = {}
    for f in glob.glob(os.path.join(REPO, "sdk/python/lib/pulumi/runtime/proto/*_pb2_grpc.py")):
        for c in ast.walk(ast.parse(open(f, encoding="utf-8").read())):
            if isinstance(c, ast.ClassDef) and c.name.endswith("Stub"):
                for x in ast.walk(c):
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, ast.Call):
                        out[x.targets[0].attr] = c.name[:-4]
    return out


def enclosing(prog, node):
    while True:
        node = prog.parent.get(node)
        if node is None or isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return node


def c14(ctx):
    ctx.explanation = ("Every kind of engine request (and the feature queries before it) is followed from the public entry point to the stub call; the call must "
                       "happen inside a function handed to a worker thread. Stub call sites no scenario reaches are traced back through their callers.")
    cases, src = [], [S.HARNESS]
    for op, (expr, outs, method, field, base, anchor) in S.OPS.items():
        e = expr.replace("PROPS", S.OK_PROPS).replace("ID", 'vx.val("theid")').replace("OPTS", 'depends_on=[vx.res("dep", "CustomResource")]')
        src.append(f"def x{len(cases)}():\n    setup()\n    return [{e}]\n")
        cases.append((op, method, field, base, anchor))
    src.append(f"def x{len(cases)}():\n    setup()\n    return pulumi.runtime.invoke('pkg:mod:fn', {{'p': vx.val('a')}})\n")
    cases.append(("invoke", "Invoke", "return", "ans", "pulumi.runtime.invoke.invoke"))
    src.append(f"def x{len(cases)}():\n    setup()\n    vx.res('comp', 'ComponentResource').register_outputs({{'p': vx.out('a')}})\n")
    cases.append(("register_outputs", "RegisterResourceOutputs", None, None, "pulumi.runtime.resource.register_resource_outputs"))
    text = "\n".join(src)
    reached = {}

    def run(i, dry):
        op, method, field, base, anchor = cases[i]
        w = ctx.world(text, lambda s: RealFeatures(s, fixed={"dry_run": dry}))
        for n in ("a", "dep"):
            w.st.facts[(n + ".known", "truth")] = True
        if field:
            w.answer_with(method, field, base)
        w.run(f"x{i}")
        ctx.absorb(w)
        return w.rpcs

    def go(i, dry):
        op, method, field, base, anchor = cases[i]
        seen = False
        for m, s, req, depth, node in run(i, dry):
            seen = seen or m == method
            ctx.ob(depth > 0, "worker-thread", f"{op}:{m}", ctx.loc(node), "the blocking request is issued on the event loop's thread")
        if not seen:
            ctx.ob(None, "worker-thread", f"{op}:{method}", ctx.at(anchor), "the request was not reached")

    for i in range(len(cases)):
        for dry in (False, True):
            ctx.scenario("worker-thread", f"{cases[i][0]}({'preview' if dry else 'update'})", ctx.at(cases[i][4]), lambda i=i, dry=dry: go(i, dry))
    # every stub call site in the package
    prog = ctx.prog
    methods = request_methods()
    for name, m in sorted(prog.mods.items()):
        if not name.startswith("pulumi") or "_pb2" in name or name.startswith("pulumi.automation"):
            continue
        for call in ast.walk(m.tree):
            if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in methods and call.func.attr not in LOGGING:
                if not isinstance(call.func.value, (ast.Name, ast.Attribute, ast.Call)):
                    continue
                bad = on_loop(prog, m, call, set())
                ctx.ob(not bad, "call-site", f"{prog.qualname(call)}:{call.func.attr}", ctx.loc(call), f"called directly from the coroutine {bad}")
    ctx.notes.append(f"{len(methods)} request methods")


def on_loop(prog, m, node, seen):
    """the coroutine that would run this expression on the loop's thread, if there is one"""
    fn = enclosing(prog, node)
    if fn is None or fn in seen:
        return None
    seen.add(fn)
    if isinstance(fn, ast.AsyncFunctionDef):
        return fn.name
    if isinstance(fn, ast.Lambda):
        p = prog.parent.get(fn)
        if isinstance(p, ast.Call) and p.func is fn:
            return on_loop(prog, m, p, seen)
        return None
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fn.name and visible(prog, fn, x):
            r = on_loop(prog, m, x, seen)
            if r:
                return r
    return None


def visible(prog, fn, at):
    """fn is the definition its plain name means at `at`"""
    home = enclosing(prog, fn)
    if isinstance(prog.parent.get(fn), ast.ClassDef):
        return False
    p = at
    while p is not None:
        p = enclosing(prog, p)
        if p is home:
            return True
        if p is not None and any(isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef)) and y.name == fn.name for b in (p.body if isinstance(p.body, list) else ()) for y in ast.walk(b)):
            return False
    return home is None
