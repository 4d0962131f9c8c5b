"""C12: whatever goes wrong inside an operation, every output it handed out settles."""
import ast
from sa.dom import *
from sa.wire import WireWorld
from .combinators import excname
from . import inbound as I

FIXED = {"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True, "dry_run": False}
HARNESS = I.HARNESS + '''
def bad(n):
    o = vx.out(n)
    f = asyncio.Future()
    f.set_exception(Exception("boom"))
    return Output(o._resources, f, o._is_known, o._is_secret)
def worse(n):
    o = vx.out(n)
    def f():
        x = asyncio.Future()
        x.set_exception(Exception("boom"))
        return x
    return Output(o._resources, f(), f(), f())
async def afail(): raise Exception("boom")
def badres(n):
    r = vx.res(n, "CustomResource")
    r.__dict__["urn"] = worse(n)
    r.__dict__["id"] = worse(n)
    return r
def badprov(n):
    r = vx.res(n, "ProviderResource")
    r.__dict__["urn"] = worse(n)
    r.__dict__["id"] = worse(n)
    return r
def cb_raise(v): raise Exception("boom")
def cb_badout(v): return bad("inner")
def cb_worse(v): return worse("inner")
def cb_await(v): return afail()
def outs(r): return [r.urn, r.id, r.p, r.q]
def outs_c(r): return [r.urn, r.p, r.q]
def ans(): return vx.struct({"p": vx.val("v1"), "q": vx.val("v2")})
def nest(): return vx.struct({"urn": "urn", "id": "id", "state": {"p": vx.val("v1"), "q": vx.val("v2")}})
BADSIG = {SIGK: "no such signature"}
def ans_badsig(): return vx.struct({"p": BADSIG, "q": vx.val("v2")})
def nest_badsig(): return vx.struct({"urn": "urn", "id": "id", "state": {"p": BADSIG, "q": vx.val("v2")}})
def ans_badasset(): return vx.struct({"p": {SIGK: vx.sig("AssetSig")}, "q": vx.val("v2")})
def nest_badasset(): return vx.struct({"urn": "urn", "id": "id", "state": {"p": {SIGK: vx.sig("AssetSig")}, "q": vx.val("v2")}})
def ans_less(): return vx.struct({"q": vx.val("v2")})
def nest_less(): return vx.struct({"urn": "urn", "id": "id", "state": {"q": vx.val("v2")}})
def ans_empty(): return vx.struct({})
def nest_empty(): return vx.struct({"urn": "urn", "id": "id", "state": {}})
def ans_more(): return vx.struct({"p": None, "zz": vx.val("v2")})
def nest_more(): return vx.struct({"urn": "urn", "id": "id", "state": {"p": None, "zz": vx.val("v2")}})
def nest_nostate(): return vx.struct({"urn": "urn", "id": "id"})
'''
OPS = {  # operation: (construction, the outputs it hands out, method, answer field, answers)
    "register": ('Cust("n", PROPS, ResourceOptions(OPTS))', "outs", "RegisterResource", "object", "ans", "pulumi.runtime.resource.register_resource"),
    "register-component": ('Comp("n", PROPS, ResourceOptions(OPTS))', "outs_c", "RegisterResource", "object", "ans", "pulumi.runtime.resource.register_resource"),
    "register-remote": ('Comp("n", PROPS, ResourceOptions(OPTS), True)', "outs_c", "RegisterResource", "object", "ans", "pulumi.runtime.resource.register_resource"),
    "read": ('Cust("n", PROPS, ResourceOptions(id=ID, OPTS))', "outs", "ReadResource", "properties", "ans", "pulumi.runtime.resource.read_resource"),
    "get": ('Cust("n", PROPS, ResourceOptions(urn="urn:pulumi:stack::proj::pkg:mod:T::n"))', "outs", "Invoke", "return", "nest", "pulumi.runtime.resource.get_resource"),
    "call": ('pulumi.runtime.call("pkg:mod:fn", PROPS)', "", "Call", "return", "ans", "pulumi.runtime.invoke.call"),
    "call-on": ('pulumi.runtime.call("pkg:mod:fn", PROPS, vx.res("self", "CustomResource"), Ret)', "", "Call", "return", "ans", "pulumi.runtime.invoke.call"),
}
OK_PROPS = '{"p": vx.out("a"), "q": vx.val("v3")}'
BAD_PROPS = [("input-fails", '{"p": bad("a"), "q": vx.val("v3")}'), ("input-flags-fail", '{"p": [worse("a")], "q": vx.val("v3")}'),
             ("awaitable-fails", '{"p": {"k": afail()}, "q": vx.val("v3")}'), ("unserializable", '{"p": {"k": Stub()}, "q": vx.val("v3")}'),
             ("bad-resource", '{"p": badres("br"), "q": vx.val("v3")}')]
BAD_OPTS = [("parent-fails", 'parent=badres("par")'), ("dependency-fails", 'depends_on=[badres("dep")]'), ("depends-on-output-fails", 'depends_on=bad("deps")'),
            ("provider-fails", 'provider=badprov("prov")'), ("alias-fails", 'aliases=[bad("al")]'), ("timeouts-malformed", "custom_timeouts=7")]
APPLY = [
    ("callback-raises", 'vx.out("a").apply(cb_raise)'), ("callback-output-fails", 'vx.out("a").apply(cb_badout)'), ("callback-output-flags-fail", 'vx.out("a").apply(cb_worse)'),
    ("callback-awaitable-fails", 'vx.out("a").apply(cb_await)'), ("input-fails", 'bad("a").apply(lambda v: v)'), ("input-flags-fail", 'worse("a").apply(lambda v: v)'),
    ("all-one-fails", 'Output.all(vx.out("a"), bad("b"))'), ("all-named-one-fails", 'Output.all(x=vx.out("a"), y=worse("b"))'), ("all-awaitable-fails", 'Output.all(vx.out("a"), afail())'),
    ("from-input-awaitable", "Output.from_input(afail())"), ("from-input-nested", 'Output.from_input({"k": [bad("a")]})'), ("secret-of-failing", 'Output.secret(bad("a"))'),
    ("secret-of-awaitable", 'Output.secret(afail())'), ("concat-fails", 'Output.concat("x", bad("a"))'), ("index-fails", 'bad("a")["k"]'), ("attribute-fails", 'bad("a").foo'),
    ("chain", 'vx.out("a").apply(cb_raise).apply(lambda v: v)'), ("unsecret", 'Output.unsecret(worse("a"))'),
]
HOOKS = ("translate_output_property", "translate_input_property")


def raisers(prog, nodes):
    """(functions that raise inside their own try are exercised by the other scenarios)
    functions that construct and raise an error themselves, and the hooks programs override"""
    out = []
    for n in nodes:
        if isinstance(n, ast.Lambda) or n not in prog.node_mod or not prog.node_mod[n].name.startswith("pulumi"):
            continue
        mod = prog.node_mod[n].name
        if n.name in HOOKS or (mod not in ("pulumi.log",) and any(isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) for x in own(n))
                               and not any(isinstance(x, ast.Try) and any(isinstance(y, ast.Raise) for b in x.body for y in ast.walk(b)) for x in own(n))):
            out.append(n)
    return sorted(out, key=lambda n: (prog.node_mod[n].name, n.lineno))


def own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st += list(ast.iter_child_nodes(n))


def c12(ctx):
    ctx.explanation = ("Every operation that hands outputs to the program is run with one thing going wrong at a time: an input, option or engine "
                       "request that fails, an answer that cannot be decoded, and an error in each function on the way that can raise one. "
                       "On every path each output must end up resolved or failed.")
    src, cases = [HARNESS], []

    def add(op, lab, props, opts="", idv='vx.val("theid")', ans=None, fault=None, inject=None):
        expr, outs, method, field, base, anchor = OPS[op]
        fn = f"x{len(cases)}"
        e = expr.replace("PROPS", props).replace("ID", idv).replace("OPTS", opts).replace("id=vx", "id=vx")
        src.append(f"def {fn}():\n    setup()\n    r = {e}\n    return {outs + '(r)' if outs else '[r]'}\n")
        cases.append((fn, op, lab, method, field, ans or base, anchor, fault, inject))
    for op in OPS:
        add(op, "nothing", OK_PROPS)
        add(op, "request-fails", OK_PROPS, fault="rpc " + OPS[op][2])
        if op not in ("get",):
            for lab, p in BAD_PROPS:
                add(op, lab, p)
        if op not in ("get", "call", "call-on"):
            for lab, o in BAD_OPTS:
                if op == "read" and lab == "timeouts-malformed":
                    continue
                add(op, lab, OK_PROPS, o)
        if op == "read":
            add(op, "id-fails", OK_PROPS, idv='bad("i")')
        kinds = ["badsig", "badasset", "less", "empty", "more"] + (["nostate"] if op == "get" else [])
        for k in kinds:
            add(op, "answer-" + k, OK_PROPS, ans=OPS[op][4] + "_" + k)
    n0 = len(cases)
    for lab, ex in APPLY:
        fn = f"x{len(cases)}"
        src.append(f"def {fn}():\n    setup()\n    return [{ex}]\n")
        cases.append((fn, "combine", lab, None, None, None, "pulumi.output.Output", None, None))
    text = "\n".join(src)

    def world(case, dry):
        w = ctx.world(text, lambda s: WireWorld(s, fixed={**FIXED, "dry_run": dry}))
        for n in ("a", "b", "inner", "br", "i", "al", "deps"):
            w.st.facts[(n + ".known", "truth")] = True
            w.st.facts[(n + ".secret", "truth")] = False
        w.st.facts[("v4.value", "truth")] = True
        if case[3]:
            w.answer_with(case[3], case[4], case[5])
        if case[7]:
            w.e.fault = lambda e, desc, node, st: desc == case[7]
        return w

    def judge(w, case, name, where, rs, exs):
        rule = "settles"
        if not rs and not exs:
            ctx.ob(None, rule, name, where, "no path returns")
        for s, x in exs:
            ctx.ob(True, rule, name, where, f"refused at once with {excname(s, x)}")  # no output was handed out
        for s, v in rs:
            for a in v:
                for i, it in enumerate(s.heap[a.key].items):
                    for d in w.osum(s, it):
                        if "bad" in d:
                            ctx.ob(None, rule, name, where, f"not an output: {d['bad']}")
                            continue
                        hung = [f for f in ("_is_secret", "_is_known", "_resources", "_future") if d.get(f + "!") == "never settles"]
                        ctx.ob(not hung, rule, name, where, f"output {i}: {', '.join(hung)} never settles")
        ctx.absorb(w)
        ctx.paths += len(rs)

    def go(case, dry, name, where, inject=()):
        w = world(case, dry)
        if inject:
            w.e.inject = set(inject)
        rs, exs = w.run(case[0])
        if inject and not w.e.injected:
            return None
        judge(w, case, name, where, rs, exs)
        return w

    for case in cases:
        where = ctx.at(case[6])
        for dry in (False, True):
            name = f"{case[1]}:{case[2]}({'preview' if dry else 'update'})"
            ctx.scenario("settles", name, where, lambda case=case, dry=dry, name=name, where=where: go(case, dry, name, where))
    # every function on the way that can raise does so once
    for op in OPS:
        case = next(c for c in cases if c[1] == op and c[2] == "nothing")
        for dry in (False, True):
            w = world(case, dry)
            w.run(case[0])
            for fn in raisers(ctx.prog, w.e.visited):
                q = ctx.prog.qualname(fn)
                name = f"{op}:{q}-raises({'preview' if dry else 'update'})"
                ctx.scenario("settles", name, ctx.loc(fn), lambda case=case, dry=dry, name=name, fn=fn: go(case, dry, name, ctx.loc(fn), (fn,)))
