"""C34: programs under the SDK's own mocks.  The mock monitor is analysed as the monitor of small programs: what the user's
mock is handed, and what the program sees of its result, are compared with the program and the mock."""
import ast
from sa.dom import *
from sa.engine import Args
from .combinators import excname
from . import outbound as O
from .hierarchy import HARNESS, world, text
from .rootstack import plain, same

SRC = HARNESS + '''
from pulumi.runtime import mocks
from pulumi.runtime.mocks import Mocks, MockMonitor, set_mocks
from pulumi.runtime.proto import resource_pb2
SEEN = []
RESULT = {"answer": 42, "list": [1, {"k": "v"}]}
FAIL = {FAIL}
class M(Mocks):
    def call(self, args):
        SEEN.append(["call", args.token, args.args, args.provider])
        return FAIL
    def new_resource(self, args):
        SEEN.append(["new", args.typ, args.name, args.inputs, args.provider, args.resource_id, args.custom])
        state = dict(args.inputs)
        state["extra"] = "more"
        return ["id-" + args.name, state]
class L:
    def debug(self, m):
        SEEN.append(["debug", m])
    def info(self, m):
        SEEN.append(["info", m])
    def warning(self, m):
        SEEN.append(["warning", m])
    def error(self, m):
        SEEN.append(["error", m])
async def fut(x):
    return x
def done(x):
    return Output(set(), fut(x), fut(True), fut(False))
def begin(**kw):
    set_mocks(M(), **kw)
    # a property shared by all settings objects: as the first settings object leaves it
    pulumi.runtime.settings.SETTINGS.feature_support = {}
'''
URN = lambda t, n, p="project", s="stack": f"urn:pulumi:{s}::{p}::pulumi:pulumi:Stack${t}::{n}"
PROPS = {"a": 1, "b": [2, {"c": "x"}], "d": False}
P = '{"a": 1, "b": [done(2), {"c": "x"}], "d": False}'
RES = {"answer": 42, "list": [1, {"k": "v"}]}
# label: (mock answer to a call, program, what the mock is handed, what the program sees: expression -> value)
CASES = {
    "custom": ("RESULT", f'Cus("k:m:T", "n", None, {P})', [["new", "k:m:T", "n", PROPS, "", "", True]]),
    "custom-provider": ("RESULT", f'p = Pro("k", "p")\n    Cus("k:m:T", "n", RO(provider=p), {P})',
                        [["new", "pulumi:providers:k", "p", {}, "", "", True], ["new", "k:m:T", "n", PROPS, URN("pulumi:providers:k", "p") + "::id-p", "", True]]),
    "custom-import": ("RESULT", 'Cus("k:m:T", "n", RO(import_="imp"))', [["new", "k:m:T", "n", {}, "", "imp", True]]),
    "component": ("RESULT", 'Com("k:m:T", "n")', [["new", "k:m:T", "n", {}, "", "", False]]),
    "remote": ("RESULT", f'Com("k:m:T", "n", None, {P}, True)', [["new", "k:m:T", "n", PROPS, "", "", False]]),
    "read": ("RESULT", f'Cus("k:m:T", "n", RO(id="i"), {P})', [["new", "k:m:T", "n", PROPS, "", "i", ...]]),
    "read-provider": ("RESULT", 'p = Pro("k", "p")\n    Cus("k:m:T", "n", RO(provider=p, id="i"))',
                      [["new", "pulumi:providers:k", "p", {}, "", "", True], ["new", "k:m:T", "n", {}, URN("pulumi:providers:k", "p") + "::id-p", "i", ...]]),
    "invoke": ("RESULT", f'pulumi.runtime.invoke("k:m:f", {P})', [["call", "k:m:f", PROPS, ""]]),
    "invoke-provider": ("RESULT", 'p = Pro("k", "p")\n    pulumi.runtime.invoke("k:m:f", {}, InvokeOptions(provider=p))',
                        [["new", "pulumi:providers:k", "p", {}, "", "", True], ["call", "k:m:f", {}, URN("pulumi:providers:k", "p") + "::id-p"]]),
    "call": ("RESULT", f'pulumi.runtime.call("k:m:f", {P})', [["call", "k:m:f", PROPS, ""]]),
}
# label: (mock answer to a call, program returning (thing, ...), expected)
SEES = {
    "outputs": ("RESULT", 'class R(CustomResource):\n        extra: Output[str]\n        a: Output[int]\n        def __init__(self, n, o=None):\n            super().__init__("k:m:T", n, {"a": 1, "extra": None}, o)\n'
                '    r = R("n")\n    return [r.urn, r.id, r.a, r.extra]', [URN("k:m:T", "n"), "id-n", 1, "more"]),
    "outputs-read": ("RESULT", 'class R(CustomResource):\n        extra: Output[str]\n        a: Output[int]\n        def __init__(self, n, o=None):\n            super().__init__("k:m:T", n, {"a": 1, "extra": None}, o)\n'
                     '    r = R("n", RO(id="i"))\n    return [r.urn, r.id, r.a, r.extra]', [URN("k:m:T", "n"), "i", 1, "more"]),
    "child": ("RESULT", 'c = Com("a:b:P", "p")\n    r = Cus("k:m:T", "n", RO(parent=c))\n    return [r.urn]', ["urn:pulumi:stack::project::a:b:P$k:m:T::n"]),
    "project": ("RESULT", 'r = Cus("k:m:T", "n")\n    return [r.urn, pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run()]', [URN("k:m:T", "n", "pp", "ss"), "pp", "ss", True]),
    "invoke": ("RESULT", 'return pulumi.runtime.invoke("k:m:f", {}).value', RES),
    "invoke-pair": ("(RESULT, [])", 'return pulumi.runtime.invoke("k:m:f", {}).value', RES),
    "invoke-none": ("(RESULT, None)", 'return pulumi.runtime.invoke("k:m:f", {}).value', RES),
    "call": ("RESULT", 'return pulumi.runtime.call("k:m:f", {})', RES),
    "call-pair": ("(RESULT, [])", 'return pulumi.runtime.call("k:m:f", {})', RES),
    "call-none": ("(RESULT, None)", 'return pulumi.runtime.call("k:m:f", {})', RES),
    "method": ("RESULT", 'r = Com("k:m:T", "n", None, {}, True)\n    return pulumi.runtime.call("k:m:T/f", {"__self__": r, "x": 1}, r)', RES),
}
LOGS = {"debug": "debug", "info": "info", "warn": "warning", "error": "error"}


def c34(ctx):
    ctx.explanation = ("Every request the SDK makes of a monitor or engine is looked up in the mock classes, and programs making each kind of "
                       "request are analysed under the SDK's mocks: what the user's mock is handed and what the program gets back are compared.")
    mm = ctx.prog.find("pulumi.runtime.mocks.MockMonitor")
    me = ctx.prog.find("pulumi.runtime.mocks.MockEngine")
    wh = ctx.at("pulumi.runtime.mocks.MockMonitor")
    asked(ctx, mm, me)

    def prog(fail, body, kw=""):
        return SRC.replace("{FAIL}", fail) + f"def main():\n    begin({kw})\n    {body}\ndef top():\n    return main()\n"

    def start(src):
        w = world(ctx, src, fixed={"dry_run": False})
        w.e.models = {k: m for k, m in w.e.models.items() if not k.startswith(("pulumi.log.", "pulumi.runtime.settings."))}
        w.st.facts[("dry_run", "truth")] = False
        return w

    for lab, (fail, body, want) in CASES.items():
        def go(lab=lab, fail=fail, body=body, want=want):
            w = start(prog(fail, body) + "def seen():\n    return SEEN\n")
            rs, exs = w.run("main")
            for s, v in rs:
                for s2, sv in w.e.call(V(w.e.fn(f"{w.hname}.seen")), Args(), s, "seen"):
                    got = plain(w.tree(s2, sv))
                    ok = None if got is ... else len(got) == len(want) and all(
                        len(g) == len(x) and all(y is ... or same(y if z is None and y == "" else z, y) for z, y in zip(g, x)) for g, x in zip(got, want))
                    ctx.ob(ok, "mock-handed", lab, wh, "" if ok else f"the mock is handed {got!r}, expected {want!r}" if ok is False else "what the mock is handed could not be determined")
            if not rs:
                ctx.ob(False if exs and excname(*exs[0]) in ("AttributeError", "TypeError", "Exception") else None, "mock-handed", lab, wh,
                       "the request fails under mocks: " + (excname(*exs[0]) if exs else "nothing returned"))
            ctx.absorb(w)
        ctx.scenario("mock-handed", lab, wh, go)

    for lab, (fail, body, want) in SEES.items():
        def go2(lab=lab, fail=fail, body=body, want=want):
            kw = 'project="pp", stack="ss", preview=True' if lab == "project" else ""
            w = start(prog(fail, body, kw) + "async def value(v):\n    return await Output.from_input(v).future()\n")
            rs, exs = w.run("main")
            n = 0
            for s, v in rs:
                for s2, t in w.e.call(V(w.e.fn(f"{w.hname}.value")), Args([v]), s, "value"):
                    for s3, r in w.e.await_(w.e.make_task(t, s2, "value"), s2, "value"):
                        n += 1
                        got = plain(w.tree(s3, r))
                        ok = None if got is ... else same(got, want)
                        ctx.ob(ok, "mock-result-seen", lab, wh, "" if ok else f"the program sees {got!r}, expected {want!r}" if ok is False else "what the program sees could not be determined")
            if not n:
                name = excname(*exs[0]) if exs else ""
                ctx.ob(False if name in ("AttributeError", "TypeError", "Exception", "KeyError") or (rs and not exs) else None, "mock-result-seen", lab, wh,
                       f"the program never gets the mock's result {name}")
            ctx.absorb(w)
        ctx.scenario("mock-result-seen", lab, wh, go2)

    # failures a mocked function reports
    for kind in ("invoke", "call"):
        def go3(kind=kind):
            call = 'pulumi.runtime.invoke("k:m:f", {})' if kind == "invoke" else 'pulumi.runtime.call("k:m:f", {})'
            w = start(prog('(RESULT, [("prop", "bad")])', f"return {call}{'.value' if kind == 'invoke' else ''}") + "async def value(v):\n    return await Output.from_input(v).future()\n")
            rs, exs = w.run("main")
            got = 0
            for s, v in rs:
                for s2, t in w.e.call(V(w.e.fn(f"{w.hname}.value")), Args([v]), s, "value"):
                    got += len(w.e.await_(w.e.make_task(t, s2, "value"), s2, "value"))
            ctx.ob(True if not got else False, "mock-failure-seen", kind, wh, "the program sees a result although its mock reported a failure" if got else "")
            ctx.absorb(w)
        ctx.scenario("mock-failure-seen", kind, wh, go3)

    # features
    feats = {"secrets": True, "resourceReferences": True, "outputValues": False, "somethingNew": False, "": False}

    def go4():
        for f, want in feats.items():
            w = start(SRC.replace("{FAIL}", "RESULT") + f'def main():\n    begin()\n    return MockMonitor(M()).SupportsFeature(resource_pb2.SupportsFeatureRequest(id="{f}")).hasSupport\n')
            rs, exs = w.run("main")
            for s, v in rs:
                t = w.e.truth(next(iter(v)), s) if len(v) == 1 else None
                # a feature may be added together with what implements it; nothing the SDK does not know is supported
                ctx.ob(None if t is None or not all(isinstance(a, K) for a in v) else t == want, "mock-features", f or "empty", wh, "" if t == want else f"support for feature {f!r} is reported as {t}")
            ctx.absorb(w)
    ctx.scenario("mock-features", "features", wh, go4)

    eng = ctx.at("pulumi.runtime.mocks.MockEngine")
    for fn, want in LOGS.items():
        def go5(fn=fn, want=want):
            w = start(prog("RESULT", f'pulumi.log.{fn}("message")', "logger=L()") + "def seen():\n    return SEEN\n")
            rs, exs = w.run("main")
            for s, v in rs:
                for s2, sv in w.e.call(V(w.e.fn(f"{w.hname}.seen")), Args(), s, "seen"):
                    t = w.tree(s2, sv)
                    got = [plain(x) for x in t[1]] if t[0] == "list" else [...]
                    ok = True if [want, "message"] in got else None if any(g is ... and not (x[0] == "list" and len(x[1]) == 2 and x[1][0] == ("atom", K("debug"))) for g, x in zip(got, t[1])) or t[2] else False
                    ctx.ob(ok, "mock-logs", fn, eng, "" if ok else f"the logger is given {got!r} for a message logged with {fn}")
            if not rs:
                ctx.ob(None, "mock-logs", fn, eng, "nothing returned")
            ctx.absorb(w)
        ctx.scenario("mock-logs", fn, eng, go5)


def asked(ctx, mm, me):
    """every remote method the SDK calls on a monitor or engine object is a method of the mock class"""
    from sa import protos
    names = {"MockMonitor": protos.methods(ctx.prog.repo, "ResourceMonitor"), "MockEngine": protos.methods(ctx.prog.repo, "Engine")}
    for cls, node in (("MockMonitor", mm), ("MockEngine", me)):
        have = {n.name for n in node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))} | {
            t.id for n in node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        dyn = "__getattr__" in have or node.bases
        for mod in ctx.prog.mods.values():
            if not mod.name.startswith("pulumi.") or ".proto" in mod.name or mod.name.startswith(("pulumi.automation", "pulumi.provider", "pulumi.dynamic")):
                continue
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names[cls] and ("ngine" in cls) == ("engine" in ast.unparse(n.func.value).lower()):
                    ok = n.func.attr in have or (None if dyn else False)
                    ctx.ob(ok, "mock-answers", f"{cls}.{n.func.attr}", ctx.loc(n), "" if ok else f"{cls} does not answer {n.func.attr}")
