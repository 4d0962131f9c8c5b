"""C33: one root stack, the default parent, whose exports reach the engine however the program body ends.

Programs are run through the entry the language host uses; the registrations and the registration of outputs an engine
would see are compared with the program text."""
from sa.dom import *
from . import outbound as O
from .combinators import excname
from .hierarchy import HARNESS, STK, PRJ, STACK_T, newurn, run, text, of

ROOT = newurn(None, STACK_T, f"{PRJ}-{STK}")
SRC = HARNESS + '''
class Box:
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])
class Deep:
    def __init__(self, n):
        self.n = n
        self.inner = Box(x=n, y=[n])
async def fut(x):
    return x
def done(x):
    return Output(set(), fut(x), fut(True), fut(False))
def start(prog):
    setup()
    asyncio.run(pulumi.runtime.run_in_stack(prog))
'''
SIG = "4dabf18193072939515e22adb298388d"
EXPORTS = {  # label: (statements, what the engine has to be given)
    "none": ("pass", {}),
    "text": ('e("o", "v")', {"o": "v"}), "falsy": ('e("a", 0)\n    e("b", False)\n    e("c", "")', {"a": 0, "b": False, "c": ""}),
    "empty": ('e("a", [])\n    e("b", {})', {"a": [], "b": {}}), "number": ('e("o", 2.5)', {"o": 2.5}),
    "several": ('e("a", 1)\n    e("b", 2)\n    e("c", 3)', {"a": 1, "b": 2, "c": 3}), "again": ('e("a", 1)\n    e("a", 2)', {"a": 2}),
    "nested": ('e("o", [1, {"k": [2, "x"], "j": {"i": True}}])', {"o": [1, {"k": [2, "x"], "j": {"i": True}}]}),
    "tuple": ('e("o", (1, (2, "x")))', {"o": [1, [2, "x"]]}), "object": ('e("o", Box(a=1, b=[2]))', {"o": {"a": 1, "b": [2]}}),
    "object-in-list": ('e("o", [Box(a=1), {"k": Deep(3)}])', {"o": [{"a": 1}, {"k": {"n": 3, "inner": {"x": 3, "y": [3]}}}]}),
    "output": ('e("o", done("v"))', {"o": "v"}), "output-in-list": ('e("o", [done(1), {"k": done([2])}])', {"o": [1, {"k": [2]}]}),
    "output-of-object": ('e("o", done(Box(a=done(1), b=[Box(c=2)])))', {"o": {"a": 1, "b": [{"c": 2}]}}),
    "output-in-object": ('e("o", Box(a=done("v"), b=Box(c=done([1]))))', {"o": {"a": "v", "b": {"c": [1]}}}),
    "awaitable": ('e("o", fut("v"))', {"o": "v"}), "awaitable-of-object": ('e("o", [fut(Box(a=1))])', {"o": [{"a": 1}]}),
    "applied": ('e("o", done(1).apply(lambda x: [x, 2]))', {"o": [1, 2]}),
    "secret": ('e("o", Output.secret("v"))', {"o": {SIG: O.go_const("SecretSig"), "value": "v"}}),
    "secret-object": ('e("o", Output.secret(Box(a=[1])))', {"o": {SIG: O.go_const("SecretSig"), "value": {"a": [1]}}}),
    "secret-in-list": ('e("o", ["p", Output.secret("v")])', {"o": ["p", {SIG: O.go_const("SecretSig"), "value": "v"}]}),
    "shared": ('s = [1]\n    e("o", {"a": s, "b": s})\n    e("p", s)', {"o": {"a": [1], "b": [1]}, "p": [1]}),
    "shared-object": ('s = Box(a=1)\n    e("o", [s, s])\n    e("p", {"k": s})', {"o": [{"a": 1}, {"a": 1}], "p": {"k": {"a": 1}}}),
    "shared-output": ('s = done(Box(a=1))\n    e("o", [s, s])', {"o": [{"a": 1}, {"a": 1}]}),
    "cycle": ('s = {"n": 1}\n    s["me"] = s\n    e("o", s)', {"o": {"n": 1}}),
    "cyclic-object": ('s = Box(n=1)\n    s.kids = [Box(up=s, m=2)]\n    e("o", s)', {"o": {"n": 1, "kids": [{"m": 2}]}}),
    "resource-outputs": ('r = Cus("k:m:T", "r")\n    e("u", r.urn)\n    e("i", [r.id])', {"u": newurn(None, "k:m:T", "r"), "i": ["id-r"]}),
}
EXITS = {"return": ("", None), "raise": ('    raise KeyError("stop")\n', "KeyError"), "exit": ("    raise SystemExit(3)\n", "SystemExit"),
         "callback": ('    done(1).apply(lambda x: boom())\n', "LookupError")}


def plain(t):
    """a request field as plain data; Ellipsis where it is not definite"""
    if t[0] == "dict":
        if t[2] or t[3]:
            return ...
        out = {k: plain(x) for k, x in t[1].items()}
        return ... if ... in out.values() else out
    if t[0] == "list":
        out = [plain(x) for x in t[1]]
        return ... if t[2] or ... in out else out
    return t[1].v if t[0] == "atom" and isinstance(t[1], K) else ...


def same(a, b):
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b
    if isinstance(a, dict):
        a, b = ({k: v for k, v in x.items() if v is not None} for x in (a, b))
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def c33(ctx):
    ctx.explanation = ("Programs are run through the entry the language host uses, ending normally, by an exception or in a failing callback; "
                       "the root stack's registration, the parents of resources and the registered outputs are compared with the program.")
    wh = ctx.at("pulumi.runtime.stack.Stack.__init__")
    ms = ctx.at("pulumi.runtime.stack.massage")
    ex = ctx.at("pulumi.runtime.stack.run_in_stack")

    def exports(w, cons, want, rule="outputs-registered"):
        rq = O.requests(w, "RegisterResourceOutputs")
        n = 0
        for st, _, fl, nd in rq:
            if text(fl.get("urn")) not in (ROOT, None):
                continue
            n += 1
            if text(fl.get("urn")) is None:
                ctx.ob(None, rule, cons, wh, "the URN whose outputs are registered could not be determined")
                continue
            got = plain(w.tree(st, fl.get("outputs", VNONE)))
            ok = None if got is ... else same(got, want)
            ctx.ob(ok, rule, cons, ms, "" if ok else f"the outputs registered are {got!r}, expected {want!r}" if ok is False else "the outputs registered could not be determined")
        return n

    for lab, (stmts, want) in EXPORTS.items():
        def go(lab=lab, stmts=stmts, want=want):
            w, rs, exs = run(ctx, SRC + f"def prog():\n    e = pulumi.export\n    {stmts}\ndef main():\n    start(prog)\n", "main")
            n = exports(w, lab, want)
            if not n:
                ctx.ob(False if bool(rs) != bool(exs) else None, "outputs-registered", lab, wh,
                       "the outputs of the root stack are never registered" + (f" ({excname(*exs[0])})" if exs else ""))
            ctx.absorb(w)
        ctx.scenario("outputs-registered", lab, wh, go)

    # every way out
    for lab, (tail, exc) in EXITS.items():
        for when in ("before", "between", "nested"):
            stop = tail if when != "nested" else "    helper()\n" if tail else ""
            body = {"before": ('    e("a", 1)\n    e("b", [2])\n' + stop, {"a": 1, "b": [2]}),
                    "between": ('    e("a", done(Box(k=1)))\n' + stop + '    e("b", 2)\n', {"a": {"k": 1}} if exc and lab != "callback" else {"a": {"k": 1}, "b": 2}),
                    "nested": ('    r = Cus("k:m:T", "r")\n    e("a", r.urn)\n' + stop, {"a": newurn(None, "k:m:T", "r")})}[when]

            def go2(lab=lab, when=when, exc=exc, body=body, tail=tail):
                src = SRC + "def boom():\n    raise LookupError('x')\ndef helper():\n" + (tail or "    pass\n") + f"def prog():\n    e = pulumi.export\n{body[0]}\ndef main():\n    start(prog)\n"
                w, rs, exs = run(ctx, src, "main")
                c = f"{lab}:{when}"
                n = exports(w, c, body[1]) if lab != "callback" else 1  # not an exit of the program body
                if not n:
                    ctx.ob(False if not rs or not exs else None, "outputs-registered", c, wh, "the outputs of the root stack are never registered")
                if exc:
                    ok = not rs and bool(exs) and all(excname(*x) == exc for x in exs)
                    ctx.ob(True if ok else False if rs and not exs else None, "failure-reported", c, ex, "" if ok else "the run ends as if the program had succeeded")
                else:
                    ctx.ob(True if rs and not exs else False if not rs and exs else None, "failure-reported", c, ex,
                           "" if rs and not exs else "a program that ends normally is reported as failing")
                ctx.absorb(w)
            ctx.scenario("outputs-registered", f"{lab}:{when}", wh, go2)

    # one root stack, parent of everything without a parent
    body = {"custom": 'Cus("k:m:T", "x")', "component": 'Com("k:m:T", "x")', "remote": 'Com("k:m:T", "x", None, {}, True)', "provider": 'Pro("k", "x")',
            "read": 'Cus("k:m:T", "x", RO(id="i"))', "parent-none": 'Cus("k:m:T", "x", RO(parent=None))', "late": 'done(1).apply(lambda v: Cus("k:m:T", "x"))',
            "function": 'helper()', "child": 'Cus("k:m:T", "x", RO(parent=Com("a:b:P", "p")))'}
    for lab, stmt in body.items():
        for when in ("return", "raise"):
            def go3(lab=lab, stmt=stmt, when=when):
                src = SRC + f'def helper():\n    Cus("k:m:T", "x")\ndef prog():\n    {stmt}\n' + ("    raise KeyError('k')\n" if when == "raise" else "") + "def main():\n    start(prog)\n"
                w, rs, exs = run(ctx, src, "main")
                want = newurn(None, "a:b:P", "p") if lab == "child" else ROOT
                rq = of(w, "ReadResource" if lab == "read" else "RegisterResource", "x")
                for st, fl, nd in rq:
                    got = text(fl.get("parent"))
                    ok = None if got is None and fl.get("parent") not in (None, VNONE) else got == want
                    ctx.ob(ok, "default-parent", f"{lab}:{when}", wh, "" if ok else f"the parent sent is {got!r}, expected {want!r}")
                if not rq:
                    ctx.ob(False if rs and not exs and lab != "late" else None, "default-parent", f"{lab}:{when}", wh, "the resource is never registered")
                ctx.absorb(w)
            ctx.scenario("default-parent", f"{lab}:{when}", wh, go3)

    def go4():
        src = SRC + 'def prog():\n    Cus("k:m:T", "x")\n    pulumi.export("a", 1)\ndef main():\n    start(prog)\n'
        w, rs, exs = run(ctx, src, "main")
        reg = [(st, fl, nd) for st, _, fl, nd in O.requests(w, "RegisterResource") if text(fl.get("type")) == STACK_T]
        for st, fl, nd in reg:
            for k, want in (("name", f"{PRJ}-{STK}"), ("parent", "")):
                got = text(fl[k]) if fl.get(k) not in (None, VNONE) else ""
                ctx.ob(None if got is None else got == want, "one-root-stack", k, wh, "" if got == want else f"the root stack's {k} is {got!r}, expected {want!r}")
        sites = {nd for _, _, nd in reg}
        ctx.ob(None if not reg and exs else len(reg) == 1, "one-root-stack", "registered once", wh, "" if len(reg) == 1 else f"the root stack is registered {len(reg)} times")
        ctx.absorb(w)
    ctx.scenario("one-root-stack", "registered once", wh, go4)

    for lab, stmt in (("constructor", "Stack(lambda: None)"), ("in-function", "Stack(inner)")):
        def go5(lab=lab, stmt=stmt):
            src = SRC + f'def inner():\n    Cus("k:m:T", "y")\ndef prog():\n    try:\n        {stmt}\n    except Exception:\n        vx.note("refused")\ndef main():\n    start(prog)\n'
            w, rs, exs = run(ctx, src, "main")
            reg = [x for x in O.requests(w, "RegisterResource") if text(x[2].get("type")) == STACK_T]
            ok = len(reg) == 1 and rs and all(s.ghost("refused") for s, _ in rs)
            ctx.ob(True if ok else False if rs and not exs else None, "one-root-stack", f"second:{lab}", wh, "" if ok else "a second root stack can be made while one is active")
            ctx.absorb(w)
        ctx.scenario("one-root-stack", f"second:{lab}", wh, go5)
