"""C13: errors of engine requests make the deployment fail; every request is tracked and awaited."""
from sa.dom import *
from sa.wire import WireWorld
from .combinators import excname
from . import settle as S

HARNESS = S.HARNESS + '''
from pulumi.runtime.rpc_manager import RPC_MANAGER
from pulumi.runtime.stack import run_pulumi_func, wait_for_rpcs
class Boom(Exception): pass
async def ok(n):
    vx.note("ran", n)
    return 1
async def bad(n):
    vx.note("ran", n)
    raise Boom(n)
async def later_ok(n):
    start(ok, n + "2")
    return 1
async def later_bad(n):
    start(bad, n + "2")
    return 1
async def plain_ok(n): vx.note("ran", n)
async def plain_bad(n):
    vx.note("ran", n)
    raise Boom(n)
def start(f, n): return asyncio.ensure_future(RPC_MANAGER.do_rpc(n, f)(n))
def task(f, n): return asyncio.ensure_future(f(n))
def fresh():
    RPC_MANAGER.clear()
    setup()
'''
# what is started, what must have run, does the wait have to fail
WAITS = [
    ("nothing", "pass", [], False),
    ("one", "start(ok, 'a')", ["a"], False),
    ("two", "start(ok, 'a'); start(ok, 'b')", ["a", "b"], False),
    ("one-fails", "start(bad, 'a')", [], True),
    ("first-fails", "start(bad, 'a'); start(ok, 'b')", [], True),
    ("last-fails", "start(ok, 'a'); start(bad, 'b')", [], True),
    ("middle-fails", "start(ok, 'a'); start(bad, 'b'); start(ok, 'c')", [], True),
    ("started-while-waiting", "start(later_ok, 'a')", ["a2"], False),
    ("started-while-waiting-fails", "start(later_bad, 'a')", [], True),
    ("task", "task(plain_ok, 'a')", ["a"], False),
    ("task-fails", "task(plain_bad, 'a')", [], True),
    ("task-and-request", "task(plain_ok, 'a'); start(ok, 'b')", ["a", "b"], False),
    ("task-fails-after-request", "start(ok, 'b'); task(plain_bad, 'a')", [], True),
    ("request-fails-after-task", "task(plain_ok, 'b'); start(bad, 'a')", [], True),
    ("task-starts-request", "task(later_ok, 'a')", ["a2"], False),
    ("task-starts-failing-request", "task(later_bad, 'a')", [], True),
    ("two-tasks-last-fails", "task(plain_ok, 'a'); task(plain_bad, 'b')", [], True),
]


class FailWorld(WireWorld):
    """the engine answers with a list of failures when `failing`"""
    failing = False

    def fails(self, e, st, node):
        f = self.msg(e, st, (node, "failure"), "CheckFailure", property=V(Sym("fprop", "str")), reason=V(Sym("freason", "str")))
        return V(e.newlist(st, "resp:fail", [f] if self.failing else []))

    def resp_Invoke(self, e, st, node):
        r = super().resp_Invoke(e, st, node)
        return self.refail(e, st, r, node)

    def resp_Call(self, e, st, node):
        return self.refail(e, st, super().resp_Call(e, st, node), node)

    def refail(self, e, st, r, node):
        for a in r:
            st.heap[a.key] = st.heap[a.key].setf("failures", self.fails(e, st, node))
        return r


def c13(ctx):
    ctx.explanation = ("Small programs issue every kind of request, with the engine failing the request, a bad input, or an error in each function that can "
                       "raise one; the program runner must fail on every such path, and when it returns normally everything started must be done. The runner "
                       "itself is run over every mix of finished, failing and newly started requests and tasks. Each request must be tracked when it is issued.")
    src, cases = [HARNESS], []
    where = ctx.at("pulumi.runtime.stack.wait_for_rpcs")
    for lab, body, ran, fails in WAITS:
        for pre in ("", "done-before"):
            for variant in ("run", "wait", "body-raises"):
                fn = f"w{len(cases)}"
                b = "\n        ".join(body.split("; "))
                if pre:  # the requests have already run when the wait starts
                    if "later" in body or "task" in body or body == "pass":
                        continue
                    b = "\n        ".join("ts.append(" + x + ")" for x in body.split("; "))
                src.append(f"def b{fn}(ts):\n    if True:\n        {b}\n" + ("    raise KeyError('body')\n" if variant == "body-raises" else ""))
                run = f"b{fn}(ts)\n    for t in ts: await t\n    await wait_for_rpcs()\n" if pre else \
                    f"b{fn}(ts)\n    await wait_for_rpcs()\n" if variant == "wait" else f"await run_pulumi_func(lambda: b{fn}(ts))\n"
                if pre and variant != "wait":
                    continue
                src.append(f"def {fn}(): return asyncio.run(m{fn}())\nasync def m{fn}():\n    fresh()\n    ts = []\n    {run}    return 1\n")
                cases.append((fn, "wait", lab + (":" + pre if pre else "") + (":" + variant), ran, fails or variant == "body-raises", None))
    fixed = {**S.FIXED}
    for op, (expr, outs, method, field, base, anchor) in S.OPS.items():
        probs = [("nothing", S.OK_PROPS, "", None), ("request-fails", S.OK_PROPS, "", "rpc " + method)] + [(l, p, "", None) for l, p in S.BAD_PROPS if op != "get"]
        if op not in ("get", "call", "call-on"):
            probs += [(l, S.OK_PROPS, o, None) for l, o in S.BAD_OPTS if (op, l) not in (("read", "timeouts-malformed"), ("register-component", "provider-fails"))]
        probs += [("answer-" + k, S.OK_PROPS, "", None) for k in ["badsig", "badasset"] + (["nostate"] if op == "get" else []) + (["failures"] if method in ("Invoke", "Call") else [])]
        for lab, props, opts, fault in probs:
            fn = f"o{len(cases)}"
            e = expr.replace("PROPS", props).replace("ID", 'vx.val("theid")').replace("OPTS", opts)
            src.append(f"def {fn}(): return asyncio.run(m{fn}())\nasync def m{fn}():\n    fresh()\n    await run_pulumi_func(lambda: {e})\n    return 1\n")
            src.append(f"def l{fn}(): return asyncio.run(ml{fn}())\nasync def ml{fn}():\n    fresh()\n    {e}\n    vx.pump()\n    await wait_for_rpcs(False)\n    return 1\n")
            cases.append((fn, op, lab, method, lab != "nothing",
                          (fault, field, base + lab[6:].replace("-", "_").replace("_failures", "") if lab.startswith("answer-") else base, anchor)))
    for lab, e, fault, fails in [
            ("outputs", 'vx.res("comp", "ComponentResource").register_outputs({"p": vx.out("a")})', None, False),
            ("outputs-fail", 'vx.res("comp", "ComponentResource").register_outputs({"p": vx.out("a")})', "rpc RegisterResourceOutputs", True),
            ("outputs-input-fails", 'vx.res("comp", "ComponentResource").register_outputs({"p": bad_out("a")})', None, True),
            ("invoke-answer-failures", 'pulumi.runtime.invoke("pkg:mod:fn", {"p": vx.val("a")})', None, True),
            ("invoke-fails", 'pulumi.runtime.invoke("pkg:mod:fn", {"p": vx.val("a")})', "rpc Invoke", True),
            ("invoke-input-fails", 'pulumi.runtime.invoke("pkg:mod:fn", {"p": bad_out("a")})', None, True)]:
        fn = f"o{len(cases)}"
        src.append(f"def {fn}(): return asyncio.run(m{fn}())\nasync def m{fn}():\n    fresh()\n    await run_pulumi_func(lambda: {e})\n    return 1\n")
        src.append(f"def l{fn}(): return asyncio.run(ml{fn}())\nasync def ml{fn}():\n    fresh()\n    {e}\n    vx.pump()\n    await wait_for_rpcs(False)\n    return 1\n")
        cases.append((fn, "register_outputs" if "outputs" in lab else "invoke", lab, "RegisterResourceOutputs" if "outputs" in lab else "Invoke", fails,
                      (fault, None, None, "pulumi.runtime.resource.register_resource_outputs" if "outputs" in lab else "pulumi.runtime.invoke.invoke")))
    text = "\n".join(src)
    # the failing-output helper of the settle harness shares its name with the failing request here
    text = text.replace("def bad(n):\n    o = ", "def bad_out(n):\n    o = ").replace("return bad(", "return bad_out(").replace(': bad("', ': bad_out("').replace("=bad(", "=bad_out(").replace("[bad(", "[bad_out(")

    def world(case, dry):
        w = ctx.world(text, lambda s: FailWorld(s, fixed={**fixed, "dry_run": dry}))
        for n in ("a", "b", "inner", "br", "i", "al", "deps"):
            w.st.facts[(n + ".known", "truth")] = True
            w.st.facts[(n + ".secret", "truth")] = False
        w.st.facts[("v4.value", "truth")] = True
        if case[5]:
            fault, field, base, _ = case[5]
            if field:
                w.answer_with(case[3], field, base)
            if case[2].endswith("answer-failures"):
                w.failing = True
            if fault:
                w.e.fault = lambda e, desc, node, st: desc == fault
                w.e.fault_only = True
        return w

    def pending(s):
        return [k for k, h in s.heap.items() if getattr(h, "kind", "") == "future" and h.f.get("coro") and {x.v for x in h.f["state"]} & {"scheduled"}]

    def go(case, dry, name, where, inject=(), late=False):
        w = world(case, dry)
        if inject:
            w.e.inject = set(inject)
        rs, exs = w.run(("l" if late else "") + case[0], drain=False)
        if inject and not w.e.injected:
            return
        if not rs and not exs:
            ctx.ob(None, "ends", name, where, "no path ends")
        fails = case[4] or bool(inject)
        for s, v in rs:
            if fails:
                ctx.ob(False, "fails", name, where, "the program runner returns normally although something failed")
                continue
            left = pending(s)
            ctx.ob(not left, "awaited", name, where, f"{len(left)} tasks were never run")
            for r in (case[3] if case[1] == "wait" else ()):
                ctx.ob(K(r) in s.ghost("ran"), "awaited", name, where, f"{r} was not awaited")
            if case[1] != "wait":
                ctx.ob(bool(s.ghost("rpc:" + case[3])), "awaited", name, where, f"{case[3]} was not awaited")
        for s, x in exs:
            n = excname(s, x)
            if not fails:
                ctx.ob(None, "ends", name, where, f"raises {n} although nothing failed")
                continue
            ctx.ob(True, "fails", name, where, n)
            if case[1] == "wait" and "body-raises" in name:
                left = pending(s)
                ctx.ob(not left, "awaited-on-failure", name, where, f"{len(left)} tasks were never run")
        tracked(w, name)
        ctx.absorb(w)
        ctx.paths += len(rs) + len(exs)

    def tracked(w, name):
        for m, s, req, depth, node in w.rpcs:
            if m in ("SupportsFeature",):
                continue
            mgr = w.e.eval_in_module("pulumi.runtime.rpc_manager", ast_name("RPC_MANAGER"), s.copy())
            for a in mgr:
                h = s.heap.get(a.key) if isinstance(a, Ref) else None
                lst = h.f.get("rpcs") if h else None
                if lst is None:
                    ctx.ob(None, "tracked", name, ctx.loc(node), "the request table was not found")
                    continue
                for b in lst:
                    hh = s.heap.get(b.key) if isinstance(b, Ref) else None
                    n = len(hh.items) + (1 if hh.rest else 0) if hh else None
                    ctx.ob(None if n is None else n > 0, "tracked", f"{name}:{m}", ctx.loc(node), "the request is issued without being tracked")

    for case in cases:
        anchor = where if case[1] == "wait" else ctx.at(case[5][3])
        for dry in ((False,) if case[1] == "wait" else (False, True)):
            name = f"{case[1]}:{case[2]}" + ("" if case[1] == "wait" else "(preview)" if dry else "(update)")
            ctx.scenario("errors", name, anchor, lambda case=case, dry=dry, name=name, anchor=anchor: go(case, dry, name, anchor))
            if case[1] != "wait":
                name += ":finished-before-the-wait"
                ctx.scenario("errors", name, anchor, lambda case=case, dry=dry, name=name, anchor=anchor: go(case, dry, name, anchor, late=True))
    for op in S.OPS:
        case = next(c for c in cases if c[1] == op and c[2] == "nothing")
        for dry in (False, True):
            w = world(case, dry)
            w.run(case[0], drain=False)
            for fn in S.raisers(ctx.prog, w.e.visited):
                name = f"{op}:{ctx.prog.qualname(fn)}-raises({'preview' if dry else 'update'})"
                ctx.scenario("errors", name, ctx.loc(fn), lambda case=case, dry=dry, name=name, fn=fn: go(case, dry, name, ctx.loc(fn), (fn,), True))


def ast_name(n):
    import ast
    return ast.Name(id=n, ctx=ast.Load())
