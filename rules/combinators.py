"""C01/C02/C03/C04: what output combinators do to secretness, dependencies, knownness and values.

Every public combinator is applied to unknown outputs in several shapes; on every abstract path the result's four
futures are compared with what the inputs require."""
import ast
from sa.dom import *
from sa.world import World

SRC = '''
import asyncio
import pulumi
from pulumi import Output
from pulumi.output import _map_output, _map2_output, _map_input, _map2_input, UNKNOWN
import vx

@pulumi.input_type
class Args:
    def __init__(self, p, q=None):
        self.p = p
        self.q = q

def a(): return vx.out("a")
def b(): return vx.out("b")
def cb_leaf(v):
    vx.note("cb", v)
    return vx.leaf("r")
def cb_out(v):
    vx.note("cb", v)
    return vx.out("b")
def cb_list_out(v):
    vx.note("cb", v)
    return Output.all(vx.out("b"))
async def cb_aw(v):
    vx.note("cb", v)
    return vx.leaf("r")
def cb_fut(v):
    vx.note("cb", v)
    async def f():
        return vx.leaf("r")
    return asyncio.ensure_future(f())
def cb2(x, y):
    vx.note("cb", x)
    return vx.leaf("r")
def cb_cond(v):
    vx.note("cb", v)
    if vx.leaf("cond") == v:
        return vx.out("b")
    return vx.out("b")

# name = s_<what>; '#' line: inputs (always) / inputs only if the callback ran
def s_all_list(): return Output.all(a(), b())                      #a b|
def s_all_one(): return Output.all(a())                            #a|
def s_all_three(): return Output.all(vx.leaf("p"), a(), b())       #a b|
def s_all_kwargs(): return Output.all(x=a(), y=b())                #a b|
def s_all_nested(): return Output.all(x=[a()], y={"k": b()})       #a b|
def s_all_secret(): return Output.all(Output.secret(vx.leaf("p")), b())   #b|!
def s_from_output(): return Output.from_input(a())                 #a|
def s_from_list(): return Output.from_input([vx.leaf("p"), a(), b()])  #a b|
def s_from_dict(): return Output.from_input({"x": a(), "y": {"z": b()}}) #a b|
def s_from_deep(): return Output.from_input({"x": [[a()], {"y": [b()]}]}) #a b|
def s_from_args(): return Output.from_input(Args(a(), b()))        #a b|
def s_from_args_nested(): return Output.from_input([Args({"k": a()})])  #a|
def s_from_nested_output(): return Output.from_input(vx.out("a", [vx.out("b")]))  #a|b
def s_from_awaitable():                                            #a|
    async def f(): return vx.out("a")
    return Output.from_input(f())
def s_from_awaitable_list():                                       #a|
    async def f(): return [vx.out("a")]
    return Output.from_input(f())
def s_shallow(): return Output._from_input_shallow(a())            #a|
def s_secret(): return Output.secret(a())                          #a|!
def s_secret_plain(): return Output.secret(vx.leaf("p"))           #|!
def s_secret_nested(): return Output.secret({"k": [a()]})          #a|!
def s_unsecret(): return Output.unsecret(a())                      #a|-
def s_concat(): return Output.concat(vx.leaf("p"), a(), b())       #a b|
def s_item(): return a()["k"]                                      #a|
def s_attr(): return a().k                                         #a|
def s_apply_leaf(): return a().apply(cb_leaf)                      #a|
def s_apply_output(): return a().apply(cb_out)                     #a|b
def s_apply_all(): return a().apply(cb_list_out)                   #a|b
def s_apply_coro(): return a().apply(cb_aw)                        #a|
def s_apply_future(): return a().apply(cb_fut)                     #a|
def s_apply_cond(): return a().apply(cb_cond)                      #a|b
def s_apply_chain(): return a().apply(lambda v: vx.leaf("q")).apply(cb_out)  #a|b
def s_apply_unknowns(): return a().apply(cb_leaf, True)            #a|
def s_apply_unknowns_output(): return a().apply(cb_out, True)      #a|b
def s_apply_of_all(): return Output.all(a(), b()).apply(cb_leaf)   #a b|
def s_map_output(): return _map_output(a(), cb_leaf)               #a|
def s_map2_output(): return _map2_output(a(), b(), cb2)            #a b|
def s_map_input(): return _map_input(a(), cb_leaf)                 #a|
def s_map2_input(): return _map2_input(a(), b(), cb2)              #a b|
def s_map2_input_mixed(): return _map2_input(vx.leaf("p"), b(), cb2)   #b|
def s_map2_input_mixed2(): return _map2_input(a(), vx.leaf("p"), cb2)  #a|
def s_map2_input_aw():                                             #b|
    async def f(): return vx.leaf("p")
    return _map2_input(f(), b(), cb2)
'''

UNK = '''
# unknown values hidden in a value that claims to be known
def mk(n, v):
    o = vx.out(n, v)
    return Output(o._resources, o._future, o._is_known, o._is_secret)
def u_plain(): return mk("a", UNKNOWN).apply(cb_leaf)
def u_list(): return mk("a", [vx.leaf("p"), UNKNOWN]).apply(cb_leaf)
def u_dict(): return mk("a", {"k": [UNKNOWN]}).apply(cb_leaf)
def u_listlist(): return mk("a", [vx.leaf("p"), [vx.leaf("q"), [UNKNOWN]]]).apply(cb_leaf)
def u_dict_in_list(): return mk("a", [{"k": vx.leaf("p")}, {"l": vx.leaf("q"), "m": UNKNOWN}]).apply(cb_leaf)
def u_dict_in_dict(): return mk("a", {"j": {"k": vx.leaf("p"), "l": {"m": [{"n": UNKNOWN}]}}}).apply(cb_leaf)
def u_twice():
    x = [vx.leaf("p")]
    return mk("a", [x, x, [x, UNKNOWN]]).apply(cb_leaf)
def u_all(): return Output.all(x=mk("a", UNKNOWN), y=b())
def u_from(): return Output.from_input([UNKNOWN])
def u_concat(): return Output.concat("x", mk("a", UNKNOWN))
def u_ctor(): return Output(set(), vx.out("a", UNKNOWN)._future, vx.out("a")._is_known)
def u_result(): return b().apply(lambda v: UNKNOWN)
def u_result_nested(): return b().apply(lambda v: {"k": UNKNOWN})
'''

ENTRY = {
    "all": "pulumi.output.Output.all", "from": "pulumi.output.Output.from_input", "shallow": "pulumi.output.Output._from_input_shallow",
    "secret": "pulumi.output.Output.secret", "unsecret": "pulumi.output.Output.unsecret", "concat": "pulumi.output.Output.concat",
    "item": "pulumi.output.Output.__getitem__", "attr": "pulumi.output.Output.__getattr__", "apply": "pulumi.output.Output.apply",
    "map": "pulumi.output._map_output", "map2": "pulumi.output._map2_output", "u": "pulumi.output.Output",
}


def table():
    rows = []
    for line in SRC.splitlines():
        if line.startswith("def s_"):
            name = line[4:].split("(")[0]
            tag = line.rsplit("#", 1)[1].strip()
            always, _, rest = tag.partition("|")
            mode = rest[-1:] if rest[-1:] in "!-" and rest else ""
            rest = rest.rstrip("!-")
            rows.append((name, always.split(), rest.split(), mode))
    return rows


def where_of(ctx, name):
    k = name.split("_")[1]
    if name.startswith("s_map_input") or name.startswith("s_map2_input"):
        return ctx.at("pulumi.output._map2_input" if "map2" in name else "pulumi.output._map_input")
    if name.startswith("u_"):
        return ctx.at("pulumi.output.Output")
    return ctx.at(ENTRY.get(k, "pulumi.output.Output"))


def each(ctx, rule, f, names=None, src=SRC):
    for name, always, ifcb, mode in table():
        if names and name not in names:
            continue
        where = where_of(ctx, name)

        def go(name=name, always=always, ifcb=ifcb, mode=mode, where=where):
            w = ctx.world(src)
            rs, ex = w.run(name)
            for s, x in ex:
                # no combinator raises on well-formed inputs
                ctx.ob(None, rule, name, where, f"raises {excname(s, x)}")
            if not rs:
                ctx.ob(None, rule, name, where, "no path returns")
            for s, v in rs:
                for d in w.osum(s, v):
                    if "bad" in d:
                        ctx.ob(None, rule, name, where, f"returns {d['bad']}")
                        continue
                    f(w, d, name, always, ifcb, mode, where)
            ctx.paths += len(rs)
            ctx.absorb(w)
        ctx.scenario(rule, name, where, go)


def excname(s, x):
    return "|".join(sorted(getattr(getattr(s.heap[a.key].cls, "node", None), "name", "") or s.heap[a.key].cls.key if isinstance(a, Ref) and s.heap[a.key].cls else repr(a) for a in x))


def force(s, name, val):
    if s.facts.get((name, "truth"), val) is not val:
        return None
    s = s.copy()
    s.facts[(name, "truth")] = val
    return s


def only(s, name, val, others):
    """force one unknown boolean, and its siblings to the opposite where the path leaves them open"""
    s = force(s, name, val)
    for o in others:
        s = s and (force(s, o, not val) or s)
    return s


def truths(e, s, v):
    return {e.truth(a, s) for a in v}


def verdict(e, s, v, want):
    """is the boolean value v equal to want in state s: True / False / None"""
    if not v:
        return None
    t = truths(e, s, v)
    if t == {want}:
        return True
    if t == {not want}:
        return False
    return None


def site(ctx, d, f, where):
    n = d.get(f + "@")
    return where if n is None or ctx.prog.node_mod.get(n) is None else f"{ctx.loc(n)} via {where}"


def active_inputs(w, d, name, always, ifcb):
    """inputs that contributed on this path"""
    s = d["state"]
    out = list(always)
    if not ifcb:
        return out
    if "nested_output" in name:
        # the inner output is reached unless the outer one is not known in a preview
        if s.facts.get(("dry_run", "truth")) is False or s.facts.get(("a.known", "truth")) is True:
            out += ifcb
        return out
    if s.ghost("cb"):
        out += ifcb
    return out


def c01(ctx):
    ctx.explanation = ("Interprocedural path-sensitive abstract interpretation of every output combinator on unknown outputs; on each "
                       "abstract path the secretness of the result is compared with the secretness of the contributing inputs.")

    def f(w, d, name, always, ifcb, mode, where):
        v = d["_is_secret"]
        s = d["state"]
        if d["_future"] is None:
            return  # the value itself failed: nothing leaks
        if v is None:
            ctx.ob(None, "secret-flag-settles", name, where, str(d.get("_is_secret!")))
            return
        wh = site(ctx, d, "_is_secret", where)
        if mode == "!":
            ctx.ob(verdict(w.e, s, v, True), "always-secret", name, wh, f"result secretness is {sorted(map(repr, v))}, must be True")
            return
        if mode == "-":
            ctx.ob(verdict(w.e, s, v, False), "unsecret-clears", name, wh, f"result secretness is {sorted(map(repr, v))}, must be False")
            return
        for i in active_inputs(w, d, name, always, ifcb):
            s2 = only(s, i + ".secret", True, [j + ".secret" for j in "abc" if j != i])
            if s2 is None:
                continue
            ctx.ob(verdict(w.e, s2, v, True), "secret-propagates", f"{name}({i})", wh,
                   f"input {i!r} is secret but the result's secret flag is {sorted(map(repr, v))}")
    each(ctx, "secret-propagates", f)
    surface(ctx)


def surface(ctx):
    """every public method that hands out an output is covered by a scenario"""
    cls = ctx.prog.find("pulumi.output.Output")
    known = {e.rsplit(".", 1)[1] for e in ENTRY.values()}
    for n in cls.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None and "Output[" in ast.unparse(n.returns):
            ctx.ob(True if n.name in known else None, "combinator-covered", n.name, ctx.loc(n), "" if n.name in known else "no scenario for this combinator")


def c02(ctx):
    ctx.explanation = "As C01, for the dependency set: the result's resources must include those of every contributing input."

    def f(w, d, name, always, ifcb, mode, where):
        v = d["_resources"]
        if d["_future"] is None:
            return
        if v is None:
            ctx.ob(None, "resources-settle", name, where, str(d.get("_resources!")))
            return
        names, definite = w.deps(d["state"], v)
        wh = site(ctx, d, "_resources", where)
        for i in active_inputs(w, d, name, always, ifcb):
            ok = (i + ".dep") in names
            ctx.ob(True if ok else (False if definite else None), "deps-propagate", f"{name}({i})", wh,
                   "" if ok else f"resources of input {i!r} are missing from the result ({sorted(names)})")
    each(ctx, "deps-propagate", f)


def c03(ctx):
    ctx.explanation = ("As C01, for knownness in previews: an unknown input never yields a result marked known, and callbacks are not "
                       "run on unknown values unless they asked for it.")

    def f(w, d, name, always, ifcb, mode, where):
        s0 = d["state"]
        v = d["_is_known"]
        if d["_future"] is None:
            return
        if v is None:
            ctx.ob(None, "known-flag-settles", name, where, str(d.get("_is_known!")))
            return
        wh = site(ctx, d, "_is_known", where)
        s1 = force(s0, "dry_run", True)
        if s1 is None:
            return
        uw = "unknowns" in name
        for i in active_inputs(w, d, name, always, ifcb):
            s2 = only(s1, i + ".known", False, [j + ".known" for j in "abc" if j != i])
            if s2 is None:
                continue
            if uw and i in always:
                # run_with_unknowns: the callback runs and decides; it must have been given the unknown marker
                continue
            ctx.ob(verdict(w.e, s2, v, False), "unknown-propagates", f"{name}({i})", wh,
                   f"input {i!r} is unknown in a preview but the result's known flag is {sorted(map(repr, v))}")
            if i in always and "apply" in name and "chain" not in name:
                cb = s2.ghost("cb")
                ctx.ob(not cb, "callback-skipped-on-unknown", f"{name}({i})", where,
                       f"callback ran in a preview although input {i!r} is unknown")
        for i in always:
            s2 = force(s1, i + ".known", True)
            if s2 is not None and name in ("s_apply_leaf", "s_apply_coro", "s_apply_future") and all(force(s2, j + ".known", True) for j in always):
                ctx.ob(bool(s2.ghost("cb")), "callback-runs-on-known", name, where, "callback skipped although its input is known")
                ctx.ob(verdict(w.e, s2, v, True), "known-stays-known", name, wh, f"known flag is {sorted(map(repr, v))}")
        if uw:
            s2 = force(s1, "a.known", False)
            if s2 is not None:
                got = s0.ghost("cb")
                cls = w.prog.find("pulumi.output.Unknown")
                ok = bool(got) and all(isinstance(x, Ref) and s0.heap[x.key].cls == Cls(cls) for x in got)
                ctx.ob(ok if got else None, "unknown-marker-passed", name, where, f"callback got {got}")
    each(ctx, "unknown-propagates", f)
    for name in [l[4:].split("(")[0] for l in UNK.splitlines() if l.startswith("def u_")]:
        where = where_of(ctx, name)

        def go(name=name, where=where):
            w = ctx.world(SRC + UNK)
            rs, ex = w.run(name)
            for s, v in rs:
                for d in w.osum(s, v):
                    if "bad" in d or d["_future"] is None:
                        continue
                    st = force(d["state"], "dry_run", True)
                    if st is None:
                        continue
                    kn = d["_is_known"]
                    ctx.ob(None if kn is None else verdict(w.e, st, kn, False), "hidden-unknown-detected", name, site(ctx, d, "_is_known", where),
                           f"a value containing an unknown is reported as known: {kn}")
                    if name in ("u_plain", "u_list", "u_dict", "u_listlist", "u_dict_in_list", "u_dict_in_dict", "u_twice"):
                        ctx.ob(not st.ghost("cb"), "callback-skipped-on-unknown", name, where, "callback ran on a value that contains an unknown")
            ctx.absorb(w)
        ctx.scenario("hidden-unknown-detected", name, where, go)


# ---------------------------------------------------------------------- values
def render(w, s, v, depth=8):
    """structural rendering of an abstract value"""
    if v is None:
        return "?"
    r = sorted(_r1(w, s, a, depth) for a in v)
    return r[0] if len(r) == 1 else "{" + "|".join(r) + "}"


def _r1(w, s, a, depth):
    if depth == 0:
        return "..."
    if isinstance(a, Ref):
        h = s.heap[a.key]
        if h.kind in LISTS or h.kind == "ListValue":
            return "[" + ",".join([render(w, s, i, depth - 1) for i in h.items] + (["*" + render(w, s, h.rest, depth - 1)] if h.rest else [])) + "]"
        if h.kind in ("dict", "Struct"):
            return "{" + ",".join(f"{k!r}:{render(w, s, x, depth - 1)}" + ("?" if k in h.opt else "") for k, x in sorted(h.f.items(), key=lambda t: repr(t[0]))) + ("*" if h.rest else "") + "}"
        if h.kind == "inst":
            n = getattr(getattr(h.cls, "node", None), "name", None) or getattr(h.cls, "key", "?")
            return n + "(" + ",".join(f"{k}={render(w, s, x, depth - 1)}" for k, x in sorted(h.f.items(), key=lambda t: repr(t[0])) if not str(k).startswith("__")) + ")"
        return h.kind
    return repr(a)


VALUES = {
    "s_all_list": "[$a.value,$b.value]", "s_all_one": "[$a.value]", "s_all_three": "[$p,$a.value,$b.value]",
    "s_all_kwargs": "{'x':$a.value,'y':$b.value}", "s_all_nested": "{'x':[$a.value],'y':{'k':$b.value}}",
    "s_from_output": "$a.value", "s_from_list": "[$p,$a.value,$b.value]", "s_from_dict": "{'x':$a.value,'y':{'z':$b.value}}",
    "s_from_deep": "{'x':[[$a.value],{'y':[$b.value]}]}", "s_from_args": "Args(p=$a.value,q=$b.value)",
    "s_from_args_nested": "[Args(p={'k':$a.value},q=None)]", "s_from_nested_output": "[$b.value]", "s_from_awaitable": "$a.value",
    "s_from_awaitable_list": "[$a.value]", "s_shallow": "$a.value", "s_secret": "$a.value", "s_secret_plain": "$p",
    "s_secret_nested": "{'k':[$a.value]}", "s_unsecret": "$a.value", "s_concat": "{$p}{$a.value}{$b.value}",
    "s_apply_leaf": "$r", "s_apply_output": "$b.value", "s_apply_all": "[$b.value]", "s_apply_coro": "$r", "s_apply_future": "$r",
    "s_apply_cond": "$b.value", "s_apply_chain": "$b.value", "s_apply_of_all": "$r", "s_map_output": "$r", "s_map2_output": "$r",
    "s_map_input": "$r", "s_map2_input": "$r", "s_map2_input_mixed": "$r", "s_map2_input_mixed2": "$r", "s_map2_input_aw": "$r",
}


def c04(ctx):
    ctx.explanation = ("As C01, for values: with every input known the result holds the inputs' values at the right positions and keys, "
                       "deeply unwrapped, and callbacks receive the input's value.")

    def f(w, d, name, always, ifcb, mode, where):
        s = force(d["state"], "dry_run", False)
        if s is None or name not in VALUES:
            return
        for i in list(always) + list(ifcb):
            s = s and force(s, i + ".known", True)
        if s is None:
            return
        v = d["_future"]
        if v is None:
            ctx.ob(False, "value-produced", name, where, f"the value future fails with {d.get('_future!')}")
            return
        r = render(w, d["state"], v)
        want = VALUES[name]
        opaque = "?" in r or "|" in r
        ctx.ob(True if r == want else (None if opaque else False), "value-in-place", name, where, f"value is {r}, expected {want}")
        if name in ("s_apply_leaf", "s_apply_output", "s_apply_coro", "s_apply_future"):
            g = d["state"].ghost("cb")
            ctx.ob(True if g == V(Sym("a.value")) else None if any(isinstance(x, Opq) for x in g) or not g else False, "callback-gets-value", name, where, f"callback received {g}")
    each(ctx, "value-in-place", f)
