"""C05/C07/C09/C38: what happens to unknown inputs on their way into requests to the engine.

Inputs (outputs whose value, secretness, knownness and dependencies are unknowns) are placed in many shapes and pushed
through the serializer and through every public operation that sends a request; on each abstract path the request that
is sent is compared with what the property requires of it."""
from types import SimpleNamespace as SN
from sa.dom import *
from sa.wire import WireWorld, go_const, is_sig, occurrences
from sa.world import kstr
from .combinators import render, force, verdict, excname

HARNESS = '''
from typing import Any, Mapping, Sequence

@pulumi.input_type
class Args:
    def __init__(__self__, *, foo_bar, nested=None):
        pulumi.set(__self__, "foo_bar", foo_bar)
        if nested is not None:
            pulumi.set(__self__, "nested", nested)
    @property
    @pulumi.getter(name="fooBar")
    def foo_bar(self) -> pulumi.Input[Any]:
        return pulumi.get(self, "foo_bar")
    @property
    @pulumi.getter
    def nested(self) -> pulumi.Input[Sequence[pulumi.Input[str]]]:
        return pulumi.get(self, "nested")

class Custom(CustomResource):
    def __init__(self, name, props, opts=None):
        super().__init__("pkg:mod:T", name, props, opts)

class Comp(ComponentResource):
    def __init__(self, name, props, opts=None, remote=False):
        super().__init__("pkg:mod:C", name, props, opts, remote)

def A(): return vx.out("a")
def B(): return vx.out("b")
async def aw(v): return v
def cb_b(v): return vx.out("b")

def ser(v, keep, typ=None):
    deps = {}
    return asyncio.run(rpc.serialize_properties({"p": v}, deps, None, typ, keep)), deps
def ser_typ(d, keep, typ):
    deps = {}
    return asyncio.run(rpc.serialize_properties(d, deps, None, typ, keep)), deps
'''

# name, expression, expected shape of the property ($a = the place of input a's value; (set, shape) = one output that
# covers several inputs)
SHAPES = [
    ("top", "A()", "$a"),
    ("list", "[A(), B()]", ["$a", "$b"]),
    ("dict", '{"k": A(), "l": B()}', {"k": "$a", "l": "$b"}),
    ("deep", '{"k": [{"m": [A()]}], "l": B()}', {"k": [{"m": ["$a"]}], "l": "$b"}),
    ("listlist", "[[A()], [[B()]]]", [["$a"], [["$b"]]]),
    ("args", "Args(foo_bar=A(), nested=[B()])", {"fooBar": "$a", "nested": ["$b"]}),
    ("args_nested", '[Args(foo_bar={"k": A()})]', [{"fooBar": {"k": "$a"}}]),
    ("awaitable", "aw(A())", "$a"),
    ("awaitable_list", "[aw([A()])]", [["$a"]]),
    ("awaitable_dict", '{"k": aw({"l": A()})}', {"k": {"l": "$a"}}),
    ("output_of_output", 'vx.out("a", [vx.out("b")])', (["a"], ["$b"])),
    ("output_of_dict_output", 'vx.out("a", {"k": vx.out("b")})', (["a"], {"k": "$b"})),
    ("output_of_args", 'vx.out("a", Args(foo_bar=vx.out("b")))', (["a"], {"fooBar": "$b"})),
    ("all", "Output.all(A(), B())", (["a", "b"], ["$a", "$b"])),
    ("all_kw", "Output.all(x=A(), y=B())", (["a", "b"], {"x": "$a", "y": "$b"})),
    ("apply", "A().apply(cb_b)", (["a", "b"], "$b")),
    ("from_input", 'Output.from_input({"x": A(), "y": [B()]})', (["a", "b"], {"x": "$a", "y": ["$b"]})),
    ("secret", 'Output.secret(A())', (["a"], "$a")),
    ("mixed", '["x", A(), 1, True, {"k": None}]', ["x", "$a", 1, True, {"k": None}]),
]
# falsy and empty values are values (C38 only)
FALSY = [
    ("falsy_list", '[None, A(), "", 0, False, [], {}, None]', [None, "$a", "", 0, False, [], {}, None]),
    ("falsy_dict", '{"a": "", "b": 0, "c": False, "d": [], "e": {}, "f": A()}', {"a": "", "b": 0, "c": False, "d": [], "e": {}, "f": "$a"}),
    ("falsy_zero", "0", 0), ("falsy_text", '""', ""), ("falsy_false", "False", False), ("falsy_empty", "[[], {}]", [[], {}]),
    ("falsy_output", 'vx.out("a", "")', (["a"], "")), ("falsy_output_zero", '[vx.out("a", 0), B()]', [(["a"], 0), "$b"]),
    ("falsy_output_list", '{"k": vx.out("a", []), "l": B()}', {"k": (["a"], []), "l": "$b"}),
    ("none_output", '[vx.out("a", None), B()]', [(["a"], None), "$b"]),
]
TYPED = [
    ("typed", '{"foo_bar": A(), "nested": [B()]}', {"fooBar": "$a", "nested": ["$b"]}),
]
MODES = [("plain", "False"), ("keep", "True")]


def scenario_src():
    out = [HARNESS]
    for n, ex, _ in SHAPES + FALSY:
        for m, k in MODES:
            out.append(f"def s_{n}__{m}():\n    return ser({ex}, {k})\n")
    for n, ex, _ in TYPED:
        for m, k in MODES:
            out.append(f"def s_{n}__{m}():\n    return ser_typ({ex}, {k}, Args)\n")
    return "\n".join(out)


E2E = '''
PR = lambda: {"p": [A()], "q": {"k": B()}}
def e_custom():
    setup()
    Custom("n", PR())
def e_remote():
    setup()
    Comp("n", PR(), None, True)
def e_component():
    setup()
    Comp("n", PR())
def e_read():
    setup()
    Custom("n", PR(), ResourceOptions(id=vx.sym("theid", "str")))
def e_outputs():
    setup()
    vx.res("r", "ComponentResource").register_outputs(PR())
def e_invoke():
    setup()
    pulumi.runtime.invoke("pkg:mod:fn", PR())
def e_invoke_async():
    setup()
    async def main():
        return await pulumi.runtime.invoke("pkg:mod:fn", PR())
    return asyncio.run(main())
def e_call():
    setup()
    pulumi.runtime.call("pkg:mod:fn", PR())
def e_call_self():
    setup()
    pulumi.runtime.call("pkg:mod:fn", {"p": [A()], "q": {"k": B()}, "__self__": vx.res("r")}, vx.res("r"))
def e_export():
    setup()
    pulumi.runtime.stack.Stack(lambda: None)
'''
E2E_SHAPE = {"p": ["$a"], "q": {"k": "$b"}}
# scenario: (request, field holding the inputs, anchor)
E2E_FIELD = {
    "e_custom": ("RegisterResource", "object", "pulumi.runtime.resource.register_resource"),
    "e_remote": ("RegisterResource", "object", "pulumi.runtime.resource.register_resource"),
    "e_component": ("RegisterResource", "object", "pulumi.runtime.resource.register_resource"),
    "e_read": ("ReadResource", "properties", "pulumi.runtime.resource.read_resource"),
    "e_outputs": ("RegisterResourceOutputs", "outputs", "pulumi.runtime.resource.register_resource_outputs"),
    "e_invoke": ("Invoke", "args", "pulumi.runtime.invoke.invoke"),
    "e_invoke_async": ("Invoke", "args", "pulumi.runtime.invoke.invoke"),
    "e_call": ("Call", "args", "pulumi.runtime.invoke.call"),
    "e_call_self": ("Call", "args", "pulumi.runtime.invoke.call"),
}
SKIP_UNKNOWN = {"e_invoke", "e_invoke_async"}  # a function call with unknown arguments may be skipped in a preview
KEEPS = {"e_remote", "e_call", "e_call_self"}


# ------------------------------------------------------------------ comparing what is sent with what was given
def get(t, k):
    return t[1].get(k) if t[0] == "dict" else None


def strip(t):
    """-> (tree without secret envelope/output value, list of (kind, tree) stripped)"""
    seen = []
    while True:
        if is_sig(t, go_const("SecretSig")) and get(t, "value") is not None:
            seen.append(("secret", t))
            t = get(t, "value")
        elif is_sig(t, go_const("OutputValueSig")):
            seen.append(("output", t))
            v = get(t, "value")
            if v is None:
                return ("unknown",), seen
            t = v
        else:
            return t, seen


def is_unknown(t):
    return t == ("unknown",) or (t[0] == "atom" and isinstance(t[1], K) and t[1].v == go_const("UnknownStringValue"))


def inputs_of(shape):
    if isinstance(shape, tuple):
        return set(shape[0]) | inputs_of(shape[1])
    if isinstance(shape, list):
        return set().union(*map(inputs_of, shape)) if shape else set()
    if isinstance(shape, dict):
        return set().union(*map(inputs_of, shape.values())) if shape else set()
    return {shape[1:]} if isinstance(shape, str) and shape.startswith("$") else set()


def compare(t, shape, unk, path=""):
    """mismatches between what was sent and the expected shape, given the set of unknown inputs.
    yields (path, message, definite)"""
    t, _ = strip(t)
    if isinstance(shape, tuple):
        if is_unknown(t):
            return [] if inputs_of(shape) & unk else [(path, "sent as unknown although every input is known", True)]
        if set(shape[0]) & unk:
            return [(path, "an unknown output is sent as if it were known", t[0] != "alt")]
        return compare(t, shape[1], unk, path)
    if t[0] == "alt":
        return [(path, "several possible values", False)]
    if isinstance(shape, dict):
        if t[0] != "dict":
            return [(path, f"expected an object, found {t[0]}", t[0] in ("list", "unknown") or is_unknown(t) or (t[0] == "atom" and isinstance(t[1], K)))]
        r = []
        for k, s in shape.items():
            x = get(t, k)
            if x is None:
                r.append((f"{path}.{k}", "missing", not t[3]))
            else:
                if k in t[2]:
                    r.append((f"{path}.{k}", "not always present", False))
                r += compare(x, s, unk, f"{path}.{k}")
        return r
    if isinstance(shape, list):
        if t[0] != "list":
            return [(path, f"expected a list, found {t[0]}", t[0] in ("dict", "unknown") or is_unknown(t) or (t[0] == "atom" and isinstance(t[1], K)))]
        if len(t[1]) != len(shape) or t[2]:
            return [(path, f"{len(t[1])} elements instead of {len(shape)}", not t[2])]
        r = []
        for i, (x, s) in enumerate(zip(t[1], shape)):
            r += compare(x, s, unk, f"{path}[{i}]")
        return r
    if isinstance(shape, str) and shape.startswith("$"):
        i = shape[1:]
        if i in unk:
            return [] if is_unknown(t) else [(path, f"input {i!r} is unknown but {t[1] if t[0] == 'atom' else t[0]} is sent", t[0] != "atom" or not isinstance(t[1], Opq))]
        if t[0] == "atom" and t[1] == Sym(i + ".value"):
            return []
        return [(path, f"expected the value of input {i!r}, found {'unknown' if is_unknown(t) else t[1] if t[0] == 'atom' else t[0]}", t[0] != "atom" or not isinstance(t[1], Opq))]
    if t[0] == "atom" and isinstance(t[1], K) and t[1].v == shape and type(t[1].v) is type(shape):
        return []
    return [(path, f"expected {shape!r}", t[0] != "atom" or isinstance(t[1], K))]


def setfacts(s, want):
    for k, v in want.items():
        s = s and force(s, k, v)
    return s


def requests(w, method):
    """captured requests of one kind: [(state at the call, request inst, field trees)]"""
    out = []
    for m, st, req, ed, node in w.rpcs:
        if m == method:
            for a in req:
                if isinstance(a, Ref) and st.heap[a.key].kind == "inst":
                    out.append((st, a, st.heap[a.key].f, node))
    return out


def cases(what, ins=("a", "b")):
    """the flag assignments a property has to be decided under: (label, fixed facts)"""
    if what == "secret":
        for i in ins:
            yield i, {**{j + ".secret": j == i for j in ins}, **{j + ".known": True for j in ins}, "supports_secrets": True}
        yield "all", {**{j + ".secret": True for j in ins}, **{j + ".known": True for j in ins}, "supports_secrets": True}
        yield "unknown", {**{j + ".secret": True for j in ins}, **{j + ".known": False for j in ins}, "supports_secrets": True, "dry_run": True}
    elif what == "unknown":
        for i in ins:
            yield i, {**{j + ".known": j != i for j in ins}, "dry_run": True}
    elif what == "known":
        yield "", {j + ".known": True for j in ins}
        yield "secret", {**{j + ".known": True for j in ins}, **{j + ".secret": True for j in ins}, "supports_secrets": True}


def each(ctx, rule, what, f, e2e=True, cases=cases):
    """run every scenario under every case; f(r) for each tree of inputs that was sent, r having
    name, w, s, t, shape, keep, where, extra, case"""
    where = ctx.at("pulumi.runtime.rpc.serialize_property")
    src = scenario_src()
    for group in (SHAPES, TYPED) if what != "known" else (SHAPES, TYPED, FALSY):
        for n, ex, shape in group:
            for m, k in MODES:
                for lab, fx in cases(what, sorted(inputs_of(shape))):
                    name = f"s_{n}__{m}"

                    def go(name=name, group=group, shape=shape, k=k, lab=lab, fx=fx):
                        w = ctx.world(src, lambda src: WireWorld(src, fixed={"supports_resourceReferences": True, **fx}))
                        rs, exs = w.run(name)
                        cons = f"{name}({lab})"
                        for s, x in exs:
                            ctx.ob(None, rule, cons, where, f"raises {excname(s, x)}")
                        if not rs and not exs:
                            ctx.ob(None, rule, cons, where, "no path returns")
                        for s, v in rs:
                            for a in v:
                                st, dp = s.heap[a.key].items
                                f(SN(name=name, w=w, s=s, t=w.tree(s, st), shape={"p": shape} if group is not TYPED else shape, keep=k == "True",
                                     where=where, extra=dp, case=lab, cons=cons, node=None, st=st))
                        ctx.absorb(w)
                        ctx.paths += len(rs)
                    ctx.scenario(rule, f"{name}({lab})", where, go)
    if not e2e:
        return
    for name, (method, field, anchor) in E2E_FIELD.items():
        where2 = ctx.at(anchor)
        for lab, fx in cases(what):
            def go(name=name, method=method, field=field, lab=lab, fx=fx, where=where2):
                fixed = {"supports_secrets": True, "supports_resourceReferences": True, **fx}
                if name in KEEPS:
                    fixed["supports_outputValues"] = True
                w = ctx.world(HARNESS + E2E, lambda src: WireWorld(src, fixed=fixed))
                w.PROPS = {}  # what comes back is decided by C06/C12
                rs, exs = w.run(name)
                reqs = requests(w, method)
                cons = f"{name}({lab})"
                if not reqs and not ("unknown" in (what, lab) and name in SKIP_UNKNOWN):
                    ctx.ob(None, rule, cons, where, f"no {method} request was seen" + (f" ({excname(*exs[0])})" if exs else ""))
                for st, a, fl, node in reqs:
                    if field not in fl:
                        ctx.ob(False, rule, cons, ctx.loc(node), f"request field {field!r} is not set")
                        continue
                    f(SN(name=name, w=w, s=st, t=w.tree(st, fl[field]), shape=E2E_SHAPE, keep=name in KEEPS, where=ctx.loc(node), extra=None,
                         case=lab, cons=cons, node=node, req=fl, st=None))
                ctx.absorb(w)
                ctx.paths += len(reqs)
            ctx.scenario(rule, f"{name}({lab})", where2, go)


def c05(ctx):
    ctx.explanation = ("Unknown outputs in every nesting shape are pushed through the serializer and through every operation that sends a "
                       "request; wherever the request contains the plaintext of a secret input it must be inside the secret envelope, or "
                       "inside an output value whose secret flag is set.")

    def f(r):
        for i in sorted(inputs_of(r.shape)) if r.case in ("all", "unknown") else [r.case]:
            f1(r, i)

    def f1(r, i):
        bad, und = [], []
        for path, sealed, atom in occurrences(r.t, i + ".value"):
            if sealed is True or (sealed is not False and r.w.e.truth(sealed, r.s) is True):
                continue
            if sealed is False or r.w.e.truth(sealed, r.s) is False:
                bad.append(path)
            else:
                und.append(path)
        ctx.ob(False if bad else None if und else True, "plaintext-sealed", r.cons, r.where,
               f"secret input {i!r} is sent in the clear at {(bad or und)[:3]}" if bad or und else "")
        for path, ov in output_values(r.t):
            owner = ov_inputs(ov, r.shape, path)
            if not owner or i not in owner:
                continue
            sec = get(ov, "secret")
            tv = r.w.e.truth(sec[1], r.s) if sec is not None and sec[0] == "atom" else None
            ok = sec is not None and tv is True and "secret" not in ov[2]
            ctx.ob(True if ok else False if sec is None or tv is False else None, "output-value-secret-flag", r.cons, r.where,
                   "" if ok else f"output value at {path} does not carry the secret flag of input {i!r}: {sec}")
    each(ctx, "plaintext-sealed", "secret", f)


def urns(t):
    """names in a list tree of urns -> (names, definite)"""
    if t[0] != "list":
        return set(), t[0] == "dict"
    names, definite = set(), not t[2]
    for x in t[1] + ([t[2]] if t[2] else []):
        if x[0] == "atom" and isinstance(x[1], (Sym, K)):
            names.add(x[1].name if isinstance(x[1], Sym) else x[1].v)
        elif x[0] == "alt":
            for y in x[1]:
                if y[0] == "atom" and isinstance(y[1], Sym):
                    names.add(y[1].name)
                else:
                    definite = False
        else:
            definite = False
    return names, definite


def output_values(t, path=""):
    if t[0] == "dict":
        if is_sig(t, go_const("OutputValueSig")):
            yield path, t
        for k, x in t[1].items():
            yield from output_values(x, f"{path}.{k}")
    elif t[0] == "list":
        for i, x in enumerate(t[1]):
            yield from output_values(x, f"{path}[{i}]")


def ov_inputs(ov, shape, path):
    """which inputs an output value at `path` stands for"""
    cur = shape
    import re
    for tok in re.findall(r"\.([^.\[]+)|\[(\d+)\]", path):
        k = tok[0] or int(tok[1])
        if isinstance(cur, tuple):
            return None  # nested inside another output value; covered there
        if k == "value":
            continue
        try:
            cur = cur[k]
        except Exception:
            return None
    if isinstance(cur, str) and cur.startswith("$"):
        return [cur[1:]]
    if isinstance(cur, tuple):
        return cur[0]
    return None


def at(shape, path):
    """the part of a shape an output value at `path` stands for"""
    import re
    cur = shape
    for k, i in re.findall(r"\.([^.\[]+)|\[(\d+)\]", path):
        if isinstance(cur, tuple):
            break
        if k != "value":
            cur = cur[k or int(i)]
    return cur


def c07_out(ctx):
    def f(r):
        bad = compare(r.t, r.shape, {r.case})
        d = [b for b in bad if b[2]]
        ctx.ob(True if not bad else False if d else None, "unknown-sent-as-marker", r.cons, r.where, "; ".join(f"{p}: {m}" for p, m, _ in (d or bad)[:3]))
    each(ctx, "unknown-sent-as-marker", "unknown", f)


def c38(ctx):
    ctx.explanation = ("Every nesting shape of known inputs is pushed through the serializer and every operation that sends a request; "
                       "the request must hold each value at the place it was given, and nothing else, up to secret envelopes and output values.")

    def f(r):
        bad = compare(r.t, r.shape, set())
        d = [b for b in bad if b[2]]
        ctx.ob(True if not bad else False if d else None, "value-in-place", r.cons, r.where, "; ".join(f"{p}: {m}" for p, m, _ in (d or bad)[:3]))
    each(ctx, "value-in-place", "known", f)


# ------------------------------------------------------------------ dependencies
DEPS = '''
def d_res_value():
    setup()
    Custom("n", {"p": [vx.res("r")], "q": {"k": vx.res("u", "ProviderResource")}})
def d_res_in_output():
    setup()
    Custom("n", {"p": vx.out("a", [vx.res("r")]), "q": B()})
def d_typed():
    setup()
    Custom("n", {"p": Args(foo_bar=[A()], nested=[B()]), "q": 1})
def d_depends_one():
    setup()
    Custom("n", PR(), ResourceOptions(depends_on=vx.res("d")))
def d_depends_list():
    setup()
    Custom("n", PR(), ResourceOptions(depends_on=[vx.res("d"), vx.res("f")]))
def d_depends_output():
    setup()
    Custom("n", PR(), ResourceOptions(depends_on=vx.out("o", [vx.res("d")], known=True)))
def d_depends_output_in_list():
    setup()
    Custom("n", PR(), ResourceOptions(depends_on=[vx.res("d"), vx.out("o", vx.res("f"), known=True)]))
def d_depends_remote():
    setup()
    Comp("n", PR(), ResourceOptions(depends_on=[vx.res("d")]), True)
def d_depends_component():
    setup()
    Comp("n", PR(), ResourceOptions(depends_on=[vx.res("d")]))
def d_depends_read():
    setup()
    Custom("n", PR(), ResourceOptions(depends_on=[vx.res("d")], id=vx.sym("theid", "str")))
def d_shared():
    setup()
    Custom("n", {"p": [A(), B()], "q": A()})
'''
AB = {"p": {"a.dep.urn"}, "q": {"b.dep.urn"}}
# scenario: (per-property urns, further urns in the overall list, request)
D_TABLE = {
    "e_custom": (AB, set(), "RegisterResource"), "e_remote": (AB, set(), "RegisterResource"), "e_component": (AB, set(), "RegisterResource"),
    "e_read": ({}, set(), "ReadResource"), "e_call": (AB, None, "Call"), "e_call_self": ({**AB, "__self__": {"r.urn"}}, None, "Call"),
    "d_res_value": ({"p": {"r.urn"}, "q": {"u.urn"}}, set(), "RegisterResource"),
    "d_res_in_output": ({"p": {"a.dep.urn", "r.urn"}, "q": {"b.dep.urn"}}, set(), "RegisterResource"),
    "d_typed": ({"p": {"a.dep.urn", "b.dep.urn"}}, set(), "RegisterResource"),
    "d_shared": ({"p": {"a.dep.urn", "b.dep.urn"}, "q": {"a.dep.urn"}}, set(), "RegisterResource"),
    "d_depends_one": (AB, {"d.urn"}, "RegisterResource"), "d_depends_list": (AB, {"d.urn", "f.urn"}, "RegisterResource"),
    "d_depends_output": (AB, {"d.urn", "o.dep.urn"}, "RegisterResource"),
    "d_depends_output_in_list": (AB, {"d.urn", "f.urn", "o.dep.urn"}, "RegisterResource"),
    "d_depends_remote": (AB, {"d.urn"}, "RegisterResource"), "d_depends_component": (AB, {"d.urn"}, "RegisterResource"),
    "d_depends_read": ({}, {"d.urn"}, "ReadResource"),
}


def pd_urns(t):
    """urns of one entry of propertyDependencies/argDependencies"""
    if t is None:
        return set(), True
    if t[0] == "inst":
        return urns(t[2]["urns"]) if "urns" in t[2] else (set(), False)
    if t[0] == "alt":
        rs = [pd_urns(x) for x in t[1]]
        return set.intersection(*[r[0] for r in rs]), all(r[1] for r in rs)
    return set(), t[0] in ("atom",) and isinstance(t[1], K)


def c09(ctx):
    ctx.explanation = ("Unknown outputs with distinct dependencies, and resources as values, are put in every shape of property and "
                       "pushed through registration, read and call; every dependency has to appear under its property and in the overall "
                       "list, and explicit dependencies in the overall list.")

    def f(r):
        for i in sorted(inputs_of(r.shape)):
            for top, sub in (r.shape.items() if isinstance(r.shape, dict) else ()):
                if i not in inputs_of(sub):
                    continue
                h = r.w.e and r.s
                got, definite = set(), True
                for a in r.extra:
                    d = h.heap[a.key]
                    for k, v in d.f.items():
                        if isinstance(k, K) and k.v in (top, "p", "foo_bar", "nested"):
                            g, de = r.w.deps(h, v)
                            got, definite = got | g, definite and de
                ok = i + ".dep" in got
                ctx.ob(True if ok else False if definite else None, "property-dependencies", f"{r.name}({i})", r.where,
                       "" if ok else f"the dependency of input {i!r} is not recorded for property {top!r} (recorded: {sorted(got)})")
        for path, ov in output_values(r.t):
            owner = ov_inputs(ov, r.shape, path)
            if owner:
                owner = set(owner) | inputs_of(at(r.shape, path))
                got, definite = urns(get(ov, "dependencies")) if get(ov, "dependencies") is not None else (set(), True)
                miss = {i + ".dep.urn" for i in owner} - got
                ctx.ob(True if not miss else False if definite else None, "output-value-dependencies", f"{r.name}({path})", r.where,
                       "" if not miss else f"the output value at {path} does not list {sorted(miss)}")
    each(ctx, "property-dependencies", "known", f, e2e=False, cases=lambda what, ins=(): [("", {**{i + ".known": True for i in ins}, "supports_secrets": True})])
    fixed = {"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True, "dry_run": False}
    for i in ("a", "b", "o"):
        fixed[i + ".known"], fixed[i + ".secret"] = True, False
    for name, (per, extra, method) in D_TABLE.items():
        where = ctx.at(E2E_FIELD[name][2] if name in E2E_FIELD else "pulumi.runtime.resource.prepare_resource")

        def go(name=name, per=per, extra=extra, method=method, where=where):
            w = ctx.world(HARNESS + E2E + DEPS, lambda src: WireWorld(src, fixed=fixed))
            w.PROPS = {}
            rs, exs = w.run(name)
            reqs = requests(w, method)
            if not reqs:
                ctx.ob(None, "request-dependencies", name, where, f"no {method} request was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            for st, a, fl, node in reqs:
                field = "argDependencies" if method == "Call" else "propertyDependencies"
                if per:
                    t = w.tree(st, fl[field]) if field in fl else None
                    for prop, want in per.items():
                        x = get(t, prop) if t is not None else None
                        got, definite = pd_urns(x)
                        miss = want - got
                        if t is not None and t[0] == "dict" and prop in t[2]:
                            miss, definite = want, False
                        ctx.ob(True if not miss else False if definite else None, "request-property-dependencies", f"{name}.{prop}", ctx.loc(node),
                               "" if not miss else f"{field}[{prop!r}] does not list {sorted(miss)}")
                if extra is not None:
                    want = set().union(*per.values(), extra)
                    got, definite = urns(w.tree(st, fl["dependencies"])) if "dependencies" in fl else (set(), True)
                    miss = want - got
                    ctx.ob(True if not miss else False if definite else None, "request-dependencies", name, ctx.loc(node),
                           "" if not miss else f"the request's dependency list lacks {sorted(miss)}")
            ctx.absorb(w)
            ctx.paths += len(reqs)
        ctx.scenario("request-dependencies", name, where, go)
    # an output of a resource depends on that resource, whatever its inputs depended on
    from . import dependencies as D
    for lab, body in {
        "of-resource": '    c = Cus("a:b:C", "c", RO())\n    a = Cus("a:b:C", "a", RO(), {"in1": 1})\n',
        "of-dependent": '    c = Cus("a:b:C", "c", RO())\n    a = Cus("a:b:C", "a", RO(), {"in1": vx.out("e", "v", known=True, secret=False, deps=[c])})\n',
        "of-unanswered": '    c = Cus("a:b:C", "c", RO())\n    a = Cus("a:b:C", "a", RO(), {"in1": None, "other": c.urn})\n',
    }.items():
        for form in ("a.in1", '[{"k": a.in1}]', "a.in1.apply(lambda v: v)", "Output.all(1, a.in1)"):
            if lab == "of-unanswered" and form[0] == "a":
                continue  # a property that is None is not sent at all
            name = f"output-{lab}:{form}"
            where = ctx.at("pulumi.runtime.rpc.transfer_properties")

            def go2(name=name, body=body, form=form, where=where):
                w, rs, exs = D.run(ctx, D.SRC + "def main():\n    setup()\n" + body + f'    x = Cus("a:b:C", "x", RO(), {{"p": {form}}})\n', "main")
                want = D.newurn(None, "a:b:C", "a")
                for st, fl, nd in D.of(w, "RegisterResource", "x"):
                    pd, ds = D.pd(w, st, fl, "p"), D.texts(st, fl.get("dependencies"))
                    for which, g in (("of the property", pd), ("of the resource", ds)):
                        ctx.ob(None if g is None else want in g, "output-depends-on-its-resource", f"{name} {which}", ctx.loc(nd),
                               "" if g is None or want in g else f"a resource using an output of another does not depend on it: {g}")
                ctx.absorb(w)
            ctx.scenario("output-depends-on-its-resource", name, where, go2)
