"""C06/C07/C40: what the engine's answers become once they reach the program."""
from types import SimpleNamespace as SN
from sa.dom import *
from sa.wire import WireWorld, go_const, is_sig, occurrences
from .combinators import verdict, excname, render
from . import outbound as O

HARNESS = O.HARNESS + '''
SIGK = vx.sig("SigKey")
def S(v): return {SIGK: vx.sig("SecretSig"), "value": v}
U = vx.sig("UnknownStringValue")
v1 = vx.val("v1")
v2 = vx.val("v2")
def OV(**kw): return {SIGK: vx.sig("OutputValueSig"), **kw}
def asset(v): return {SIGK: vx.sig("AssetSig"), "text": v}
def archive(v): return {SIGK: vx.sig("ArchiveSig"), "assets": v}
def ref(v): return {SIGK: vx.sig("ResourceReferenceSig"), "urn": vx.val("refurn"), "id": v}

class Cust(CustomResource):
    def __init__(self, name, props, opts=None):
        super().__init__("pkg:mod:T", name, props, opts)

@pulumi.output_type
class Ret:
    def __init__(__self__, p, q):
        pulumi.set(__self__, "p", p)
        pulumi.set(__self__, "q", q)
    @property
    @pulumi.getter
    def p(self) -> Any:
        return pulumi.get(self, "p")
    @property
    @pulumi.getter
    def q(self) -> Any:
        return pulumi.get(self, "q")
'''

# name, the value the engine sends for property p, secret?, contains unknown?, expected value
SHAPES = [
    ("plain", "v1", False, False, "$v1"),
    ("list", "[v1, v2]", False, False, ["$v1", "$v2"]),
    ("dict", '{"k": v1, "l": [v2]}', False, False, {"k": "$v1", "l": ["$v2"]}),
    ("secret", "S(v1)", True, False, "$v1"),
    ("secret_of_list", "S([v1, v2])", True, False, ["$v1", "$v2"]),
    ("secret_of_dict", 'S({"k": v1})', True, False, {"k": "$v1"}),
    ("secret_in_list", "[S(v1), v2]", True, False, ["$v1", "$v2"]),
    ("secret_last_in_list", "[v1, S(v2)]", True, False, ["$v1", "$v2"]),
    ("secret_in_dict", '{"k": v1, "l": S(v2)}', True, False, {"k": "$v1", "l": "$v2"}),
    ("secret_first_in_dict", '{"k": S(v1), "l": v2}', True, False, {"k": "$v1", "l": "$v2"}),
    ("secret_deep", '{"k": [v1, {"l": [S(v2)]}]}', True, False, {"k": ["$v1", {"l": ["$v2"]}]}),
    ("secret_twice", 'S({"k": S(v1), "l": [S(v2)]})', True, False, {"k": "$v1", "l": ["$v2"]}),
    ("unknown", "U", False, True, None),
    ("unknown_in_list", "[v1, U]", False, True, None),
    ("unknown_in_dict", '{"k": v1, "l": U}', False, True, None),
    ("unknown_deep", '{"k": [v1, {"l": [U]}]}', False, True, None),
    ("unknown_secret", "S(U)", True, True, None),
    ("unknown_in_secret", 'S({"k": [U, v1]})', True, True, None),
    ("unknown_by_secret", '{"k": S(v1), "l": U}', True, True, None),
    ("ref", "ref(v1)", False, False, "$v1"),
    ("ref_unknown", 'ref("")', False, True, None),
    ("ref_in_secret", '{"k": ref(v1), "l": S(v2)}', True, False, {"k": "$v1", "l": "$v2"}),
    ("mixed", '[v1, 1.0, True, "", {"k": False}]', False, False, ["$v1", 1.0, True, "", {"k": False}]),
]


def src(rows=None):
    out = [HARNESS]
    for n, ex, *_ in rows or SHAPES:
        out.append(f'''
def ans_{n}(): return vx.struct({{"p": {ex}, "q": vx.val("v3")}})
def nest_{n}(): return vx.struct({{"urn": "urn", "id": "id", "state": {{"p": {ex}, "q": vx.val("v3")}}}})
def d_{n}(): return rpc.deserialize_properties(ans_{n}())
def k_{n}(): return rpc.deserialize_properties(ans_{n}(), True)
''')
    out.append('''
def r_register():
    setup()
    r = Cust("n", {"p": None, "q": None})
    return [r.p, r.q]
def r_read():
    setup()
    r = Cust("n", {"p": None, "q": None}, ResourceOptions(id=vx.val("theid")))
    return [r.p, r.q]
def r_get():
    setup()
    r = Cust("n", {"p": None, "q": None}, ResourceOptions(urn="urn:pulumi:stack::proj::pkg:mod:T::n"))
    return [r.p, r.q]
def r_remote():
    setup()
    r = Comp("n", {"p": None, "q": None}, None, True)
    return [r.p, r.q]
def r_call():
    setup()
    return [pulumi.runtime.call("pkg:mod:fn", {})]
def r_call_typed():
    setup()
    return [pulumi.runtime.call("pkg:mod:fn", {}, None, Ret)]
''')
    return "\n".join(out)


OPS = {
    # scenario: (request method, answer field, which answers, anchor)
    "r_register": ("RegisterResource", "object", "ans_", "pulumi.runtime.resource.register_resource"),
    "r_read": ("ReadResource", "properties", "ans_", "pulumi.runtime.resource.read_resource"),
    "r_get": ("Invoke", "return", "nest_", "pulumi.runtime.resource.get_resource"),
    "r_remote": ("RegisterResource", "object", "ans_", "pulumi.runtime.resource.register_resource"),
    "r_call": ("Call", "return", "ans_", "pulumi.runtime.invoke.call"),
    "r_call_typed": ("Call", "return", "ans_", "pulumi.runtime.invoke.call"),
}


def pick(ctx, op):
    """the quick tier sends every shape through registration and call, and every third through the other operations"""
    if ctx.thorough or op in ("r_register", "r_call"):
        return SHAPES
    return [x for x in SHAPES if x[0] in ("plain", "secret", "secret_in_list", "secret_deep", "unknown", "unknown_in_secret", "unknown_deep", "mixed")]


def each(ctx, rule, f, dry=(True, False), only=None):
    """f(name, op, w, d(osum), shape row, dry, where) for every output an operation hands out"""
    text = src()
    for op, (method, field, pre, anchor) in OPS.items():
        where = ctx.at(anchor)
        for row in pick(ctx, op):
            if only and not only(row):
                continue
            for dr in dry:
                name = f"{op}({row[0]},{'preview' if dr else 'update'})"

                def go(op=op, method=method, field=field, pre=pre, row=row, dr=dr, name=name, where=where):
                    fixed = {"dry_run": dr, "supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True}
                    w = ctx.world(text, lambda s: WireWorld(s, fixed=fixed))
                    w.answer_with(method, field, pre + row[0])
                    rs, exs = w.run(op)
                    for s, x in exs:
                        ctx.ob(None, rule, name, where, f"raises {excname(s, x)}")
                    if not rs and not exs:
                        ctx.ob(None, rule, name, where, "no path returns")
                    for s, v in rs:
                        for a in v:
                            items = s.heap[a.key].items
                            for i, it in enumerate(items):
                                for d in w.osum(s, it):
                                    f(SN(name=name, op=op, w=w, d=d, i=i, row=row, dry=dr, where=where))
                    ctx.absorb(w)
                    ctx.paths += len(rs)
                ctx.scenario(rule, name, where, go)


def expected(r):
    """(secret, unknown, value shape) of output i of the operation"""
    n, ex, sec, unk, shape = r.row
    if r.op.startswith("r_call"):
        return sec, unk, None if shape is None else {"p": shape, "q": "$v3"}
    if r.i == 1:
        return False, False, "$v3"
    return sec, unk, shape


def c06(ctx):
    ctx.explanation = ("Answers with secrets at every kind of place are fed to registration, read, rehydration and call; the outputs the "
                       "program gets must be flagged secret exactly when their answer holds a secret, and hold the bare plaintext.")
    SIGS = (go_const("SecretSig"), go_const("SigKey"))

    def f(r):
        sec, unk, shape = expected(r)
        d = r.d
        if "bad" in d:
            return ctx.ob(None, "secret-mark", r.name, r.where, f"not an output: {d['bad']}")
        s, v = d["state"], d["_is_secret"]
        if v is None:
            return ctx.ob(None, "secret-mark", r.name, r.where, fail(s, d.get("_is_secret!")))
        rule = "secret-mark" if sec else "not-secret-mark"
        ctx.ob(verdict(r.w.e, s, v, sec), rule, r.name, r.where, f"output {r.i} is flagged secret={sorted(map(repr, v))}, expected {sec}")
        val = d["_future"]
        if val is None:
            return ctx.ob(None, "plain-value", r.name, r.where, "value failed")
        txt = render(r.w, s, val)
        leak = any(x in txt for x in SIGS)
        ctx.ob(not leak, "no-envelope-left", r.name, r.where, f"the value still contains the envelope: {txt}")
        if shape is not None and not unk:
            bad = O.compare(r.w.tree(s, vtypes(r, val)), shape, set())
            df = [b for b in bad if b[2]]
            ctx.ob(True if not bad else False if df else None, "plain-value", r.name, r.where, "; ".join(f"{p}: {m}" for p, m, _ in (df or bad)[:3]) + f" in {txt}" if bad else "")
    each(ctx, "secret-mark", f)


def fail(s, x):
    return "flag fails with " + (x if isinstance(x, str) else excname(s, x or ()))


def vtypes(r, val):
    """an output-type instance is its dictionary"""
    out = []
    s = r.d["state"]
    for a in val:
        if isinstance(a, Ref) and s.heap[a.key].kind == "inst":
            h = s.heap[a.key]
            a = r.w.e.newdict(s, ("as", a.key), {K(k): x for k, x in h.f.items() if isinstance(k, str) and not k.startswith("__")})
        out.append(a)
    return V(*out)


def c07(ctx):
    ctx.explanation = ("Outbound: unknown inputs in every shape are pushed through the serializer and every request. Inbound: answers with "
                       "the unknown marker at every kind of place are fed to every operation, and the outputs' knownness is checked.")
    O.c07_out(ctx)
    from sa.prog import AnchorMissing

    def f(r):
        sec, unk, shape = expected(r)
        d = r.d
        if "bad" in d:
            return ctx.ob(None, "unknown-mark", r.name, r.where, f"not an output: {d['bad']}")
        s, v = d["state"], d["_is_known"]
        if v is None:
            return ctx.ob(None, "unknown-mark", r.name, r.where, fail(s, d.get("_is_known!")))
        if r.dry:
            ctx.ob(verdict(r.w.e, s, v, not unk), "unknown-mark" if unk else "known-mark", r.name, r.where, f"output {r.i} is known={sorted(map(repr, v))}, expected {not unk}")
        if d["_future"] is not None:
            txt = render(r.w, s, d["_future"])
            ctx.ob(go_const("UnknownStringValue") not in txt, "marker-not-a-value", r.name, r.where, f"the unknown marker reached the program as a string: {txt}")
    each(ctx, "unknown-mark", f)
    keep(ctx)


KEEP = [("output_value", "OV(value=U)"), ("secret_output_value", "OV(value=[v1, U], secret=True)"), ("ref_in_secret", 'S({"k": ref("")})')]


def keep(ctx):
    """a decoder asked to keep unknowns keeps every one of them, wherever it is, also outside a preview"""
    extra = "".join(f"""
def ans_{n}(): return vx.struct({{"p": {ex}}})
def k_{n}(): return rpc.deserialize_properties(ans_{n}(), True)
def kk_{n}(): return rpc.deserialize_properties(ans_{n}(), keep_unknowns=True)
""" for n, ex in KEEP)
    text = src() + extra
    rows = [(n, ex) for n, ex, sec, unk, sh in SHAPES if unk] + KEEP
    for n, ex in rows:
        where = ctx.at("pulumi.runtime.rpc.deserialize_properties")
        for fn in ("k_",) + (("kk_",) if (n, ex) in KEEP else ()):
            for dr in (True, False):
                name = f"deserialize_properties(keep_unknowns)({n},{'preview' if dr else 'update'}){'' if fn == 'k_' else ' by name'}"

                def go(n=n, ex=ex, fn=fn, dr=dr, name=name, where=where):
                    w = ctx.world(text, lambda s: WireWorld(s, fixed={"dry_run": dr}))
                    rs, exs = w.run(fn + n)
                    for s, x in exs:
                        ctx.ob(None, "unknown-kept", name, where, f"raises {excname(s, x)}")
                    for s, v in rs:
                        k = unknowns(w, s, v, set())
                        ctx.ob(True if k else False, "unknown-kept", name, where, f"the decoded value holds no unknown: {render(w, s, v)}")
                    ctx.absorb(w)
                ctx.scenario("unknown-kept", name, where, go)


def unknowns(w, s, v, seen):
    """does the decoded value hold an Unknown (or an opaque part that may)"""
    for a in v:
        if isinstance(a, Opq):
            return True
        if not isinstance(a, Ref) or a.key in seen:
            continue
        seen.add(a.key)
        h = s.heap[a.key]
        if h.kind == "inst" and isinstance(h.cls, Cls) and h.cls.node.name == "Unknown":
            return True
        if h.kind == "inst" and isinstance(h.cls, Cls) and h.cls.node.name == "Output":
            for d in w.osum(s, V(a)):
                if d.get("_future") is None or unknowns(w, d["state"], d["_future"], seen):
                    return True
        for x in list(h.f.values()) + list(h.items) + ([h.rest] if h.rest else []):
            if isinstance(x, frozenset) and unknowns(w, s, x, seen):
                return True
    return False


# ---------------------------------------------------------------------- C40: values and dependencies of answers
VALUES = [
    ("zero", "0.0", 0.0), ("true", "True", True), ("false", "False", False), ("empty", '""', ""), ("emptylist", "[]", []), ("emptydict", "{}", {}),
    ("null_in_list", "[None, v1, None]", [None, "$v1", None]), ("falsy_in_list", '["", 0.0, False, [], {}, v1]', ["", 0.0, False, [], {}, "$v1"]),
    ("falsy_in_dict", '{"a": "", "b": 0.0, "c": False, "d": [], "e": {}, "f": v1}', {"a": "", "b": 0.0, "c": False, "d": [], "e": {}, "f": "$v1"}),
    ("keys", '{"_k": v1, "a-b": v2, "id": 1.0, "urn": 2.0, "value": 3.0, "secret": True, "__provider": "x"}',
     {"_k": "$v1", "a-b": "$v2", "id": 1.0, "urn": 2.0, "value": 3.0, "secret": True, "__provider": "x"}),
    ("deep", '{"k": [{"l": [[v1], [{"m": v2}]]}]}', {"k": [{"l": [["$v1"], [{"m": "$v2"}]]}]}),
    ("secret_falsy", 'S("")', ""), ("secret_falsy_in_dict", '{"k": S(0.0), "l": v1}', {"k": 0.0, "l": "$v1"}),
    ("same_twice", "[v1, v1, v2, v1]", ["$v1", "$v1", "$v2", "$v1"]),
]


def c40(ctx):
    ctx.explanation = ("Answers with values of every shape, falsy and empty ones included, are fed to registration, read, rehydration, calls and "
                       "invokes, with and without an input of the same name; the outputs must hold exactly the values answered, in place, else "
                       "the input's. Dependencies the engine answers must come back when the output is used as an input.")
    rows = [(n, ex, n.startswith("secret"), False, sh) for n, ex, sh in VALUES] + [x for x in SHAPES if not x[3]]
    text = src(rows) + '''
def given(v):
    setup()
    r = Cust("n", {"p": v, "q": vx.out("b")})
    return [r.p, r.q]
def g_one(): return given(vx.out("a"))
def g_list(): return given([vx.out("a"), "x"])
def g_read():
    setup()
    r = Cust("n", {"p": vx.out("a"), "q": vx.out("b")}, ResourceOptions(id="theid"))
    return [r.p, r.q]
def ans_none(): return vx.struct({})
def ans_qonly(): return vx.struct({"q": vx.val("v3")})
def ans_extra(): return vx.struct({"p": vx.val("v1"), "q": vx.val("v3"), "zz": vx.val("v2")})
def i_sync():
    setup()
    return pulumi.runtime.invoke("pkg:mod:fn", {}).value
def i_typed():
    setup()
    return pulumi.runtime.invoke("pkg:mod:fn", {}, None, Ret).value
PD = pulumi.runtime.resource.PropertyDependencies
def pdeps(): return {"p": PD(["urn:d1", "urn:d2"]), "q": PD(["urn:d3"])}
def pempty(): return {"q": PD(["urn:d3"]), "p": PD([])}
async def urns(o):
    out = []
    for d in await o.resources():
        out.append(await d.urn.future())
    return out
def y_custom():
    setup()
    r = Cust("n", {"p": None, "q": None})
    return [asyncio.run(urns(r.p)), asyncio.run(urns(r.q))]
def y_remote():
    setup()
    r = Comp("n", {"p": None, "q": None}, None, True)
    return [asyncio.run(urns(r.p)), asyncio.run(urns(r.q))]
def y_call():
    setup()
    c = pulumi.runtime.call("pkg:mod:fn", {})
    return [asyncio.run(urns(c)), asyncio.run(urns(c.apply(lambda v: v)))]
'''
    base = {"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True}
    marker = go_const("UnknownStringValue")

    def judge(r, w, s, v, shape, name, where):
        bad = O.compare(w.tree(s, v), shape, set())
        df = [b for b in bad if b[2]]
        ctx.ob(True if not bad else False if df else None, "answered-value", name, where,
               "; ".join(f"{p}: {m}" for p, m, _ in (df or bad)[:3]) + f" in {render(w, s, v)}" if bad else "")

    def outputs(op, answer, name, where, want, dr):
        """want: per output, the shape; None = unknown"""
        w = ctx.world(text, lambda s: WireWorld(s, fixed={"dry_run": dr, **base, "a.known": True, "b.known": True, "a.secret": False, "b.secret": False}))
        w.answer_with(answer[0], answer[1], answer[2])
        for n in "ab":     # the program's values are ordinary ones: neither None nor the marker that stands for an unknown
            w.st.facts[(n + ".value", "eq", K(marker))] = False
            w.st.facts[(n + ".value", "truth")] = True
            w.st.facts[(n + ".value", "none")] = False
        rs, exs = w.run(op)
        for s, x in exs:
            ctx.ob(None, "answered-value", name, where, f"raises {excname(s, x)}")
        for s, v in rs:
            for a in v:
                for i, it in enumerate(s.heap[a.key].items):
                    for d in w.osum(s, it):
                        lab = f"{name}[{i}]"
                        if "bad" in d or d["_future"] is None or d["_is_known"] is None:
                            ctx.ob(None, "answered-value", lab, where, "no value")
                            continue
                        if dr and want[i] is None:
                            continue    # a preview's answer for what the engine left out depends on the legacy setting: C06 and C12 decide it
                        kn = want[i] is not None
                        ctx.ob(verdict(w.e, d["state"], d["_is_known"], kn), "answered-known", lab, where, f"known={sorted(map(repr, d['_is_known']))}, expected {kn}")
                        if kn:
                            r = SN(w=w, d=d)
                            judge(r, w, d["state"], vtypes(r, d["_future"]), want[i], lab, where)
        ctx.absorb(w)
        ctx.paths += len(rs)

    for op, (method, field, pre, anchor) in OPS.items():
        where = ctx.at(anchor)
        for n, ex, sec, unk, shape in rows:
            for dr in (True, False):
                name = f"{op}({n},{'preview' if dr else 'update'})"
                want = [{"p": shape, "q": "$v3"}] if op.startswith("r_call") else [shape, "$v3"]
                ctx.scenario("answered-value", name, where, lambda op=op, m=method, f=field, a=pre + n, name=name, where=where, want=want, dr=dr:
                             outputs(op, (m, f, a), name, where, want, dr))
    # against the input of the same name
    for op, inp in (("g_one", "$a"), ("g_list", ["$a", "x"])):
        where = ctx.at("pulumi.runtime.resource.register_resource")
        for a, up, pv in (("ans_plain", ["$v1", "$v3"], ["$v1", "$v3"]), ("ans_empty", ["", "$v3"], ["", "$v3"]), ("ans_false", [False, "$v3"], [False, "$v3"]),
                          ("ans_emptylist", [[], "$v3"], [[], "$v3"]), ("ans_none", [inp, "$b"], [None, None]), ("ans_qonly", [inp, "$v3"], [None, "$v3"]),
                          ("ans_extra", ["$v1", "$v3"], ["$v1", "$v3"])):
            for dr, want in ((False, up), (True, pv)):
                name = f"{op}({a},{'preview' if dr else 'update'})"
                ctx.scenario("answered-value", name, where, lambda op=op, a=a, name=name, where=where, want=want, dr=dr:
                             outputs(op, ("RegisterResource", "object", a), name, where, want, dr))
    for n, ex, sec, unk, shape in rows:
        for op in ("i_sync", "i_typed"):
            where = ctx.at("pulumi.runtime.invoke.invoke")
            name = f"{op}({n})"

            def go(op=op, n=n, shape=shape, name=name, where=where):
                w = ctx.world(text, lambda s: WireWorld(s, fixed={**base}))
                w.answer_with("Invoke", "return", "ans_" + n)
                rs, exs = w.run(op)
                for s, x in exs:
                    ctx.ob(None, "answered-value", name, where, f"raises {excname(s, x)}")
                for s, v in rs:
                    r = SN(w=w, d={"state": s})
                    judge(r, w, s, vtypes(r, v), {"p": shape, "q": "$v3"}, name, where)
                ctx.absorb(w)
                ctx.paths += len(rs)
            ctx.scenario("answered-value", name, where, go)
    def dependencies(op, answer, want, where):
        name = f"{op}({answer[2]})"
        w = ctx.world(text, lambda s: WireWorld(s, fixed={**base, "dry_run": False}))
        w.answer_with(*answer)
        rs, exs = w.run(op)
        for s, x in exs:
            ctx.ob(None, "answered-dependencies", name, where, f"raises {excname(s, x)}")
        for s, v in rs:
            t = w.tree(s, v)
            for i, wanted in enumerate(want):
                el = t[1][i] if t[0] == "list" and len(t[1]) == len(want) else None
                els = el[1] if el and el[0] == "list" else None
                got = None if els is None else {a[1].v for a in els if a[0] == "atom" and isinstance(a[1], K)}
                exact = els is not None and all(a[0] == "atom" and isinstance(a[1], (K, Sym)) for a in els)
                ok = got is not None and wanted <= got
                ctx.ob(True if ok else False if exact else None, "answered-dependencies", f"{name}.{'pq'[i]}", where,
                       "" if ok else f"an output the engine says depends on {sorted(wanted)} depends on {got if got is not None else el}")
        ctx.absorb(w)
        ctx.paths += len(rs)

    for op, method, field in (("y_custom", "RegisterResource", "propertyDependencies"), ("y_remote", "RegisterResource", "propertyDependencies"),
                              ("y_call", "Call", "returnDependencies")):
        where = ctx.at("pulumi.runtime.invoke.call" if op == "y_call" else "pulumi.runtime.resource.register_resource")

        for deps, want in (("pdeps", [{"urn:d1", "urn:d2"}, {"urn:d3"}]), ("pempty", [set(), {"urn:d3"}])):
            ctx.scenario("answered-dependencies", f"{op}({deps})", where, lambda op=op, a=(method, field, deps), want=want, where=where:
                         dependencies(op, a, [set().union(*want)] * 2 if op == "y_call" else want, where))
