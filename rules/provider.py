"""C16/C17: the component provider server: isolation of requests, and what construct and call convey."""
from sa.dom import *
from sa.wire import WireWorld, go_const, is_sig, occurrences
from .combinators import excname
from . import inbound as I

HARNESS = I.HARNESS + '''
from pulumi.provider import Provider, ConstructResult, CallResult, CheckFailure
from pulumi.provider import server as srv
from pulumi.runtime import proto
from pulumi.runtime import settings, config as rconfig
from pulumi.resource import DependencyResource, DependencyProviderResource

def org():
    try:
        return settings.get_organization()
    except Exception:
        return None
def look(tag):
    """what the user's code finds in place"""
    vx.note(tag + ".project", settings.get_project())
    vx.note(tag + ".stack", settings.get_stack())
    vx.note(tag + ".parallel", settings.SETTINGS.parallel)
    vx.note(tag + ".preview", settings.is_dry_run())
    vx.note(tag + ".organization", org())
    vx.note(tag + ".root", settings.get_root_resource())
    vx.note(tag + ".monitor", vx.target(settings.get_monitor()))
    vx.note(tag + ".config.a", rconfig.get_config("a"))
    vx.note(tag + ".config.b", rconfig.get_config("b"))
    vx.note(tag + ".secret.a", rconfig.is_config_secret("a"))
    vx.note(tag + ".secret.b", rconfig.is_config_secret("b"))
    vx.locks(tag)
class Child(CustomResource):
    def __init__(self, name, opts=None):
        super().__init__("pkg:mod:T", name, {"p": vx.val("v1")}, opts)
class Prov(Provider):
    def __init__(self):
        super().__init__("1.0")
        self.how = None
    def work(self):
        if self.how == "child":
            Child("kid")
            vx.pump()
        if self.how == "root":
            settings.set_root_resource(vx.res("rootres", "ComponentResource"))
        if self.how == "raise":
            raise KeyError("user code")
        if self.how == "feature":
            asyncio.run(settings.monitor_supports_secrets())
    def construct(self, name, resource_type, inputs, options=None):
        look(name)
        self.work()
        return ConstructResult("urn:pulumi:stack::proj::pkg:mod:C::n", {})
    def call(self, token, args):
        look(token)
        self.work()
        return CallResult({})
def creq(t, **kw):
    d = dict(project=vx.val("project" + t), stack=vx.val("stack" + t), parallel=vx.sym("parallel" + t, "num"), monitorEndpoint=vx.val("monitor" + t), dryRun=vx.sym("preview" + t, "bool"),
             organization=vx.val("organization" + t), config={"a": vx.val("conf.a" + t)}, configSecretKeys=["a"], inputs=vx.struct({}), inputDependencies={}, name="req" + t, type="pkg:mod:C",
             parent="", aliases=[], dependencies=[], protect=False, providers={})
    d.update(kw)
    return proto.ConstructRequest(**d)
def kreq(t, **kw):
    d = dict(project=vx.val("project" + t), stack=vx.val("stack" + t), parallel=vx.sym("parallel" + t, "num"), monitorEndpoint=vx.val("monitor" + t), dryRun=vx.sym("preview" + t, "bool"),
             organization=vx.val("organization" + t), config={"a": vx.val("conf.a" + t)}, configSecretKeys=["a"], args=vx.struct({}), argDependencies={}, tok="req" + t, provider="", version="", pluginDownloadURL="")
    d.update(kw)
    return proto.CallRequest(**d)
EMPTY = dict(project="", stack="", parallel=0, organization="", config={"b": vx.val("conf.b2")}, configSecretKeys=[], dryRun=False)
P = Prov()
SV = srv.ProviderServicer(P, [], "engineaddr")
def fire(t, kind, how, **kw):
    P.how = how
    if kind == "construct":
        return asyncio.run(SV.Construct(creq(t, **kw), None))
    return asyncio.run(SV.Call(kreq(t, **kw), None))
def tolerate(t, kind, how, **kw):
    try:
        fire(t, kind, how, **kw)
    except Exception:
        vx.note("refused", t)
'''
NAMES = ("project", "stack", "parallel", "preview", "organization", "monitor")


def names(v):
    return sorted({str(x.name if isinstance(x, Sym) else x.v if isinstance(x, K) else repr(x)) for x in v})


class ProvWorld(WireWorld):
    def __init__(self, src="", fixed=None):
        super().__init__(src, fixed=fixed)
        m = self.e.models
        m.pop("pulumi.runtime.settings.is_dry_run", None)
        for p in ("pulumi.runtime.proto.resource_pb2_grpc.", "pulumi.runtime.proto."):
            m[p + "ResourceMonitorStub"] = self.stub("monitor")
        for p in ("pulumi.runtime.proto.engine_pb2_grpc.", "pulumi.runtime.proto."):
            m[p + "EngineStub"] = self.stub("engine")
        m["grpc.insecure_channel"] = lambda e, st, args, node: [(st, V(e.newinst(st, node, Ext("grpc.Channel"), {"target": args.get(0, "target", EMPTY)})))]
        self.failed = set()

    def stub(self, kind):
        def f(e, st, args, node):
            out = EMPTY
            for a in args.get(0, default=EMPTY):
                h = st.heap.get(a.key) if isinstance(a, Ref) else None
                for t in (h.f.get("target", EMPTY) if h else EMPTY):
                    nm = t.name if isinstance(t, Sym) else str(getattr(t, "v", t))
                    out |= V(Sym(f"{kind}@{nm}", f"obj:{self.hname}.Stub"))
            return [(st, out or V(Sym(kind, f"obj:{self.hname}.Stub")))]
        return f

    def sym_call(self, e, st, f, d, args, node):
        if isinstance(f, BMeth) and isinstance(f.obj, Sym) and "@" in f.obj.name:
            st.add_ghost("to:" + f.name, V(K(f.obj.name)))
            self.lock_note(st, "rpc:" + f.name)
            f = BMeth(Sym(f.obj.name.split("@")[0], f.obj.kind, f.obj.labels), f.name)
        return super().sym_call(e, st, f, d, args, node)

    def vx_target(self, e, st, args, node):
        return [(st, V(*(K(a.name) if isinstance(a, Sym) else a for a in args.get(0))))]

    def held(self, st):
        return {k: h.f["locked"] for k, h in st.heap.items() if getattr(h, "kind", "") == "inst" and h.cls in (Ext("asyncio.Lock"), Ext("threading.Lock")) and "locked" in h.f}

    def lock_note(self, st, tag):
        hs = self.held(st)
        st.add_ghost("locks:" + tag, V(*(Ref(k) for k, v in hs.items() if v == VTRUE)) or V(NONE))

    def vx_locks(self, e, st, args, node):
        from sa.world import kstr
        self.lock_note(st, kstr(args.get(0)))
        return [(st, VNONE)]


def c16(ctx):
    ctx.explanation = ("Histories of construct and call requests to one provider process are run with user code that looks at the settings, starts resources, fails or "
                       "sets a root resource; each request must find exactly its own settings under one lock, and its outcome must depend on its own work only.")
    src, cases = [HARNESS], []

    def add(lab, body, **want):
        src.append(f"def x{len(cases)}():\n    " + "\n    ".join(body) + "\n    return 1\n")
        cases.append((lab, want))
    for k1 in ("construct", "call"):
        add(f"{k1}-first", [f"fire('1', '{k1}', None)"], own="1")
        for k2 in ("construct", "call"):
            for how in ("child", "root", "raise", "feature"):
                add(f"{k1}-{how}-then-{k2}", [f"tolerate('1', '{k1}', '{how}')", f"fire('2', '{k2}', None)"], own="2")
            add(f"{k1}-then-{k2}-with-nothing-set", [f"tolerate('1', '{k1}', None)", f"fire('2', '{k2}', None, **EMPTY)"], empty="2")
            add(f"{k1}-fails-then-{k2}", [f"tolerate('1', '{k1}', 'child')", f"fire('2', '{k2}', None)"], own="2", fault="1")
            add(f"{k1}-then-{k2}-asks-features", [f"tolerate('1', '{k1}', 'feature')", f"fire('2', '{k2}', 'feature')"], own="2", features=True)
            add(f"{k1}-and-{k2}-lock", [f"fire('1', '{k1}', 'child')", f"fire('2', '{k2}', 'child')"], locks=True)
        add(f"{k1}-child-fails", [f"fire('1', '{k1}', 'child')"], fails=True, fault="1")
        add(f"{k1}-raises-releases", [f"tolerate('1', '{k1}', 'raise')"], released=True)
        add(f"{k1}-returns-releases", [f"tolerate('1', '{k1}', 'child')"], released=True)
    text = "\n".join(src)
    where = ctx.at("pulumi.provider.server.ProviderServicer")

    def go(i):
        lab, want = cases[i]
        w = ctx.world(text, lambda s: ProvWorld(s, fixed={f"supports_{x}": True for x in ("secrets", "resourceReferences", "outputValues")}))
        for t in "12":
            w.st.facts[("parallel" + t, "truth")] = True
            w.st.facts[("parallel" + t, "eq", K(0))] = False
            w.st.facts[("preview" + t, "truth")] = t == "1"
            for n in ("project", "stack", "monitor", "organization", "conf.a"):
                w.st.facts[(f"{n}{t}.value", "eq", K(""))] = False
        if want.get("features"):
            w.e.models.pop("pulumi.runtime.settings.monitor_supports_feature", None)
            w.resp_SupportsFeature = lambda e, st, node: w.msg(e, st, node, "SupportsFeature", hasSupport=V(Sym("hasSupport", "bool", frozenset())))
        if want.get("fault"):
            w.e.fault = lambda e, desc, node, st: desc == "rpc RegisterResource"
            w.e.fault_only = True
        rs, exs = w.run(f"x{i}", drain=False)
        if want.get("fails"):
            for s, v in rs:
                ctx.ob(False, "work-awaited", lab, where, "answers although work it started failed")
            for s, x in exs:
                ctx.ob(True, "work-awaited", lab, where, excname(s, x))
            ctx.absorb(w)
            return
        for s, x in exs:
            ctx.ob(False if want.get("fault") else None, "own-outcome", lab, where, f"the request fails with {excname(s, x)}" + (" because an earlier one did" if want.get("fault") else ""))
        for s, v in rs:
            if want.get("fault"):
                ctx.ob(True, "own-outcome", lab, where)
            t = want.get("own")
            if t:
                for n in NAMES:
                    got = s.ghost(f"req{t}.{n}")
                    nm = {x.name if isinstance(x, Sym) else x.v if isinstance(x, K) else repr(x) for x in got}
                    e1 = n + t + ("" if n in ("parallel", "preview") else ".value")
                    e1 = "monitor@" + e1 if n == "monitor" else e1
                    ok = nm == {e1} or (n == "preview" and nm == {t == "1"})
                    ctx.ob(ok if got else None, "own-settings", f"{lab}:{n}", where, f"{sorted(map(str, nm))} instead of {e1}")
                got = s.ghost(f"req{t}.config.a")
                ctx.ob({getattr(x, "name", None) for x in got} == {f"conf.a{t}.value"} if got else None, "own-config", f"{lab}:config", where, names(got))
                ctx.ob(not any(str(x).startswith("conf.") for x in names(s.ghost(f"req{t}.config.b"))), "own-config", f"{lab}:other-config", where, "configuration of another request")
                ctx.ob(s.ghost(f"req{t}.secret.a") == VTRUE and s.ghost(f"req{t}.secret.b") == VFALSE, "own-config", f"{lab}:secret-keys", where, "secret keys of another request")
                ctx.ob(s.ghost(f"req{t}.root") == VNONE, "own-settings", f"{lab}:root", where, "the root resource of another request")
            t = want.get("empty")
            if t:
                for n in NAMES:
                    if n in ("monitor", "preview"):
                        continue
                    ctx.ob(s.ghost(f"req{t}.{n}") == VNONE, "own-settings", f"{lab}:{n}", where, f"{names(s.ghost(f'req{t}.{n}'))} although the request sets none")
                ctx.ob(s.ghost(f"req{t}.preview") == VFALSE, "own-settings", f"{lab}:preview", where, names(s.ghost(f"req{t}.preview")))
                ctx.ob(not any(str(x).startswith("conf.") for x in names(s.ghost(f"req{t}.config.a"))), "own-config", f"{lab}:other-config", where, "configuration of another request")
                ctx.ob(s.ghost(f"req{t}.secret.b") == VFALSE and s.ghost(f"req{t}.secret.a") == VFALSE, "own-config", f"{lab}:secret-keys", where, "secret keys of another request")
            if want.get("features"):
                got = s.ghost("to:SupportsFeature")
                ctx.ob(K("monitor@monitor2.value") in got, "own-settings", f"{lab}:features", where, "feature support of another request's engine")
            if want.get("locks"):
                a, b = s.ghost("locks:req1"), s.ghost("locks:req2")
                ctx.ob(NONE not in a and NONE not in b and bool(a & b), "one-at-a-time", lab, where, "user code of the two requests does not run under one lock")
                c = s.ghost("locks:rpc:RegisterResource")
                ctx.ob(bool(c) and NONE not in c, "one-at-a-time", f"{lab}:requests", where, "engine requests are made without the lock")
            if want.get("released"):
                left = [k for k, v in w.held(s).items() if v != VFALSE]
                ctx.ob(not left, "lock-released", lab, where, "the lock stays taken")
        if not rs and not exs:
            ctx.ob(None, "own-settings", lab, where, "no path ends")
        ctx.absorb(w)
        ctx.paths += len(rs) + len(exs)

    for i in range(len(cases)):
        ctx.scenario("isolation", cases[i][0], where, lambda i=i: go(i))


# ---- C17 ---------------------------------------------------------------------------------------------------------------------------------
CONVEY = HARNESS + '''
class Obs(Provider):
    def __init__(self, result=None):
        super().__init__("1.0")
        self.result = result
    def see(self, inputs, key):
        vx.note("raw", inputs[key])
        vx.note("in", Output.from_input(inputs[key]))
        if "q" in inputs:
            vx.note("other", Output.from_input(inputs["q"]))
    def construct(self, name, resource_type, inputs, options=None):
        vx.note("name", name)
        vx.note("type", resource_type)
        vx.note("keys", list(inputs.keys()))
        if "p" in inputs:
            self.see(inputs, "p")
        vx.note("opt.aliases", options.aliases)
        vx.note("opt.depends_on", options.depends_on)
        vx.note("opt.protect", options.protect)
        vx.note("opt.providers", options.providers)
        vx.note("opt.parent", options.parent)
        if self.result is not None:
            return self.result()
        return ConstructResult("urn:pulumi:stack::proj::pkg:mod:C::n", {})
    def call(self, token, args):
        vx.note("name", token)
        vx.note("keys", list(args.keys()))
        if "p" in args:
            self.see(args, "p")
        if self.result is not None:
            return self.result()
        return CallResult({})
class RefMod:
    def version(self):
        return None
    def construct(self, name, typ, urn):
        return pulumi.resource.DependencyResource(urn)
def with_mod(run, *args):
    rpc.register_resource_module("pkg", "mod", RefMod())
    return run(*args)
class PD:
    def __init__(self, urns):
        self.urns = urns
def run_construct(inputs, deps, result=None, **kw):
    return asyncio.run(srv.ProviderServicer(Obs(result), [], "engineaddr").Construct(creq("1", inputs=vx.struct(inputs), inputDependencies=deps, **kw), None))
def run_call(inputs, deps, result=None, **kw):
    return asyncio.run(srv.ProviderServicer(Obs(result), [], "engineaddr").Call(kreq("1", args=vx.struct(inputs), argDependencies=deps, **kw), None))
A1 = "urn:pulumi:stack::proj::pkg:mod:T::dep1"
A2 = "urn:pulumi:stack::proj::pkg:mod:T::dep2"
def so(n, known=True, secret=False, deps=None):
    """an output of the user's code"""
    return vx.out(n, vx.sym(n + ".v", "str"), known=known, secret=secret)
'''
URN1, URN2 = "urn:pulumi:stack::proj::pkg:mod:T::dep1", "urn:pulumi:stack::proj::pkg:mod:T::dep2"

# name, input as sent, secret, unknown, value, own dependencies (besides those listed for the property; None: listed ones are replaced by nothing)
OVS = [
    ("ov", "OV(value=v1)", False, False, "$v1", ()),
    ("ov_deps", "OV(value=v1, dependencies=[A2])", False, False, "$v1", (URN2,)),
    ("ov_secret", "OV(value=v1, secret=True, dependencies=[A2])", True, False, "$v1", (URN2,)),
    ("ov_unknown", "OV(dependencies=[A2])", False, True, None, (URN2,)),
    ("ov_unknown_secret", "OV(secret=True)", True, True, None, ()),
    ("ov_in_list", "[v1, OV(value=v2, dependencies=[A2])]", False, False, ["$v1", "$v2"], (URN2,)),
    ("ov_in_dict", '{"k": OV(value=v1, secret=True), "l": OV(value=v2, dependencies=[A1, A2])}', True, False, {"k": "$v1", "l": "$v2"}, (URN1, URN2)),
    ("ov_deep", '{"k": [v1, {"l": OV(value=v2, dependencies=[A2])}]}', False, False, {"k": ["$v1", {"l": "$v2"}]}, (URN2,)),
    ("ov_of_list", "OV(value=[v1, v2], secret=True, dependencies=[A1, A2])", True, False, ["$v1", "$v2"], (URN1, URN2)),
    ("ov_deep_list", '[[v1, [OV(value=v2, secret=True, dependencies=[A2])]], 1.0]', True, False, [["$v1", ["$v2"]], 1.0], (URN2,)),
    ("ov_last_of_dict", '{"k": {"l": v1, "m": {"n": OV(value=v2, dependencies=[A2])}}}', False, False, {"k": {"l": "$v1", "m": {"n": "$v2"}}}, (URN2,)),
    ("ov_falsy", 'OV(value="")', False, False, "", ()),
    ("ov_false", "OV(value=False, dependencies=[A1])", False, False, False, (URN1,)),
    ("null_in_list", "[None, v1]", False, False, [None, "$v1"], ()),
    ("zero", "0.0", False, False, 0.0, ()),
    ("empty_list", "[]", False, False, [], ()),
    ("empty_dict", "{}", False, False, {}, ()),
    ("secret_false", "S(False)", True, False, False, ()),
    ("secret_empty", 'S("")', True, False, "", ()),
    ("ov_by_unknown", '{"k": OV(value=v1), "l": OV(dependencies=[A1])}', False, True, None, (URN1,)),
]


def urn_of(w, s, r):
    """the urn of a (dependency) resource, when it is one string"""
    got = set()
    for a in V(r) if not isinstance(r, frozenset) else r:
        if not isinstance(a, Ref) or s.heap[a.key].kind != "inst":
            return None
        for d in w.osum(s, s.heap[a.key].f.get("urn", EMPTY)):
            for x in (d.get("_future") or EMPTY):
                got.add(x.v if isinstance(x, K) else x.name if isinstance(x, Sym) else repr(x))
    return got.pop() if len(got) == 1 else None


def dep_urns(w, s, v):
    out = set()
    for a in v or ():
        if isinstance(a, Ref) and s.heap[a.key].kind in LISTS:
            h = s.heap[a.key]
            if h.rest:
                out.add(None)
            for it in h.items:
                out.add(urn_of(w, s, it))
        else:
            out.add(None)
    return out


def c17(ctx):
    ctx.explanation = ("Construct and call requests with inputs of every shape (plain, secret, unknown, output values with and without dependencies, at every kind of place) and every option "
                       "are run against a provider that looks at what it gets; results of every shape are followed into the response.")
    from . import outbound as O
    from .combinators import verdict, render
    src, jobs = [CONVEY], []
    rows = [(n, ex, sec, unk, val, ()) for n, ex, sec, unk, val in I.SHAPES if not n.startswith("ref")] + OVS

    def fn(body):
        src.append(f"def x{len(jobs)}():\n    setup()\n    return {body}\n")
        return f"x{len(jobs)}"

    def world(extra=None):
        w = ctx.world(TEXT[0], lambda s: ProvWorld(s, fixed={f"supports_{x}": True for x in ("secrets", "resourceReferences", "outputValues")}))
        w.st.facts[("parallel1", "truth")] = True
        w.st.facts[("preview1", "truth")] = False
        for k, v in (extra or {}).items():
            w.st.facts[k] = v
        for n in ("project", "stack", "monitor", "organization", "conf.a"):
            w.st.facts[(f"{n}1.value", "eq", K(""))] = False
        return w
    TEXT = [None]
    AT = {"construct": ctx.at("pulumi.provider.server.ProviderServicer._construct_inputs"), "call": ctx.at("pulumi.provider.server.ProviderServicer._call_args")}
    for kind in ("construct", "call"):
        for row in rows:
            for withdeps in (False, True):
                n, ex, sec, unk, val, own = row
                req = f'run_{kind}({{"p": {ex}, "q": vx.val("v3")}}, {{{repr("p") + ": PD([A1])" if withdeps else ""}}})'
                name = f"{kind}({n},{'with' if withdeps else 'no'} dependencies)"
                f = fn(req)

                def go(f=f, kind=kind, row=row, withdeps=withdeps, name=name):
                    n, ex, sec, unk, val, own = row
                    w = world({("preview1", "truth"): unk})
                    rs, exs = w.run(f, drain=False)
                    for s, x in exs:
                        ctx.ob(None, "input-value", name, AT[kind], f"raises {excname(s, x)}")
                    for s, v in rs:
                        keys = {tuple(sorted(w.tree(s, V(a)) if False else [x.v if isinstance(x, K) else repr(x) for it in s.heap[a.key].items for x in it])) for a in s.ghost("keys") if isinstance(a, Ref)}
                        ctx.ob(keys == {("p", "q")} if keys else None, "input-keys", name, AT[kind], f"inputs seen: {sorted(keys)}")
                        for d in w.osum(s, s.ghost("in")):
                            if "bad" in d:
                                ctx.ob(None, "input-value", name, AT[kind], f"not an output: {d['bad']}")
                                continue
                            st = d["state"]
                            if d["_is_secret"] is None or d["_is_known"] is None:
                                ctx.ob(None, "input-secret", name, AT[kind], "flags fail: " + I.fail(st, d.get("_is_secret!") or d.get("_is_known!")))
                                continue
                            ctx.ob(verdict(w.e, st, d["_is_secret"], sec), "input-secret", name, AT[kind], f"the input is secret={sorted(map(repr, d['_is_secret']))} for the user's code, expected {sec}")
                            ctx.ob(verdict(w.e, st, d["_is_known"], not unk), "input-known", name, AT[kind], f"the input is known={sorted(map(repr, d['_is_known']))} for the user's code, expected {not unk}")
                            if not unk and d["_future"] is not None:
                                bad = O.compare(w.tree(st, d["_future"]), val, set())
                                df = [b for b in bad if b[2]]
                                ctx.ob(True if not bad else False if df else None, "input-value", name, AT[kind], "; ".join(f"{p}: {m}" for p, m, _ in (df or bad)[:3]) + f" in {render(w, st, d['_future'])}")
                            du = dep_urns(w, st, d["_resources"])
                            want = set(own) | ({URN1} if withdeps and not n.startswith("ov") else set())
                            if None in du:
                                ctx.ob(None, "input-dependencies", name, AT[kind], "dependencies not followed")
                            else:
                                ctx.ob(want <= du, "input-dependencies", name, AT[kind], f"depends on {sorted(du)}, but {sorted(want)} were sent")
                                ctx.ob(du <= want, "no-invented-dependencies", name, AT[kind], f"depends on {sorted(du)}, only {sorted(want)} were sent")
                        for d in w.osum(s, s.ghost("other")):
                            if "bad" not in d and d["_is_secret"] is not None:
                                ctx.ob(verdict(w.e, d["state"], d["_is_secret"], False), "input-secret", name + " other", AT[kind], "an unrelated input is secret")
                                du = dep_urns(w, d["state"], d["_resources"])
                                ctx.ob(not du if None not in du else None, "no-invented-dependencies", name + " other", AT[kind], f"an unrelated input depends on {du}")
                    if not rs and not exs:
                        ctx.ob(None, "input-value", name, AT[kind], "no path ends")
                    ctx.absorb(w)
                    ctx.paths += len(rs) + len(exs)
                jobs.append(("input-value", name, AT[kind], go))
        # a resource reference that depends on anything but the resource alone stays an output that says so
        for lab, ds, want in (("two dependencies", "[A1, A2]", {URN1, URN2}), ("dependencies the other way round", "[A2, A1]", {URN1, URN2}),
                              ("another dependency", "[A2]", {URN2}), ("only itself", "[A1]", {URN1})):
            f = fn(f'with_mod(run_{kind}, {{"p": {{SIGK: vx.sig("ResourceReferenceSig"), "urn": A1}}}}, {{"p": PD({ds})}})')

            def go(f=f, kind=kind, name=f"{kind}(reference, {lab})", want=want):
                w = world()
                rs, exs = w.run(f, drain=False)
                for s, x in exs:
                    ctx.ob(None, "input-dependencies", name, AT[kind], f"raises {excname(s, x)}")
                for s, v in rs:
                    raw = urn_of(w, s, s.ghost("raw"))    # the resource itself, not an output
                    for d in w.osum(s, s.ghost("in")):
                        du = {raw} if raw is not None else dep_urns(w, d["state"], d["_resources"]) if "bad" not in d else {None}
                        ctx.ob(None if None in du else want <= du, "input-dependencies", name, AT[kind], f"depends on {du}, the engine said {sorted(want)}")
                ctx.absorb(w)
            jobs.append(("input-dependencies", f"{kind}(reference, {lab})", AT[kind], go))
    options(ctx, fn, world, jobs)
    results(ctx, fn, world, jobs)
    TEXT[0] = "\n".join(src)
    for rule, name, where, go in jobs:
        ctx.scenario(rule, name, where, go)


PURN = "urn:pulumi:stack::proj::pulumi:providers:{}::{}"


def options(ctx, fn, world, jobs):
    where = ctx.at("pulumi.provider.server.ProviderServicer._construct_options")
    cases = {
        "aliases": ('aliases=[vx.val("al1"), vx.val("al2")]', "opt.aliases", ["$al1.value", "$al2.value"]),
        "aliases-repeated": ('aliases=[vx.val("al2"), vx.val("al1"), vx.val("al2")]', "opt.aliases", ["$al2.value", "$al1.value", "$al2.value"]),
        "protect": ("protect=True", "opt.protect", True),
        "protect-no": ("protect=False", "opt.protect", False),
        "depends_on": ("dependencies=[A1, A2]", "opt.depends_on", {URN1, URN2}),
        "depends_on-parent": ("dependencies=[A1, A2], parent=A1", "opt.depends_on", {URN1, URN2}),
        "depends_on-one": ("dependencies=[A1]", "opt.depends_on", {URN1}),
        "parent": ('parent=A1', "opt.parent", URN1),
        "no-parent": ('parent=""', "opt.parent", None),
        "providers": (f'providers={{"pkga": "{PURN.format("pkga", "p1")}::id1", "pkgb": "{PURN.format("pkgb", "p2")}::id2"}}', "opt.providers",
                      {"pkga": (PURN.format("pkga", "p1"), "id1"), "pkgb": (PURN.format("pkgb", "p2"), "id2")}),
        "name-and-type": ("", "name", None),
    }
    for lab, (kw, note, want) in cases.items():
        f = fn("run_construct({}, {}" + (", " + kw if kw else "") + ")")
        name = f"construct options {lab}"

        def go(f=f, lab=lab, note=note, want=want, name=name):
            w = world()
            rs, exs = w.run(f, drain=False)
            for s, x in exs:
                ctx.ob(None, "option", name, where, f"raises {excname(s, x)}")
            for s, v in rs:
                got = s.ghost(note)
                if lab == "name-and-type":
                    ctx.ob(got == V(K("req1")) and s.ghost("type") == V(K("pkg:mod:C")), "option", name, where, "the name or type of the request is not the one passed on")
                    continue
                if lab.startswith("protect"):
                    from .combinators import verdict
                    ctx.ob(verdict(w.e, s, got, want), "option", name, where, f"protect is {sorted(map(repr, got))}")
                    continue
                if lab == "no-parent":
                    ctx.ob(got == VNONE if got else None, "option", name, where, f"parent is {sorted(map(repr, got))}")
                    continue
                if lab == "parent":
                    u = urn_of(w, s, got)
                    ctx.ob(None if u is None and not (got == VNONE) else u == want, "option", name, where, f"parent is {u}")
                    continue
                if len(got) != 1 or not isinstance(next(iter(got)), Ref):
                    ctx.ob(False if got == VNONE else None, "option", name, where, f"is {sorted(map(repr, got))}")
                    continue
                h = s.heap[next(iter(got)).key]
                if lab.startswith("aliases"):
                    t = [x.name if isinstance(x, Sym) else repr(x) for it in h.items for x in it]
                    ctx.ob(t == [x[1:] for x in want], "option", name, where, f"aliases are {t}")
                elif lab.startswith("depends_on"):
                    us = dep_urns(w, s, got)
                    ctx.ob(None if None in us else us == want, "option", name, where, f"depends_on is {us}")
                else:
                    from sa.dom import K as _K
                    res = {}
                    for k, x in h.f.items():
                        for a in x:
                            hh = s.heap[a.key] if isinstance(a, Ref) else None
                            if hh is None or hh.kind != "inst":
                                res[k.v] = None
                                continue
                            ids = {y.v if isinstance(y, K) else repr(y) for d in w.osum(s, hh.f.get("id", EMPTY)) for y in (d.get("_future") or EMPTY)}
                            pk = hh.f.get("package", EMPTY)
                            ctx.ob(pk == V(k) if pk and not any(isinstance(y, Opq) for y in pk) else None, "option", name + " package", where, f"the provider for {k.v} is one for {sorted(map(repr, pk))}")
                            rf = {y.v if isinstance(y, K) else repr(y) for y in hh.f.get("ref", EMPTY)}
                            res[k.v] = (urn_of(w, s, a), rf.pop() if len(rf) == 1 else ids.pop() if len(ids) == 1 else None)
                    bad = {k: v for k, v in want.items() if k not in res or res[k] is not None and res[k][0] is not None and res[k][0] != v[0]}
                    ctx.ob(None if any(v is None or v[0] is None for v in res.values()) else not bad, "option", name, where, f"providers are {res}")
            ctx.absorb(w)
            ctx.paths += len(rs) + len(exs)
        jobs.append(("option", name, where, go))


RES = [
    # name, state expression, {property: (value shape, inputs it depends on)}
    ("plain", '{"p": vx.sym("a.value", "str"), "q": [vx.sym("b.value", "str"), 1.0]}', {"p": ("$a", ""), "q": (["$b", 1.0], "")}),
    ("output", '{"p": A(), "q": vx.sym("b.value", "str")}', {"p": ("$a", "a"), "q": ("$b", "")}),
    ("nested", '{"p": {"k": [A()], "l": B()}, "q": 1.0}', {"p": ({"k": ["$a"], "l": "$b"}, "ab"), "q": (1.0, "")}),
    ("two", '{"p": A(), "q": B()}', {"p": ("$a", "a"), "q": ("$b", "b")}),
    ("shared", '{"p": A(), "q": [A(), B()]}', {"p": ("$a", "a"), "q": (["$a", "$b"], "ab")}),
    ("applied", '{"p": A().apply(lambda v: [v]), "q": True}', {"p": (["$a"], "a"), "q": (True, "")}),
    ("names", '{"p": A(), "q": 1.0, "name": vx.sym("c.value", "str"), "type": 2.0, "parent": [B()], "ids": False}',
     {"p": ("$a", "a"), "q": (1.0, ""), "name": ("$c", ""), "type": (2.0, ""), "parent": (["$b"], "b"), "ids": (False, "")}),
    ("falsy", '{"p": "", "q": [], "r": 0.0, "s": {}, "t": A().apply(lambda v: [])}', {"p": ("", ""), "q": ([], ""), "r": (0.0, ""), "s": ({}, ""), "t": ([], "a")}),
    ("secret", '{"p": Output.secret(vx.sym("a.value", "str")), "q": False}', {"p": ("$a", ""), "q": (False, "")}),
]


def results(ctx, fn, world, jobs):
    from . import outbound as O
    at = {"construct": ctx.at("pulumi.provider.server.ProviderServicer._construct_response"), "call": ctx.at("pulumi.provider.server.ProviderServicer._call_response")}
    for kind in ("construct", "call"):
        for n, ex, want in RES:
            mk = f"ConstructResult(vx.sym('theurn', 'str'), {ex})" if kind == "construct" else f"CallResult({ex})"
            if kind == "construct" and n == "output":
                mk = f"ConstructResult(vx.out('uo', vx.sym('theurn', 'str'), known=True, secret=False), {ex})"
            for sec in ("", "a", "b"):
                if sec and f"{sec.upper()}()" not in ex:
                    continue
                f = fn(f"run_{kind}({{}}, {{}}, lambda: {mk})")
                name = f"{kind} result {n}" + (f" with {sec} secret" if sec else "")

                def go(f=f, kind=kind, n=n, want=want, sec=sec, name=name):
                    w = world({("preview1", "truth"): False})
                    for x in "ab":
                        w.st.facts[(x + ".secret", "truth")] = x == sec
                        w.st.facts[(x + ".known", "truth")] = True
                    w.st.facts[("theurn", "truth")] = True
                    rs, exs = w.run(f, drain=False)
                    for s, x in exs:
                        ctx.ob(None, "result-value", name, at[kind], f"raises {excname(s, x)}")
                    for s, v in rs:
                        for a in v:
                            if not isinstance(a, Ref):
                                ctx.ob(None, "result-value", name, at[kind], "no response message")
                                continue
                            flds = s.heap[a.key].f
                            if kind == "construct":
                                u = flds.get("urn", EMPTY)
                                ctx.ob(u == V(Sym("theurn", "str")) if not any(isinstance(x, Opq) for x in u) else None, "result-urn", name, at[kind], f"urn is {sorted(map(repr, u))}")
                            body = flds.get("state" if kind == "construct" else "return")
                            deps = flds.get("stateDependencies" if kind == "construct" else "returnDependencies")
                            if body is None:
                                ctx.ob(False, "result-value", name, at[kind], "the response carries no " + ("state" if kind == "construct" else "return value"))
                                continue
                            t = w.tree(s, body)
                            bad = O.compare(t, {k: x[0] for k, x in want.items()}, set())
                            df = [b for b in bad if b[2]]
                            ctx.ob(True if not bad else False if df else None, "result-value", name, at[kind], "; ".join(f"{p}: {m}" for p, m, _ in (df or bad)[:3]))
                            sealed = [] if n == "falsy" else [sec] if sec else ["a"] if n == "secret" else []
                            for i in sealed:
                                occ = list(occurrences(t, i + ".value"))
                                clear = [p for p, se, _ in occ if se is False or se is not True and w.e.truth(se, s) is False]
                                und = [p for p, se, _ in occ if se is not True and p not in clear and w.e.truth(se, s) is not True]
                                ctx.ob(False if clear else None if und or not occ else True, "result-secret", name, at[kind], f"secret {i} is returned in the clear at {(clear or und)[:2]}")
                            td = w.tree(s, deps) if deps is not None else ("dict", {}, set())
                            for prop, (_, ins) in want.items():
                                g, definite = O.pd_urns(O.get(td, prop))
                                miss = {i + ".dep.urn" for i in ins} - g
                                ctx.ob(True if not miss else False if definite else None, "result-dependencies", f"{name}.{prop}", at[kind], f"{sorted(miss)} not listed")
                                extra = g - {i + ".dep.urn" for i in ins}
                                ctx.ob(not extra, "result-dependencies", f"{name}.{prop} only", at[kind], f"{sorted(extra)} listed for {prop}")
                    if not rs and not exs:
                        ctx.ob(None, "result-value", name, at[kind], "no path ends")
                    ctx.absorb(w)
                    ctx.paths += len(rs) + len(exs)
                jobs.append(("result-value", name, at[kind], go))
    for n, fl, rets in (("one", [("p1", "r1")], "{}"), ("two", [("p1", "r1"), ("p2", "r2")], "{}"), ("none", [], "{}"), ("with-results", [("p1", "r1")], '{"p": A(), "q": 1.0}')):
        f = fn("run_call({}, {}, lambda: CallResult(" + rets + (", [" + ", ".join(f'CheckFailure("{a}", "{b}")' for a, b in fl) + "]" if fl else "") + "))")

        def go(f=f, fl=fl, name=f"call failures {n}"):
            w = world()
            rs, exs = w.run(f, drain=False)
            for s, x in exs:
                ctx.ob(None, "failures", name, at["call"], f"raises {excname(s, x)}")
            for s, v in rs:
                for a in v:
                    got = []
                    x = s.heap[a.key].f.get("failures", EMPTY)
                    for r in x:
                        if isinstance(r, Ref):
                            for it in s.heap[r.key].items:
                                for y in it:
                                    ff = s.heap[y.key].f if isinstance(y, Ref) else {}
                                    got.append(tuple(next((z.v for z in ff.get(k, EMPTY) if isinstance(z, K)), None) for k in ("property", "reason")))
                    ctx.ob(got == fl, "failures", name, at["call"], f"the failures sent are {got}")
            ctx.absorb(w)
            ctx.paths += len(rs)
        jobs.append(("failures", f"call failures {n}", at["call"], go))
    # __self__ is an argument like any other
    f = fn('run_call({"__self__": ref(v1), "p": v2}, {"__self__": PD([A1])})')

    def go(f=f):
        w = world()
        rs, exs = w.run(f, drain=False)
        for s, x in exs:
            ctx.ob(None, "input-keys", "call(__self__)", at["call"], f"raises {excname(s, x)}")
        for s, v in rs:
            keys = {x.v for a in s.ghost("keys") if isinstance(a, Ref) for it in s.heap[a.key].items for x in it if isinstance(x, K)}
            ctx.ob(keys == {"__self__", "p"}, "input-keys", "call(__self__)", at["call"], f"the method sees only {sorted(keys)}")
        ctx.absorb(w)
    jobs.append(("input-keys", "call(__self__)", at["call"], go))
