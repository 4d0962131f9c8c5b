"""C18/C19: dynamic providers - what each operation hands over, and what serializing one leaves behind."""
from sa.dom import *
from sa.engine import Args
from sa.wire import WireWorld, occurrences
from .combinators import excname, render
from . import outbound as O
from . import inbound as I

HARNESS = I.HARNESS + '''
import pickle
import dill
from pulumi.dynamic import dynamic as dyn
from pulumi.dynamic import __main__ as dm
from pulumi.dynamic import ResourceProvider, CheckResult, CheckFailure, DiffResult, CreateResult, ReadResult, UpdateResult
from pulumi.runtime import proto
SEEN = [None]
class Spy(ResourceProvider):
    def __init__(self, tag, result):
        self.tag = tag
        self.result = result
    def check(self, olds, news):
        SEEN[0] = self.tag
        vx.note("who", self.tag)
        vx.note("olds", olds)
        vx.note("news", news)
        return self.result()
    def diff(self, id, olds, news):
        vx.note("id", id)
        return self.check(olds, news)
    def update(self, id, olds, news):
        return self.diff(id, olds, news)
    def create(self, props):
        SEEN[0] = self.tag
        vx.note("who", self.tag)
        vx.note("news", props)
        return self.result()
    def read(self, id, props):
        vx.note("id", id)
        return self.create(props)
    def delete(self, id, props):
        vx.note("id", id)
        self.create(props)
RESULT = [None]
def provider_for(enc):
    return Spy(enc, RESULT[0])
SV = dm.DynamicResourceProviderServicer()
def olds(enc="enc-old"):
    return vx.struct({"p": vx.val("o1"), "q": [vx.val("o2")], "__provider": enc})
def news(enc="enc-new"):
    return vx.struct({"p": vx.val("n1"), "r": {"k": vx.val("n2")}, "__provider": enc})
def op(kind, result, new="enc-new", old="enc-old"):
    RESULT[0] = result
    if kind == "check":
        return SV.Check(proto.CheckRequest(urn="u", olds=olds(old), news=news(new)), None)
    if kind == "diff":
        return SV.Diff(proto.DiffRequest(id=vx.val("theid"), urn="u", olds=olds(old), news=news(new)), None)
    if kind == "update":
        return SV.Update(proto.UpdateRequest(id=vx.val("theid"), urn="u", olds=olds(old), news=news(new)), None)
    if kind == "create":
        return SV.Create(proto.CreateRequest(urn="u", properties=news(new)), None)
    if kind == "read":
        return SV.Read(proto.ReadRequest(id=vx.val("theid"), urn="u", properties=news(new)), None)
    return SV.Delete(proto.DeleteRequest(id=vx.val("theid"), urn="u", properties=news(new)), None)
OUT = {"a": vx.val("r1"), "b": [vx.val("r2"), {"c": vx.val("r3")}], "z": 0, "e": "", "f": False}
def outs():
    return {"a": vx.val("r1"), "b": [vx.val("r2"), {"c": vx.val("r3")}], "z": 0, "e": "", "f": False}
'''
OLDS = {"p": "$o1", "q": ["$o2"], "__provider": "enc-old"}
NEWS = {"p": "$n1", "r": {"k": "$n2"}, "__provider": "enc-new"}
OUTS = {"a": "$r1", "b": ["$r2", {"c": "$r3"}], "z": 0, "e": "", "f": False, "__provider": "enc-new"}
KINDS = {"check": "Check", "diff": "Diff", "update": "Update", "create": "Create", "read": "Read", "delete": "Delete"}
# name, operation, result expression, {field of the answer: expected}
CASES = [
    ("check", "check", "CheckResult(outs(), [])", {"inputs": OUTS, "failures": []}),
    ("check with one failure", "check", "CheckResult(outs(), [CheckFailure('p1', 'r1')])", {"inputs": OUTS, "failures": [("p1", "r1")]}),
    ("check with two failures", "check", "CheckResult({}, [CheckFailure('p1', 'r1'), CheckFailure('p2', 'r2')])", {"inputs": {"__provider": "enc-new"}, "failures": [("p1", "r1"), ("p2", "r2")]}),
    ("diff some", "diff", "DiffResult(True, ['a', 'b'], ['c', 'd'], True)", {"changes": "DIFF_SOME", "replaces": ["a", "b"], "stables": ["c", "d"], "deleteBeforeReplace": True}),
    ("diff none", "diff", "DiffResult(False, [], [], False)", {"changes": "DIFF_NONE", "replaces": [], "stables": [], "deleteBeforeReplace": False}),
    ("diff unknown", "diff", "DiffResult()", {"changes": "DIFF_UNKNOWN", "replaces": [], "stables": [], "deleteBeforeReplace": False}),
    ("diff only stables", "diff", "DiffResult(changes=True, stables=['c'])", {"changes": "DIFF_SOME", "replaces": [], "stables": ["c"], "deleteBeforeReplace": False}),
    ("diff only replaces", "diff", "DiffResult(replaces=['a'])", {"changes": "DIFF_UNKNOWN", "replaces": ["a"], "stables": [], "deleteBeforeReplace": False}),
    ("diff delete before replace, no change", "diff", "DiffResult(changes=False, delete_before_replace=True)", {"changes": "DIFF_NONE", "replaces": [], "stables": [], "deleteBeforeReplace": True}),
    ("update", "update", "UpdateResult(outs())", {"properties": OUTS}),
    ("update without outputs", "update", "UpdateResult()", {"properties": {"__provider": "enc-new"}}),
    ("create", "create", "CreateResult(vx.val('newid'), outs())", {"id": "$newid", "properties": OUTS}),
    ("create without outputs", "create", "CreateResult(vx.val('newid'))", {"id": "$newid", "properties": {"__provider": "enc-new"}}),
    ("read", "read", "ReadResult(vx.val('newid'), outs())", {"id": "$newid", "properties": OUTS}),
    ("read of a missing resource", "read", "ReadResult()", {"id": None, "properties": {"__provider": "enc-new"}}),
    ("read of an emptied resource", "read", "ReadResult(vx.val('newid'), {})", {"id": "$newid", "properties": {"__provider": "enc-new"}}),
    ("delete", "delete", "None", {}),
]

# what each operation returns when it is run twice in one process, for resources of different providers
HIST = [("check", "CheckResult(outs(), [])"), ("diff", "DiffResult()"), ("update", "UpdateResult(outs())"), ("create", "CreateResult('i', outs())"),
        ("read", "ReadResult('i', outs())"), ("delete", "None")]


class DynWorld(WireWorld):
    def __init__(self, src="", fixed=None):
        super().__init__(src, fixed=fixed)
        m = self.e.models
        for n in ("base64.b64encode", "base64.b64decode"):
            m[n] = self.wrap
        m["dill.loads"] = self.loads
        m["dill.dumps"] = self.dumps
        self.providers = True
        self.blobs = {}

    def dumps(self, e, st, args, node):
        if e.may_fault("serializing", st, node):
            return []
        n = f"blob{len(self.blobs)}"
        self.blobs[n] = args.get(0)
        return [(st, V(Sym(n) if not self.providers else Sym(n, "str")))]

    def sym_call(self, e, st, f, d, args, node):
        if isinstance(f, BMeth) and isinstance(f.obj, Sym) and f.obj.name in self.blobs and f.name in ("decode", "encode"):
            return [(st, V(f.obj))]
        return super().sym_call(e, st, f, d, args, node)

    def wrap(self, e, st, args, node):
        v = args.get(0)
        for a in v:
            h = st.heap.get(a.key) if isinstance(a, Ref) else None
            if h is not None and h.kind == "inst" and isinstance(h.cls, Cls) and h.cls.node.name == "Unknown":
                e.raise_new(st, "TypeError", node)
                return []
        if e.may_fault("serializing", st, node):
            return []
        return [(st, v)]

    def loads(self, e, st, args, node):
        if not self.providers:
            return [(st, V(*(y for a in args.get(0) for y in (self.blobs.get(a.name, V(a)) if isinstance(a, Sym) else V(a)))))]
        return e.call(V(e.fn(f"{self.hname}.provider_for")), Args([args.get(0)]), st, node)


def c18(ctx):
    ctx.explanation = ("Every operation of the dynamic provider's servicer is run against a provider that records what it is given and returns each shape of result "
                       "(nothing, empty, falsy, several); what it saw and what the response holds are compared with the request and the result, field by field.")
    src, jobs = [HARNESS], []
    for i, (lab, kind, ex, want) in enumerate(CASES):
        src.append(f"def x{i}():\n    setup()\n    return op('{kind}', lambda: {ex})\n")
    for k in ("check", "diff"):
        src.append(f"def u_{k}():\n    setup()\n    return op('{k}', lambda: {'CheckResult(outs(), [])' if k == 'check' else 'DiffResult()'}, U)\n")
    for k, ex in HIST:
        src.append(f"def h_{k}():\n    setup()\n    op('{k}', lambda: {ex}, 'enc-first', 'enc-first')\n    vx.note('second', True)\n    SEEN[0] = None\n    op('{k}', lambda: {ex}, 'enc-second', 'enc-first')\n    vx.note('last', SEEN[0])\n")
    src.append('''
def rt():
    setup()
    p = Spy("me", None)
    q = dm.get_provider({"__provider": dyn.serialize_provider(p)})
    vx.note("q", q)
    return q is p
class DR(dyn.Resource):
    _resource_type_name = 'dynamic:Resource'
def reg():
    setup()
    DR(Spy("me", None), "name", {"p": vx.val("n1"), "q": A()})
def reg_twice():
    setup()
    d = {"p": vx.val("n1")}
    DR(Spy("me", None), "name", d)
    DR(Spy("me2", None), "name2", d)
def reserved():
    setup()
    DR(Spy("me", None), "name", {"__provider": "x"})
''')
    text = "\n".join(src)

    def world(**kw):
        w = ctx.world(text, lambda s: DynWorld(s, fixed={"dry_run": False, "supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": False, "a.known": True, "a.secret": False}))
        for k, v in kw.items():
            setattr(w, k, v)
        return w

    def same(w, s, v, want, rule, name, where, what):
        t = w.tree(s, v)
        bad = O.compare(t, want, set())
        df = [b for b in bad if b[2]]
        ctx.ob(True if not bad else False if df else None, rule, name, where, f"{what}: " + "; ".join(f"{p}: {m}" for p, m, _ in (df or bad)[:3]))
        if not bad and isinstance(want, dict) and t[0] == "dict":
            extra = {k for k in t[1] if k not in want and k not in t[2]}
            ctx.ob(not extra, rule, name, where, f"{what} has extra {sorted(extra)}")

    def one(i):
        lab, kind, ex, want = CASES[i]
        where = ctx.at("pulumi.dynamic.__main__.DynamicResourceProviderServicer." + KINDS[kind])
        w = world()
        rs, exs = w.run(f"x{i}", drain=False)
        for s, x in exs:
            ctx.ob(False if excname(s, x) in ("TypeError", "KeyError", "AttributeError") else None, "result", lab, where, f"raises {excname(s, x)}")
        for s, v in rs:
            who = s.ghost("who")
            ctx.ob(who == V(K("enc-new")) if who else False, "provider-used", lab, where, f"the provider called is {sorted(map(repr, who))}")
            if kind in ("check", "diff", "update"):
                same(w, s, s.ghost("olds"), OLDS, "given", lab, where, "old properties")
            # (the provider may fill in what it was given, and the servicer may too: only what was sent is compared)
            same(w, s, s.ghost("news"), NEWS, "given", lab, where, "properties")
            if kind not in ("check", "create"):
                got = s.ghost("id")
                ctx.ob(got == V(Sym("theid.value", "str")) if got else False, "given", lab, where, f"id {sorted(map(repr, got))}")
            for a in v:
                f = s.heap[a.key].f if isinstance(a, Ref) else {}
                for fld, exp in want.items():
                    got = f.get(fld, EMPTY)
                    nm = f"{lab}: {fld}"
                    if fld in ("inputs", "properties"):
                        if not got:
                            ctx.ob(False, "result", nm, where, "the response carries none")
                            continue
                        same(w, s, got, exp, "result", nm, where, fld)
                    elif fld == "failures":
                        r = []
                        for x in got:
                            for it in (s.heap[x.key].items if isinstance(x, Ref) else ()):
                                for y in it:
                                    ff = s.heap[y.key].f if isinstance(y, Ref) else {}
                                    r.append(tuple(next((z.v for z in ff.get(k, EMPTY) if isinstance(z, K)), None) for k in ("property", "reason")))
                        ctx.ob(r == exp, "result", nm, where, f"the failures sent are {r}")
                    elif fld == "changes":
                        ns = {getattr(x, "key", getattr(x, "name", repr(x))).split(".")[-1] if not isinstance(x, K) else x.v for x in got}
                        alt = {"DIFF_UNKNOWN": 0, "DIFF_NONE": 1, "DIFF_SOME": 2}[exp]
                        ctx.ob(ns in ({exp}, {alt}) or not got and exp == "DIFF_UNKNOWN", "result", nm, where, f"changes is {ns}, expected {exp}")
                    elif fld in ("replaces", "stables"):
                        r = [y.v if isinstance(y, K) else repr(y) for x in got if isinstance(x, Ref) for it in s.heap[x.key].items for y in it]
                        ctx.ob(r == exp, "result", nm, where, f"{fld} is {r}, the provider said {exp}")
                    elif fld == "deleteBeforeReplace":
                        ctx.ob(got == V(K(exp)) or (not exp and got in (EMPTY, VNONE)), "result", nm, where, f"{fld} is {sorted(map(repr, got))}")
                    else:
                        ctx.ob(got == V(Sym("newid.value", "str")) if exp else got in (EMPTY, VNONE, V(K(""))), "result", nm, where, f"{fld} is {sorted(map(repr, got))}")
        if not rs and not exs:
            ctx.ob(None, "result", lab, where, "no path ends")
        ctx.absorb(w)
        ctx.paths += len(rs) + len(exs)

    for i, (lab, kind, ex, want) in enumerate(CASES):
        ctx.scenario("result", lab, ctx.at("pulumi.dynamic.__main__.DynamicResourceProviderServicer." + KINDS[kind]), lambda i=i: one(i))
    for k in ("check", "diff"):
        where = ctx.at("pulumi.dynamic.__main__.DynamicResourceProviderServicer." + KINDS[k])

        def go(k=k, where=where):
            w = world()
            rs, exs = w.run(f"u_{k}", drain=False)
            for s, x in exs:
                ctx.ob(False, "provider-used", f"{k} with the provider not yet known", where, f"raises {excname(s, x)} instead of using the old provider")
            for s, v in rs:
                who = s.ghost("who")
                ctx.ob(who == V(K("enc-old")), "provider-used", f"{k} with the provider not yet known", where, f"uses {sorted(map(repr, who))}")
            ctx.absorb(w)
        ctx.scenario("provider-used", f"{k} unknown", where, go)
    for k, ex in HIST:
        where = ctx.at("pulumi.dynamic.__main__.DynamicResourceProviderServicer." + KINDS[k])

        def twice(k=k, where=where):
            w = world()
            rs, exs = w.run(f"h_{k}", drain=False)
            for s, x in exs:
                ctx.ob(None, "provider-used", f"{k} of two providers in a row", where, f"raises {excname(s, x)}")
            for s, v in rs:
                who = s.ghost("last")
                ctx.ob(who == V(K("enc-second")), "provider-used", f"{k} of two providers in a row", where, f"the second call goes to {sorted(map(repr, who))}, not to the provider it names")
            ctx.absorb(w)
        ctx.scenario("provider-used", f"{k} twice", where, twice)
    kept(ctx, world)


def kept(ctx, world):
    where = ctx.at("pulumi.dynamic.dynamic.Resource")

    def roundtrip():
        w = world(providers=False)
        rs, exs = w.run("rt", drain=False)
        for s, x in exs:
            ctx.ob(None, "round-trip", "serialize_provider", where, f"raises {excname(s, x)}")
        for s, v in rs:
            ctx.ob(True if v == VTRUE else None, "round-trip", "serialize_provider", where, f"reading back the serialized provider is not the inverse of writing it: {sorted(map(repr, s.ghost('q')))}")
        ctx.absorb(w)
    ctx.scenario("round-trip", "serialize_provider", where, roundtrip)

    def reg(fn, n):
        w = world()
        rs, exs = w.run(fn)
        for s, x in exs:
            ctx.ob(False if fn == "reg_twice" else None, "kept", fn, where, f"raises {excname(s, x)}")
        reqs = O.requests(w, "RegisterResource")
        ctx.ob(None if not reqs else True, "kept", fn, where, "no request")
        for st, a, fl, node in reqs:
            t = w.tree(st, fl["object"])
            g = O.get(t, "__provider")
            ctx.ob(g is not None, "kept", fn, where, "the serialized provider is not among the resource's inputs")
        ctx.absorb(w)
    for fn in ("reg", "reg_twice"):
        ctx.scenario("kept", fn, where, lambda fn=fn: reg(fn, 1))

    def res():
        w = world()
        rs, exs = w.run("reserved")
        for s, v in rs:
            ctx.ob(False, "kept", "reserved", where, "a property with the reserved name replaces the provider")
        for s, x in exs:
            ctx.ob(True, "kept", "reserved", where)
        ctx.absorb(w)
    ctx.scenario("kept", "reserved", where, res)


def c19(ctx):
    ctx.explanation = ("Serializing a provider is run once, repeatedly, and with the pickling failing at each call into it; on every exit each attribute of an outside "
                       "module or class that was assigned must hold its original value again, and no outside container may be changed.")
    src = HARNESS + '''
def once():
    return dyn.serialize_provider(Spy("me", None))
def thrice():
    dyn.serialize_provider(Spy("me", None))
    dyn.serialize_provider(Spy("me", None))
    return dyn.serialize_provider(Spy("me", None))
class DR(dyn.Resource):
    _resource_type_name = 'dynamic:Resource'
def resource():
    setup()
    DR(Spy("me", None), "name", {"p": vx.val("n1")})
'''
    where = ctx.at("pulumi.dynamic.dynamic.serialize_provider")

    def go(fn, fault):
        w = ctx.world(src, lambda s: DynWorld(s, fixed={"dry_run": False}))
        items = []
        w.e.on_mutate = lambda e, st, a, what, node: items.append((a, what, node)) if isinstance(a, Ext) and what[0] != "attr" else None
        if fault:
            w.e.fault = lambda e, desc, node, st: desc == "serializing"
            w.e.fault_only = True
        rs, exs = w.run(fn, drain=False)
        name = f"{fn}{' (failing)' if fault else ''}"
        for s, why in [(s, "returns") for s, v in rs] + [(s, "raises") for s, x in exs]:
            bad = []
            for k, h in s.heap.items():
                if isinstance(k, tuple) and len(k) == 2 and k[0] == "ext":
                    for attr, v in h.f.items():
                        if v != V(w.e.canon_ext(f"{k[1]}.{attr}")):
                            bad.append(f"{k[1]}.{attr}")
            ctx.ob(not bad, "restored", name, where, f"when it {why}, {', '.join(sorted(bad))} is left changed")
        for a, what, node in items:
            ctx.ob(False, "restored", name, ctx.loc(node), f"changes a container of {a.key}")
        if not rs and not exs:
            ctx.ob(None, "restored", name, where, "no path ends")
        ctx.absorb(w)
        ctx.paths += len(rs) + len(exs)
    for fn in ("once", "thrice", "resource"):
        for fault in (False, True):
            ctx.scenario("restored", f"{fn}{fault}", where, lambda fn=fn, fault=fault: go(fn, fault))
