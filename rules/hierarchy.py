"""C31/C32/C37: what a resource is called, what it inherits from its parent, and which provider it is given.

Programs build trees of resources through the public constructors; the engine's answers give each resource the URN the
engine's own rule (sdk/go/common/resource/urn.go) builds from the request, and every later request is compared with what
an engine following the same rules expects.  Names, types and identifiers are constants that stand for any text without
separators; variants with separators are named as such."""
import itertools
from sa.dom import *
from sa.wire import WireWorld
from .combinators import excname, render
from . import outbound as O

STK, PRJ = "stk", "prj"
STACK_T = "pulumi:pulumi:Stack"
HARNESS = O.HARNESS + f'''
from pulumi import Alias, ResourceTransformationArgs, ResourceTransformationResult
from pulumi.runtime.stack import Stack
def setup():
    settings.configure(Settings(project="{PRJ}", stack="{STK}", monitor=vx.sym("monitor", "stub"), engine=vx.sym("engine", "stub"), dry_run=False))
class Cus(CustomResource):
    def __init__(self, t, name, opts=None, props=None):
        super().__init__(t, name, props or {{}}, opts)
class Com(ComponentResource):
    def __init__(self, t, name, opts=None, props=None, remote=False):
        super().__init__(t, name, props or {{}}, opts, remote)
class Pro(ProviderResource):
    def __init__(self, pkg, name, opts=None):
        super().__init__(pkg, name, {{}}, opts)
RO = ResourceOptions
def known(n, v):
    return vx.out(n, v, known=True, secret=False)
'''


def newurn(parent, typ, name, stack=STK, project=PRJ):
    """NewURN: parent is the parent's URN or None"""
    q = parent.split("::")[2] + "$" if parent else ""
    if q == STACK_T + "$":
        q = ""
    return f"urn:pulumi:{stack}::{project}::{q}{typ}::{name}"


class Engine(WireWorld):
    """answers registrations with the URN the engine would make up"""
    PROPS = {}

    def field(self, st, f, k):
        v = f.get(k, EMPTY)
        return next((a.v for a in v if isinstance(a, K)), None) if len(v) <= 1 else Ellipsis

    def resp_RegisterResource(self, e, st, node):
        urn = ident = V(Opq())
        for a in self.rpcs[-1][2]:
            f = st.heap[a.key].f if isinstance(a, Ref) else {}
            p, t, n = (self.field(st, f, k) for k in ("parent", "type", "name"))
            if isinstance(t, str) and isinstance(n, str) and p is not Ellipsis:
                urn, ident = V(K(newurn(p or None, t, n))), V(K("id-" + n))
        return self.msg(e, st, node, "RegisterResource", urn=urn, id=ident, object=self.answer(e, st, "resp"),
                        stable=VFALSE, stables=V(e.newlist(st, "resp:stables")), propertyDependencies=V(e.newdict(st, "resp:pd")))

    def resp_ReadResource(self, e, st, node):
        r = self.resp_RegisterResource(e, st, node)
        for a in r:
            return self.msg(e, st, node, "ReadResource", urn=st.heap[a.key].f["urn"], properties=self.answer(e, st, "resp"))


FIXED = {"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True, "dry_run": False}


def world(ctx, src, fixed=None):
    w = ctx.world(src, lambda s: Engine(s, fixed=FIXED if fixed is None else fixed))
    w.e.models["pulumi.runtime.sync_await._sync_await"] = lambda e, st, args, node: e.await_(e.make_task(args.get(0), st, node), st, node)
    w.e.per_site = 100
    w.e.MAXSTEPS = 1500000
    w.e.models["os.getenv"] = w.e.models["os.environ.get"] = lambda e, st, args, node: [(st, args.get(1, "default", VNONE))]
    return w


def text(v):
    """a definite text, else None"""
    return next(iter(v)).v if v is not None and len(v) == 1 and isinstance(next(iter(v)), K) else None


def texts(st, v):
    """the definite texts of a list, else None"""
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    h = st.heap.get(a.key) if isinstance(a, Ref) else None
    if h is None or h.rest or h.kind == "dict" or h.kind == "inst":
        return None
    out = [text(x) for x in h.items]
    return None if None in out else out


def table(st, v):
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    h = st.heap.get(a.key) if isinstance(a, Ref) else None
    if h is None or h.rest or h.kind not in ("dict", "Struct"):
        return None
    out = {(k.v if isinstance(k, K) else k): text(x) for k, x in h.f.items()}
    return None if None in out.values() or h.opt else out


def of(w, method, name):
    """the requests about the resource called `name`"""
    return [(s, f, n) for s, a, f, n in O.requests(w, method) if text(f.get("name")) == name]


def decide(ctx, rule, construct, where, got, want, what):
    """one obligation: a definite value equals what is required"""
    if isinstance(want, (list, set)):
        ok = None if got is None else sorted(got) == sorted(want)
    else:
        ok = None if got is None else got == want
    ctx.ob(ok, rule, construct, where, "" if ok else f"{what} is {got!r}, expected {want!r}" if ok is False else f"{what} could not be determined")


def run(ctx, src, fn):
    w = world(ctx, src)
    rs, exs = w.run(fn)
    return w, rs, exs


# ---------------------------------------------------------------- C37
PARENTS = {  # label: (program that makes `p`, URN of the parent as the engine sees it)
    "none": ("p = None", None),
    "component": ('p = Com("a:b:P", "PN")', newurn(None, "a:b:P", "PN")),
    "nested": ('p = Com("a:b:Q", "QN", RO(parent=Com("a:b:P", "PN")))', newurn(newurn(None, "a:b:P", "PN"), "a:b:Q", "QN")),
    "custom": ('p = Cus("a:b/c:R", "RN")', newurn(None, "a:b/c:R", "RN")),
    "stack": ("p = Stack(lambda: None)", newurn(None, STACK_T, f"{PRJ}-{STK}")),
}
NAMES = {"": None, "name": ('"N2"', "N2"), "oddname": ('"x:y$z/w"', "x:y$z/w"), "name_output": ('known("nm", "N2")', "N2")}
TYPES = {"": None, "type": ('"k:m/t:T2"', "k:m/t:T2"), "type_output": ('known("ty", "k:m:T2")', "k:m:T2")}
O_URN = "urn:pulumi:os::op::a:b:O$k:m:OO::ON"
APARENTS = {
    "": None, "none": ("None", None), "resource": ("o", newurn(None, "a:b:O", "ON")), "urn": (f'"{O_URN}"', O_URN),
    "urn_output": (f'known("pu", "{O_URN}")', O_URN), "stack_urn": (f'"urn:pulumi:{STK}::{PRJ}::{STACK_T}::{PRJ}-{STK}"', f"urn:pulumi:{STK}::{PRJ}::{STACK_T}::{PRJ}-{STK}"),
}
PLACES = {"": None, "project": ("project", "p2"), "stack": ("stack", "s2"), "both": ("both", None)}


def aliases_for(cur):
    """every combination of alias parts under one current parent: (label, expression, expected URN)"""
    for (ln, n), (lt, t), (lp, p), (lq, q) in itertools.product(NAMES.items(), TYPES.items(), APARENTS.items(), PLACES.items()):
        if not (n or t or p or q) or (n and t and (ln, lt) != ("name", "type")):
            continue
        parent = p[1] if p else PARENTS[cur][1]
        rooted = parent is None or parent.split("::")[2] == STACK_T
        if q and not rooted:
            continue  # the parent's URN and the alias name different places; which one wins is not specified
        kw = ([f"name={n[0]}"] if n else []) + ([f"type_={t[0]}"] if t else []) + ([f"parent={p[0]}"] if p else [])
        project, stack = PRJ, STK
        if lq in ("project", "both"):
            kw.append('project="p2"')
            project = "p2"
        if lq in ("stack", "both"):
            kw.append('stack="s2"')
            stack = "s2"
        want = newurn(None, (t[1] if t else "c:d:T"), n[1] if n else "CN", stack, project)
        if not rooted:
            want = parent.rsplit("::", 1)[0] + "$" + (t[1] if t else "c:d:T") + "::" + (n[1] if n else "CN")
        yield "+".join(x for x in (ln, lt, lp and "parent_" + lp, lq) if x), f"Alias({', '.join(kw)})", want


REFS = {
    "plain": ("urn:pulumi:s::p::k:m:T::N", "N", "k", "m", "k:m:T"),
    "nested": ("urn:pulumi:s::p::a:b:C$x:y:D$k:m/sub:T::N", "N", "k", "m/sub", "k:m/sub:T"),
    "oddname": ("urn:pulumi:s::p::k:m:T::x:y$z/w-1", "x:y$z/w-1", "k", "m", "k:m:T"),
    "emptymod": ("urn:pulumi:s::p::k::T::N", None, None, None, None),
}
PREFS = {
    "plain": ("urn:pulumi:s::p::pulumi:providers:k::N", "k"),
    "nested": ("urn:pulumi:s::p::a:b:C$pulumi:providers:k::N", "k"),
    "oddname": ("urn:pulumi:s::p::pulumi:providers:k-l::x:y$z/w", "k-l"),
}


def c37(ctx):
    ctx.explanation = ("Resources with every combination of alias parts are registered under every kind of parent and the URN sent for "
                       "each alias is compared with the one the engine's NewURN makes of the same parts; URNs the engine sends are taken "
                       "apart for registered resource modules, packages and provider references.")
    where = ctx.at("pulumi.resource.create_urn")
    for cur in PARENTS:
        al = list(aliases_for(cur))
        for i in range(0, len(al), 8):
            part = al[i:i + 8]
            src = HARNESS + f'''
def main():
    setup()
    {PARENTS[cur][0]}
    o = Com("a:b:O", "ON", RO(parent=p if isinstance(p, Stack) else None))
    Cus("c:d:T", "CN", RO(parent=p, aliases=[{", ".join(x[1] for x in part)}]))
'''

            def go(part=part, cur=cur, src=src):
                w, rs, exs = run(ctx, src, "main")
                rq = of(w, "RegisterResource", "CN")
                if not rq:
                    ctx.ob(None, "alias-urn", f"{cur}:{part[0][0]}", where, "no registration was seen" + (f" ({excname(*exs[0])})" if exs else ""))
                for st, f, node in rq:
                    got = texts(st, f.get("aliases"))
                    extra = sorted(set(got or ()) - {x[2] for x in part})
                    for lab, ex, want in part:
                        ok = None if got is None else want in got
                        ctx.ob(ok, "alias-urn", f"{cur}:{lab}", where, "" if ok else f"{ex} of a resource under parent {cur} should be sent as {want}" + (f", but the URNs sent are {extra}" if ok is False else ""))
                    if got is not None and extra and {x[2] for x in part} <= set(got):
                        ctx.ob(False, "alias-urn", f"{cur}:{part[0][0]}:extra", where, f"aliases nobody gave are sent: {extra}")
                ctx.absorb(w)
            ctx.scenario("alias-urn", f"{cur}:{i}", where, go)
    wh = ctx.at("pulumi.runtime.rpc.deserialize_resource")
    for lab, (urn, n, pkg, mod, typ) in REFS.items():
        if n is None:
            continue
        src = HARNESS + f'''
class Mod:
    def version(self):
        return None
    def construct(self, name, typ, urn):
        vx.note("name", name); vx.note("typ", typ); vx.note("urn", urn)
        return 1
class Oops:
    def version(self):
        return None
    def construct(self, name, typ, urn):
        vx.note("other", True)
def main():
    rpc.register_resource_module("{pkg}", "{mod}", Mod())
    rpc.register_resource_module("{pkg}x", "{mod}", Oops())
    rpc.register_resource_module("a", "b", Oops())
    return rpc.deserialize_property(vx.struct({{vx.sig("SigKey"): vx.sig("ResourceReferenceSig"), "urn": "{urn}", "id": "i"}}))
'''

        def go(lab=lab, src=src, want={"name": n, "typ": typ, "urn": urn}):
            w, rs, exs = run(ctx, src, "main")
            for s, v in rs:
                for k, x in want.items():
                    decide(ctx, "reference-parts", f"{lab}:{k}", wh, text(s.ghost(k)) if s.ghost(k) else ("the module was not asked" if s.ghost("other") else None), x, f"the {k} given to the resource's module")
            if not rs:
                ctx.ob(None, "reference-parts", lab, wh, "the reference could not be read" + (f" ({excname(*exs[0])})" if exs else ""))
            ctx.absorb(w)
        ctx.scenario("reference-parts", lab, wh, go)
    for lab, (urn, pkg) in PREFS.items():
        src = HARNESS + f'''
class Pkg:
    def version(self):
        return None
    def construct_provider(self, name, typ, urn):
        vx.note("name", name); vx.note("typ", typ); vx.note("urn", urn)
        return 1
def main():
    setup()
    rpc.register_resource_package("{pkg}", Pkg())
    rpc.deserialize_property(vx.struct({{vx.sig("SigKey"): vx.sig("ResourceReferenceSig"), "urn": "{urn}", "id": "i"}}))
    d = pulumi.resource.DependencyProviderResource("{urn}::the-id")
    Cus("{pkg}:m:T", "CN", RO(provider=d))
'''

        def go2(lab=lab, src=src, urn=urn, pkg=pkg):
            w, rs, exs = run(ctx, src, "main")
            for s, v in rs:
                for k, x in {"name": urn.rsplit("::", 1)[1], "typ": "pulumi:providers:" + pkg, "urn": urn}.items():
                    decide(ctx, "provider-reference-parts", f"{lab}:{k}", wh, text(s.ghost(k)), x, f"the {k} given to the provider's package")
            rq = of(w, "RegisterResource", "CN")
            for st, f, node in rq:
                decide(ctx, "provider-reference-parts", f"{lab}:reference", ctx.at("pulumi.resource.DependencyProviderResource"), text(f.get("provider")), urn + "::the-id", "the provider reference sent on")
            if not rq:
                wrong = exs and excname(*exs[0]) == "ValueError"
                ctx.ob(False if wrong else None, "provider-reference-parts", f"{lab}:reference", ctx.at("pulumi.resource.DependencyProviderResource"),
                       "a provider made from a reference is refused for resources of its own package" if wrong else "no registration was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            ctx.absorb(w)
        ctx.scenario("provider-reference-parts", lab, wh, go2)


# ---------------------------------------------------------------- C31
FLAGS = {"": None, "T": True, "F": False}


def flag(f):
    return {"": "", "T": "protect=True", "F": "protect=False"}[f]


def c31(ctx):
    ctx.explanation = ("Trees of a root stack, components and leaves are built with every combination of protect flags, with aliases at "
                       "every level and with transformations at every level; the request sent for each resource is compared with "
                       "what inheritance from its ancestors makes of them.")
    reg = ctx.at("pulumi.resource.Resource.__init__")
    leaves = {"custom": ("Cus", ""), "component": ("Com", ""), "remote": ("Com", ", {}, True"), "read": ("Cus", "")}
    # protect
    for g, p in itertools.product(FLAGS, FLAGS):
        body, want = [], {}
        for k, (c, extra) in leaves.items():
            for o in FLAGS:
                n = f"{k}-{o or 'U'}"
                kw = ", ".join(x for x in ("parent=p", flag(o), 'id="the-id"' if k == "read" else "") if x)
                body.append(f'    {c}("c:d:T", "{n}", RO({kw}){extra})')
                want[n] = next((FLAGS[x] for x in (o, p, g) if FLAGS[x] is not None), False)
        lk = [x for x in body if not x.strip().startswith("Cus") or "the-id" not in x]
        src = HARNESS + f'''
def main():
    setup()
    g = Com("a:b:G", "G", RO({flag(g)}))
    p = Com("a:b:P", "P", RO({", ".join(x for x in ("parent=g", flag(p)) if x)}))
''' + "\n".join(lk) + "\n"

        def go(g=g, p=p, want=want, src=src):
            w, rs, exs = run(ctx, src, "main")
            for n, x in want.items():
                if n.startswith("read"):
                    continue
                rq = of(w, "RegisterResource", n)
                for st, f, node in rq:
                    got = text(f.get("protect")) if f.get("protect") else False
                    lab = f"parent={p or 'unset'},grandparent={g or 'unset'},{n}"
                    decide(ctx, "protect-inherited", lab, reg, bool(got) if got is not None or f.get("protect") == VNONE else None, x, "the protect flag sent")
                if not rq:
                    ctx.ob(None, "protect-inherited", n, reg, "no registration was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            ctx.absorb(w)
        ctx.scenario("protect-inherited", f"{g or 'U'}{p or 'U'}", reg, go)
    # aliases
    U = "urn:pulumi:os::op::a:b:O$a:b:P::oldp"
    AL = {  # label: (expression, URN it stands for when the resource is name n, type t under parent URN p)
        "name": ('Alias(name="{n}x")', lambda n, t, p: newchild(p, t, n + "x")),
        "type": ('Alias(type_="o:l:D")', lambda n, t, p: newchild(p, "o:l:D", n)),
        "urn": ('"urn:pulumi:os::op::a:b:O$o:l:D::old{n}"', lambda n, t, p: f"urn:pulumi:os::op::a:b:O$o:l:D::old{n}"),
        "orphan": ("Alias(parent=None)", lambda n, t, p: newchild(None, t, n)),
        "output": ('known("al{n}", "urn:pulumi:os::op::o:l:D::out{n}")', lambda n, t, p: f"urn:pulumi:os::op::o:l:D::out{n}"),
    }

    def inherited(name, typ, pname, palias):
        nm = palias.rsplit("::", 1)[1] + name[len(pname):] if name.startswith(pname) else name
        return palias.rsplit("::", 1)[0] + "$" + typ + "::" + nm

    def expand(labels, name, typ, purn, pname, paliases):
        own = [AL[x][1](name, typ, purn) for x in labels]
        out = list(own)
        for pa in paliases:
            out.append(inherited(name, typ, pname, pa))
            out += [inherited(u.rsplit("::", 1)[1], u.rsplit("::", 1)[0].rsplit("::", 1)[1].split("$")[-1], pname, pa) for u in own]
        return out
    sets = [(), ("name",), ("type",), ("urn",), ("orphan",), ("output",), ("name", "type"), ("name", "urn")]
    wh = ctx.at("pulumi.resource.all_aliases")
    for ps, cs, nm, deep in itertools.product(sets, sets[:1] + sets[1:4] + sets[6:7], ("P-child", "other", "P"), (False, True)):
        if not ps or (deep and (cs not in ((), ("name",), ("type",)) or len(ps) > 1)):
            continue
        ex = lambda ls, n: ", ".join(AL[x][0].replace("{n}", n) for x in ls)
        pu = newurn(None, "a:b:P", "P")
        pal = expand(ps, "P", "a:b:P", None, None, [])
        if deep:
            mid = expand(cs, "P-mid", "a:b:M", pu, "P", pal)
            mu = newurn(pu, "a:b:M", "P-mid")
            want = expand((), nm, "c:d:T", mu, "P-mid", mid)
            mk = f'm = Com("a:b:M", "P-mid", RO(parent=p, aliases=[{ex(cs, "P-mid")}]))\n    Cus("c:d:T", "{nm}", RO(parent=m))'
        else:
            want = expand(cs, nm, "c:d:T", pu, "P", pal)
            mk = f'Cus("c:d:T", "{nm}", RO(parent=p, aliases=[{ex(cs, nm)}]))'
        src = HARNESS + f'''
def main():
    setup()
    p = Com("a:b:P", "P", RO(aliases=[{ex(ps, "P")}]))
    {mk}
'''
        lab = f"{'+'.join(ps)}/{'+'.join(cs) or 'none'}/{nm}{'/nested' if deep else ''}"

        def go2(lab=lab, want=want, src=src, nm=nm):
            w, rs, exs = run(ctx, src, "main")
            rq = [(st, f, node) for st, f, node in of(w, "RegisterResource", nm) if text(f.get("type")) == "c:d:T"]
            for st, f, node in rq:
                got = texts(st, f.get("aliases"))
                decide(ctx, "aliases-inherited", lab, wh, None if got is None else set(got), set(want), "the set of aliases sent")
            if not rq:
                ctx.ob(None, "aliases-inherited", lab, wh, "no registration was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            ctx.absorb(w)
        ctx.scenario("aliases-inherited", lab, wh, go2)
    # transformations
    TR = '''
def tr(tag, **kw):
    def f(args):
        vx.note("saw." + tag + "." + args.name, args.type_)
        o = args.opts
        for k, v in kw.items():
            o = ResourceOptions.merge(o, ResourceOptions(**{k: v}))
        return ResourceTransformationResult(props={**args.props, "trace": args.props.get("trace", "") + tag}, opts=o)
    return f
def quiet(args):
    vx.note("quiet." + args.name)
    return None
'''
    for gl, pl, ol, stacked in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (False, True)):
        if (gl, pl, ol).count(2) > 1 and (gl, pl, ol) != (2, 2, 2):
            continue
        trs = lambda tag, k: ", ".join([f'tr("{tag}{i}")' for i in range(k)] + (["quiet"] if k == 1 else []))
        src = HARNESS + TR + f'''
def prog():
    g = Com("a:b:G", "G", RO(transformations=[{trs("g", gl)}]))
    p = Com("a:b:P", "P", RO(parent=g, transformations=[{trs("p", pl)}]))
    Cus("c:d:T", "CN", RO(parent=p, transformations=[{trs("o", ol)}]), {{"trace": "-"}})
    Cus("c:d:T", "TOP", RO(transformations=[{trs("o", ol)}]), {{"trace": "-"}})
def stacked():
    pulumi.runtime.register_stack_transformation(tr("s0"))
    pulumi.runtime.register_stack_transformation(tr("s1"))
    prog()
def main():
    setup()
    Stack({"stacked" if stacked else "prog"})
'''
        lab = f"own={ol},parent={pl},grandparent={gl},stack={2 if stacked else 0}"
        tags = lambda t, k: [f"{t}{i}" for i in range(k)]
        sx = tags("s", 2 if stacked else 0)
        want = {"CN": tags("o", ol) + tags("p", pl) + tags("g", gl) + sx, "TOP": tags("o", ol) + sx, }

        def go3(lab=lab, want=want, src=src):
            w, rs, exs = run(ctx, src, "main")
            for n, x in want.items():
                rq = of(w, "RegisterResource", n)
                for st, f, node in rq:
                    got = table(st, f.get("object"))
                    decide(ctx, "transformations-inherited", f"{lab}:{n}", reg, None if got is None else got.get("trace"), "-" + "".join(x), "the trace left by the transformations, in order,")
                if not rq:
                    ctx.ob(None, "transformations-inherited", f"{lab}:{n}", reg, "no registration was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            for s, v in rs:
                for n, x in want.items():
                    for t in x:
                        g = text(s.ghost(f"saw.{t}.{n}"))
                        decide(ctx, "transformation-arguments", f"{lab}:{n}:{t}", reg, g, "c:d:T", "the type shown to the transformation")
            ctx.absorb(w)
        ctx.scenario("transformations-inherited", lab, reg, go3)
    # what a transformation changes is what the resource, and its children, use
    src = HARNESS + TR + '''
def main():
    setup()
    p = Com("a:b:P", "P", RO(transformations=[tr("p", protect=True, version="1.2.3", ignore_changes=["x"])]))
    Cus("c:d:T", "CN", RO(parent=p))
    Cus("c:d:T", "OPT", RO(transformations=[tr("p", version="1.2.3", ignore_changes=["x"])]))
def swap(args):
    return ResourceTransformationResult(props=args.props, opts=ResourceOptions(parent=Com("a:b:O", "O")))
def reparent():
    setup()
    Cus("c:d:T", "CN", RO(transformations=[swap]))
def inherited_reparent():
    setup()
    p = Com("a:b:P", "P", RO(transformations=[only_child]))
    Cus("c:d:T", "CN", RO(parent=p))
def only_child(args):
    if args.name == "CN":
        return ResourceTransformationResult(props=args.props, opts=ResourceOptions())
    return None
def shared():
    setup()
    o = RO(protect=None)
    p = Com("a:b:P", "P", RO(protect=True))
    o.parent = p
    Cus("c:d:T", "CN", o)
    vx.note("after", o.protect)
'''

    def go4():
        w, rs, exs = run(ctx, src, "main")
        for n, want in {"P": {"protect": True, "version": "1.2.3"}, "CN": {"protect": True}, "OPT": {"version": "1.2.3"}}.items():
            for st, f, node in of(w, "RegisterResource", n):
                for k, x in want.items():
                    decide(ctx, "transformed-options", f"{n}:{k}", reg, text(f.get(k)), x, f"the request's {k}")
                if n != "CN":
                    decide(ctx, "transformed-options", f"{n}:ignoreChanges", reg, texts(st, f.get("ignoreChanges")), ["x"], "the request's ignoreChanges")
        ctx.absorb(w)
        for fn in ("reparent", "inherited_reparent"):
            w, rs, exs = run(ctx, src, fn)
            bad = bool(of(w, "RegisterResource", "CN"))
            ctx.ob(True if exs and not bad else False if bad else None, "reparenting-refused", fn, reg, "a transformation that changes the parent is not refused" if bad else "")
            ctx.absorb(w)
        w, rs, exs = run(ctx, src, "shared")
        for s, v in rs:
            g = s.ghost("after")
            ctx.ob(True if g == VNONE else False if text(g) is not None else None, "options-not-changed", "protect", reg, "" if g == VNONE else "the options object the program passed was changed")
        ctx.absorb(w)
    ctx.scenario("transformed-options", "options", reg, go4)


def newchild(p, t, n):
    return newurn(p, t, n)


# ---------------------------------------------------------------- C32
def provref(name, pkg):
    return newurn(None, "pulumi:providers:" + pkg, name) + "::id-" + name


PROVS = {"k1": "k", "k2": "k", "j1": "j", "l1": "l"}
LISTS_ = {  # opts.providers: (expression, the map it stands for)
    "": ("", {}), "[k2]": ("[k2]", {"k": "k2"}), "{k2}": ('{"k": k2}', {"k": "k2"}), "[j1]": ("[j1]", {"j": "j1"}),
    "[j1,k2]": ("[j1, k2]", {"j": "j1", "k": "k2"}), "{j1,k2}": ('{"j": j1, "k": k2}', {"j": "j1", "k": "k2"}), "[]": ("[]", {}),
}


def opt(provider, providers, *more):
    return "RO(" + ", ".join(x for x in (f"provider={provider}" if provider else "", f"providers={LISTS_[providers][0]}" if LISTS_[providers][0] else "", *more) if x) + ")"


def bag(parent, provider, providers):
    """the providers a resource hands down"""
    out = {**parent, **LISTS_[providers][1]}
    if provider and PROVS[provider] not in LISTS_[providers][1]:
        out[PROVS[provider]] = provider
    return out


def conflict(provider, providers):
    return bool(provider) and PROVS[provider] in LISTS_[providers][1]


LEVEL = [("", ""), ("k1", ""), ("j1", ""), ("", "[k2]"), ("", "{j1,k2}"), ("", "[j1]"), ("l1", "[k2]"), ("l1", "{j1,k2}")]


def c32(ctx):
    ctx.explanation = ("Resources, reads and function calls of one package are placed under ancestors that were given providers of several "
                       "packages in every way; the provider reference each request carries is compared with the explicit one, else "
                       "the nearest inherited one of the same package.")
    wh = ctx.at("pulumi.resource.Resource._get_providers")
    iv = ctx.at("pulumi.runtime.invoke.invoke")
    base = HARNESS
    for gp, pp in itertools.product(LEVEL, LEVEL):
        gb = bag({}, *gp)
        pb = bag(gb, *pp)
        body, want = [], {}
        own = [(a, b) for a in ("", "k1", "j1") for b in LISTS_] if gp in LEVEL[:1] or pp in LEVEL[:1] else [("", ""), ("k1", ""), ("", "[j1]"), ("", "{k2}")]
        i = 0
        for a, b in own:
            for kind in ("custom", "read", "remote"):
                n = f"{kind}-{i}"
                i += 1
                if kind != "custom" and (len(own) == 4 or b not in ("", "[k2]", "{j1,k2}", "[j1]")):
                    continue
                sel = a or LISTS_[b][1].get("k") or pb.get("k")
                bad = kind != "remote" and sel and PROVS[sel] != "k"
                o = opt(a, b, "parent=p", *(['id="x"'] if kind == "read" else []))
                mk = f'Com("k:m:T", "{n}", {o}, {{}}, True)' if kind == "remote" else f'Cus("k:m:T", "{n}", {o})'
                if bad:
                    body.append(f'    try:\n        {mk}\n    except ValueError as e:\n        vx.note("refused.{n}")')
                elif kind != "remote" or not conflict(a, b):
                    body.append("    " + mk)
                else:
                    continue
                want[n] = (kind, sel, bad, a, b)
        for lab, o, sel in (("parent", "parent=p", pb.get("k")), ("explicit", "parent=p, provider=k2", "k2")):
            body.append(f'    vx.note("mark")\n    pulumi.runtime.invoke("k:m:{lab}", {{}}, InvokeOptions({o}))')
            want["k:m:" + lab] = ("invoke", sel, False, "", "")
        n = len(body) - 2
        for j, part in [(j, body[j:min(j + 6, n)]) for j in range(0, n, 6)] + [(n, body[n:n + 1]), (n + 1, body[n + 1:])]:
            names = [n for n in want if any(f'"{n}"' in x for x in part)]
            src = base + f'''
def main():
    setup()
    {{MK}}
    g = Com("a:b:G", "G", {opt(*gp)})
    p = Com("a:b:P", "P", {opt(*pp, "parent=g")})
''' + "\n".join(part) + "\n"
            used = [x for x in PROVS if any(x in y for y in (*gp, *pp, *part))]
            src = src.replace("{MK}", "; ".join(f'{x} = Pro("{PROVS[x]}", "{x}")' for x in used) or "pass")
            lab = f"grandparent={gp[0]}{gp[1]},parent={pp[0]}{pp[1]}"

            def go(lab=lab, names=names, want=want, src=src, pb=pb):
                w, rs, exs = run(ctx, src, "main")
                ref = lambda n: provref(n, PROVS[n])
                for n in names:
                    kind, sel, bad, a, b = want[n]
                    c = f"{lab},own={a}{b}:{kind}" + (n[4:] if kind == "invoke" else "")
                    if kind == "invoke":
                        rq = [(s, f, nd) for s, _, f, nd in O.requests(w, "Invoke") if text(f.get("tok")) == n]
                    else:
                        rq = of(w, "ReadResource" if kind == "read" else "RegisterResource", n)
                    if bad:
                        ok = True if not rq and rs and all(s.ghost("refused." + n) for s, v in rs) else False if rq else None
                        ctx.ob(ok, "foreign-provider-refused", c, wh, "" if ok else f"a resource of package k is sent with the provider {sel}")
                        continue
                    for st, f, node in rq:
                        if kind == "remote":
                            got = table(st, f.get("providers"))
                            need = {k: ref(v) for k, v in LISTS_[b][1].items()}
                            for x in (a, sel):
                                if x:
                                    need[PROVS[x]] = ref(x)
                            allowed = {**{k: ref(v) for k, v in pb.items()}, **need}
                            ok = None if got is None else all(got.get(k) == v for k, v in need.items()) and all(allowed.get(k) == v for k, v in got.items())
                            ctx.ob(ok, "providers-of-remote", c, wh, "" if ok else f"the providers sent are {got}, expected {need}")
                        else:
                            v = f.get("provider", VNONE)
                            got = "" if v == VNONE else text(v)
                            decide(ctx, "provider-selected", c, iv if kind == "invoke" else wh, got, ref(sel) if sel else "", "the provider sent")
                    if not rq:
                        refused = exs and excname(*exs[0]) == "ValueError"
                        ctx.ob(None, "provider-selected", c, wh, "no request was seen" + (f" ({excname(*exs[0])})" if exs else ""))
                ctx.absorb(w)
            ctx.scenario("provider-selected", f"{lab}/{j}", wh, go)
