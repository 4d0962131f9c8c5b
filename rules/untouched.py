"""C20: what the program passes in is the program's."""
from sa.dom import *
from .combinators import excname
from . import options as OP
from .dynamic import DynWorld, HARNESS

FULL = """ResourceOptions(parent=vx.res("par", "ComponentResource", _transformations=[ptr], _providers={"pkg": vx.res("pprov", "ProviderResource")}, _protect=True),
    depends_on=[vx.res("d1", "ComponentResource"), vx.res("d2")], protect=vx.sym("o.protect", "bool"), delete_before_replace=True, ignore_changes=["x"], replace_on_changes=["y"], version=vx.sym("o.v", "str"),
    aliases=["urn:pulumi:x::y::t::n", pulumi.Alias(name="old")], additional_secret_outputs=["q"], custom_timeouts={"create": "1m"},
    transformations=[tr, tr2], providers={"pkg": vx.res("prov", "ProviderResource"), "other": vx.res("prov2", "ProviderResource", package="other")}, plugin_download_url=vx.sym("o.u", "str"))"""
INHERITED = 'ResourceOptions(parent=vx.res("par", "ComponentResource", _name="zz", _aliases=[vx.out("pal", "urn:pulumi:x::y::pt::pn", known=True, secret=False)]), aliases=[], ignore_changes=[])'
LISTED = 'ResourceOptions(providers=[vx.res("prov", "ProviderResource"), vx.res("prov2", "ProviderResource", package="other")], aliases=[], depends_on=vx.res("d2"))'
SRC = HARNESS + '''
from pulumi import CustomTimeouts
class Prov(ProviderResource):
    def __init__(self, name, props, opts=None):
        super().__init__("pkg", name, props, opts)
class DR(dyn.Resource):
    _resource_type_name = 'dynamic:Resource'
def tr(args):
    return None
def tr2(args):
    return pulumi.ResourceTransformationResult(args.props, ResourceOptions.merge(args.opts, ResourceOptions(ignore_changes=["z"])))
def ptr(args):
    return pulumi.ResourceTransformationResult({**args.props, "added": 1}, args.opts)
def props():
    return vx.watch("props", {"p": vx.out("a"), "q": [1, {"r": vx.out("b")}, None], "s": Args(foo_bar={"k": "v"}, nested=["w"]), "n": None, "asset": pulumi.AssetArchive({"f": pulumi.StringAsset("x")})})
def plain():
    return vx.watch("props", {"p": ["x", {"r": 1}], "n": None})
'''
KINDS = {"custom": 'Custom("n", props(), OPTS)', "component": 'Comp("n", props(), OPTS)', "remote": 'Comp("n", props(), OPTS, True)', "provider": 'Prov("n", props(), OPTS)',
         "dynamic": 'DR(Spy("me", None), "n", props(), OPTS)', "read": 'Custom("n", props(), ResourceOptions.merge(OPTS, ResourceOptions(id="theid")))'}
OTHER = {
    "read": 'Custom("n", props(), vx.watch("options", ResourceOptions(id="theid", parent=vx.res("par", "ComponentResource"), aliases=["x"], additional_secret_outputs=["q"], version="1")))',
    "merge": 'ResourceOptions.merge(vx.watch("options", %s), vx.watch("second options", %s))' % (FULL, LISTED),
    "merge listed first": 'ResourceOptions.merge(vx.watch("options", %s), vx.watch("second options", %s))' % (LISTED, FULL),
    "invoke": 'pulumi.runtime.invoke("pkg:mod:fn", props(), vx.watch("options", InvokeOptions(parent=vx.res("par", "ComponentResource", _providers={"pkg": vx.res("pprov", "ProviderResource")}))))',
    "invoke provider": 'pulumi.runtime.invoke("pkg:mod:fn", props(), vx.watch("options", InvokeOptions(provider=vx.res("prov", "ProviderResource"), version="1")))',
    "call": 'pulumi.runtime.call("pkg:mod:fn", props(), vx.res("self"))',
    "register outputs": 'vx.res("r", "ComponentResource").register_outputs(props())',
    "all": 'vx.note("o", [Output.all(vx.watch("list", [vx.out("a"), {"k": vx.out("b")}]), "x"), Output.all(x=vx.watch("dict", {"y": vx.out("c")}))])',
    "from_input": 'vx.note("o", Output.from_input(vx.watch("value", {"y": [vx.out("c"), Args(foo_bar=vx.out("b"))]})))',
    "secret": 'vx.note("o", Output.secret(vx.watch("value", {"y": [vx.out("c")]})))',
    "config defaults": 'pulumi.Config("c").get_object("k", vx.watch("default", {"a": [1]}))',
}


def c20(ctx):
    ctx.explanation = ("Every kind of resource, read, function call, merge and combinator is analysed with every option and nested containers given; at every exit and "
                       "after everything pending has run, each object the program passed in, and each container inside it, must be as it was built.")
    cases, src = [], [SRC]
    for k, ex in KINDS.items():
        if k == "read":
            continue
        for lab, o in (("every option", FULL), ("listed providers", LISTED), ("inherited aliases", INHERITED)):
            cases.append((f"{k}: {lab}", f"t{len(cases)}", k))
            src.append(f"def {cases[-1][1]}():\n    setup()\n    o = vx.watch('options', {o})\n    {ex.replace('OPTS', 'o').replace('props()', 'props()' if o is LISTED else 'plain()')}\n")
    for k, ex in OTHER.items():
        cases.append((k, f"t{len(cases)}", k))
        src.append(f"def {cases[-1][1]}():\n    setup()\n    {ex}\n")
    text = "\n".join(src)
    for lab, fn, k in cases:
        where = ctx.at({"merge": "pulumi.resource.ResourceOptions.merge", "merge listed first": "pulumi.resource.ResourceOptions.merge", "invoke": "pulumi.runtime.invoke.invoke", "call": "pulumi.runtime.invoke.call",
                        "invoke provider": "pulumi.runtime.invoke.invoke", "dynamic": "pulumi.dynamic.dynamic.Resource.__init__", "export": "pulumi.runtime.stack.Stack.output", "config defaults": "pulumi.config.Config.get_object"}.get(k, "pulumi.resource.Resource.__init__"))

        def go(lab=lab, fn=fn, where=where):
            w = ctx.world(text, lambda s: DynWorld(s, fixed={"dry_run": False, "supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True,
                                                             "a.known": True, "b.known": True, "c.known": True, "a.secret": False, "b.secret": False, "c.secret": False, "o.protect": True}))
            w.e.MAXSTEPS = 1500000
            hits = []
            w.e.on_mutate = lambda e, st, a, what, node: hits.append((a, what, node))
            rs, exs = w.run(fn)
            for s, why in [(s, None) for s, v in rs] + [(s, excname(s, x)) for s, x in exs]:
                bad = w.changed(s)
                at = where
                for a, what, node in hits:
                    if any(isinstance(a, Ref) and a.key in w.snaps[x.v] and w.snaps[x.v][a.key][0] == p for x in s.ghost("watched") for p, _, _ in bad):
                        at = ctx.loc(node)
                if not s.ghost("watched"):
                    ctx.ob(None, "untouched", lab, where, f"the scenario did not get far enough: {why}")
                else:
                    ctx.ob(False if bad else True if why is None else None, "untouched", lab, at, f"raises {why}" if why and not bad else "changes " + ", ".join(sorted({p for p, _, _ in bad})))
            if not rs and not exs:
                ctx.ob(None, "untouched", lab, where, "no path ends")
            ctx.absorb(w)
            ctx.paths += len(rs) + len(exs)
        ctx.scenario("untouched", lab, where, go)
