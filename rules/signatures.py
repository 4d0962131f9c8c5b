"""C08: the wire's special values - one set of constants for every language, and a decoder for everything that is encoded."""
import ast
import os
import re
from sa.dom import *
from sa.prog import REPO, AnchorMissing
from sa.wire import WireWorld, go_const
from .combinators import excname, render
from . import inbound as I

ROLES = {"SigKey": "specialSigKey", "SecretSig": "specialSecretSig", "AssetSig": "specialAssetSig", "ArchiveSig": "specialArchiveSig",
         "ResourceReferenceSig": "specialResourceSig", "OutputValueSig": "specialOutputValueSig", "UnknownStringValue": "unknownValue"}
HEX = re.compile(r"^(?:[0-9a-f]{32}|[0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12})$")

# kind, value, what it must be on the wire (dict), what decoding the wire form gives: (class, {attribute: value}) / special
CODEC = [
    ("file_asset", 'pulumi.FileAsset(vx.val("v1"))', {"sig": "AssetSig", "path": "v1.value"}, ("FileAsset", {"path": "v1.value"})),
    ("string_asset", 'pulumi.StringAsset(vx.val("v1"))', {"sig": "AssetSig", "text": "v1.value"}, ("StringAsset", {"text": "v1.value"})),
    ("remote_asset", 'pulumi.RemoteAsset(vx.val("v1"))', {"sig": "AssetSig", "uri": "v1.value"}, ("RemoteAsset", {"uri": "v1.value"})),
    ("file_archive", 'pulumi.FileArchive(vx.val("v1"))', {"sig": "ArchiveSig", "path": "v1.value"}, ("FileArchive", {"path": "v1.value"})),
    ("remote_archive", 'pulumi.RemoteArchive(vx.val("v1"))', {"sig": "ArchiveSig", "uri": "v1.value"}, ("RemoteArchive", {"uri": "v1.value"})),
    ("asset_archive", 'pulumi.AssetArchive({"k": pulumi.StringAsset(vx.val("v1"))})', {"sig": "ArchiveSig", "assets": {"k": {"sig": "AssetSig", "text": "v1.value"}}},
     ("AssetArchive", {"assets": {"k": ("StringAsset", {"text": "v1.value"})}})),
    ("archive_archive", 'pulumi.AssetArchive({"k": pulumi.FileArchive(vx.val("v1"))})', {"sig": "ArchiveSig", "assets": {"k": {"sig": "ArchiveSig", "path": "v1.value"}}},
     ("AssetArchive", {"assets": {"k": ("FileArchive", {"path": "v1.value"})}})),
    ("secret", 'vx.out("a", vx.val("v1"), known=True, secret=True)', {"sig": "SecretSig", "value": "v1.value"}, "secret"),
    ("unknown", 'vx.out("a", vx.val("v1"), known=False, secret=False)', "UnknownStringValue", "unknown"),
    ("unknown_value", "UNKNOWN", "UnknownStringValue", "unknown"),
    ("custom_ref", 'vx.res("r", "CustomResource")', {"sig": "ResourceReferenceSig", "urn": "r.urn", "id": "r.id"}, "ref"),
    ("component_ref", 'vx.res("r", "ComponentResource")', {"sig": "ResourceReferenceSig", "urn": "r.urn"}, "ref"),
]
OUTV = [
    ("output_value", 'vx.out("a", vx.val("v1"), known=True, secret=False)', {"sig": "OutputValueSig", "dependencies": ["a.dep.urn"], "value": "v1.value"}, (True, False)),
    ("secret_output_value", 'vx.out("a", vx.val("v1"), known=True, secret=True)', {"sig": "OutputValueSig", "dependencies": ["a.dep.urn"], "value": "v1.value", "secret": True}, (True, True)),
    ("unknown_output_value", 'vx.out("a", vx.val("v1"), known=False, secret=False)', {"sig": "OutputValueSig", "dependencies": ["a.dep.urn"]}, (False, False)),
    ("unknown_secret_output_value", 'vx.out("a", vx.val("v1"), known=False, secret=True)', {"sig": "OutputValueSig", "dependencies": ["a.dep.urn"], "secret": True}, (False, True)),
]


def node_consts():
    p = os.path.join(REPO, "sdk/nodejs/runtime/rpc.ts")
    if not os.path.exists(p):
        return None
    return dict(re.findall(r'^export const (\w+) = "([0-9a-f-]{32,36})"', open(p, encoding="utf-8").read(), re.M))


def c08(ctx):
    ctx.explanation = ("The signature constants of the Go engine, the Node.js SDK and this SDK are read from their sources and compared; every "
                       "kind of special value is then pushed through the encoder and its wire form through the decoder.")
    go = {r: go_const(r) for r in ROLES}
    known = {}
    for f in ("properties.go", "asset.go", "plugin/rpc.go"):
        p = os.path.join(REPO, "sdk/go/common/resource", f)
        for m in re.finditer(r'"((?:[0-9a-f]{32})|(?:[0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12}))"', open(p, encoding="utf-8").read()):
            known[m.group(1)] = f
    # 1. every signature-like constant in the SDK is one the engine knows, and no two names share one
    uses = {}
    for m in ctx.prog.mods.values():
        if m.name.startswith("vxh") or not m.name.startswith("pulumi"):
            continue
        doc = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(n.value)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and HEX.match(n.value.value):
                for t in n.targets:
                    uses.setdefault(n.value.value, []).append((m.name, ast.unparse(t)))
            if isinstance(n, ast.Constant) and n not in doc and isinstance(n.value, str) and HEX.match(n.value):
                ctx.ob(n.value in known, "engine-knows-constant", f"{m.name}:{n.value}", ctx.loc(n), "no such constant in the engine's sources")
    for r, v in go.items():
        ctx.ob(v in uses, "constant-present", r, "sdk/python/lib/pulumi/runtime/rpc.py", f"the engine's {r} {v} appears nowhere in the SDK")
        ctx.ob(sum(1 for x in go.values() if x == v) == 1, "constants-distinct", r, "", "two roles share a constant in the engine")
    nd = node_consts()
    if nd:
        for r, v in go.items():
            if ROLES[r] in nd:
                ctx.ob(nd[ROLES[r]] == v, "languages-agree", r, "sdk/nodejs/runtime/rpc.ts", f"Node.js has {nd[ROLES[r]]}, Go has {v}")
    # 2. encode, compare, decode
    src = [I.HARNESS, '''
def roundtrip(v, keep):
    deps = {}
    s = asyncio.run(rpc.serialize_properties({"p": v}, deps, None, None, keep))
    return [s, rpc.deserialize_properties(vx.struct(s), keep_unknowns=True)]
def decode(v): return rpc.deserialize_properties(vx.struct({"p": v}), keep_unknowns=True)
''']
    for n, ex, wire, back in CODEC:
        src.append(f"def t_{n}():\n    setup()\n    return roundtrip({ex}, False)\n")
    for n, ex, wire, back in OUTV:
        src.append(f"def t_{n}():\n    setup()\n    return roundtrip({ex}, True)\n")
    text = "\n".join(src)
    fixed = {"dry_run": False, "supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True}
    for n, ex, wire, back in CODEC + OUTV:
        where = ctx.at("pulumi.runtime.rpc.serialize_property")

        def go_(n=n, wire=wire, back=back, where=where):
            w = ctx.world(text, lambda s: WireWorld(s, fixed=fixed))
            rs, exs = w.run("t_" + n)
            for s, x in exs:
                ctx.ob(None, "encoded", n, where, f"raises {excname(s, x)}")
            for s, v in rs:
                for a in v:
                    sent, got = s.heap[a.key].items
                    t = field(s, sent, "p")
                    r = same(s, t, wire, go)
                    ctx.ob(r, "encoded", n, where, "" if r else f"on the wire: {render(w, s, t)}, expected {wire}")
                    g = field(s, got, "p")
                    r = decoded(w, s, g, back, go)
                    ctx.ob(r, "decoded", n, ctx.at("pulumi.runtime.rpc.deserialize_properties"), "" if r else f"decoded to {render(w, s, g)}, expected {back}")
            ctx.absorb(w)
        ctx.scenario("encoded", n, where, go_)


def field(s, v, k):
    out = EMPTY
    for a in v:
        if isinstance(a, Ref):
            h = s.heap[a.key]
            x = h.f.get(K(k), h.f.get(k))
            if x is None:
                return V(Opq()) if h.rest else VNONE
            out |= x
        else:
            return V(Opq())
    return out


def tri(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs or not rs else True


def same(s, v, want, go):
    def one(a):
        if isinstance(a, Opq):
            return None
        if isinstance(want, dict):
            if not isinstance(a, Ref) or s.heap[a.key].kind not in ("dict", "Struct"):
                return False
            h = s.heap[a.key]
            w = {(go["SigKey"] if k == "sig" else k): (go[x] if k == "sig" else x) for k, x in want.items()}
            f = {k.v if isinstance(k, K) else k: x for k, x in h.f.items()}
            if h.rest or h.opt:
                return None
            if set(f) != set(w):
                return False
            return tri(same(s, f[k], w[k], go) for k in w)
        if isinstance(want, list):
            h = s.heap.get(a.key) if isinstance(a, Ref) else None
            if h is None or h.kind not in LISTS + ("ListValue",):
                return False
            return None if h.rest else len(h.items) == len(want) and tri(same(s, x, y, go) for x, y in zip(h.items, want))
        if isinstance(a, Sym):
            return a.name == want
        if isinstance(a, K):
            return a.v == go.get(want, want) if isinstance(want, str) else a.v is want
        return False
    return tri(one(a) for a in v)


def decoded(w, s, v, want, go):
    def one(a):
        if isinstance(a, Opq):
            return None
        h = s.heap.get(a.key) if isinstance(a, Ref) else None
        cls = h.cls.node.name if h is not None and h.kind == "inst" and isinstance(h.cls, Cls) else None
        if want == "unknown":
            return cls == "Unknown"
        if want == "secret":
            return same(s, V(a), {"sig": "SecretSig", "value": "v1.value"}, go)
        if want == "ref":
            return True if isinstance(a, Sym) and a.name in ("r.urn", "r.id") else True if h is not None and h.kind == "inst" else None
        if isinstance(want, tuple) and isinstance(want[0], bool):
            if cls != "Output":
                return False
            rs = []
            for d in w.osum(s, V(a)):
                for f, x in (("_is_known", want[0]), ("_is_secret", want[1])):
                    if d.get(f) is None:
                        rs.append(None)
                        continue
                    rs += [y.v is x if isinstance(y, K) else None for y in d[f]]
                if want[0]:
                    rs += [y.name == "v1.value" if isinstance(y, Sym) else False if isinstance(y, K) else None for y in (d.get("_future") or V(Opq()))]
            return tri(rs)
        if cls != want[0]:
            return False
        rs = []
        for k, x in want[1].items():
            g = h.f.get(k)
            if g is None:
                rs.append(False)
            elif isinstance(x, dict):
                for b in g:
                    hb = s.heap.get(b.key) if isinstance(b, Ref) else None
                    if hb is None:
                        rs.append(None if isinstance(b, Opq) else False)
                        continue
                    for k2, x2 in x.items():
                        y = hb.f.get(K(k2))
                        rs.append(None if y is None and hb.rest else False if y is None else decoded(w, s, y, x2, go))
            else:
                rs += [y.name == x if isinstance(y, Sym) else None if isinstance(y, Opq) else False for y in g]
        return tri(rs)
    return tri(one(a) for a in v)
