"""Scenarios that reach the engine: unknown monitor/engine stubs whose requests are captured, and walks over the
protobuf structures that were sent."""
import ast
import os
import re
from .dom import *
from .world import World, kstr
from .engine import Args
from .prog import REPO, AnchorMissing

PRELUDE = '''
import asyncio
import pulumi
from pulumi import *
from pulumi import Output, Resource, CustomResource, ComponentResource, ProviderResource, ResourceOptions, InvokeOptions
from pulumi.output import UNKNOWN, Unknown
from pulumi.runtime import settings, rpc
from pulumi.runtime import resource as rr
from pulumi.runtime.settings import Settings
import vx

class Stub:
    pass

def setup():
    settings.configure(Settings(project=vx.sym("project", "str"), stack=vx.sym("stack", "str"), monitor=vx.sym("monitor", "stub"),
                                engine=vx.sym("engine", "stub"), dry_run=vx.sym("dry_run", "bool")))

def mkout(n, v):
    o = vx.out(n)
    return Output(o._resources, vx.out(n, v)._future, o._is_known, o._is_secret)
'''

_GO = {}


def go_const(name):
    """a wire constant as the Go engine defines it"""
    if not _GO:
        for f in ("sdk/go/common/resource/properties.go", "sdk/go/common/resource/asset.go", "sdk/go/common/resource/plugin/rpc.go"):
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                raise AnchorMissing(f"{f} is gone")
            for m in re.finditer(r'^\s*(?:const\s+)?(\w+)\s*=\s*"([0-9a-f-]{32,36})"', open(p, encoding="utf-8").read(), re.M):
                _GO.setdefault(m.group(1), m.group(2))
    if name not in _GO:
        raise AnchorMissing(f"wire constant {name} not found in the Go sources")
    return _GO[name]


def _is_deco(d, name):
    if isinstance(d, ast.Call):
        d = d.func
    return (isinstance(d, ast.Name) and d.id == name) or (isinstance(d, ast.Attribute) and d.attr == name)


class WireWorld(World):
    VALKIND = "str"

    def __init__(self, src="", prelude=True, fixed=None):
        self.responses = {}
        self.fixed = fixed or {}
        super().__init__((PRELUDE if prelude else "") + src)
        T = "pulumi._types."
        m = self.e.models
        m[T + "resource_types"] = m[T + "output_type_types"] = m[T + "input_type_types"] = self.reflect(lambda py, pu, t: (pu, t) if t else None)
        m[T + "resource_py_to_pulumi_names"] = m[T + "input_type_py_to_pulumi_names"] = self.reflect(lambda py, pu, t: (py, V(K(pu))))
        m[T + "resource_pulumi_to_py_names"] = self.reflect(lambda py, pu, t: (pu, V(K(py))))
        m[T + "unwrap_type"] = m[T + "unwrap_optional_type"] = lambda e, st, args, node: [(st, args.get(0, "val", EMPTY))]
        for t in (T, "typing."):
            m[t + "get_origin"], m[t + "get_args"] = self.m_get_origin, self.m_get_args
        m[T + "_py_properties"] = self.py_properties
        for k, v in self.fixed.items():
            self.st.facts[(k, "truth")] = v
        for n in ("v1", "v2", "v3", "v4", "refurn", "theid"):
            self.plain(self.st, n + ".value")

    # -------------------------------------------------- what the SDK's class reflection computes, read off the class body
    def class_props(self, cls):
        """-> [(python name, pulumi name, annotation, getter node or None)]"""
        out = []
        for c in reversed([c for c in self.e.mro(cls) if isinstance(c, Cls)]):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and c is not None and c == cls:
                    pu = n.target.id
                    if isinstance(n.value, ast.Call) and n.value.args and isinstance(n.value.args[0], ast.Constant):
                        pu = n.value.args[0].value
                    out.append((n.target.id, pu, n.annotation, None, c))
                if isinstance(n, ast.FunctionDef) and any(_is_deco(d, "getter") for d in n.decorator_list):
                    pu = n.name
                    for d in n.decorator_list:
                        if isinstance(d, ast.Call) and _is_deco(d, "getter"):
                            for kw in d.keywords:
                                if kw.arg == "name" and isinstance(kw.value, ast.Constant):
                                    pu = kw.value.value
                    out.append((n.name, pu, n.returns, n, c))
        return out

    def ann_type(self, ann, c, st):
        while isinstance(ann, ast.Subscript) and ast.unparse(ann.value).rsplit(".", 1)[-1] in ("Output", "Input", "Optional"):
            ann = ann.slice
        if ann is None or ast.unparse(ann).rsplit(".", 1)[-1] == "Output":
            return None
        return self.ev_type(ann, self.e.modname(c.node), st)

    def ev_type(self, ann, mod, st):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
            self.e.adopt(ann, self.prog.mods[mod].tree.body[0])
        if isinstance(ann, ast.Subscript):
            o = self.ev_type(ann.value, mod, st)
            els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            args = [self.ev_type(x, mod, st) for x in els]
            return V(self.e.newinst(st, ann, Ext("typing._GenericAlias"), {"__origin__": o, "__args__": V(self.e.newlist(st, ann, args, kind="tuple"))}))
        return self.e.eval_in_module(mod, ann, st)

    ORIGIN = {"typing.List": "list", "List": "list", "typing.Dict": "dict", "Dict": "dict"}

    def m_get_origin(self, e, st, args, node):
        out = EMPTY
        for a in args.get(0, default=EMPTY):
            h = st.heap.get(a.key) if isinstance(a, Ref) else None
            if h is not None and h.kind == "inst" and h.cls == Ext("typing._GenericAlias"):
                out |= V(*(Ext(self.ORIGIN.get(x.key, x.key)) if isinstance(x, Ext) else x for x in h.f["__origin__"]))
            else:
                out |= VNONE
        return [(st, out)]

    def m_get_args(self, e, st, args, node):
        for a in args.get(0, default=EMPTY):
            h = st.heap.get(a.key) if isinstance(a, Ref) else None
            if h is not None and h.kind == "inst" and h.cls == Ext("typing._GenericAlias"):
                return [(st, h.f["__args__"])]
        return [(st, V(e.newlist(st, node, [], kind="tuple")))]

    def reflect(self, f):
        def m(e, st, args, node):
            v = args.get(0, default=EMPTY)
            d = {}
            for a in v:
                if not isinstance(a, Cls):
                    return [(st, V(Opq()))]
                for py, pu, ann, g, c in self.class_props(a):
                    r = f(py, pu, self.ann_type(ann, c, st))
                    if r:
                        d[K(r[0])] = r[1]
            return [(st, V(e.newdict(st, node, d)))]
        return m

    def py_properties(self, e, st, args, node):
        out = []
        for a in args.get(0, default=EMPTY):
            if not isinstance(a, Cls):
                return [(st, V(Opq()))]
            for py, pu, ann, g, c in self.class_props(a):
                if g is not None:
                    p = e.newinst(st, f"prop:{py}", Ext("builtins.property"), {"fget": V(Fn(g, c.frame, c)), "fset": VNONE})
                    out.append(V(e.newlist(st, f"pp:{py}", [V(K(py)), V(K(pu)), V(p)], kind="tuple")))
        return [(st, V(e.newlist(st, node, out)))]

    def sym_call(self, e, st, f, d, args, node):
        if isinstance(f, BMeth) and isinstance(f.obj, Sym) and f.obj.name in ("monitor", "engine"):
            req = args.get(0, default=EMPTY)
            self.rpcs.append((f.name, st.copy(), req, e.exec_depth, node))
            st.set_ghost("rpc:" + f.name, st.ghost("rpc:" + f.name) | req)
            if e.may_fault("rpc " + f.name, st, node):
                return []
            r = self.responses.get(f.name) or getattr(self, "resp_" + f.name, None)
            if r:
                x = r(e, st, node)
                return x if isinstance(x, list) else [(st, x)]
            return [(st, V(e.newinst(st, node, Ext("resp." + f.name), {})))]
        return super().sym_call(e, st, f, d, args, node)

    def mkdep(self, st, name):
        return V(self.mkres(st, name, "pulumi.resource.CustomResource"))

    def mkres(self, st, name, cls, **f):
        """an already registered resource: its urn (and id) are known, it has no children"""
        e = self.e
        r = e.newinst(st, name, Cls(self.prog.find(cls)), {})

        st.facts[(name + ".urn", "truth")] = True
        st.facts[(name + ".id", "truth")] = True

        def out(n):
            return V(self.mkout(st, n, V(Sym(n, "str")), V(e.newlist(st, n + ".rl", [V(r)], kind="set")), VFALSE, VTRUE))
        base = {"__name": V(K(name)), "urn": out(name + ".urn"), "_name": V(Sym(name + ".name", "str")), "_childResources": V(e.newlist(st, name + ".ch", [], kind="set")),
                "_providers": V(e.newdict(st, name + ".prov")), "_transformations": V(e.newlist(st, name + ".tr")), "_aliases": V(e.newlist(st, name + ".al")),
                "_protect": VFALSE, "_provider": VNONE, "_version": VNONE, "_plugin_download_url": VNONE, "_type": V(Sym(name + ".type", "str"))}
        k = cls.rsplit(".", 1)[1]
        if k in ("CustomResource", "ProviderResource"):
            base["id"] = out(name + ".id")
        if k == "ProviderResource":
            base["package"] = V(K("pkg"))
        if k == "ComponentResource":
            base["_remote"] = VFALSE
        base.update(f)
        st.heap[r.key] = st.heap[r.key].w(f={**st.heap[r.key].f, **base})
        return r

    def vx_sym(self, e, st, args, node):
        k = kstr(args.get(1))
        return [(st, V(Sym(kstr(args.get(0)), f"obj:{self.hname}.Stub" if k == "stub" else k)))]

    def vx_val(self, e, st, args, node):
        """an ordinary string the engine sent (never the unknown marker)"""
        n = kstr(args.get(0)) + ".value"
        self.plain(st, n)
        return [(st, V(Sym(n, "str")))]

    def plain(self, st, n):
        st.facts[(n, "eq", K(go_const("UnknownStringValue")))] = False
        st.facts[(n, "truth")] = True

    def vx_sig(self, e, st, args, node):
        return [(st, V(K(go_const(kstr(args.get(0))))))]

    def vx_struct(self, e, st, args, node):
        """plain dictionaries and lists as the protobuf structures the engine sends"""
        return [(st, self.to_struct(e, st, args.get(0), node))]

    def to_struct(self, e, st, v, tag):
        out = []
        for a in v:
            if isinstance(a, Ref):
                h = st.heap[a.key]
                if h.kind in ("dict", "Struct"):
                    f = {k: self.to_struct(e, st, x, (tag, k)) for k, x in h.f.items()}
                    out.append(e.newdict(st, (tag, "struct", a.key), f, kind="Struct"))
                    continue
                if h.kind in LISTS or h.kind == "ListValue":
                    out.append(e.newlist(st, (tag, "lv", a.key), [self.to_struct(e, st, x, (tag, i)) for i, x in enumerate(h.items)], kind="ListValue"))
                    continue
            out.append(a)
        return V(*out)

    def answer_with(self, method, field, fn, **other):
        """the engine's answer to `method` is the message with `field` = what harness function `fn` returns"""
        def r(e, st, node):
            f = e.fn(f"{self.hname}.{fn}")
            out = []
            for s2, v in e.call(V(f), Args(), st, node):
                base = getattr(self, "resp_" + method)(e, s2, node)
                for a in base:
                    h = s2.heap[a.key]
                    s2.heap[a.key] = h.w(f={**h.f, field: v})
                    for k, x in other.items():
                        s2.heap[a.key] = s2.heap[a.key].setf(k, x)
                out.append((s2, base))
            return out
        self.responses[method] = r

    def vx_res(self, e, st, args, node):
        """vx.res(name, "CustomResource"|"ComponentResource"|..., **fields)"""
        k = kstr(args.get(1)) or "CustomResource"
        return [(st, V(self.mkres(st, kstr(args.get(0)), "pulumi.resource." + k, **args.kw)))]

    def prepare(self):
        """run the prelude's setup() so that the stubs are installed"""
        rs, ex = self.e.run(f"{self.hname}.setup", Args(), self.st)
        self.st = rs[0][0]
        return self

    # ------------------------------------------------------------ what the engine answers, unless a scenario says otherwise
    def msg(self, e, st, node, name, **f):
        return V(e.newinst(st, node, Ext("resp." + name), f))

    def struct(self, e, st, tag, d):
        return V(e.newdict(st, "resp:" + tag, {K(k): v for k, v in d.items()}, kind="Struct"))

    PROPS = {"out": "str"}

    def answer(self, e, st, m):
        return self.struct(e, st, m, {k: V(Sym(f"{m}.{k}", t)) for k, t in self.PROPS.items()})

    def resp_RegisterResource(self, e, st, node):
        return self.msg(e, st, node, "RegisterResource", urn=V(Sym("new.urn", "str")), id=V(Sym("new.id", "str")), object=self.answer(e, st, "resp"),
                        stable=VFALSE, stables=V(e.newlist(st, "resp:stables")), propertyDependencies=V(e.newdict(st, "resp:pd")))

    def resp_ReadResource(self, e, st, node):
        return self.msg(e, st, node, "ReadResource", urn=V(Sym("new.urn", "str")), properties=self.answer(e, st, "resp"))

    def resp_Invoke(self, e, st, node):
        return self.msg(e, st, node, "Invoke", failures=V(e.newlist(st, "resp:fail")), **{"return": self.answer(e, st, "resp")})

    def resp_Call(self, e, st, node):
        return self.msg(e, st, node, "Call", failures=V(e.newlist(st, "resp:fail")), returnDependencies=V(e.newdict(st, "resp:rd")), **{"return": self.answer(e, st, "resp")})

    # ------------------------------------------------------------ walking what was sent
    def tree(self, s, v, depth=12):
        """abstract value -> nested python: ('dict',{k:..},optkeys,rest) | ('list',[..],rest) | ('atom', a) | ('alt',[..])"""
        alts = []
        for a in v:
            alts.append(self._tree1(s, a, depth))
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def _tree1(self, s, a, depth):
        if isinstance(a, Ref) and depth > 0:
            h = s.heap[a.key]
            if h.kind in ("dict", "Struct"):
                return ("dict", {k.v if isinstance(k, K) else k: self.tree(s, x, depth - 1) for k, x in h.f.items()},
                        {k.v if isinstance(k, K) else k for k in h.opt}, self.tree(s, h.rest, depth - 1) if h.rest else None, a)
            if h.kind in LISTS or h.kind == "ListValue":
                return ("list", [self.tree(s, x, depth - 1) for x in h.items], self.tree(s, h.rest, depth - 1) if h.rest else None, a)
            if h.kind == "inst":
                return ("inst", h.cls, {k: self.tree(s, x, depth - 1) for k, x in h.f.items()}, a)
        return ("atom", a)


SIG = None


def is_sig(t, sig):
    if t[0] != "dict":
        return False
    x = t[1].get(go_const("SigKey"))
    return x is not None and x[0] == "atom" and isinstance(x[1], K) and x[1].v == sig


def occurrences(t, label, sealed=False, path=""):
    """every place where data labelled `label` appears: (path, sealed, tree)"""
    out = []
    if t[0] == "dict":
        s2 = sealed or is_sig(t, go_const("SecretSig"))
        if is_sig(t, go_const("OutputValueSig")):
            x = t[1].get("secret")
            if x is not None and x[0] == "atom" and "secret" not in t[2]:
                s2 = s2 or x[1]
        for k, x in t[1].items():
            out += occurrences(x, label, s2, f"{path}.{k}")
        if t[3]:
            out += occurrences(t[3], label, s2, path + "[*]")
    elif t[0] == "list":
        for i, x in enumerate(t[1]):
            out += occurrences(x, label, sealed, f"{path}[{i}]")
        if t[2]:
            out += occurrences(t[2], label, sealed, path + "[*]")
    elif t[0] == "inst":
        for k, x in t[2].items():
            out += occurrences(x, label, sealed, f"{path}.{k}")
    elif t[0] == "alt":
        for x in t[1]:
            out += occurrences(x, label, sealed, path)
    else:
        if label in atom_labels(t[1]):
            out.append((path, sealed, t[1]))
    return out
