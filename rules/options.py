"""C10/C11: resource and invoke options - what reaches the engine, and what merging keeps."""
import ast
import re
from types import SimpleNamespace as SN
from sa.dom import *
from sa.wire import WireWorld, go_const
from .combinators import excname, render
from . import outbound as O

HARNESS = O.HARNESS + '''
from pulumi import CustomTimeouts
class Prov(ProviderResource):
    def __init__(self, name, props, opts=None):
        super().__init__("pkg", name, props, opts)
'''

# option: (argument expression, {request field: expected}, kinds of operation it applies to)
B, S = '"bool"', '"str"'


def sy(n, k="str"):
    return f'vx.sym("{n}", "{k}")'


ALL = ("custom", "component", "remote", "provider")
OPTS = {
    "protect": (sy("o.protect", "bool"), {"protect": "$o.protect"}, ALL),
    "delete_before_replace": (sy("o.dbr", "bool"), {"deleteBeforeReplace": "$o.dbr", "deleteBeforeReplaceDefined": True}, ALL),
    "ignore_changes": (f'[{sy("o.ic1")}, {sy("o.ic2")}]', {"ignoreChanges": ["$o.ic1", "$o.ic2"]}, ALL),
    "replace_on_changes": (f'[{sy("o.rc1")}, {sy("o.rc2")}]', {"replaceOnChanges": ["$o.rc1", "$o.rc2"]}, ALL),
    "additional_secret_outputs": (f'[{sy("o.so1")}, {sy("o.so2")}]', {"additionalSecretOutputs": ["$o.so1", "$o.so2"]}, ALL + ("read",)),
    "retain_on_delete": (sy("o.rod", "bool"), {"retainOnDelete": "$o.rod"}, ALL),
    "version": (sy("o.version"), {"version": "$o.version"}, ALL + ("read",)),
    "plugin_download_url": (sy("o.url"), {"pluginDownloadURL": "$o.url"}, ALL + ("read",)),
    "import_": (sy("o.import"), {"importId": "$o.import"}, ("custom", "provider")),
    "custom_timeouts": (f'CustomTimeouts(create={sy("o.tc")}, update={sy("o.tu")}, delete={sy("o.td")})',
                        {"customTimeouts": {"create": "$o.tc", "update": "$o.tu", "delete": "$o.td"}}, ALL),
    "custom_timeouts/create": (f'CustomTimeouts(create={sy("o.tc")})', {"customTimeouts": {"create": "$o.tc"}}, ALL),
    "custom_timeouts/update": (f'CustomTimeouts(update={sy("o.tu")})', {"customTimeouts": {"update": "$o.tu"}}, ALL),
    "custom_timeouts/delete": (f'CustomTimeouts(delete={sy("o.td")})', {"customTimeouts": {"delete": "$o.td"}}, ALL),
    "custom_timeouts/dict": (f'{{"create": {sy("o.tc")}, "update": {sy("o.tu")}, "delete": {sy("o.td")}}}',
                             {"customTimeouts": {"create": "$o.tc", "update": "$o.tu", "delete": "$o.td"}}, ALL),
    "aliases": (f'["urn:pulumi:x::y::t::n", {sy("o.alias")}]', {"aliases": ["urn:pulumi:x::y::t::n", "$o.alias"]}, ALL),
    "aliases/output": ('[vx.out("al", vx.sym("o.alias", "str"), known=True, secret=False)]', {"aliases": ["$o.alias"]}, ALL),
    "parent": ('vx.res("par", "ComponentResource")', {"parent": "$par.urn"}, ALL + ("read",)),
    "provider": ('vx.res("prov", "ProviderResource")', {"provider": "{$prov.urn}::{$prov.id}"}, ("custom", "read")),
    "provider/remote": ('vx.res("prov", "ProviderResource")', {"providers": {"pkg": "{$prov.urn}::{$prov.id}"}}, ("remote",)),
    "providers": ('[vx.res("prov", "ProviderResource")]', {"provider": "{$prov.urn}::{$prov.id}"}, ("custom", "read")),
    "providers/remote": ('[vx.res("prov", "ProviderResource"), vx.res("prov2", "ProviderResource", package="pkg2")]',
                         {"providers": {"pkg": "{$prov.urn}::{$prov.id}", "pkg2": "{$prov2.urn}::{$prov2.id}"}}, ("remote",)),
    "providers/dict": ('{"pkg": vx.res("prov", "ProviderResource")}', {"provider": "{$prov.urn}::{$prov.id}"}, ("custom", "read")),
    "id/value": (sy("o.id"), {"id": "$o.id"}, ("read",)),
    "id/output": ('vx.out("idout", vx.sym("o.id", "str"), known=True, secret=False)', {"id": "$o.id"}, ("read",)),
}
# what a request must look like when an option is not given
DEFAULTS = {
    "custom": {"protect": {None, False, "inherit"}, "deleteBeforeReplaceDefined": {False}, "ignoreChanges": {None, "[]"}, "replaceOnChanges": {None, "[]"},
               "additionalSecretOutputs": {None, "[]"}, "retainOnDelete": {False, None}, "version": {"", None}, "pluginDownloadURL": {"", None},
               "importId": {None, ""}, "customTimeouts": {None}, "aliases": {"[]", None}, "provider": {None, ""}, "dependencies": {"[]", None},
               "deleteBeforeReplace": {None, False}},
}
CLS = {
    "custom": ('Custom("n", {"p": "x"}, OPTS)', "RegisterResource", {"custom": True, "remote": False, "type": "pkg:mod:T", "name": "n"}),
    "component": ('Comp("n", {"p": "x"}, OPTS)', "RegisterResource", {"custom": False, "remote": False, "type": "pkg:mod:C", "name": "n"}),
    "remote": ('Comp("n", {"p": "x"}, OPTS, True)', "RegisterResource", {"custom": False, "remote": True, "type": "pkg:mod:C", "name": "n"}),
    "provider": ('Prov("n", {"p": "x"}, OPTS)', "RegisterResource", {"custom": True, "remote": False, "type": "pulumi:providers:pkg", "name": "n"}),
    "read": ('Custom("n", {"p": "x"}, OPTS)', "ReadResource", {"type": "pkg:mod:T", "name": "n"}),
}
ALWAYS = {"RegisterResource": {"acceptSecrets": True, "supportsPartialValues": True}, "ReadResource": {"acceptSecrets": True}}
FIXED = {"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True, "dry_run": False}


def arg(opt):
    return opt.split("/")[0]


def opts_expr(kind, names, extra=""):
    parts = [f"{arg(n)}={OPTS[n][0]}" for n in names]
    if kind == "read" and not any(arg(n) == "id" for n in names):
        parts.append('id=vx.sym("o.id", "str")')
    return "ResourceOptions(" + ", ".join(parts) + ")"


def matches(w, s, v, want):
    """does the abstract value v equal `want`?  True / False / None"""
    rs = [match1(w, s, a, want) for a in v]
    if not rs:
        return None
    if all(r is True for r in rs):
        return True
    if all(r is False for r in rs):
        return False
    return None


def match1(w, s, a, want):
    if isinstance(want, str) and want.startswith("$"):
        n = want[1:]
        if isinstance(a, Sym):
            return True if a.name == n else False
        f = s.facts.get((n, "truth"))
        if isinstance(a, K):
            if isinstance(a.v, bool) and f is not None:
                return a.v is f  # the option is a boolean this path has decided
            if a.v in ("", None, False) and f is False:
                return True
            return False
        return False if isinstance(a, (Ref, Fn, Cat)) else None
    if isinstance(want, str) and want.startswith("{$"):
        return True if repr(a) == want else (False if isinstance(a, (K, Sym, Cat)) else None)
    if isinstance(want, (list, tuple)):
        h = s.heap.get(a.key) if isinstance(a, Ref) else None
        if h is None or h.kind not in LISTS + ("ListValue",):
            return False if isinstance(a, K) else None
        if h.rest:
            return None
        if len(h.items) != len(want):
            return False
        rs = [matches(w, s, x, y) for x, y in zip(h.items, want)]
        return False if False in rs else None if None in rs else True
    if isinstance(want, dict):
        h = s.heap.get(a.key) if isinstance(a, Ref) else None
        if h is None or h.kind not in ("dict", "Struct", "inst"):
            return False if isinstance(a, K) else None
        f = {k.v if isinstance(k, K) else k: x for k, x in h.f.items() if not (isinstance(k, str) and k.startswith("__"))}
        for k, y in want.items():
            if k not in f:
                return None if h.rest else False
            r = matches(w, s, f[k], y)
            if r is not True:
                return r
            if k in h.opt or K(k) in h.opt:
                return None
        extra = {k for k in f if k not in want and f[k] != VNONE}
        return False if extra and h.kind != "inst" else True if not h.rest else None
    if isinstance(a, K):
        return a.v == want and type(a.v) is type(want)
    return None if isinstance(a, (Opq,)) else False


def neutral(w, s, v, allowed):
    rs = []
    for a in v:
        if isinstance(a, K):
            rs.append(a.v in {x for x in allowed if x not in ("[]", "inherit")} or (a.v is None and None in allowed))
        elif isinstance(a, Ref) and s.heap[a.key].kind in LISTS + ("dict",):
            h = s.heap[a.key]
            rs.append("[]" in allowed and not h.items and not h.rest and not h.f)
        else:
            rs.append(None)
    return False if False in rs else None if None in rs or not rs else True


def c10(ctx):
    ctx.explanation = ("Every option of a resource is given an unknown value and each kind of resource is constructed with it, alone, "
                       "together with all others and with none; the captured request must hold the option's value in the request field "
                       "that stands for it, and neutral values elsewhere.")
    sigs = {a.arg for a in fn_args(ctx.prog.find("pulumi.resource.ResourceOptions.__init__"))} - {"self"}
    ctx.prog.find("pulumi.resource.ResourceOptions")
    covered = {arg(n) for n in OPTS} | {"depends_on", "transformations", "urn", "id", "providers"}
    for n in sorted(sigs):
        ctx.ob(True if n in covered else None, "option-covered", n, ctx.at("pulumi.resource.ResourceOptions.__init__"), "" if n in covered else "an option no rule knows")
    progs, cases = [HARNESS], []
    for kind, (expr, method, fixedf) in CLS.items():
        names = [n for n, (ex, want, kinds) in OPTS.items() if kind in kinds]
        whole = {}
        for n in names:
            whole.setdefault(arg(n), n)
        if "provider" in whole and "providers" in whole:
            whole.pop("providers")
        runs = [(n, [n]) for n in names] + [("all", list(whole.values())), ("none", [])]
        for lab, ns in runs:
            fn = f"o_{kind}_{len(cases)}"
            progs.append(f"def {fn}():\n    setup()\n    {expr.replace('OPTS', opts_expr(kind, ns))}\n")
            cases.append((fn, kind, method, fixedf, lab, ns))
    src = "\n".join(progs)
    for fn, kind, method, fixedf, lab, ns in cases:
        where = ctx.at("pulumi.runtime.resource.read_resource" if kind == "read" else "pulumi.runtime.resource.register_resource")

        def go(fn=fn, kind=kind, method=method, fixedf=fixedf, lab=lab, ns=ns, where=where):
            w = ctx.world(src, lambda s: WireWorld(s, fixed=FIXED))
            w.PROPS = {}
            w.st.facts[("o.alias", "eq", K("urn:pulumi:x::y::t::n"))] = False
            if len(ns) > 1:
                for n in set(re.findall(r'"(o\.\w+)"', " ".join(OPTS[n][0] for n in ns))):
                    w.st.facts[(n, "truth")] = True
            rs, exs = w.run(fn)
            reqs = O.requests(w, method)
            if not reqs:
                ctx.ob(None, "option-conveyed", f"{kind}:{lab}", where, f"no {method} request was seen" + (f" ({excname(*exs[0])})" if exs else ""))
            for st, a, f, node in reqs:
                want = {**fixedf, **ALWAYS[method]}
                for n in ns:
                    want.update(OPTS[n][1])
                if kind == "read" and "id" not in want:
                    want["id"] = "$o.id"
                for field, x in want.items():
                    rule = "request-basics" if field in fixedf or field in ALWAYS[method] else "option-conveyed"
                    v = f.get(field)
                    if v is None:
                        ctx.ob(x in (False, None), rule, f"{kind}:{lab}:{field}", ctx.loc(node), f"request field {field} is never set")
                        continue
                    r = matches(w, st, v, x)
                    ctx.ob(r, rule, f"{kind}:{lab}:{field}", ctx.loc(node), "" if r else f"request field {field} is {render(w, st, v)}, expected {x}")
                for field, allowed in DEFAULTS["custom"].items():
                    if field in want or field not in f:
                        continue
                    if field == "protect" and "parent" in [arg(n) for n in ns]:
                        continue
                    if field == "aliases" and "parent" in [arg(n) for n in ns]:
                        continue
                    r = neutral(w, st, f[field], allowed)
                    ctx.ob(r, "unset-is-neutral", f"{kind}:{lab}:{field}", ctx.loc(node), "" if r else f"request field {field} is {render(w, st, f[field])} although the option was not given")
            ctx.absorb(w)
            ctx.paths += len(reqs)
        ctx.scenario("option-conveyed", f"{kind}:{lab}", where, go)


def fn_args(node):
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs
