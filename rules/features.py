"""C36: wire encodings the engine has to understand are used only where it said that it does."""
import itertools
import os
import re
from sa.dom import *
from sa.prog import REPO, AnchorMissing
from .combinators import excname
from .outbound import HARNESS, E2E, E2E_FIELD, KEEPS, go_const, is_sig, get, requests, occurrences
from .blocking import RealFeatures

ENCODING = {"secrets": "SecretSig", "resourceReferences": "ResourceReferenceSig", "outputValues": "OutputValueSig"}
QUERIES = {"secrets": "monitor_supports_secrets", "resourceReferences": "monitor_supports_resource_references", "outputValues": "monitor_supports_output_values"}

SRC = '''
import grpc
PR = lambda: {"p": [A()], "q": {"k": B(), "r": vx.res("r"), "c": [vx.res("c", "ComponentResource")]}}
def e_call_self():
    setup()
    pulumi.runtime.call("pkg:mod:fn", {**PR(), "__self__": vx.res("r")}, vx.res("r"))
def ask(f):
    try:
        vx.note("answer", asyncio.run(f()))
    except Exception as e:
        vx.note("failed", e)
class Failing(grpc.RpcError):
    def __init__(self, c):
        self.c = c
    def code(self):
        return self.c
    def details(self):
        return "details"
def unsupported():
    raise Failing(grpc.StatusCode.UNIMPLEMENTED)
'''


def go_features():
    """the feature names the engine answers to"""
    p = os.path.join(REPO, "pkg/resource/deploy/source_eval.go")
    if not os.path.exists(p):
        raise AnchorMissing("pkg/resource/deploy/source_eval.go is gone")
    m = re.search(r"\) SupportsFeature\(.*?^\}", open(p, encoding="utf-8").read(), re.S | re.M)
    return set(re.findall(r'case "(\w+)"', m.group(0))) if m else set()


class Features(RealFeatures):
    """the engine answers each query for itself; `old` engines do not implement it"""
    old = False

    def resp_SupportsFeature(self, e, st, node):
        if self.old:
            return e.call(e.eval_in_module(self.hname, _n(e, self, "unsupported"), st), NOARGS(), st, node)
        req = self.rpcs[-1][2]
        out = []
        for a in req:
            h = st.heap.get(a.key) if isinstance(a, Ref) else None
            for x in h.f.get("id", V(Opq())) if h else V(Opq()):
                out.append((st, self.msg(e, st, node, "SupportsFeature", hasSupport=V(Sym("supports_" + str(x.v), "bool", frozenset())) if isinstance(x, K) else V(Opq()))))
        return out


def NOARGS():
    from sa.engine import Args
    return Args([])


def _n(e, w, name):
    import ast
    n = ast.parse(name, mode="eval").body
    e.adopt(n, w.prog.mods[w.hname].tree.body[0])
    return n


def asked(w, s, kind="SupportsFeature"):
    out = set()
    for a in s.ghost("rpc:" + kind) or ():
        h = s.heap.get(a.key) if isinstance(a, Ref) else None
        for x in h.f.get("id", V(Opq())) if h else V(Opq()):
            out.add(x.v if isinstance(x, K) else x)
    return out


def found(t, path=""):
    """(feature, path) of every special encoding in a tree"""
    if t[0] == "dict":
        for f, c in ENCODING.items():
            if is_sig(t, go_const(c)):
                yield f, path
        for k, x in t[1].items():
            yield from found(x, f"{path}.{k}")
    elif t[0] == "list":
        for i, x in enumerate(t[1]):
            yield from found(x, f"{path}[{i}]")
    elif t[0] == "alt":
        for x in t[1]:
            yield from found(x, path)


def c36(ctx):
    ctx.explanation = ("Each feature query is followed to the engine request it makes, with engines that answer yes, no, differently per feature, or do not implement the query; then every operation that sends values is analysed with "
                       "secrets, unknowns, resources and components inside, under every combination of supported features: no encoding may appear whose feature the engine did not report, and plain forms must be used instead.")
    known = go_features()
    src = [HARNESS, E2E, SRC, "from pulumi.runtime import settings\n"]
    jobs = []
    for f, q in QUERIES.items():
        src.append(f"def q_{f}():\n    setup()\n    ask(settings.{q})\n")
        for g, q2 in QUERIES.items():
            if g != f:
                src.append(f"def q_{f}_{g}():\n    setup()\n    asyncio.run(settings.{q}())\n    ask(settings.{q2})\n")
    src.append("def q_none():\n    settings.configure(settings.Settings(project='p', stack='s', parallel=1, dry_run=False))\n" + "".join(f"    ask(settings.{q})\n" for q in QUERIES.values()))
    text = "\n".join(src)
    few = text.replace(', "c": [vx.res("c", "ComponentResource")]', "")  # (each resource among the inputs multiplies the waiting orders)
    mk = lambda fixed: ctx.world(few if fixed.get("supports_resourceReferences") else text, lambda s: Features(s, fixed={"dry_run": False, **fixed}))

    def answers(s):
        return [a.v if isinstance(a, K) else a for a in s.ghost("answer") or ()]

    def query(name, f, fixed, want, where, lab, old=False):
        w = mk(fixed)
        w.old = old
        rs, exs = w.run(name)
        if not rs:
            ctx.ob(None, "query-answered", lab, where, "no path ends")
        for s, v in rs:
            if s.ghost("failed"):
                ctx.ob(False, "query-answered", lab, where, f"the query raises {excname(s, s.ghost('failed'))}")
                continue
            got = s.ghost("answer") or EMPTY
            tv = {w.e.truth(a, s) for a in got}
            ctx.ob(True if tv == {want} else None if None in tv or not tv else False, "query-answered", lab, where, f"answers {sorted(map(str, tv))}, the engine said {want}")
            ids = asked(w, s)
            if f and not old:
                ctx.ob(f in ids if all(isinstance(x, str) for x in ids) else None, "asks-what-it-names", lab, where, f"asks the engine for {sorted(map(str, ids))}")
            for x in ids:
                if isinstance(x, str):
                    ctx.ob(x in known, "asks-what-it-names", f"{lab}: {x}", where, f"the engine does not know the feature {x}")
        ctx.absorb(w)
        ctx.paths += len(rs)

    for f, q in QUERIES.items():
        where = ctx.at("pulumi.runtime.settings." + q)
        for yes in (True, False):
            lab = f"{f}: the engine says {'yes' if yes else 'no'}"
            fixed = {"supports_" + x: yes == (x == f) for x in QUERIES}
            ctx.scenario("query-answered", lab, where, lambda f=f, fixed=fixed, yes=yes, where=where, lab=lab: query(f"q_{f}", f, fixed, yes, where, lab))
            for g in QUERIES:
                if g != f:
                    lab2 = f"{g} after {f}: {'yes' if yes else 'no'} after {'no' if yes else 'yes'}"
                    fx = {"supports_" + x: yes == (x == g) for x in QUERIES}
                    ctx.scenario("query-answered", lab2, where, lambda f=f, g=g, fx=fx, yes=yes, where=where, lab2=lab2: query(f"q_{f}_{g}", g, fx, yes, where, lab2))
        lab = f"{f}: the engine does not implement the query"
        ctx.scenario("query-answered", lab, where, lambda f=f, where=where, lab=lab: query(f"q_{f}", f, {}, False, where, lab, True))
    w0 = ctx.at("pulumi.runtime.settings.monitor_supports_secrets")
    ctx.scenario("query-answered", "no engine", w0, lambda: query("q_none", None, {}, False, w0, "no engine"))

    def send(name, method, field, where, combo, lab, inputs):
        fixed = {**{"supports_" + f: v for f, v in combo.items()}, **inputs}
        w = mk(fixed)
        w.PROPS = {}
        rs, exs = w.run(name)
        reqs = requests(w, method)
        if not reqs:
            ctx.ob(None, "encoding-supported", lab, where, f"no {method} request was seen" + (f" ({excname(*exs[0])})" if exs else ""))
        for st, a, fl, node in reqs:
            if field not in fl:
                continue
            t = w.tree(st, fl[field])
            hits = {}
            for f, path in found(t):
                hits.setdefault(f, []).append(path)
            for f in combo:
                ctx.ob(combo[f] or f not in hits, "encoding-supported", f"{lab}: {f}", ctx.loc(node), f"the encoding for {f} is used at {hits.get(f, [])[:3]} although the engine does not support it")
            if combo["resourceReferences"]:
                ctx.ob("resourceReferences" in hits, "encoding-used", f"{lab}: resourceReferences", ctx.loc(node), "a resource among the inputs is not sent as a reference")
            else:
                c = get(get(t, "q") or ("?",), "c") if get(t, "q") else None
                r = get(get(t, "q") or ("?",), "r") if get(t, "q") else None
                for what, x, want in (("custom resource", r, "r.id"), ("component", c[1][0] if c and c[0] == "list" and c[1] else None, "c.urn")):
                    x = plain(x)
                    nm = x[1].name if x and x[0] == "atom" and isinstance(x[1], Sym) else None
                    ctx.ob(True if nm == want else None if nm is None else False, "plain-form", f"{lab}: {what}", ctx.loc(node), f"the {what} is sent as {x}, without references it is {want}")
            if combo["secrets"] and inputs.get("a.secret") and name not in KEEPS:
                ctx.ob("secrets" in hits, "encoding-used", f"{lab}: secrets", ctx.loc(node), "a secret among the inputs is not sealed")
        ctx.absorb(w)
        ctx.paths += len(reqs)
    for name, (method, field, anchor) in E2E_FIELD.items():
        where = ctx.at(anchor)
        for vals in itertools.product((True, False), repeat=3):
            combo = dict(zip(ENCODING, vals))
            on = ", ".join(f for f in combo if combo[f]) or "nothing"
            for il, inputs in (("secret", {"a.secret": True, "b.secret": False, "a.known": True, "b.known": True}), ("unknown", {"a.secret": False, "b.secret": True, "a.known": False, "b.known": True, "dry_run": True})):
                if il == "unknown" and method == "Invoke":
                    continue
                lab = f"{name}, {il} input, engine with {on}"
                ctx.scenario("encoding-supported", lab, where, lambda a=(name, method, field, where, combo, lab, inputs): send(*a))


def plain(t):
    """without a secret envelope or output value around it"""
    while t is not None and (is_sig(t, go_const("SecretSig")) or is_sig(t, go_const("OutputValueSig"))) and get(t, "value") is not None:
        t = get(t, "value")
    return t
