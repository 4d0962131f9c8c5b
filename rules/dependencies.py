"""C29: what depending on a resource means, and that no resource waits for itself.

Programs build small forests of custom resources (C), local components (L) and remote components (R), with dependencies
given through options and inputs.  Each registration the engine would see is decoded and compared with the forest:
what a component stands for is computed here from the forest alone."""
from sa.dom import *
from . import outbound as O
from .combinators import excname
from .hierarchy import HARNESS, newurn, run, text, texts, of

T = {"C": "a:b:C", "L": "a:b:L", "R": "a:b:R"}
DOC = [("comp1", "L", None), ("cust1", "C", "comp1"), ("comp2", "L", "comp1"), ("remote1", "R", "comp1"), ("cust4", "C", "cust1"),
       ("cust2", "C", "comp2"), ("cust3", "C", "comp2"), ("comp3", "L", "remote1"), ("cust5", "C", "comp3")]

SMALL = [("comp1", "L", None), ("cust1", "C", "comp1"), ("comp2", "L", "comp1"), ("cust2", "C", "comp2")]


class Forest:
    def __init__(self, nodes):
        self.nodes = list(nodes)  # (name, kind, parent)
        self.kind = {n: k for n, k, p in nodes}
        self.parent = {n: p for n, k, p in nodes}
        self.urns = {}
        for n, k, p in nodes:
            self.urns[n] = newurn(self.urns[p] if p else None, T[k], n)

    def expand(self, names):
        out = set()
        for n in names:
            if self.kind[n] == "L":
                out |= self.expand([c for c, _, p in self.nodes if p == n])
            else:
                out.add(n)
        return out


def make(n, k, p, deps=None, props="{}"):
    o = ", ".join(x for x in (f"parent={p}" if p else "", f"depends_on={deps}" if deps else "") if x)
    return f'    {n} = {"Cus" if k == "C" else "Com"}("{T[k]}", "{n}", RO({o}), {props}{", True" if k == "R" else ""})\n'


def waits(f, edges, a):
    """everything `a` waits for, a itself included"""
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x in seen or x is None:
            continue
        seen.add(x)
        todo += [f.parent[x], *edges.get(x, ())]
    return seen


# how a dependency on one resource `r` (or two) is written in options
FORMS = {
    "one": lambda a: a[0], "list": lambda a: "[" + ", ".join(a) + "]", "output": lambda a: f'bare("d", {a[0]})',
    "output-of-list": lambda a: 'bare("d", [' + ", ".join(a) + "])",
    "list-of-outputs": lambda a: "[" + ", ".join(f'bare("d{i}", {x})' for i, x in enumerate(a)) + "]",
    "awaitable": lambda a: f"fut({a[0]})", "list-of-awaitables": lambda a: "[" + ", ".join(f"fut({x})" for x in a) + "]",
    "applied": lambda a: f'bare("d", 1).apply(lambda _: {a[0]})', "depending": lambda a: "[Output({" + a[0] + "}, fut(" + a[0] + "), fut(True), fut(False))]",
}
SRC = HARNESS + '''
def bare(n, v):
    return Output(set(), fut(v), fut(True), fut(False))
async def fut(x):
    return x
'''


def scenarios():
    doc = "".join(make(n, k, p) for n, k, p in DOC)
    plain = ["comp1", "comp2", "remote1", "cust1"]
    small = "".join(make(n, k, p) for n, k, p in SMALL)
    for tgt in ("comp1", "comp2", "remote1", "cust1"):
        yield f"form:list:{tgt}", doc + make("x", "C", None, f"[{tgt}]"), [*DOC, ("x", "C", None)], {"x": [tgt]}, {}
    for lab, form in FORMS.items():
        yield f"form:{lab}", small + make("x", "C", None, form(["comp1"])), [*SMALL, ("x", "C", None)], {"x": ["comp1"]}, {}
    two = [("p", "L", None), ("a", "C", "p"), ("q", "L", None), ("b", "C", "q")]
    for lab in ("list", "output-of-list", "list-of-outputs", "list-of-awaitables"):
        yield f"two:{lab}", "".join(make(*n) for n in two) + make("x", "C", None, FORMS[lab](["p", "q", "b"])), [*two, ("x", "C", None)], {"x": ["p", "q", "b"]}, {}
    for lab, e in (("output-depending", "Output({p}, fut(q), fut(True), fut(False))"), ("output-of-list-depending", "Output({p}, fut([q]), fut(True), fut(False))"),
                   ("item-depending", "[Output({p}, fut(q), fut(True), fut(False))]"), ("tuple", "(p, q)"), ("mixed", "[p, fut(q)]"), ("mixed-output", "[bare(1, p), q]"),
                   ("merged", None)):
        body = make("x", "C", None, e) if e else '    x = Cus("a:b:C", "x", RO.merge(RO(depends_on=p), RO(depends_on=bare(1, [q]))))\n'
        yield f"two:{lab}", "".join(make(*n) for n in two) + body, [*two, ("x", "C", None)], {"x": ["p", "q"]}, {}
    # through inputs
    inputs = {"urn": ("{0}.urn", 1), "resource": ("{0}", 1), "nested": ('[{{"k": {0}.urn}}]', 1), "applied": ('{0}.urn.apply(lambda u: u)', 1),
              "combined": ('Output.all({0}.urn, 1)', 1), "depending": ('vx.out("e", "v", known=True, secret=False, deps=[{0}])', 1)}
    for kx in "CLR":
        for lab, (e, _) in inputs.items():
            if kx == "L" and lab not in ("urn", "depending"):
                continue
            yield f"input:{lab}:{kx}", small + make("x", kx, None, None, '{"in1": ' + e.format("comp1") + ', "other": 1}'), [*SMALL, ("x", kx, None)], {}, {"x": {"in1": ["comp1"]}}
            if lab in ("urn", "depending", "nested"):
                yield (f"input:{lab}:{kx}:inside", small + make("x", kx, "comp1", None, '{"in1": ' + e.format("comp1") + "}"), [*SMALL, ("x", kx, "comp1")], {},
                       {"x": {"in1": ["comp1"]}})
    # inside the component depended upon
    for kx in "CLR":
        for par in ("comp1", "comp2"):
            below = [("y", "C", "x")] if kx != "C" else []
            yield (f"inside:{kx}:{par}", small + make("x", kx, par, "[comp1]") + "".join(make(*n) for n in below), [*SMALL, ("x", kx, par), *below], {"x": ["comp1"]}, {})
    sib = [("p", "L", None)]
    for n in (2, 3):
        ns = [(f"s{i}", "C", "p") for i in range(n)]
        yield f"siblings:{n}", make("p", "L", None) + "".join(make(*x, "[p]") for x in ns), [*sib, *ns], {x[0]: ["p"] for x in ns}, {}
    mix = [("p", "L", None), ("s0", "C", "p"), ("s1", "R", "p"), ("s2", "C", "p")]
    yield ("siblings:mixed", "".join(make(*x, "[p]" if x[0] != "p" else None) for x in mix), mix, {x[0]: ["p"] for x in mix[1:]}, {})
    yield ("siblings:inputs", make("p", "L", None) + "".join(make(n, "C", "p", None, '{"in1": p.urn}') for n in ("s0", "s1")),
           [*sib, ("s0", "C", "p"), ("s1", "C", "p")], {}, {"s0": {"in1": ["p"]}, "s1": {"in1": ["p"]}})
    for lab, e in (("after", "[p, b, c, d]"), ("before", "[b, c, d, p]"), ("nested", "[b, p, c]")):
        o = [("b", "C", None), ("c", "C", None), ("d", "C", None)]
        ns = [("s0", "C", "p"), ("s1", "C", "p"), ("s2", "C", "p")]
        yield (f"siblings:{lab}", "".join(make(*x) for x in o) + make("p", "L", None) + "".join(make(*x, e) for x in ns), [*o, *sib, *ns],
               {x[0]: e.strip("[]").split(", ") for x in ns}, {})
    chain = [("p", "L", None), ("m", "L", "p"), ("i", "L", "m"), ("c", "C", "i"), ("d", "C", "m")]
    yield ("chain:deep", "".join(make(*n) for n in chain) + make("x", "C", None, "[p]"), [*chain, ("x", "C", None)], {"x": ["p"]}, {})
    yield ("chain:component-on-ancestor", make(*chain[0]) + make(*chain[1], "[p]") + make(*chain[2], "[p]") + make(*chain[3]) + make(*chain[4], "[p]"), chain,
           {"m": ["p"], "i": ["p"], "d": ["p"]}, {})
    yield ("chain:component-on-component", "".join(make(*n) for n in two) + make("x", "L", None, "[p]") + make("y", "C", "x") + make("z", "C", None, "[x]"),
           [*two, ("x", "L", None), ("y", "C", "x"), ("z", "C", None)], {"x": ["p"], "z": ["x"]}, {})
    yield ("empty", make("p", "L", None) + make("x", "C", None, "[p]"), [("p", "L", None), ("x", "C", None)], {"x": ["p"]}, {})
    yield ("unrelated", "".join(make(*n) for n in two) + make("x", "C", None), [*two, ("x", "C", None)], {}, {})
    yield ("twice", "".join(make(*n) for n in two) + make("x", "C", None, "[a, p, a]", '{"in1": a.urn, "in2": p.urn}'), [*two, ("x", "C", None)], {"x": ["p"]},
           {"x": {"in1": ["a"], "in2": ["p"]}})
    # a child that appears while somebody waits for its component
    late = [("p", "L", None), ("a", "C", "p"), ("b", "C", "p")]
    more = '    def more(_):\n        Cus("a:b:C", "late1", RO(parent=p))\n        return "v"\n    o = a.urn.apply(more)\n'
    for lab, kx, deps, props in (("options", "C", "[p]", "{}"), ("input", "C", None, '{"in1": p.urn}'), ("remote", "R", None, '{"in1": p.urn}')):
        yield (f"late:{lab}", make(*late[0]) + make("x", kx, None, deps, props) + make(*late[1]) + more + make(*late[2], None, '{"in1": o}'),
               [*late, ("x", kx, None), ("late1", "C", "p")], {"x": ["p"]} if deps else {}, {} if deps else {"x": {"in1": ["p"]}}, {"late1"})


def c29(ctx):
    ctx.explanation = ("Forests of custom resources, local and remote components are analysed with every way of writing a dependency; the "
                       "dependencies each registration carries are compared with the expansion of the forest, and the waiting they "
                       "imply is checked to be free of cycles.")
    wh = ctx.at("pulumi.runtime.resource._expand_dependencies")
    for name, body, nodes, opts, inputs, *rest in scenarios():
        late = rest[0] if rest else set()

        def go(name=name, body=body, nodes=nodes, opts=opts, inputs=inputs, late=late):
            w, rs, exs = run(ctx, SRC + "def main():\n    setup()\n" + body, "main")
            f = Forest(nodes)
            byurn = {u: n for n, u in f.urns.items()}
            reqs = {n: of(w, "RegisterResource", n) for n, _, _ in nodes}
            got, ok = {}, True
            for n, rq in reqs.items():
                if not rq and n not in late:
                    # the engine answers every request, so only waiting for itself or failing to gather can keep it back
                    refused = not rs and exs and all(excname(*x) == "Exception" for x in exs)
                    ctx.ob(False if rs and not exs or refused else None, "never-waits-for-itself", f"{name}:{n}", wh,
                           f"{n} is never registered, although every request is answered: gathering its dependencies fails or waits for {n} itself")
                    ok = False
                    continue
                for st, fl, nd in rq:
                    ds = texts(st, fl.get("dependencies"))
                    if ds is None:
                        ctx.ob(None, "dependencies-expanded", f"{name}:{n}", wh, "the dependencies sent could not be determined")
                        ok = False
                    else:
                        got.setdefault(n, set()).update(byurn.get(u, u) for u in ds)
            if not ok:
                ctx.absorb(w)
                return
            edges = {n: [d for d in ds if d in f.kind] for n, ds in got.items()}
            for n in got:
                want = f.expand(opts.get(n, [])) | {x for v in inputs.get(n, {}).values() for x in f.expand(v)} | ({"a"} if n == "b" and late else set())
                missing = [d for d in want - got[n] - late if n not in waits(f, edges, d)]
                extra = sorted(got[n] - want)
                ctx.ob(not missing and not extra, "dependencies-expanded", f"{name}:{n}", wh,
                       "" if not missing and not extra else f"the dependencies of {n} are {sorted(got[n])}: " + (f"{missing} missing" if missing else f"{extra} not depended upon"))
                cyc = [d for d in edges[n] if n in waits(f, edges, d)]
                ctx.ob(not cyc, "never-waits-for-itself", f"{name}:{n}", wh, f"{n} depends on {cyc}, which wait for {n}" if cyc else "")
                for key, v in inputs.get(n, {}).items():
                    for st, fl, nd in reqs[n]:
                        ds = pd(w, st, fl, key)
                        need = f.expand(v)
                        bad = None if ds is None else [d for d in need - late if f.urns[d] not in ds and n not in waits(f, edges, d)] + [u for u in ds if u not in {f.urns[d] for d in need}]
                        ctx.ob(None if bad is None else not bad, "property-dependencies-expanded", f"{name}:{n}.{key}", wh,
                               "" if bad is not None and not bad else f"the dependencies of input {key} of {n}: {bad} missing or unexpected")
            ctx.absorb(w)
        ctx.scenario("dependencies-expanded", name, wh, go)


def pd(w, st, fl, key):
    """the URNs sent as the dependencies of one input, None when not definite"""
    v = fl.get("propertyDependencies")
    if v is None or len(v) != 1:
        return None
    (a,) = v
    h = st.heap.get(a.key) if isinstance(a, Ref) else None
    if h is None or h.rest or h.opt:
        return None
    x = h.f.get(K(key), EMPTY)
    if not x:
        return []
    b = next(iter(x))
    g = st.heap.get(b.key) if isinstance(b, Ref) and len(x) == 1 else None
    return texts(st, g.f.get("urns")) if g is not None and "urns" in g.f else None
