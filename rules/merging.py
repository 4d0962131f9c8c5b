"""C11: merging two sets of options keeps, for every option, what both sides say - and touches neither side."""
import ast
from sa.dom import *
from sa.wire import WireWorld
from .combinators import excname, render
from .options import HARNESS, fn_args

SCALARS = {"protect": "bool", "delete_before_replace": "bool", "version": "str", "plugin_download_url": "str", "id": "str",
           "import_": "str", "urn": "str", "retain_on_delete": "bool"}
LISTS_ = ("ignore_changes", "replace_on_changes", "aliases", "additional_secret_outputs", "transformations")
OBJ = {"parent": "ComponentResource", "provider": "ProviderResource"}


def fields(ctx, cls):
    return [a.arg for a in fn_args(ctx.prog.find(cls + ".__init__")) if a.arg != "self"]


def val(f, i):
    if f in LISTS_:
        return f'[vx.sym("{f}{i}a", "str"), vx.sym("{f}{i}b", "str")]'
    if f in OBJ:
        return f'vx.res("{f}{i}", "{OBJ[f]}")'
    if f == "custom_timeouts":
        return f'vx.sym("{f}{i}", "obj")'
    return f'vx.sym("{f}{i}", "{SCALARS.get(f, "str")}")'


def want(f, i):
    if f in LISTS_:
        return [f"{f}{i}a", f"{f}{i}b"]
    return f"{f}{i}"


def names(st, a):
    """readable identity of one abstract value: None / a symbol's name / a list of those / a known resource"""
    if isinstance(a, K):
        return None if a.v in (None, "") else ("const", a.v)
    if isinstance(a, Sym):
        return a.name
    if isinstance(a, Ref):
        h = st.heap[a.key]
        if h.kind in LISTS:
            if h.rest:
                return "?"
            xs = [one(st, x) for x in h.items]
            return "?" if "?" in xs else xs
        if h.kind == "dict":
            if h.rest or h.opt:
                return "?"
            return {k.v if isinstance(k, K) else str(k): one(st, x) for k, x in h.f.items()}
        if "__name" in h.f:
            return one(st, h.f["__name"])[1]
    return "?"


def one(st, v):
    xs = {repr(names(st, a)): names(st, a) for a in v}
    return next(iter(xs.values())) if len(xs) == 1 else "?"


def c11(ctx):
    ctx.explanation = ("For every option of the constructors, merge is analysed on two option sets whose members are unknown values, with the "
                       "option given on neither, either and both sides, statically and as a method, and once more on an already merged set.")
    progs, cases = [HARNESS], []

    def case(cls, form, f, given, body, expect):
        fn = f"m{len(cases)}"
        progs.append(f"def {fn}():\n    setup()\n" + "".join(f"    {l}\n" for l in body))
        cases.append((fn, cls, form, f, given, expect))

    for cls, mod in (("ResourceOptions", "pulumi.resource"), ("InvokeOptions", "pulumi.invoke")):
        fs = fields(ctx, f"{mod}.{cls}")
        for f in fs:
            if f in ("depends_on", "providers"):
                continue
            for g1 in (0, 1):
                for g2 in (0, 1):
                    a = f"{cls}({f}={val(f, 1)})" if g1 else f"{cls}()"
                    b = f"{cls}({f}={val(f, 2)})" if g2 else f"{cls}()"
                    w1, w2 = (want(f, 1) if g1 else None), (want(f, 2) if g2 else None)
                    exp = (w1 + w2 if g1 and g2 else w1 or w2) if f in LISTS_ else (w2 if g2 else w1)
                    forms = [("static", f"{cls}.merge(a, b)")]
                    if g1 and g2:
                        forms.append(("method", "a.merge(b)"))
                    for form, call in forms:
                        case(cls, form, f, f"{g1}{g2}", [f"a = {a}", f"b = {b}", f"m = {call}", f"return [m.{f}, a.{f}, b.{f}]"],
                             [exp, w1, w2])
            if SCALARS.get(f) == "bool":
                case(cls, "explicit-false", f, "11", [f"a = {cls}({f}={val(f, 1)})", f"b = {cls}({f}=False)", f"m = {cls}.merge(a, b)", f"return [m.{f}, a.{f}, b.{f}]"],
                     [("const", False), want(f, 1), ("const", False)])
            # one side missing altogether; the other side must survive
            if cls:
                case(cls, "none-first", f, "-1", [f"b = {cls}({f}={val(f, 2)})", f"m = {cls}.merge(None, b)", f"return [m.{f}, None, b.{f}]"], [want(f, 2), None, want(f, 2)])
                case(cls, "none-second", f, "1-", [f"a = {cls}({f}={val(f, 1)})", f"m = {cls}.merge(a, None)", f"return [m.{f}, a.{f}, None]"], [want(f, 1), want(f, 1), None])
                # a value that only the second set has survives a further merge
                case(cls, "chained", f, "01+", [f"a = {cls}()", f"b = {cls}({f}={val(f, 2)})", f"m = {cls}.merge(a, b).merge({cls}())", f"return [m.{f}, a.{f}, b.{f}]"],
                     [want(f, 2), None, want(f, 2)])
        if "depends_on" in fs:
            R = lambda n: f'vx.res("{n}", "CustomResource")'
            dep = lambda: "rpc_force"
            for lab, a, b, exp in (("one+one", R("r1"), R("r2"), ["r1", "r2"]), ("list+one", f'[{R("r1")}, {R("r2")}]', R("r3"), ["r1", "r2", "r3"]),
                                   ("one+list", R("r1"), f'[{R("r2")}, {R("r3")}]', ["r1", "r2", "r3"]), ("list+none", f'[{R("r1")}]', "None", ["r1"]),
                                   ("none+one", "None", R("r2"), ["r2"]), ("none+none", "None", "None", [])):
                case(cls, "depends", "depends_on", lab, [f"a = {cls}(depends_on={a})", f"b = {cls}(depends_on={b})", f"m = {cls}.merge(a, b)", "return [m.depends_on, None, None]"],
                     [exp, None, None])
            for lab, a, b, exp in (("output+list", f'vx.out("do", [{R("r1")}], known=True, secret=False)', f'[{R("r2")}]', ["r1", "r2"]),
                                   ("list+output", f'[{R("r1")}]', f'vx.out("do", [{R("r2")}], known=True, secret=False)', ["r1", "r2"])):
                case(cls, "depends-output", "depends_on", lab,
                     [f"a = {cls}(depends_on={a})", f"b = {cls}(depends_on={b})", f"m = {cls}.merge(a, b)",
                      "v = asyncio.get_event_loop().run_until_complete(Output.from_input(m.depends_on).future())", "return [v, None, None]"], [exp, None, None])
        if "providers" in fs:
            P = lambda n, pkg: f'vx.res("{n}", "ProviderResource", package="{pkg}")'
            for lab, a, b, exp in (
                    ("list+list", f'[{P("p1", "a")}]', f'[{P("p2", "b")}]', {"a": "p1", "b": "p2"}),
                    ("dict+dict", f'{{"a": {P("p1", "a")}}}', f'{{"b": {P("p2", "b")}}}', {"a": "p1", "b": "p2"}),
                    ("dict+list", f'{{"a": {P("p1", "a")}}}', f'[{P("p2", "b")}]', {"a": "p1", "b": "p2"}),
                    ("list+dict", f'[{P("p1", "a")}]', f'{{"b": {P("p2", "b")}}}', {"a": "p1", "b": "p2"}),
                    ("same-package", f'[{P("p1", "a")}]', f'[{P("p2", "a")}]', {"a": "p2"}),
                    ("none+list", "None", f'[{P("p2", "b")}, {P("p3", "c")}]', {"b": "p2", "c": "p3"}),
                    ("list+none", f'[{P("p1", "a")}, {P("p3", "c")}]', "None", {"a": "p1", "c": "p3"})):
                case(cls, "providers", "providers", lab, [f"a = {cls}(providers={a})", f"b = {cls}(providers={b})", "la = a.providers", "lb = b.providers",
                                                         f"m = {cls}.merge(a, b)", "return [m.providers, a.providers, b.providers]"], [exp, "-", "-"])
                case(cls, "providers-chained", "providers", lab, [f"a = {cls}(providers={a})", f"b = {cls}(providers={b})",
                                                                 f"m = {cls}.merge(a, b).merge({cls}())", "return [m.providers, None, None]"], [exp, None, None])
    src = "\n".join(progs)
    for fn, cls, form, f, given, expect in cases:
        where = ctx.at(("pulumi.resource." if cls == "ResourceOptions" else "pulumi.invoke.") + cls + ".merge")

        def go(fn=fn, cls=cls, form=form, f=f, given=given, expect=expect, where=where):
            w = ctx.world(src, lambda s: WireWorld(s, fixed={}))
            for i in (1, 2):
                for x in SCALARS:
                    w.st.facts[(f"{x}{i}", "truth")] = True
                w.st.facts[(f"custom_timeouts{i}", "truth")] = True
            rs, exs = w.run(fn)
            for ex in exs:
                ctx.ob(False if excname(*ex) in ("TypeError", "AttributeError", "KeyError") else None, "merge-total", f"{cls}.{f}:{form}:{given}", where, excname(*ex))
            for st, v in rs:
                ctx.paths += 1
                for a in v:
                    items = st.heap[a.key].items
                    for rule, x, e in zip(("merged", "first-untouched", "second-untouched"), items, expect):
                        if e == "-":
                            continue
                        got = one(st, x)
                        ok = True if got == e else None if "?" in repr(got) else False
                        if e == [] and got is None:
                            ok = True
                        ctx.ob(ok, rule, f"{cls}.{f}:{form}:{given}", where, "" if ok else f"expected {e}, got {got}")
            ctx.absorb(w)
        ctx.scenario("merged", f"{cls}.{f}:{form}:{given}", where, go)
