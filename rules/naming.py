"""C30: property names are translated on the way out and back again at every level of nesting.

Programs whose resources translate names - with their own translation methods, or through the metadata of typed inputs and
outputs - are analysed; the request the engine would get and the values the program sees are compared with a translation
done here.  The metadata of a type (which attribute has which engine name and type) is given to the analysis as a table:
how it is read off the class annotations is not part of this rule."""
from sa.dom import *
from sa.engine import Args
from . import outbound as O
from .combinators import excname
from .hierarchy import HARNESS, Engine, text
from .rootstack import plain, same

OUT = {"first_name": "firstName", "in_ner": "inNer", "k_x": "kX", "extra_out": "extraOut"}
BACK = {v: k for k, v in OUT.items()}
SRC = HARNESS + f'''
OUT = {OUT!r}
BACK = {BACK!r}
async def fut(x):
    return x
def done(x):
    return Output(set(), fut(x), fut(True), fut(False))
def back(k):
    return BACK.get(k, k)
def out(k):
    return OUT.get(k, k)
class Tr(CustomResource):
    def __init__(self, t, name, opts=None, props=None):
        super().__init__(t, name, props or {{}}, opts)
    def translate_input_property(self, prop):
        return out(prop)
    def translate_output_property(self, prop):
        return back(prop)
class TrCom(ComponentResource):
    def __init__(self, t, name, opts=None, props=None):
        super().__init__(t, name, props or {{}}, opts, True)
    def translate_input_property(self, prop):
        return out(prop)
    def translate_output_property(self, prop):
        return back(prop)
URN = "urn:pulumi:stk::prj::k:m:T::r"
IDENT = "i"
async def value(v):
    return await Output.from_input(v).future()
'''
def typed_class(deco, name, props, init=True):
    out = f"@pulumi.{deco}\nclass {name}:\n"
    ps = ", ".join(f"{p[0]}=None" for p in props)
    out += f"    def __init__(__self__, {ps}):\n" + "".join(f"        if {p[0]} is not None:\n            pulumi.set(__self__, \"{p[0]}\", {p[0]})\n" for p in props)
    for py, pu, ann in props:
        out += f"    @property\n    @pulumi.getter(name=\"{pu}\")\n    def {py}(self) -> {ann}:\n        return pulumi.get(self, \"{py}\")\n"
    return out


TYPED = '''
from typing import Any, Dict, List, Mapping, Optional, Sequence
from pulumi import Input
''' + typed_class("input_type", "InnerArgs", [("first_name", "firstName", "Optional[Input[str]]"), ("k_x", "kX", "Optional[Input[Mapping[str, str]]]"),
                                              ("in_ner", "inNer", "Optional[Input['InnerArgs']]")]) \
    + typed_class("input_type", "OuterArgs", [("in_ner", "inNer", "Optional[Input['InnerArgs']]"), ("first_name", "firstName", "Optional[Input[str]]"),
                                              ("a_list", "aList", "Optional[Input[Sequence['InnerArgs']]]"),
                                              ("a_dict", "aDict", "Optional[Input[Mapping[str, 'InnerArgs']]]"),
                                              ("a_map", "aMap", "Optional[Input[Mapping[str, str]]]"), ("text", "text", "Optional[Input[str]]"),
                                              ("any_dict", "anyDict", "Optional[Input[dict]]")]) \
    + typed_class("output_type", "InnerOut", [("first_name", "firstName", "Optional[str]"), ("k_x", "kX", "Optional[Mapping[str, str]]"), ("in_ner", "inNer", "Optional['InnerOut']")]) + '''
class Bare(CustomResource):
    def __init__(self, t, name, opts=None, props=None):
        super().__init__(t, name, props, opts)
class Typed(CustomResource):
    in_ner: Output[InnerOut] = pulumi.property("inNer")
    first_name: Output[str] = pulumi.property("firstName")
    a_list: Output[Sequence[InnerOut]] = pulumi.property("aList")
    a_dict: Output[Mapping[str, InnerOut]] = pulumi.property("aDict")
    a_map: Output[Mapping[str, str]] = pulumi.property("aMap")
    text: Output[str] = pulumi.property("text")
    extra_out: Output[str] = pulumi.property("extraOut")
    def __init__(self, t, name, opts=None, props=None):
        super().__init__(t, name, props, opts)
'''
SIG = "4dabf18193072939515e22adb298388d"


def tr(v, table, skip=()):
    """the value with the keys of its dictionaries translated"""
    if isinstance(v, dict):
        return {k if SIG in v else table.get(k, k): tr(x, table) for k, x in v.items()}
    if isinstance(v, list):
        return [tr(x, table) for x in v]
    return v


# label: (properties as written, the same as plain data)
PROPS = {
    "top": ('{"first_name": 1, "other": 2}', {"first_name": 1, "other": 2}),
    "nested": ('{"in_ner": {"first_name": 1, "plain": {"k_x": 2}}}', {"in_ner": {"first_name": 1, "plain": {"k_x": 2}}}),
    "list": ('{"in_ner": [{"first_name": 1}, [{"k_x": 2}]]}', {"in_ner": [{"first_name": 1}, [{"k_x": 2}]]}),
    "output": ('{"first_name": done({"k_x": [{"in_ner": 1}]})}', {"first_name": {"k_x": [{"in_ner": 1}]}}),
    "output-inside": ('{"in_ner": {"first_name": done({"k_x": 1})}}', {"in_ner": {"first_name": {"k_x": 1}}}),
    "awaitable": ('{"first_name": fut({"k_x": 1}), "in_ner": [fut({"k_x": 2})]}', {"first_name": {"k_x": 1}, "in_ner": [{"k_x": 2}]}),
    "secret": ('{"first_name": Output.secret({"k_x": 1})}', {"first_name": {SIG: O.go_const("SecretSig"), "value": {"k_x": 1}}}),
    "value-not-a-name": ('{"first_name": "k_x", "in_ner": ["first_name"]}', {"first_name": "k_x", "in_ner": ["first_name"]}),
    "engine-names": ('{"firstName": 1, "in_ner": {"kX": 2}}', {"firstName": 1, "in_ner": {"kX": 2}}),
}
# what the engine answers -> what the program sees
ANSWERS = {
    "top": {"firstName": 1, "other": 2}, "nested": {"inNer": {"firstName": 1, "plain": {"kX": 2}}}, "list": {"inNer": [{"firstName": 1}, [{"kX": 2}]]},
    "value-not-a-name": {"firstName": "kX", "inNer": ["firstName"]}, "program-names": {"inNer": {"first_name": 1}},
    "secret": {"firstName": {SIG: O.go_const("SecretSig"), "value": {"kX": 1}}}, "secret-inside": {"inNer": [{SIG: O.go_const("SecretSig"), "value": {"kX": 1}}]},
}
# typed inputs: (as written, what the engine has to be sent)
TYPES = {
    "top": ('OuterArgs(first_name="x", text="first_name")', {"firstName": "x", "text": "first_name"}),
    "typed-value": ('OuterArgs(in_ner=InnerArgs(first_name="x", in_ner=InnerArgs(first_name="y")))', {"inNer": {"firstName": "x", "inNer": {"firstName": "y"}}}),
    "dict-for-type": ('OuterArgs(in_ner={"first_name": "x", "in_ner": {"first_name": "y"}})', {"inNer": {"firstName": "x", "inNer": {"firstName": "y"}}}),
    "dict-in-typed-value": ('OuterArgs(in_ner=InnerArgs(in_ner={"first_name": "x", "k_x": {"in_ner": "y"}}))', {"inNer": {"inNer": {"firstName": "x", "kX": {"in_ner": "y"}}}}),
    "list-of-types": ('OuterArgs(a_list=[InnerArgs(first_name="x"), {"first_name": "y"}])', {"aList": [{"firstName": "x"}, {"firstName": "y"}]}),
    "dict-of-types": ('OuterArgs(a_dict={"first_name": {"first_name": "x"}, "k": InnerArgs(first_name="y")})', {"aDict": {"first_name": {"firstName": "x"}, "k": {"firstName": "y"}}}),
    "plain-dict": ('OuterArgs(a_map={"first_name": "x", "aList": "y"})', {"aMap": {"first_name": "x", "aList": "y"}}),
    "any-dict": ('OuterArgs(any_dict={"first_name": {"in_ner": 1}})', {"anyDict": {"first_name": {"in_ner": 1}}}),
    "dict-for-text": ('OuterArgs(text={"first_name": {"in_ner": 1}})', {"text": {"first_name": {"in_ner": 1}}}),
    "plain-dict-inside": ('OuterArgs(in_ner=InnerArgs(k_x={"first_name": "x"}))', {"inNer": {"kX": {"first_name": "x"}}}),
    "plain-dict-in-dict": ('OuterArgs(in_ner={"k_x": {"first_name": "x"}})', {"inNer": {"kX": {"first_name": "x"}}}),
    "output": ('OuterArgs(in_ner=done({"first_name": "x", "k_x": {"in_ner": "y"}}))', {"inNer": {"firstName": "x", "kX": {"in_ner": "y"}}}),
    "output-of-type": ('OuterArgs(in_ner=done(InnerArgs(first_name="x")), a_list=done([{"first_name": "y"}]))', {"inNer": {"firstName": "x"}, "aList": [{"firstName": "y"}]}),
    "awaitable": ('OuterArgs(a_list=[fut({"first_name": "x"})])', {"aList": [{"firstName": "x"}]}),
    "secret": ('OuterArgs(in_ner=Output.secret({"first_name": "x"}))', {"inNer": {SIG: O.go_const("SecretSig"), "value": {"firstName": "x"}}}),
}
I = lambda f=None, k=None, n=None: {"first_name": f, "k_x": k, "in_ner": n}
TYPED_ANSWERS = {  # what the engine answers, {attribute: what the program sees}
    "top": ({"firstName": "x", "extraOut": "e"}, {"first_name": "x", "extra_out": "e"}),
    "typed": ({"inNer": {"firstName": "x", "inNer": {"firstName": "y"}}}, {"in_ner": I("x", None, I("y"))}),
    "list-of-types": ({"aList": [{"firstName": "x"}]}, {"a_list": [I("x")]}),
    "dict-of-types": ({"aDict": {"firstName": {"firstName": "x"}}}, {"a_dict": {"firstName": I("x")}}),
    "plain-dict": ({"aMap": {"firstName": "x", "kX": "y"}}, {"a_map": {"firstName": "x", "kX": "y"}}),
    "plain-dict-inside": ({"inNer": {"kX": {"firstName": "x"}}}, {"in_ner": I(None, {"firstName": "x"})}),
    "secret": ({"inNer": {SIG: O.go_const("SecretSig"), "value": {"firstName": "x"}}}, {"in_ner": I("x")}),
    "secret-inside": ({"aList": [{SIG: O.go_const("SecretSig"), "value": {"firstName": "x"}}]}, {"a_list": [I("x")]}),
}


def bare(v):
    """without the secret envelopes"""
    if isinstance(v, dict):
        return bare(v["value"]) if SIG in v else {k: bare(x) for k, x in v.items()}
    return [bare(x) for x in v] if isinstance(v, list) else v


def inst(t):
    """objects as the dictionaries of their attributes"""
    if t[0] == "inst":
        return ("dict", {k: inst(x) for k, x in t[2].items()}, None, None)
    if t[0] == "dict":
        return ("dict", {k: inst(x) for k, x in t[1].items()}, *t[2:])
    if t[0] == "list":
        return ("list", [inst(x) for x in t[1]], *t[2:])
    return t


def c30(ctx):
    ctx.explanation = ("Programs with resources that translate property names are analysed; the names in the request and the names under which "
                       "the engine's answer is seen are compared, at every level, with the translation the resource or its types ask for.")
    ser = ctx.at("pulumi.runtime.rpc.serialize_properties")
    back = ctx.at("pulumi.runtime.rpc.translate_output_properties")

    def start(src, typed=False):
        w = ctx.world(src, lambda s: Engine(s, fixed={"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True, "dry_run": False}))
        w.e.models["pulumi.runtime.sync_await._sync_await"] = lambda e, st, args, node: e.await_(e.make_task(args.get(0), st, node), st, node)
        w.e.models["os.getenv"] = w.e.models["os.environ.get"] = lambda e, st, args, node: [(st, args.get(1, "default", VNONE))]
        w.e.per_site = 100
        w.e.MAXSTEPS = 1500000
        return w

    def req(w, method, name="r"):
        return [(s, fl) for s, _, fl, _ in O.requests(w, method) if text(fl.get("name")) == name]

    def sent(w, rule, lab, method, field, want, rs, exs):
        rq = req(w, method)
        for s, fl in rq:
            got = plain(w.tree(s, fl.get(field, VNONE)))
            ok = None if got is ... else same(got, want)
            ctx.ob(ok, rule, lab, ser, "" if ok else f"the engine is sent {got!r}, expected {want!r}" if ok is False else "what the engine is sent could not be determined")
        if not rq:
            ctx.ob(None, rule, lab, ser, "no request was found")
        return rq

    def seen(w, rule, lab, wants, rs, where=back):
        n = 0
        for s, v in rs:
            for s2, t in w.e.call(V(w.e.fn(f"{w.hname}.value")), Args([v]), s, "value"):
                for s3, r in w.e.await_(w.e.make_task(t, s2, "value"), s2, "value"):
                    n += 1
                    got = plain(inst(w.tree(s3, r)))
                    ok = None if got is ... else same(got, wants)
                    ctx.ob(ok, rule, lab, where, "" if ok else f"the program sees {got!r}, expected {wants!r}" if ok is False else "what the program sees could not be determined")
        if not n:
            ctx.ob(None, rule, lab, where, "the program sees nothing")

    # -------- resources with their own translation
    MAKE = {"custom": ("Tr(\"k:m:T\", \"r\", None, PROPS)", "RegisterResource", "object"), "remote": ("TrCom(\"k:m:T\", \"r\", None, PROPS)", "RegisterResource", "object"),
            "read": ("Tr(\"k:m:T\", \"r\", RO(id=\"i\"), PROPS)", "ReadResource", "properties")}
    for kind, (make, method, field) in MAKE.items():
        for lab, (written, data) in PROPS.items():
            if kind == "remote" and lab in ("output", "output-inside", "secret"):
                continue  # kept as output values; C05 and C09 decide their envelopes

            def go(kind=kind, lab=lab, written=written, data=data, make=make, method=method, field=field):
                w = start(SRC + f"def main():\n    setup()\n    r = {make.replace('PROPS', written)}\n    return r\n")
                rs, exs = w.run("main")
                sent(w, "sent-names", f"{kind}:{lab}", method, field, tr(data, OUT), rs, exs)
                ctx.absorb(w)
            ctx.scenario("sent-names", f"{kind}:{lab}", ser, go)

        for lab, ans in ANSWERS.items():
            def go2(kind=kind, lab=lab, ans=ans, make=make, method=method, field=field):
                want = bare(tr(ans, BACK))
                names = list(want)
                w = start(SRC + f"def answer():\n    return vx.struct({ans!r})\ndef main():\n    setup()\n    r = {make.replace('PROPS', repr({n: None for n in names}))}\n"
                          f"    return [{', '.join('r.' + n for n in names)}]\n")
                w.answer_with(method, field, "answer")
                rs, exs = w.run("main")
                seen(w, "seen-names", f"{kind}:{lab}", [want[n] for n in names], rs)
                ctx.absorb(w)
            ctx.scenario("seen-names", f"{kind}:{lab}", back, go2)

    # inputs the engine does not answer are seen under the names the program gave them
    for lab, (written, data) in PROPS.items():
        if lab in ("engine-names",):
            continue

        def go3(lab=lab, written=written, data=data):
            names = list(data)
            w = start(SRC + f"def main():\n    setup()\n    r = Tr(\"k:m:T\", \"r\", None, {written})\n    return [{', '.join('r.' + n for n in names)}]\n")
            rs, exs = w.run("main")
            seen(w, "round-trip", lab, [bare(data)[n] for n in names], rs)
            ctx.absorb(w)
        ctx.scenario("round-trip", lab, back, go3)

    # what the engine answers replaces the input of the same name
    for typed in (False, True):
        def go7(typed=typed):
            mk = 'Typed("k:m:T", "r", None, OuterArgs(first_name="given", text="kept"))' if typed else 'Tr("k:m:T", "r", None, {"first_name": "given", "text": "kept"})'
            w = start(SRC + (TYPED if typed else "") + 'def answer():\n    return vx.struct({"firstName": "answered"})\n'
                      f"def main():\n    setup()\n    r = {mk}\n    return [r.first_name, r.text]\n")
            w.answer_with("RegisterResource", "object", "answer")
            rs, exs = w.run("main")
            seen(w, "answer-replaces-input", "typed" if typed else "own", ["answered", "kept"], rs)
            ctx.absorb(w)
        ctx.scenario("answer-replaces-input", str(typed), back, go7)

    # names that travel outside the properties: options and property dependencies
    opt = ctx.at("pulumi.runtime.resource.register_resource")
    for typed in (False, True):
        def go4(typed=typed):
            mk = ('Typed("k:m:T", "r", O, OuterArgs(first_name=Cus("k:m:T", "d").id, in_ner=done({"first_name": "x"})))' if typed else
                  'Tr("k:m:T", "r", O, {"first_name": Cus("k:m:T", "d").id, "in_ner": 1})')
            w = start(SRC + (TYPED if typed else "") + "def main():\n    setup()\n    O = RO(ignore_changes=[\"first_name\", \"zz\"], replace_on_changes=[\"in_ner\"], "
                      f"additional_secret_outputs=[\"extra_out\", \"first_name\"])\n    {mk}\n", typed)
            w.run("main")
            lab = "typed" if typed else "own"
            rq = req(w, "RegisterResource")
            if not rq:
                ctx.ob(None, "option-names", lab, opt, "no request was found")
            for s, fl in rq:
                for f, want in (("ignoreChanges", ["firstName", "zz"]), ("replaceOnChanges", ["inNer"]), ("additionalSecretOutputs", ["extraOut", "firstName"])):
                    got = plain(w.tree(s, fl.get(f, VNONE)))
                    ok = None if got is ... else got == want
                    ctx.ob(ok, "option-names", f"{lab}:{f}", opt, "" if ok else f"{f} is sent as {got!r}, expected {want!r}")
                t = w.tree(s, fl.get("propertyDependencies", VNONE))
                keys = set(t[1]) if t[0] == "dict" and not t[2] and not t[3] else None
                keys = {getattr(k, "v", k) for k in keys} if keys is not None else None
                ok = None if keys is None else "firstName" in keys and keys <= {"firstName", "inNer"}
                ctx.ob(ok, "option-names", f"{lab}:propertyDependencies", opt, "" if ok else f"property dependencies are sent for {keys!r}")
            ctx.absorb(w)
        ctx.scenario("option-names", str(typed), opt, go4)

    # -------- typed inputs and outputs
    for lab, (written, want) in TYPES.items():
        def go5(lab=lab, written=written, want=want):
            w = start(SRC + TYPED + f"def main():\n    setup()\n    r = Bare(\"k:m:T\", \"r\", None, {written})\n    return r\n", True)
            rs, exs = w.run("main")
            sent(w, "sent-names", f"typed:{lab}", "RegisterResource", "object", want, rs, exs)
            ctx.absorb(w)
        ctx.scenario("sent-names", f"typed:{lab}", ser, go5)
    for how, lab, (ans, want) in [(h, l, x) for h in ("", "read:", "get:") for l, x in TYPED_ANSWERS.items()]:
        def go6(lab=how + lab, ans=ans, want=want, how=how):
            names = list(want)
            w = start(SRC + TYPED + f"def answer():\n    return vx.struct({dict(urn="urn:pulumi:stk::prj::k:m:T::r", id="i", state=ans) if how == "get:" else ans!r})\ndef main():\n    setup()\n    a = OuterArgs()\n" + "".join(f"    a.__dict__[{n!r}] = None\n" for n in names) 
                      + f"    r = Typed(\"k:m:T\", \"r\", {dict([('', 'None'), ('read:', 'RO(id=IDENT)'), ('get:', 'RO(urn=URN)')])[how]}, a)\n    return [{', '.join('r.' + n for n in names)}]\n", True)
            if how == "get:":
                w.answer_with("Invoke", "return", "answer")
            else:
                w.answer_with("ReadResource" if how else "RegisterResource", "properties" if how else "object", "answer")
            rs, exs = w.run("main")
            seen(w, "seen-names", f"typed:{lab}", [want[n] for n in names], rs)
            ctx.absorb(w)
        ctx.scenario("seen-names", f"typed:{how}{lab}", back, go6)
