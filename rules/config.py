"""C21/C22: configuration accessors - every accessor against a value nobody knows, a missing key and every literal form."""
from sa.dom import *
from sa import lib
from sa.wire import WireWorld
from .combinators import excname, render

TYPES = {"": "str", "_bool": "bool", "_int": "int", "_float": "float", "_object": "object"}
HARNESS = '''
from pulumi import Config
from pulumi.runtime import config as rc
import os
NS = "ns"
def conf(raw):
    os.environ = {}
    if raw is not None:
        rc.set_all_config({"ns:k": raw, "other:k": "other's", "ns:kk": "longer", "k": "bare"}, ["ns:k"])
    else:
        rc.set_all_config({"other:k": "other's", "ns:kk": "longer", "k": "bare"})
    return Config(NS)
def run(f):
    try:
        r = f()
    except pulumi.ConfigMissingError as e:
        vx.note("missing", e.key)
        return
    except pulumi.ConfigTypeError as e:
        vx.note("type", [e.key, e.value])
        return
    except Exception as e:
        vx.note("other", e)
        return
    vx.note("value", r)
'''
# literal forms of each type, with the value they stand for (None: not a value of the type)
LITERALS = {
    "": [("x", "x"), ("", "")],
    "_bool": [("true", True), ("True", True), ("false", False), ("False", False), ("1", None), ("yes", None), ("", None), ("TRUE!", None)],
    "_int": [("0", 0), ("7", 7), ("-3", -3), ("x", None), ("1.5", None), ("", None)],
    "_float": [("0", 0.0), ("0.0", 0.0), ("2.5", 2.5), ("x", None), ("", None)],
    "_object": [("[]", []), ("{}", {}), ("0", 0), ("false", False), ('""', ""), ('{"a": [1]}', {"a": [1]}), ("{", None), ("", None)],
}
DEFAULTS = {"": '""', "_bool": "False", "_int": "0", "_float": "0.0", "_object": "[]"}
OTHERDEF = {"": '"dflt"', "_bool": "True", "_int": "9", "_float": "9.5", "_object": '{"d": 1}'}


class ConfWorld(WireWorld):
    """parsing an unknown text gives an unknown value of the type, or fails"""

    def __init__(self, src):
        super().__init__(HARNESS + src, fixed={"dry_run": False})
        m = self.e.models
        for n, k in (("int", "int"), ("float", "float"), ("json.loads", "leaf")):
            m[n] = self.parse(n if k != "leaf" else "object", k, lib.MODELS.get(n))

    def parse(self, nm, kind, old):
        def m(e, st, args, node):
            v = args.get(0, default=EMPTY)
            out = []
            for a in v:
                if isinstance(a, Sym) and a.name == "raw":
                    n = f"{nm}(raw)"
                    ok = st.facts.get((n, "parses"))
                    if ok is not False:
                        s = st.copy()
                        s.facts[(n, "parses")] = True
                        out.append((s, V(Sym(n, kind))))
                    if ok is not True:
                        s = st.copy()
                        s.facts[(n, "parses")] = False
                        e.raise_new(s, "ValueError", node)
                elif isinstance(a, K) and isinstance(a.v, str):
                    try:
                        import json
                        x = {"int": int, "float": float, "object": json.loads}[nm](a.v)
                    except ValueError:
                        e.raise_new(st, "ValueError", node)
                        continue
                    out.append((st, self.build(e, st, x, node)))
                else:
                    out += old(e, st, args, node) if old else [(st, V(Opq()))]
            return out
        return m

    def build(self, e, st, x, tag):
        if isinstance(x, dict):
            return V(e.newdict(st, (tag, "j"), {K(k): self.build(e, st, y, (tag, k)) for k, y in x.items()}))
        if isinstance(x, list):
            return V(e.newlist(st, (tag, "j"), [self.build(e, st, y, (tag, i)) for i, y in enumerate(x)]))
        return V(K(x))


def lit(w, s, v):
    """abstract value -> python value, or a marker"""
    def conv(t):
        if t[0] == "dict":
            return {k: conv(x) for k, x in t[1].items()}
        if t[0] == "list":
            return [conv(x) for x in t[1]]
        if t[0] == "atom" and isinstance(t[1], K):
            return t[1].v
        if t[0] == "atom" and isinstance(t[1], Sym):
            return "$" + t[1].name
        return "?" + str(t[0])
    return conv(w.tree(s, v))


def same(a, b):
    return type(a) is type(b) and a == b


def outcome(w, s, secret):
    """-> (kind, value, secret flags)"""
    for k in ("missing", "type", "other"):
        g = s.ghost(k)
        if g:
            return k, lit(w, s, g) if k != "other" else excname(s, g), None
    v = s.ghost("value")
    if not v:
        return "nothing", None, None
    if not secret or v == VNONE:
        return "value", lit(w, s, v) if v != VNONE else None, None
    fl = []
    val = None
    for d in w.osum(s, v):
        if "bad" in d:
            return "value", lit(w, s, v), "plain"
        fl.append((d["_is_secret"], d["_is_known"]))
        val = lit(w, d["state"], d["_future"]) if d["_future"] else "?"
    return "value", val, fl


def accessors():
    for t in TYPES:
        for req in (False, True):
            for sec in (False, True):
                name = ("require" if req else "get") + ("_secret" if sec else "") + t
                yield name, t, req, sec


def check(ctx, secrets):
    for name, t, req, sec in accessors():
        if sec != secrets:
            continue
        where = ctx.at(f"pulumi.config.Config.{name}")
        ds = [None] + ([DEFAULTS[t], OTHERDEF[t]] if not req and "default" in [a.arg for a in ctx.prog.find(f"pulumi.config.Config.{name}").args.args] else [])
        raws = [("unknown", 'vx.sym("raw", "str")'), ("missing", "None")] + [(f"literal {r!r}", repr(r)) for r, _ in LITERALS[t]]
        for lab, raw in raws:
            for d in ds:
                nm = f"{name}: {lab}" + (f", default {d}" if d else "")

                def go(name=name, t=t, req=req, sec=sec, lab=lab, raw=raw, d=d, nm=nm, where=where):
                    src = f"def t():\n    setup()\n    c = conf({raw})\n    run(lambda: c.{name}('k'{', ' + d if d else ''}))\n"
                    w = ctx.world(src, ConfWorld)
                    for k in ("true", "True", "false", "False") if t == "_bool" else ():
                        w.st.facts[("raw", "eq", K(k))] = False  # (those are among the literals)
                    rs, exs = w.run("t", drain=False)
                    for s, x in exs:
                        ctx.ob(None, "outcome", nm, where, f"raises {excname(s, x)}")
                    for s, v in rs:
                        kind, val, fl = outcome(w, s, sec)
                        dv = eval(d) if d else None  # the literals of the tables above
                        if lab == "missing":
                            if req:
                                ok, want = kind == "missing" and val == "ns:k", "a missing-value error naming ns:k"
                            else:
                                ok, want = kind == "value" and same(val, dv), f"{dv!r}"
                        elif lab == "unknown":
                            if t == "":
                                ok, want = (kind, val) == ("value", "$raw"), "the value"
                            elif t == "_bool":
                                exp = ("type", ["ns:k", "$raw"])
                                ok, want = (kind, val) == exp or (None if kind == "value" else False), str(exp)
                            else:
                                n = TYPES[t] + "(raw)"
                                p = s.facts.get((n, "parses"))
                                exp = ("value", "$" + n) if p else ("type", ["ns:k", "$raw"])
                                ok, want = (kind, val) == exp, str(exp)
                                if not ok and s.facts.get((n, "is", None)) is True or s.facts.get((n, "is", NONE)) is True:
                                    ok = True  # JSON null
                        else:
                            exp = next(x for r, x in LITERALS[t] if repr(r) == raw)
                            r = eval(raw)
                            ok, want = (kind == "type" and val == ["ns:k", r], f"a type error naming ns:k and {r!r}") if exp is None else (kind == "value" and same(val, exp), f"{exp!r}")
                        unclear = kind in ("nothing",) or "?" in str(val)
                        ctx.ob(True if ok else None if unclear or ok is None else False, "outcome", nm, where, f"gives {kind} {val!r}, expected {want}")
                        if sec and kind == "value" and val is not None:
                            good = fl not in (None, "plain") and fl and all(x == (VTRUE, VTRUE) for x in fl)
                            bad = fl == "plain" or fl and any(x[0] == VFALSE for x in fl if fl != "plain")
                            ctx.ob(True if good else False if bad else None, "secret", nm, where, "the value is not a secret output" if bad else str(fl))
                    if not rs and not exs:
                        ctx.ob(None, "outcome", nm, where, "no path ends")
                    ctx.absorb(w)
                    ctx.paths += len(rs) + len(exs)
                ctx.scenario("outcome", nm, where, go)
    # an accessor no rule knows
    cls = ctx.prog.find("pulumi.config.Config")
    known = {n for n, *_ in accessors()}
    for f in cls.body:
        n = getattr(f, "name", "")
        if n.startswith(("get", "require")) and ("secret" in n) == secrets:
            ctx.ob(True if n in known else None, "accessor-covered", n, ctx.at(f"pulumi.config.Config.{n}"), "" if n in known else "an accessor no rule knows")


def c21(ctx):
    ctx.explanation = ("Every secret accessor is run on a configuration value nobody knows, on every literal form and on a missing key; whatever it returns must be an output "
                       "that is secret and holds exactly the parsed value stored under the namespaced key.")
    check(ctx, True)


def c22(ctx):
    ctx.explanation = ("Every plain accessor is run on a configuration value nobody knows (whose parsing may succeed or fail), on every literal form, on a missing key, with no, a falsy and "
                       "another default; each must give the parsed value, the default or the error the statement names.")
    check(ctx, False)
