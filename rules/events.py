"""C28: engine events - what the engine's sources say they write against what the decoder keeps."""
import ast
import os
import re
from sa.dom import *
from sa.prog import REPO
from .combinators import excname
from .automation import world, ended

GO = "sdk/go/common/apitype"


def go_types(ctx):
    """name -> [(json key, go type, may be left out)] for structs; name -> [texts] for string enums"""
    structs, enums = {}, {}
    d = os.path.join(REPO, GO)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        t = open(os.path.join(d, f), encoding="utf-8").read()
        for m in re.finditer(r"^type (\w+) struct \{(.*?)^\}", t, re.S | re.M):
            structs[m.group(1)] = [(x.group(2).split(",")[0], x.group(1), ",omitempty" in x.group(2)) for x in re.finditer(r'^\s*\w+\s+(\S+)\s+`json:"([^"]*)"`', m.group(2), re.M)]
        for m in re.finditer(r"^type (\w+) struct\{\}", t, re.M):
            structs[m.group(1)] = []
        for m in re.finditer(r'^\s*\w+\s+(\w+)\s*=\s*"([^"]*)"', t, re.M):
            enums.setdefault(m.group(1), []).append(m.group(2))
    return structs, enums


def sample(structs, enums, t, path, full, pick):
    """JSON of the go type; every leaf is distinct"""
    t = t.lstrip("*")
    if t in structs:
        return {k: sample(structs, enums, ft, f"{path}.{k}", full, pick) for k, ft, opt in structs[t] if full or not opt}
    if t in enums:
        return pick.get(t, enums[t][0])
    if t.startswith("[]"):
        return [sample(structs, enums, t[2:], f"{path}.{i}", full, pick) for i in (0, 1)] if full else []
    m = re.match(r"map\[(\w+)\](.+)", t)
    if m:
        ks = enums.get(m.group(1), ["k1", "k2"])[:2]
        return {k: sample(structs, enums, m.group(2), f"{path}.{k}", full, pick) for k in ks}
    return {"string": f"${path}", "bool": full, "int": f"${path}:int", "int64": f"${path}:int", "float64": f"${path}:float"}.get(t, f"${path}")


def snake(k):
    k = re.sub(r"(URN|ID|Urn|Id)$", lambda m: m.group(1).capitalize(), k)
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", k).lower()


def plainly(x):
    """an enumeration member is the text it stands for"""
    if isinstance(x, dict) and "__class__" in x and set(x) <= {"__class__", "value", "name", "_value_", "_name_"}:
        return x.get("value", x.get("_value_"))
    return x


def holds(got, want):
    """does the decoded value carry this JSON value? -> True, False or None (not clear)"""
    got = plainly(got)
    if isinstance(want, str) and want.startswith("$"):
        want = "$" + want[1:].split(":")[0]
    if isinstance(got, (Atom, tuple)):
        return None
    if isinstance(want, dict) and isinstance(got, dict) and "__class__" not in got:
        r = [holds(got[k], want[k]) if k in got else False for k in want]
    elif isinstance(want, list) and isinstance(got, list):
        r = [holds(a, b) for a, b in zip(got, want)] if len(got) == len(want) else [False]
    else:
        return type(got) is type(want) and got == want
    return False if False in r else None if None in r else True


def typed(prog, cls, attr):
    """the event classes named by the annotation of a constructor parameter"""
    try:
        c = prog.find("pulumi.automation.events." + cls)
    except Exception:
        return set()
    init = next((f for f in c.body if isinstance(f, ast.FunctionDef) and f.name == "__init__"), None)
    for a in init.args.args if init else ():
        if a.arg == attr and a.annotation:
            return {n.id for n in ast.walk(a.annotation) if isinstance(n, ast.Name)} | {n.value for n in ast.walk(a.annotation) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    return set()


def c28(ctx):
    ctx.explanation = ("The engine's event types are read from the Go sources with their JSON keys; for every event kind a message with every field and one with every omissible field left out is decoded, "
                       "and each field's value must be found under the attribute of that name in the result, nested events in their typed form.")
    structs, enums = go_types(ctx)
    where = ctx.at("pulumi.automation.events.EngineEvent.from_json")
    if not structs.get("EngineEvent"):
        ctx.ob(None, "field-decoded", "EngineEvent", where, "the engine's event types were not found")
        return
    cases = []
    for k, t, opt in structs["EngineEvent"]:
        if not opt:
            continue
        for full in (True, False):
            cases.append((k, t.lstrip("*"), f"{k}, {'every field' if full else 'only the fields that are always there'}", full, {}))
        used = {ft.lstrip("*") for _, ft, _ in structs.get(t.lstrip("*"), [])}
        if "StepEventMetadata" in used:
            for et in ("OpType", "DiffKind"):
                for x in enums.get(et, [])[1:]:
                    cases.append((k, t.lstrip("*"), f"{k} with {et} {x}", True, {et: x}))
    src = ["from pulumi.automation.events import EngineEvent\n"]
    data = {}
    for i, (k, t, lab, full, pick) in enumerate(cases):
        base = {x: sample(structs, enums, ft, x, True, {}) for x, ft, opt in structs["EngineEvent"] if not opt}
        data[f"EV{i}"] = {**base, k: sample(structs, enums, t, k, full, pick)}
        src.append(f"def t{i}():\n    attempt(lambda: EngineEvent.from_json(vx.parse('EV{i}')))\n")
    src.append(WATCH)
    text = "\n".join(src)

    def walk(lab, w, t, want, got, path, cls_at):
        """every field of go type t"""
        if t not in structs:
            return
        if not isinstance(got, dict) or "__class__" not in got:
            v = None if isinstance(got, (Atom, tuple)) else False
            ctx.ob(v, "event-typed", f"{lab}: {path}", cls_at, f"{path} is not decoded: {got!r}")
            return
        cls = got["__class__"]
        try:
            cls_at = ctx.at(f"pulumi.automation.events.{cls}.from_json")
        except Exception:
            pass
        for k, ft, opt in structs[t]:
            if k not in want:
                continue
            nm, a, ft = f"{path}.{k}", snake(k), ft.lstrip("*")
            if ft in structs:
                if a not in got:
                    ctx.ob(False, "field-decoded", f"{lab}: {nm}", cls_at, f"{cls} has no {a}, the engine writes {k}")
                else:
                    walk(lab, w, ft, want[k], got[a], nm, cls_at)
                continue
            m = re.match(r"(?:map\[\w+\]|\[\])(.+)", ft)
            inner = m.group(1).lstrip("*") if m else None
            if inner in structs and a in got and want[k] and ({inner} & typed(ctx.prog, cls, a) or not isinstance(got[a], (dict, list))):
                if isinstance(want[k], dict) and isinstance(got[a], dict) or isinstance(want[k], list) and isinstance(got[a], list) and len(got[a]) == len(want[k]):
                    for j in want[k] if isinstance(want[k], dict) else range(len(want[k])):
                        has = j in got[a] if isinstance(got[a], dict) else True
                        ctx.ob(has, "field-decoded", f"{lab}: {nm}[{j}]", cls_at, f"{nm}[{j}] is lost")
                        if has:
                            walk(lab, w, inner, want[k][j], got[a][j], f"{nm}[{j}]", cls_at)
                else:
                    ctx.ob(None if isinstance(got[a], (Atom, tuple)) else False, "field-decoded", f"{lab}: {nm}", cls_at, f"{cls}.{a} is {got[a]!r}, the engine wrote {want[k]!r} under {k}")
                continue
            r = holds(got[a], want[k]) if a in got else False
            if r is False and a not in got and any(holds(x, want[k]) for n, x in got.items() if n != "__class__"):
                r = True  # (kept under another name)
            ctx.ob(r, "field-decoded", f"{lab}: {nm}", cls_at, f"{cls}.{a} is {plainly(got.get(a))!r}, the engine wrote {want[k]!r} under {k}")

    def go(i, k, t, lab, full, pick):
        w = world(ctx, text, data=data)
        w.logs = []
        rs, exs = w.run(f"t{i}")
        ended(ctx, w, "field-decoded", lab, where, rs)
        for s, v in rs:
            if s.ghost("raised"):
                ctx.ob(False, "event-decoded", lab, where, f"decoding raises {excname(s, s.ghost('raised'))}")
                continue
            got = w.py(s, s.ghost("result"))
            if not isinstance(got, dict):
                ctx.ob(None, "event-decoded", lab, where, f"decodes to {got!r}")
                continue
            others = [x for x, ft, opt in structs["EngineEvent"] if opt and x != k]
            for x in others:
                a = snake(x)
                ctx.ob(a in got and got[a] is None or (None if a in got and isinstance(got[a], (Atom, tuple)) else a not in got), "only-one-kind", f"{lab}: {x}", where, f"{a} is set by a message with {k} only")
            if not structs[t]:
                ctx.ob(bool(got.get(snake(k))), "event-decoded", lab, where, f"{snake(k)} is not set")
            walk(lab, w, "EngineEvent", {x: y for x, y in data[f"EV{i}"].items()}, got, "event", where)
        ctx.absorb(w)
        ctx.paths += len(rs)

    def watch(fn, lab, logs, want):
        at = ctx.at("pulumi.automation._stack.Stack.up")
        w = world(ctx, text, data=data)
        w.logs = list(logs)
        rs, exs = w.run(fn)
        ended(ctx, w, "every-event-delivered", lab, at, rs)
        for s, v in rs:
            g = s.ghost("seen")
            got = w.py(s, g) if g else []
            ctx.ob(got == want or (None if not isinstance(got, list) or any(isinstance(x, (Atom, tuple)) for x in got) else False), "every-event-delivered", lab, at, f"the callback got {got}, the log held {want}")
        ctx.absorb(w)
        ctx.paths += len(rs)
    for i, c in enumerate(cases):
        ctx.scenario("field-decoded", c[2], where, lambda a=(i, *c): go(*a))
    for op in ("up", "preview", "refresh", "destroy"):
        for lab, logs, want in LOGS:
            data.update({"ONE": {"sequence": 1, "timestamp": 1, "stdoutEvent": {"message": "m", "color": "c"}}, "TWO": {"sequence": 2, "timestamp": 1, "stdoutEvent": {"message": "m", "color": "c"}}})
            ctx.scenario("every-event-delivered", f"{op}: {lab}", "", lambda a=(f"watch_{op}", f"{op}: {lab}", logs, want): watch(*a))


LOGS = [("all lines at once", ["ONE\n", "TWO\n", "SUMMARY\n", "CANCEL\n"], [1, 2, 1, 2]), ("a pause between lines", ["ONE\n", "", "TWO\n", "SUMMARY\n", "", "CANCEL\n"], [1, 2, 1, 2]),
        ("a line read while it is being written", ["ONE\n", "TW", "O\n", "SUMMARY\n", "CANC", "EL\n"], [1, 2, 1, 2])]
WATCH = '''
SEEN = []
def on_event(e):
    SEEN.append(e.sequence)
''' + "".join(f'''
def watch_{op}():
    s = stack()
    attempt(lambda: s.{op}(on_event=on_event))
    vx.note("seen", SEEN)
''' for op in ("up", "preview", "refresh", "destroy"))
