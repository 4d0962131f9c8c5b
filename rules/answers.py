"""C39: answers of the CLI - the fields its own types declare against what the automation API returns."""
import itertools
import os
import re
from sa.dom import *
from sa.prog import REPO, AnchorMissing
from .combinators import excname
from .automation import world, ended
from .events import snake

GO = "pkg/cmd/pulumi"
# public call, the command's words, the CLI's type, how the answer is arranged
QUERIES = [
    ("LocalWorkspace.list_stacks", "w.list_stacks()", "stack ls", "stackSummaryJSON", "list"),
    ("LocalWorkspace.list_plugins", "w.list_plugins()", "plugin ls", "pluginInfoJSON", "list"),
    ("Stack.history", "s.history()", "stack history", "updateInfoJSON", "list"),
    ("Stack.info", "s.info()", "stack history", "updateInfoJSON", "first"),
    ("LocalWorkspace.get_config", "w.get_config('STACK', 'p:k')", "config get --json", "configValueJSON", "one"),
    ("LocalWorkspace.get_all_config", "w.get_all_config('STACK')", "config --json", "configValueJSON", "dict"),
]
# declared omissible, but the CLI always writes them in the answer to this query (config.go and stack_history.go set them on every path)
ALWAYS = {"Stack.history": ("result",), "Stack.info": ("result",), "LocalWorkspace.get_config": ("value",), "LocalWorkspace.get_all_config": ("value",)}
TIME = {"%Y-%m-%dT%H:%M:%S.%fZ", "%Y-%m-%dT%H:%M:%S.%f%z"}


def go_answers():
    d = os.path.join(REPO, GO)
    if not os.path.isdir(d):
        raise AnchorMissing(GO + " is gone")
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".go") and not f.endswith("_test.go"):
            t = open(os.path.join(d, f), encoding="utf-8").read()
            for m in re.finditer(r"^type (\w+JSON) struct \{(.*?)^\}", t, re.S | re.M):
                out[m.group(1)] = [(x.group(2).split(",")[0], x.group(1), ",omitempty" in x.group(2)) for x in re.finditer(r'^\s*\w+\s+(\S+)\s+`json:"([^"]*)"`', m.group(2), re.M)]
    return out


def is_time(k):
    return k.endswith("Time") or k == "lastUpdate"


def value(types, t, path, k, secret):
    t = t.lstrip("*")
    if t == "string":
        return f"${path}"
    if t == "bool":
        return secret
    if t == "int":
        return f"${path}:int"
    m = re.match(r"map\[string\](.+)", t)
    if m:
        out = {"k1": value(types, m.group(1), path + ".k1", "", secret), "k2": value(types, m.group(1), path + ".k2", "", secret)}
        # (a secret's value is left out unless it was asked for)
        return {**out, "k3": {"secret": True}} if m.group(1) == "configValueJSON" else out
    if t in types:
        return {f: value(types, ft, f"{path}.{f}", f, secret) for f, ft, opt in types[t] if not (t == "configValueJSON" and f == "objectValue")}
    return {"o1": f"${path}.o"}


def c39(ctx):
    ctx.explanation = ("The types the CLI marshals its answers from are read from its Go sources; for each query the answer with every field, with each omissible field left out in turn, with all left out, with several and with no entries "
                       "is decoded through the public call, and every field must be found under its attribute, times parsed with the CLI's format.")
    types = go_answers()
    src, jobs, data = [], [], {}
    for name, expr, words, t, shape in QUERIES:
        q = f"pulumi.automation._{'stack' if name.startswith('Stack') else 'local_workspace'}.{name}"
        where = ctx.at(q)
        if not types.get(t):
            ctx.ob(None, "answer-decoded", name, where, f"the CLI's sources do not declare {t}")
            continue
        opts = [k for k, _, o in types[t] if o and k not in ALWAYS.get(name, ())]
        entry = lambda tag, drop, secret: {k: value(types, ft, f"{tag}.{k}", k, secret) for k, ft, o in types[t] if k not in drop}
        subsets = [set(c) for n in range(len(opts) + 1) for c in itertools.combinations(opts, n)] if len(opts) <= 4 else [set()] + [{o} for o in opts] + [set(opts)]
        answers = []
        for drop in subsets:
            for secret in (False, True) if t == "configValueJSON" else (True,):
                answers.append((f"without {', '.join(sorted(drop))}" if drop else "every field" + (" of a secret" if secret and t == "configValueJSON" else ""), [entry("a", drop, secret)]))
        if shape in ("list", "dict", "first"):
            answers.append(("no entries", []))
            answers.append(("several entries", [entry("a", set(), True), entry("b", set(opts), False), entry("c", set(), True)]))
        for lab, es in answers:
            n = f"N{len(jobs)}"
            data[n] = {f"p:key{i}": e for i, e in enumerate(es)} if shape == "dict" else es[0] if shape == "one" else es
            fn = f"t{len(jobs)}"
            mk = "s = stack('STACK')" if name.startswith("Stack") else "w = workspace()"
            src.append(f"def {fn}():\n    {mk}\n    attempt(lambda: {expr})\n")
            jobs.append((fn, n, f"{name}: {lab}", where, words, t, shape, es))
    text = "\n".join(src)

    def field(ctx, lab, where, w, t, k, ft, want, got):
        """one field's value; want is None where it was left out"""
        nm = f"{lab}: {k}"
        a = snake(k)
        has = a in got
        if want is MISSING:
            x = got.get(a)
            ctx.ob(None if isinstance(x, Atom) else x in (None, "") or x == {} or x is False, "left-out-is-missing", nm, where, f"{a} is {x!r} although the CLI left {k} out")
            return
        if k == "objectValue":
            return  # (the same value, parsed; "value" has its text)
        if not has:
            other = [x for x in got if want in (got[x], [("$" + str(want)[1:])])]
            ctx.ob(bool(other), "field-read", nm, where, f"there is no {a} in the result, the CLI writes {k}")
            return
        x = got[a]
        if isinstance(x, Atom):
            ctx.ob(None, "field-read", nm, where, f"{a} is {x!r}")
            return
        if is_time(k) and "string" in ft:
            ctx.ob(x == ["time", want] if isinstance(x, list) else False if isinstance(x, (str, type(None))) else None, "field-read", nm, where, f"{a} is {x!r}, the CLI wrote the time {want!r}")
            return
        m = re.match(r"\*?map\[string\](\w+)", ft)
        if m and m.group(1) in types:
            ok = isinstance(x, dict) and list(x) == list(want)
            ctx.ob(ok, "field-read", nm, where, f"{a} has {list(x) if isinstance(x, dict) else x!r}, the CLI wrote {list(want)}")
            for kk in want if ok else ():
                for f, fft, o in types[m.group(1)]:
                    field(ctx, f"{nm}.{kk}", where, w, m.group(1), f, fft, want[kk].get(f, MISSING), x[kk])
            return
        plain = lambda v: {i: plain(j) for i, j in v.items()} if isinstance(v, dict) else v.split(":")[0] if isinstance(v, str) and v.startswith("$") else v
        x = {i: j for i, j in x.items()} if isinstance(x, dict) else x
        ctx.ob(x == plain(want) and type(x) is type(plain(want)), "field-read", nm, where, f"{a} is {x!r}, the CLI wrote {plain(want)!r}")

    def go(fn, n, lab, where, words, t, shape, es):
        w = world(ctx, text, answers={words: n}, data=data)
        for e_ in es:
            for v in leaves(e_):
                w.st.facts[(v, "truth")] = True
        rs, exs = w.run(fn)
        ended(ctx, w, "answer-decoded", lab, where, rs)
        for s, v in rs:
            r = s.ghost("raised")
            if r:
                ctx.ob(False, "answer-decoded", lab, where, f"raises {excname(s, r)}")
                continue
            got = w.py(s, s.ghost("result"))
            for f in s.ghost("format") or ():
                if isinstance(f, K):
                    ctx.ob(f.v in TIME, "time-format", lab, where, f"times are parsed as {f.v}")
            if shape == "first" and not es:
                ctx.ob(got is None, "answer-decoded", lab, where, f"the result is {got!r} although there is no entry")
                continue
            if shape in ("one", "first"):
                found = [got]
            elif shape == "dict":
                found = list(got.values()) if isinstance(got, dict) else None
                if isinstance(got, dict):
                    ctx.ob(list(got) == list(data[n]), "entries-in-order", lab, where, f"the keys are {list(got)}, the CLI wrote {list(data[n])}")
            else:
                found = got if isinstance(got, list) else None
            if found is None or any(isinstance(x, (Atom, tuple)) for x in found):
                ctx.ob(None if not isinstance(got, (dict, list)) else None, "answer-decoded", lab, where, f"the result is {got!r}"[:300])
                continue
            want = es[:1] if shape == "first" else es
            ctx.ob(len(found) == len(want), "entries-in-order", lab, where, f"{len(found)} entries, the CLI wrote {len(want)}")
            for i, (g, e_) in enumerate(zip(found, want)):
                if not isinstance(g, dict):
                    ctx.ob(False, "answer-decoded", lab, where, f"entry {i} is {g!r}")
                    continue
                for k, ft, o in types[t]:
                    field(ctx, f"{lab} [{i}]", where, w, t, k, ft, e_.get(k, MISSING), g)
        ctx.absorb(w)
        ctx.paths += len(rs)
    for j in jobs:
        ctx.scenario("answer-decoded", j[2], j[3], lambda j=j: go(*j))


MISSING = object()


def leaves(x):
    if isinstance(x, dict):
        return [y for v in x.values() for y in leaves(v)]
    if isinstance(x, list):
        return [y for v in x for y in leaves(v)]
    return [x[1:].split(":")[0]] if isinstance(x, str) and x.startswith("$") and not x.endswith(":int") else []
