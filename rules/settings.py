"""C27: settings files - what is saved has the CLI's keys, what is read is what the file says, and nothing is lost between."""
import os
import re
from sa.dom import *
from sa.prog import REPO, AnchorMissing
from .combinators import excname
from .automation import world, ended
from .events import snake

GOFILE = "sdk/go/common/workspace/project.go"
STRUCTS = {"Project": "ProjectSettings", "ProjectTemplate": "ProjectTemplate", "ProjectTemplateConfigValue": "ProjectTemplateConfigValue", "ProjectBackend": "ProjectBackend", "ProjectStack": "StackSettings"}
# the parts of the settings that are objects of their own
PARTS = {("ProjectSettings", "template"): "ProjectTemplate", ("ProjectSettings", "backend"): "ProjectBackend", ("ProjectSettings", "runtime"): "ProjectRuntimeInfo"}

HARNESS = '''
from pulumi.automation import ProjectRuntimeInfo, ProjectBackend
from pulumi.automation._project_settings import ProjectTemplate, ProjectTemplateConfigValue
from pulumi.automation._stack_settings import StackSettingsSecureConfigValue
def ws(name=None, data=None):
    w = workspace()
    if name is not None:
        FS["WORKDIR/" + name] = ["text of", vx.parse(data)] if data is not None else "old"
    ARMED[0] = True
    return w
def files():
    vx.note("files", dict(FS))
'''


def go_keys():
    """settings class -> {attribute: key in the file}, from the CLI's sources"""
    p = os.path.join(REPO, GOFILE)
    if not os.path.exists(p):
        raise AnchorMissing(GOFILE + " is gone")
    t = open(p, encoding="utf-8").read()
    out = {}
    for m in re.finditer(r"^type (\w+) struct \{(.*?)^\}", t, re.S | re.M):
        if m.group(1) in STRUCTS:
            out[STRUCTS[m.group(1)]] = {snake(x.group(1)): x.group(2).split(",")[0] for x in re.finditer(r'^\s*(\w+)\s+\S+\s+`json:"([^"]*)"', m.group(2), re.M)}
    out["ProjectRuntimeInfo"] = {"name": "name", "options": "options"}
    return out


UNKNOWN = "(not known)"

# (label, how the object is built, its attributes as data); "$x" is an unknown text
OPT = {"a": {"b": ["$op1", 0, False]}, "empty": {}}
PROJECTS = [
    ("name and runtime", "ProjectSettings('P', 'python')", {"name": "P", "runtime": "python"}),
    ("every text", "ProjectSettings('P', 'go', main=S('main'), description=S('desc'), author=S('author'), website=S('web'), license=S('lic'), config=S('conf'))",
     {"name": "P", "runtime": "go", "main": "$main", "description": "$desc", "author": "$author", "website": "$web", "license": "$lic", "config": "$conf"}),
    ("a runtime with options", "ProjectSettings('P', ProjectRuntimeInfo('python', vx.parse('OPT')))", {"name": "P", "runtime": {"__class__": "ProjectRuntimeInfo", "name": "python", "options": OPT}}),
    ("a backend", "ProjectSettings('P', 'nodejs', backend=ProjectBackend(url=S('url')))", {"name": "P", "runtime": "nodejs", "backend": {"__class__": "ProjectBackend", "url": "$url"}}),
    ("a template", "ProjectSettings('P', 'dotnet', template=ProjectTemplate(description=S('td'), quickstart=S('tq'), important=True))",
     {"name": "P", "runtime": "dotnet", "template": {"__class__": "ProjectTemplate", "description": "$td", "quickstart": "$tq", "important": True}}),
    ("a template with config", "ProjectSettings('P', 'python', template=ProjectTemplate(config={'k1': ProjectTemplateConfigValue(description=S('cd'), default=S('dv'), secret=True), 'k2': ProjectTemplateConfigValue(default=S('d2'))}))",
     {"name": "P", "runtime": "python", "template": {"__class__": "ProjectTemplate", "config": {"k1": {"__class__": "ProjectTemplateConfigValue", "description": "$cd", "default": "$dv", "secret": True}, "k2": {"__class__": "ProjectTemplateConfigValue", "default": "$d2"}}}}),
]
VALUES = {"text": "$cv", "empty text": "", "number": 7, "zero": 0, "fraction": 0.5, "true": True, "false": False, "list": ["$le", 0, {"secure": "$ls"}], "empty list": [], "object": {"a": {"b": "$ob"}, "c": 0}, "empty object": {},
          "object with secure and more": {"secure": "$os", "other": "$oo"}, "secret": {"secure": "$cs"}}
STACKS = [
    ("nothing", "StackSettings()", {}),
    ("encryption", "StackSettings(secrets_provider=S('sp'), encrypted_key=S('ek'), encryption_salt=S('es'))", {"secrets_provider": "$sp", "encrypted_key": "$ek", "encryption_salt": "$es"}),
] + [(f"config: {k}", f"StackSettings(config={{'p:k': {'StackSettingsSecureConfigValue(S(%r))' % 'cs' if k == 'secret' else 'vx.parse(%r)[0]' % ('V' + str(i))}, 'p:other': S('other')}})",
      {"config": {"p:k": {"__class__": "StackSettingsSecureConfigValue", "secure": "$cs"} if k == "secret" else v, "p:other": "$other"}}) for i, (k, v) in enumerate(VALUES.items())]


def on_file(keys, x, cls):
    """settings data -> what the file says"""
    if isinstance(x, dict) and "__class__" in x:
        cls, x = x["__class__"], {k: v for k, v in x.items() if k != "__class__"}
        if cls == "StackSettingsSecureConfigValue":
            return {"secure": x["secure"]}
    ks = keys.get(cls, {})
    return {ks.get(a, a): ({k: on_file(keys, y, None) if isinstance(y, dict) and "__class__" in y else y for k, y in v.items()} if a == "config" and isinstance(v, dict)
                           else on_file(keys, v, None) if isinstance(v, dict) and "__class__" in v else v) for a, v in x.items()}


def same(got, want, path=""):
    """[(path, got, wanted)]; absent, None and (for the settings' own flags) False are the same; what is not known differs as None"""
    if isinstance(got, (Atom, tuple)) and not isinstance(got, K):
        return [(path, UNKNOWN, want)]
    if isinstance(want, dict) and isinstance(got, dict):
        out, typed = [], "__class__" in want
        if typed and got.get("__class__") != want["__class__"]:
            return [(path, got, want)]
        for k in sorted(set(want) | set(got), key=str):
            if k == "__class__" and typed:
                continue
            g, x = got.get(k), want.get(k)
            if k not in want and (g is None or typed and g in (False, {}, [])) or k not in got and x is None:
                continue
            out += [(f"{path}.{k}", "nothing", x)] if k not in got else [(f"{path}.{k}", g, "nothing")] if k not in want else same(g, x, f"{path}.{k}")
        return out
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        return [d for i, (g, x) in enumerate(zip(got, want)) for d in same(g, x, f"{path}[{i}]")]
    return [] if type(got) is type(want) and got == want else [(path, got, want)]




def c27(ctx):
    ctx.explanation = ("Project and stack settings with every attribute, nested part and kind of config value are saved and read through the analysed workspace; the file must have the keys the CLI's own types declare and "
                       "only plain data, reading must give back equal settings, settings the SDK has no attribute for must survive, and an existing .yml or .json file is the one used.")
    keys = go_keys()
    for cls, attrs in (("ProjectSettings", ["name", "runtime", "main", "description", "author", "website", "license", "config", "template", "backend"]), ("StackSettings", ["secrets_provider", "encrypted_key", "encryption_salt", "config"])):
        for a in attrs:
            ctx.ob(True if a in keys.get(cls, {}) else None, "known-keys", f"{cls}.{a}", GOFILE, f"the CLI's sources do not declare {a}")
    at = {n: ctx.at(f"pulumi.automation._local_workspace.LocalWorkspace.{n}") for n in ("project_settings", "save_project_settings", "stack_settings", "save_stack_settings")}
    data = {"OPT": OPT}
    for i, v in enumerate(VALUES.values()):
        data[f"V{i}"] = [v]
    src, jobs = [HARNESS], []

    def add(kind, lab, where, body, want):
        fn = f"t{len(jobs)}"
        src.append(f"def {fn}():\n" + "".join(f"    {ln}\n" for ln in body.split("\n")))
        jobs.append((kind, fn, lab, where, want))
    sub = lambda e: re.sub(r"S\('(\w+)'\)", lambda m: f"vx.parse('TX{m.group(1)}')[0]", e)
    for m in re.finditer(r"S\('(\w+)'\)", " ".join(e for _, e, _ in PROJECTS + STACKS)):
        data["TX" + m.group(1)] = ["$" + m.group(1)]
    FILES = {"P": ["Pulumi.yaml", "Pulumi.yml", "Pulumi.json"], "S": ["Pulumi.STACK.yaml", "Pulumi.STACK.yml", "Pulumi.STACK.json"]}
    for kind, cases, cls, save, load in (("P", PROJECTS, "ProjectSettings", "save_project_settings(", "project_settings()"), ("S", STACKS, "StackSettings", "save_stack_settings('STACK', ", "stack_settings('STACK')")):
        sv, ld = at[save.split("(")[0]], at[load.split("(")[0]]
        for n, (lab, expr, attrs) in enumerate(cases):
            file = on_file(keys, {"__class__": cls, **attrs}, None)
            data[f"{kind}{n}"] = file
            for f in [None] + FILES[kind] if n < 2 else [None, FILES[kind][2]]:
                base = f or FILES[kind][0]
                ex = f"ws({f!r})" if f else "ws()"
                add("saved", f"{lab}, {'over ' + f if f else 'no file yet'}", sv, f"w = {ex}\nattempt(lambda: w.{save}{sub(expr)}))\nfiles()", (base, file))
                add("again", f"{lab}, {'in ' + f if f else 'no file yet'}", ld, f"w = {ex}\nw.{save}{sub(expr)})\nattempt(lambda: w.{load})", {"__class__": cls, **attrs})
                if f or n >= 2:
                    add("read", f"{lab}, from {base}", ld, f"w = ws({base!r}, '{kind}{n}')\nattempt(lambda: w.{load})", {"__class__": cls, **attrs})
        add("absent", f"no {cls}", ld, f"w = ws()\nattempt(lambda: w.{load})", None)
    for nm, base in (("ORG/PROJ/STACK", "Pulumi.STACK.yaml"), ("ORG/STACK", "Pulumi.STACK.yaml")):
        add("saved", f"a stack called {nm}", at["save_stack_settings"], f"w = ws()\nattempt(lambda: w.save_stack_settings({nm!r}, {sub(STACKS[1][1])}))\nfiles()", (base, data["S1"]))
        add("read", f"a stack called {nm}", at["stack_settings"], f"w = ws({base!r}, 'S1')\nattempt(lambda: w.stack_settings({nm!r}))", {"__class__": "StackSettings", **STACKS[1][2]})
    known = set(keys.get("ProjectSettings", {}).values()) - set(PROJECTS[1][2]) - {"template", "backend"}
    for k in sorted(known) + ["customKey"]:
        data[f"X{k}"] = {"name": "P", "runtime": "python", k: {"x": ["$xk", 0]}}
        add("kept", f"a project with {k}", at["project_settings"], f"w = ws('Pulumi.yaml', 'X{k}')\nattempt(lambda: w.save_project_settings(w.project_settings()))\nfiles()", ("Pulumi.yaml", data[f"X{k}"]))
    # settings given to the workspace itself
    add("saved", "project settings given to the workspace", at["save_project_settings"], f"attempt(lambda: LocalWorkspace(work_dir='WORKDIR', project_settings={sub(PROJECTS[1][1])}))\nfiles()", ("Pulumi.yaml", data["P1"]))
    add("saved", "stack settings given to the workspace", at["save_stack_settings"], f"attempt(lambda: LocalWorkspace(work_dir='WORKDIR', stack_settings={{'STACK': {sub(STACKS[1][1])}}}))\nfiles()", ("Pulumi.STACK.yaml", data["S1"]))
    text = "\n".join(src)

    def go(kind, fn, lab, where, want):
        rule = {"saved": "saved-as-declared", "again": "read-back", "read": "read-as-written", "absent": "missing-reported", "kept": "nothing-lost"}[kind]
        w = world(ctx, text, data=data)
        for n in ("main", "desc", "author", "web", "lic", "conf", "url", "td", "tq", "cd", "dv", "d2", "sp", "ek", "es", "cs"):
            w.st.facts[(n, "truth")] = True
        rs, exs = w.run(fn)
        ended(ctx, w, rule, lab, where, rs)
        for s, v in rs:
            r = s.ghost("raised")
            if kind == "absent":
                ctx.ob(True if r and "FileNotFound" in excname(s, r) else False, rule, lab, where, "no settings file does not raise FileNotFoundError")
                continue
            if r:
                ctx.ob(False, rule, lab, where, f"raises {excname(s, r)}")
                continue
            if kind in ("saved", "kept"):
                fs = w.py(s, s.ghost("files"))
                base, file = want
                path = "WORKDIR/" + base
                if not isinstance(fs, dict) or any(isinstance(x, (Atom, tuple)) for x in fs):
                    ctx.ob(None, rule, lab, where, f"the files are {fs!r}")
                    continue
                ctx.ob(path in fs, rule, lab + ": file", where, f"{base} is not written, the files are {sorted(map(str, fs))}")
                ctx.ob(not [x for x in fs if x != path and "/Pulumi." in str(x)], rule, lab + ": one file", where, f"the files are {sorted(map(str, fs))}")
                c = fs.get(path)
                if not (isinstance(c, list) and c[:1] == ["text of"]):
                    ctx.ob(None if c != "old" else False, rule, lab, where, f"{base} has {c!r}")
                    continue
                # a flag that says no, or an empty part, may be written or not
                bad = [d for d in same(c[1], file) if not (d[2] == "nothing" and (d[1] is False or d[1] in ({}, []) and d[1] is not None))]
            else:
                got = w.py(s, s.ghost("result"))
                bad = same(got, want)
            ctx.ob(True if not bad else None if all(g is UNKNOWN for _, g, _ in bad) else False, rule, lab, where, "; ".join(f"{p.lstrip('.') or 'it'} is {g!r}, should be {x!r}" for p, g, x in bad)[:400])
        ctx.absorb(w)
        ctx.paths += len(rs)
    for j in jobs:
        ctx.scenario({"saved": "saved-as-declared", "again": "read-back", "read": "read-as-written", "absent": "missing-reported", "kept": "nothing-lost"}[j[0]], j[2], j[3], lambda j=j: go(*j))
