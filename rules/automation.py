"""C23-C27, C39: the automation API, run against a CLI and a file system that only record what is done with them."""
import ast
import os
import re
from sa.dom import *
from sa.auto import AutoWorld
from sa.prog import REPO
from .combinators import excname, render

HIST = [{"kind": "$h.kind", "startTime": "$h.start", "message": "$h.message", "environment": {"e": "$h.env"}, "config": {"p:plain": {"value": "$h.plain", "secret": False}, "p:sec": {"value": "$h.sec", "secret": True}},
         "result": "$h.result", "endTime": "$h.end", "version": 7, "resourceChanges": {"create": 1}}]
OUTS = {"plain": "$o.plain", "sec": "$o.sec", "obj": {"deep": "$o.deep"}}
MASKED = {"plain": "$o.plain", "sec": "[secret]", "obj": {"deep": "$o.deep"}}
ANSWERS = {"stack history": "HIST", "stack output": "MASKED", "stack output --show-secrets": "OUTS", "config --json": "CONFIG", "config get --json": "VALUE", "stack ls": "STACKS", "plugin ls": "PLUGINS",
           "stack export": "STATE", "whoami": "someone\n"}
DATA = {"HIST": HIST, "OUTS": OUTS, "MASKED": MASKED, "CONFIG": {"p:plain": {"value": "$c.plain", "secret": False}, "p:sec": {"value": "$c.sec", "secret": True}}, "VALUE": {"value": "$c.value", "secret": True},
        "STACKS": [{"name": "$s.name", "current": True, "lastUpdate": "$s.last", "updateInProgress": False, "resourceCount": 3, "url": "$s.url"}],
        "PLUGINS": [{"name": "$p.name", "kind": "$p.kind", "version": "$p.version", "size": 5, "installTime": "$p.install", "lastUsedTime": "$p.used"}], "SUMMARY": {"sequence": 1, "timestamp": 2, "summaryEvent": {"maybeCorrupt": False, "durationSeconds": 3, "resourceChanges": {"create": 1}, "PolicyPacks": {}}},
        "CANCEL": {"sequence": 2, "timestamp": 3, "cancelEvent": {}}, "STATE": {"version": 3, "deployment": {"x": "$d.x"}}}
ENV = 'env_vars={"A": vx.sym("env.A", "str"), "SHARED": "from the workspace"}, pulumi_home="HOME"'


def world(ctx, src, answers=None, data=None, **kw):
    w = ctx.world(src, lambda s: AutoWorld(s, answers={**ANSWERS, **(answers or {})}, data={**DATA, **(data or {})}, **kw))
    for n in ("h.kind", "h.start", "h.message", "h.result", "h.end", "s.name", "p.name", "o.message", "o.plain", "o.sec"):
        w.st.facts[(n, "truth")] = True
    w.logs = ["SUMMARY\n", "CANCEL\n"]
    w.st.facts[("o.plain", "eq", K("[secret]"))] = False
    return w


def cmds(w, s):
    g = s.ghost("cmds")
    return w.py(s, g) if g else []


def value_after(argv, flag):
    return [argv[i + 1] for i, x in enumerate(argv[:-1]) if x == flag]


# ------------------------------------------------------------------------------------------------ C24: options
S, N = 'vx.sym("o.%s", "str")', None
OPTIONS = {  # parameter -> (argument, the words it must become)
    "message": ('vx.sym("o.message", "str")', ["--message", "$o.message"]),
    "expect_no_changes": ("True", ["--expect-no-changes"]), "diff": ("True", ["--diff"]),
    "replace": ('["r1", "r2"]', ["--replace", "r1", "--replace", "r2"]), "target": ('["t1", "t2"]', ["--target", "t1", "--target", "t2"]),
    "policy_packs": ('["p1", "p2"]', ["--policy-pack", "p1", "--policy-pack", "p2"]), "policy_pack_configs": ('["c1", "c2"]', ["--policy-pack-config", "c1", "--policy-pack-config", "c2"]),
    "target_dependents": ("True", ["--target-dependents"]), "parallel": ("11", ["--parallel", "11"]), "color": ('"raw"', ["--color", "raw"]), "log_flow": ("True", ["--logflow"]),
    "log_verbosity": ("9", ["--verbose", "9"]), "log_to_std_err": ("True", ["--logtostderr"]), "tracing": ('"file:t"', ["--tracing", "file:t"]), "debug": ("True", ["--debug"]),
}
PLAN = {"up": ["--plan", "PLAN"], "preview": ["--save-plan", "PLAN"]}
OPS = {"up": ["up"], "preview": ["preview"], "refresh": ["refresh"], "destroy": ["destroy"]}
SPECIAL = {"on_output", "on_event", "program", "show_secrets", "plan"}
# single-valued parameters may come as True or as a value; a list parameter with one and no element
VARIANTS = {"target": [('["t1"]', ["--target", "t1"]), ("[]", [])], "expect_no_changes": [("False", [])], "diff": [("False", [])], "parallel": [("1", ["--parallel", "1"])], "log_verbosity": [("1", ["--verbose", "1"])],
            "replace": [('["r1"]', ["--replace", "r1"])], "target_dependents": [("False", [])], "debug": [("False", [])]}
EVENTS = '''
def on_event(e):
    vx.note("event", e)
def on_output(t):
    vx.note("output", t)
def prog():
    pass
'''


def contains_run(argv, words):
    """are the words of each flag present, adjacent and in order?"""
    i = 0
    pairs = []
    while i < len(words):
        if i + 1 < len(words) and not str(words[i + 1]).startswith("--"):
            pairs.append([words[i], words[i + 1]])
            i += 2
        else:
            pairs.append([words[i]])
            i += 1
    pos = -1
    for p in pairs:
        for j in range(pos + 1, len(argv)):
            if argv[j:j + len(p)] == p or (len(p) == 2 and argv[j] == f"{p[0]}={p[1]}"):
                pos = j
                break
        else:
            return False
    return True


def go_flags():
    """flag -> takes a value, per source file of the CLI's commands"""
    out = {}
    d = os.path.join(REPO, "pkg/cmd/pulumi")
    if not os.path.isdir(d):
        return out
    for f in os.listdir(d):
        if f.endswith(".go") and not f.endswith("_test.go"):
            t = open(os.path.join(d, f), encoding="utf-8").read()
            out[f[:-3]] = {m.group(2): not m.group(1).startswith("Bool") for m in re.finditer(r'Flags\(\)\.(Bool|String|StringArray|StringSlice|Int|Int32)(?:VarP|Var|P)?\(\s*(?:&[\w.]+,\s*)?"([\w-]+)"', t)}
    return out


def known_flags(flags, argv):
    """the flags the CLI defines for the command in argv (its file, its parents' and the global ones)"""
    words = [x for x in argv[1:] if isinstance(x, str) and not x.startswith("-")]
    have = dict(flags.get("pulumi", {}))
    for n in (1, 2, 3):
        f = "_".join(words[:n]).replace("-", "_")
        have.update(flags.get(f, {}))
    return have


def c24(ctx):
    ctx.explanation = ("Each option in the signature of up, preview, refresh and destroy is given alone (and all together); the command that is run must contain the flag of the same meaning with the "
                       "value as text, and no flag for options not given. Every flag used must be one the CLI's sources define for that command, with or without a value as they say.")
    flags = go_flags()
    src, jobs = [EVENTS], []
    for op in OPS:
        f = ctx.prog.find(f"pulumi.automation._stack.Stack.{op}")
        where = ctx.at(f"pulumi.automation._stack.Stack.{op}")
        ps = [a.arg for a in f.args.args + f.args.kwonlyargs if a.arg != "self"]
        for p in ps:
            if p not in OPTIONS and p not in SPECIAL:
                ctx.ob(None, "option-covered", f"{op}: {p}", where, "an option no rule knows")
        cases = [(p, [(p, *OPTIONS[p])]) for p in ps if p in OPTIONS]
        cases += [(f"{p}={a}", [(p, a, ws)]) for p in ps for a, ws in VARIANTS.get(p, [])]
        cases += [("all", [(p, *OPTIONS[p]) for p in ps if p in OPTIONS]), ("none", [])]
        if "plan" in ps:
            cases.append(("plan", [("plan", '"PLAN"', PLAN[op])]))
        for lab, ops in cases:
            fn = f"t{len(jobs)}"
            src.append(f"def {fn}():\n    s = stack()\n    attempt(lambda: s.{op}({', '.join(f'{p}={a}' for p, a, _ in ops)}))\n")
            jobs.append((fn, op, lab, ops, where))
        for lab, a in (("on_event", "on_event=on_event"), ("program", "program=prog"), ("show_secrets=False", "show_secrets=False"), ("show_secrets", "show_secrets=True"), ("on_output", "on_output=on_output")):
            if a.split("=")[0] in ps:
                fn = f"t{len(jobs)}"
                src.append(f"def {fn}():\n    s = stack()\n    attempt(lambda: s.{op}({a}))\n")
                jobs.append((fn, op, lab, None, where))
        fn = f"t{len(jobs)}"
        src.append(f"def {fn}():\n    s = stack(program=prog)\n    attempt(lambda: s.{op}())\n")
        jobs.append((fn, op, "workspace program", None, where))
    text = "\n".join(src)

    def go(fn, op, lab, ops, where):
        w = world(ctx, text)
        rs, exs = w.run(fn)
        if not rs:
            ctx.ob(None, "option-conveyed", f"{op}: {lab}", where, "no path ends")
        for s, v in rs:
            cs = cmds(w, s)
            main = [c[0] for c in cs if c[0][1:2] == [op]]
            if not main:
                ctx.ob(None, "option-conveyed", f"{op}: {lab}", where, f"no {op} command was run" + (f" (raises {excname(s, s.ghost('raised'))})" if s.ghost("raised") else ""))
                continue
            argv = main[0]
            unclear = any(not isinstance(x, str) and not isinstance(x, (int, float, bool)) for x in argv)
            if ops is not None:
                for p, a, ws in ops:
                    ok = contains_run(argv, ws)
                    ctx.ob(True if ok else None if unclear else False, "option-conveyed", f"{op}: {lab}: {p}", where, f"{p}={a} must become {' '.join(ws)}; the command is {argv}")
                given = {w_ for _, _, ws in ops for w_ in ws if w_.startswith("--")}
                for p, (a, ws) in {**OPTIONS, "plan": ("", PLAN.get(op, ["--plan"]))}.items():
                    if ws[0] not in given:
                        ctx.ob(ws[0] not in argv and not any(str(x).startswith(ws[0] + "=") for x in argv), "unset-is-absent", f"{op}: {lab}: {p}", where, f"{ws[0]} is passed although {p} was not given")
            inline = lab in ("program", "workspace program")
            kind = value_after(argv, "--exec-kind")
            ctx.ob(kind == (["auto.inline"] if inline else ["auto.local"]), "exec-kind", f"{op}: {lab}", where, f"--exec-kind is {kind}")
            if inline and op in ("up", "preview"):
                cl = [x for x in argv if str(x).startswith("--client")]
                ctx.ob(len(cl) == 1, "exec-kind", f"{op}: {lab}: client", where, "the CLI is not told where the program runs")
            if lab == "on_event" or op == "preview":
                ev = value_after(argv, "--event-log")
                ctx.ob(len(ev) == 1 and bool(ev[0]), "option-conveyed", f"{op}: {lab}: events", where, "the CLI is not told where to write events")
            if lab.startswith("show_secrets") or lab == "none":
                hist = [c[0] for c in cs if c[0][1:3] == ["stack", "history"]]
                for h in hist:
                    want = lab != "show_secrets=False"
                    ctx.ob(("--show-secrets" in h) is want, "option-conveyed", f"{op}: {lab}", where, f"the summary is read with {h}")
            for c in cs:
                bad_flags(ctx, flags, c[0], f"{op}: {lab}", where)
            for x in argv:
                ctx.ob(isinstance(x, str) or (None if not isinstance(x, (int, float, bool)) and x is not None else False), "text", f"{op}: {lab}: {x!r}", where, f"{x!r} is not text")
        ctx.absorb(w)
        ctx.paths += len(rs)
    for fn, op, lab, ops, where in jobs:
        ctx.scenario("option-conveyed", f"{op}: {lab}", where, lambda a=(fn, op, lab, ops, where): go(*a))


def bad_flags(ctx, flags, argv, nm, where):
    have = known_flags(flags, argv)
    for i, x in enumerate(argv):
        if x == "--":
            break
        if isinstance(x, str) and x.startswith("--") and len(x) > 2 and have:
            n = x[2:].split("=")[0]
            if i and isinstance(argv[i - 1], str) and argv[i - 1].startswith("--") and have.get(argv[i - 1][2:]):
                continue  # (the value of the flag before)
            ctx.ob(n in have, "flag-exists", f"{nm}: {x}", where, f"the CLI defines no flag {x} for this command")


# ------------------------------------------------------------------------------------------------ C25: commands and their failures
ARGS = {"stack_name": '"STACK"', "key": '"K"', "keys": '["k1", "k2"]', "value": 'ConfigValue(value="V", secret=True)', "config": '{"a": ConfigValue(value="1"), "b": ConfigValue(value="2", secret=True)}',
        "name": '"plug"', "version": '"v1"', "version_range": '"v2"', "kind": '"language"', "state": 'Deployment(version=3, deployment={"x": 1})', "workspace": "w", "show_secrets": "False", "page": "3", "page_size": "5"}
NO_COMMAND = {"project_settings", "save_project_settings", "stack_settings", "save_stack_settings", "serialize_args_for_op", "post_command_callback"}


def public(ctx, cls):
    c = ctx.prog.find(cls)
    for f in c.body:
        if isinstance(f, ast.FunctionDef) and not f.name.startswith("_") and not any(isinstance(d, ast.Name) and d.id == "property" or isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in f.decorator_list):
            yield f


def calls(ctx, include_ops=True):
    """(label, harness expression, the function, does it concern one stack)"""
    for cls, obj in (("pulumi.automation._local_workspace.LocalWorkspace", "w"), ("pulumi.automation._stack.Stack", "s")):
        for f in public(ctx, cls):
            if f.name in NO_COMMAND:
                continue
            static = any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in f.decorator_list)
            ps = f.args.args[0 if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list) else 1:]
            req = ps[:len(ps) - len(f.args.defaults)]
            for lab, use in (("", req), (" with every argument", ps)):
                use = [a.arg for a in use if a.arg in ARGS or a in req]
                if lab and (len(use) == len(req) or f.name in OPS):
                    continue
                if any(a not in ARGS for a in use):
                    yield f"{cls.rsplit('.', 1)[-1]}.{f.name}", None, f, None
                    continue
                ex = f"{'Stack' if static else obj}.{f.name}({', '.join(f'{a}={ARGS[a]}' for a in use)})"
                yield f"{cls.rsplit('.', 1)[-1]}.{f.name}{lab}", ex, f, cls.endswith("Stack") or "stack_name" in use


def before_dd(argv):
    return argv[:argv.index("--")] if "--" in argv else argv


# texts the CLI's sources print for each kind of failure (pkg/backend, pkg/cmd/pulumi, sdk/go/common/util/cmdutil)
FAILURES = [("stderr", "error: no stack named 'dev' found", "StackNotFoundError"), ("stderr", "error: stack 'dev' already exists", "StackAlreadyExistsError"),
            ("stderr", "error: [409] Conflict: Another update is currently in progress.", "ConcurrentUpdateError"), ("stderr", "error: something else", "CommandError"),
            ("stdout", "error: python inline source runtime error", "InlineSourceRuntimeError"), ("stdout", "Program failed with an unhandled exception:", "RuntimeError"),
            ("stdout", "panic: runtime error: index out of range", "RuntimeError"), ("stdout", "an unhandled error occurred: Program exited with non-zero exit code", "RuntimeError"),
            ("stdout", "main.go:8:2: undefined: foo", "CompilationError"), ("stdout", "main.go:8:2: syntax error: unexpected", "CompilationError"), ("stdout", "Build FAILED.", "CompilationError"),
            ("stdout", "Unable to compile TypeScript", "CompilationError"), ("stdout", "no stack named is found here", "CommandError")]


CODES = [0, 1, 2, 130, 255, 256, -1, -9, -15]


def c25(ctx):
    ctx.explanation = ("Every public method of the workspace and the stack is called; each command it runs must be the CLI, non-interactive, name the stack it is about, run in the workspace's directory with the "
                       "process's environment overridden by the workspace's. With the CLI failing, each method must raise the error of the right kind with code and output.")
    src, jobs = ["def prog():\n    pass\n"], []
    for lab, ex, f, scoped in calls(ctx):
        where = ctx.loc(f)
        if ex is None:
            ctx.ob(None, "command", lab, where, "a method whose arguments no rule knows")
            continue
        i = len(jobs)
        for kind, ws in (("plain", f"workspace({ENV})"), ("failing", "workspace()")):
            src.append(f"def t{i}_{kind}():\n    w = {ws}\n    s = Stack(\"STACK\", w, st_mod.StackInitMode.SELECT)\n    CMDS.clear()\n    CODE[0] = {'255' if kind == 'failing' else '0'}\n"
                       f"    ERR[0] = b'{'the error text' if kind == 'failing' else ''}'\n    attempt(lambda: {ex})\n")
        jobs.append((i, lab, ex, f, scoped, where))
    for j, (stream, text, cls) in enumerate(FAILURES):
        src.append(f"def f{j}():\n    w = workspace()\n    CODE[0] = 255\n    {'ERR[0]' if stream == 'stderr' else 'RAWOUT[0]'} = {text.encode()!r}\n    attempt(lambda: w.who_am_i())\n")
    for code in CODES:
        src.append(f"def c{CODES.index(code)}():\n    w = workspace()\n    CODE[0] = {code}\n    attempt(lambda: w.who_am_i())\n")
    text = "\n".join(src)
    flags = go_flags()

    def plain(i, lab, f, scoped, where):
        w = world(ctx, text)
        rs, exs = w.run(f"t{i}_plain")
        ended(ctx, w, "command", lab, where, rs)
        for s, v in rs:
            if s.ghost("raised"):
                ctx.ob(None, "command", lab, where, f"raises {excname(s, s.ghost('raised'))}")
                continue
            cs = cmds(w, s)
            ctx.ob(bool(cs), "command", lab, where, "no command is run")
            for argv, cwd, env in cs:
                nm = f"{lab}: {' '.join(map(str, argv[:3]))}"
                clear = all(isinstance(x, str) for x in argv)
                ctx.ob(argv[0] == "pulumi", "command", nm, where, f"runs {argv[0]}")
                ctx.ob("--non-interactive" in before_dd(argv) or (None if not clear else False), "non-interactive", nm, where, f"the CLI may ask questions: {argv}")
                if scoped or f.name in OPS:
                    named = value_after(before_dd(argv), "--stack") + [x[8:] for x in argv if isinstance(x, str) and x.startswith("--stack=")]
                    pos = argv[1:3] in (["stack", "init"], ["stack", "select"], ["stack", "rm"]) and "STACK" in argv
                    ctx.ob((all(n == "STACK" for n in named) and (bool(named) or pos)) or (None if not clear else False), "right-stack", nm, where, f"the command does not name the stack: {argv}")
                ctx.ob(cwd == "WORKDIR", "directory", nm, where, f"runs in {cwd!r}")
                if not isinstance(env, dict):
                    ctx.ob(None, "environment", nm, where, f"the environment is {env!r}")
                else:
                    for k, want in (("PATH", "p"), ("A", "$env.A"), ("SHARED", "from the workspace"), ("PULUMI_HOME", "HOME")):
                        ctx.ob(env.get(k) == want, "environment", f"{nm}: {k}", where, f"{k} is {env.get(k)!r}, not {want!r}")
                bad_flags(ctx, flags, argv, nm, where)
        ctx.absorb(w)
        ctx.paths += len(rs)

    def failing(i, lab, f, scoped, where):
        w = world(ctx, text)
        w.logs = ["CANCEL\n"]
        rs, exs = w.run(f"t{i}_failing")
        ended(ctx, w, "failure-reported", lab, where, rs)
        for s, v in rs:
            n = excname(s, s.ghost("raised")) if s.ghost("raised") else None
            ctx.ob(n == "CommandError", "failure-reported", lab, where, f"the CLI exits with 255 but {'no exception is raised' if n is None else n + ' is raised'}")
            if n == "CommandError":
                t = render(w.e, s, attr_args(w, s))
                ctx.ob(("255" in t and "the error text" in t) if "?" not in t else None, "failure-carries-output", lab, where, f"the error reads {t!r}")
        ctx.absorb(w)
        ctx.paths += len(rs)

    def kinds(j, stream, txt, cls):
        where = ctx.at("pulumi.automation.errors.create_command_error")
        w = world(ctx, text)
        rs, exs = w.run(f"f{j}")
        ended(ctx, w, "failure-kind", f"{stream}: {txt}", where, rs)
        for s, v in rs:
            n = excname(s, s.ghost("raised")) if s.ghost("raised") else None
            ctx.ob(n == cls or (None if n is None and len(rs) > 1 else False), "failure-kind", f"{stream}: {txt}", where, f"raises {n}, not {cls}")
            if n == cls:
                t = render(w.e, s, attr_args(w, s))
                ctx.ob((txt in t) if "?" not in t else None, "failure-carries-output", f"{stream}: {txt}", where, f"the error reads {t!r}")
        ctx.absorb(w)
        ctx.paths += len(rs)

    def codes(k):
        where = ctx.at("pulumi.automation._cmd._run_pulumi_cmd")
        w = world(ctx, text)
        rs, exs = w.run(f"c{k}")
        ended(ctx, w, "failure-reported", f"exit code {CODES[k]}", where, rs)
        for s, v in rs:
            n = excname(s, s.ghost("raised")) if s.ghost("raised") else None
            ctx.ob(n == ("CommandError" if CODES[k] else None), "failure-reported", f"exit code {CODES[k]}", where, f"the CLI exits with {CODES[k]} and " + ("no exception is raised" if n is None else f"{n} is raised"))
        ctx.absorb(w)
        ctx.paths += len(rs)
    for k in range(len(CODES)):
        ctx.scenario("failure-reported", f"exit code {CODES[k]}", "", lambda k=k: codes(k))
    for i, lab, ex, f, scoped, where in jobs:
        ctx.scenario("command", lab, where, lambda a=(i, lab, f, scoped, where): plain(*a))
        ctx.scenario("failure-reported", lab, where, lambda a=(i, lab, f, scoped, where): failing(*a))
    for j, (stream, txt, cls) in enumerate(FAILURES):
        ctx.scenario("failure-kind", txt, "", lambda a=(j, stream, txt, cls): kinds(*a))


def ended(ctx, w, rule, nm, where, rs):
    if not rs:
        ctx.ob(None, rule, nm, where, "no path ends: " + str(sorted(w.e.notes)[:2] if hasattr(w.e, "notes") else ""))


def attr_args(w, s):
    for a in s.ghost("raised"):
        f = getattr(s.heap.get(a.key), "f", {}) or {}
        return f.get("args", EMPTY)
    return EMPTY


# ------------------------------------------------------------------------------------------------ C23: secrets
SECRETS = '''
CV, OV = ConfigValue, auto.OutputValue
def summary(secret):
    return st_mod.UpdateSummary(kind="update", start_time=["time", "a"], message="m", environment={}, config={"k": {"value": "PLAINTEXT", "secret": secret}}, result="succeeded", end_time=["time", "b"])
def show(f):
    x = f()
    vx.note("forms", [repr(x), str(x), f"{x}", f"{x!r}", "%s %r" % (x, x), "{}".format(x)])
'''
SHOWN = [("ConfigValue", "CV('PLAINTEXT', secret={})"), ("ConfigValue by keyword", "CV(value='PLAINTEXT', secret={})"), ("OutputValue", "OV('PLAINTEXT', {})"), ("OutputValue of a dictionary", "OV({{'a': 'PLAINTEXT'}}, {})"),
         ("OutputValue of a list", "OV(['PLAINTEXT'], {})"), ("a map of values", "{{'a': CV('PLAINTEXT', {0}), 'b': OV('PLAINTEXT', {0})}}"), ("UpdateSummary", "summary({})"),
         ("UpResult", "auto.UpResult(stdout='', stderr='', summary=summary({0}), outputs={{'o': OV('PLAINTEXT', {0})}})"),
         ("RefreshResult", "auto.RefreshResult(stdout='', stderr='', summary=summary({}))"), ("DestroyResult", "auto.DestroyResult(stdout='', stderr='', summary=summary({}))")]
READ = {  # harness expression -> (where, the values it must give)
    "w.get_config('STACK', 'K')": ("LocalWorkspace.get_config", {"__class__": "ConfigValue", "value": "$c.value", "secret": True}),
    "w.get_all_config('STACK')": ("LocalWorkspace.get_all_config", {"p:plain": {"__class__": "ConfigValue", "value": "$c.plain", "secret": False}, "p:sec": {"__class__": "ConfigValue", "value": "$c.sec", "secret": True}}),
    "s.get_config('K')": ("LocalWorkspace.get_config", {"__class__": "ConfigValue", "value": "$c.value", "secret": True}),
    "s.get_all_config()": ("LocalWorkspace.get_all_config", {"p:plain": {"__class__": "ConfigValue", "value": "$c.plain", "secret": False}, "p:sec": {"__class__": "ConfigValue", "value": "$c.sec", "secret": True}}),
    "s.outputs()": ("LocalWorkspace.stack_outputs", {"plain": {"__class__": "OutputValue", "value": "$o.plain", "secret": False}, "sec": {"__class__": "OutputValue", "value": "$o.sec", "secret": True},
                                                    "obj": {"__class__": "OutputValue", "value": {"deep": "$o.deep"}, "secret": False}}),
    "w.stack_outputs('STACK')": ("LocalWorkspace.stack_outputs", {"plain": {"__class__": "OutputValue", "value": "$o.plain", "secret": False}, "sec": {"__class__": "OutputValue", "value": "$o.sec", "secret": True},
                                                                  "obj": {"__class__": "OutputValue", "value": {"deep": "$o.deep"}, "secret": False}}),
    "s.history()[0].config": ("Stack.history", {"p:plain": {"__class__": "ConfigValue", "value": "$h.plain", "secret": False}, "p:sec": {"__class__": "ConfigValue", "value": "$h.sec", "secret": True}}),
    "s.info().config": ("Stack.info", {"p:plain": {"__class__": "ConfigValue", "value": "$h.plain", "secret": False}, "p:sec": {"__class__": "ConfigValue", "value": "$h.sec", "secret": True}}),
}
for _op in ("up", "refresh", "destroy"):
    READ[f"s.{_op}().summary.config"] = (f"Stack.{_op}", READ["s.info().config"][1])
READ["s.up().outputs"] = ("Stack.up", READ["s.outputs()"][1])


def c23(ctx):
    ctx.explanation = ("Each way of setting configuration is called with secret and plain values, each way of reading values back is given the CLI's answers, and each printable form of the result types is "
                       "computed; the flag given to the CLI, the flag read back and the absence of the plaintext are compared with what the property requires.")
    src = [SECRETS]
    sets = []
    for lab, arg in (("secret", ", secret=True"), ("plain", ", secret=False"), ("by default", "")):
        for m, ex in (("set_config", f"s.set_config('p:k', ConfigValue(vx.sym('V', 'str'){arg}))"), ("set_config", f"w.set_config('STACK', 'p:k', ConfigValue(vx.sym('V', 'str'){arg}))"),
                      ("set_all_config", f"s.set_all_config({{'p:k': ConfigValue(vx.sym('V', 'str'){arg}), 'p:other': ConfigValue('x', secret={lab != 'secret'}), 'p:third': ConfigValue('y')}})")):
            src.append(f"def s{len(sets)}():\n    w = workspace()\n    s = Stack('STACK', w, st_mod.StackInitMode.SELECT)\n    CMDS.clear()\n    attempt(lambda: {ex})\n")
            sets.append((f"s{len(sets)}", m, lab, ex))
    for i, ex in enumerate(READ):
        src.append(f"def r{i}():\n    w = workspace()\n    s = Stack('STACK', w, st_mod.StackInitMode.SELECT)\n    CMDS.clear()\n    attempt(lambda: {ex})\n")
    for i, (nm, ex) in enumerate(SHOWN):
        src.append(f"def p{i}():\n    show(lambda: {ex.format('True')})\n")
    text = "\n".join(src)

    def setting(fn, m, lab, ex):
        where = ctx.at(f"pulumi.automation._local_workspace.LocalWorkspace.{m}")
        w = world(ctx, text)
        rs, exs = w.run(fn)
        ended(ctx, w, "secret-flag", f"{m}: {lab}", where, rs)
        for s, v in rs:
            if s.ghost("raised"):
                ctx.ob(None, "secret-flag", f"{m}: {lab}", where, f"raises {excname(s, s.ghost('raised'))}")
                continue
            got = {}
            clear = True
            for argv, cwd, env in cmds(w, s):
                clear &= all(isinstance(x, str) for x in argv)
                got.update(stored(argv))
            want = {"p:k": ("$V", lab == "secret")}
            if m == "set_all_config":
                want.update({"p:other": ("x", lab != "secret"), "p:third": ("y", False)})
            for k in want:
                ctx.ob(got.get(k) == want[k] or (None if not clear else False), "secret-flag", f"{m}: {lab}: {k}", where,
                       f"{k} must be stored as {'secret' if want[k][1] else 'plain'} text, but {'is not stored' if k not in got else f'is stored as {got[k]}'}; commands {[c[0] for c in cmds(w, s)]}")
            for k in got:
                ctx.ob(k in want, "secret-flag", f"{m}: {lab}: {k}", where, f"stores {k}, which was not given")
        ctx.absorb(w)
        ctx.paths += len(rs)

    def reading(i, ex, owner, want):
        where = ctx.at("pulumi.automation." + ("_stack." if owner.startswith("Stack") else "_local_workspace.") + owner)
        w = world(ctx, text)
        rs, exs = w.run(f"r{i}")
        ended(ctx, w, "flag-read-back", ex, where, rs)
        for s, v in rs:
            if s.ghost("raised"):
                ctx.ob(None, "flag-read-back", ex, where, f"raises {excname(s, s.ghost('raised'))}")
                continue
            got = w.py(s, s.ghost("result"))
            for p, a, b in differ(got, want):
                ctx.ob(None if isinstance(a, tuple) and a[:1] == ("?",) or isinstance(a, Atom) else False, "flag-read-back", f"{ex}: {p}", where, f"{p} is {a!r}, the CLI said {b!r}")
            if not differ(got, want):
                ctx.ob(True, "flag-read-back", ex, where, "")
        ctx.absorb(w)
        ctx.paths += len(rs)

    def shown(i, nm, ex):
        w = world(ctx, text)
        rs, exs = w.run(f"p{i}")
        cls = {"C": "_config.ConfigValue", "O": "_output.OutputValue", "U": "_stack.UpdateSummary"}.get(nm[0], "_stack.UpdateSummary")
        where = ctx.at(f"pulumi.automation.{cls}.__init__")
        ended(ctx, w, "not-printed", nm, where, rs)
        for s, v in rs:
            f = w.py(s, s.ghost("forms"))
            for x in f if isinstance(f, list) else [None]:
                ctx.ob("PLAINTEXT" not in x if isinstance(x, str) else None, "not-printed", nm, where, f"the printable form is {x!r}")
        ctx.absorb(w)
        ctx.paths += len(rs)
    for a in sets:
        ctx.scenario("secret-flag", f"{a[1]}: {a[2]}", "", lambda a=a: setting(*a))
    for i, ex in enumerate(READ):
        ctx.scenario("flag-read-back", ex, "", lambda a=(i, ex, *READ[ex]): reading(*a))
    for i, (nm, ex) in enumerate(SHOWN):
        ctx.scenario("not-printed", nm, "", lambda a=(i, nm, ex): shown(*a))


def stored(argv):
    """the configuration values a command stores: key -> (text, secret)"""
    if argv[1:3] == ["config", "set"]:
        head = before_dd(argv)
        pos = [x for x in without_values(head[3:], {"--stack"}) if not x.startswith("-")] + argv[len(head) + 1:]
        return {pos[0]: (pos[1], "--secret" in head)} if len(pos) == 2 else {}
    if argv[1:3] == ["config", "set-all"]:
        out = {}
        for flag, kv in zip(argv, argv[1:]):
            if flag in ("--secret", "--plaintext") and isinstance(kv, str) and "=" in kv:
                k, v = kv.split("=", 1)
                out[k] = (v.strip("{}"), flag == "--secret")
        return out
    return {}


def without_values(argv, flags):
    out, skip = [], False
    for x in argv:
        if skip:
            skip = False
        elif x in flags:
            skip = True
        else:
            out.append(x)
    return out


def differ(got, want, path=""):
    """[(path, got, wanted)] where two pieces of python data are not the same"""
    if isinstance(want, dict) and isinstance(got, dict):
        out = []
        for k in list(want) + [k for k in got if k not in want]:
            if k not in got:
                out.append((f"{path}.{k}", "missing", want[k]))
            elif k not in want:
                if got.get("__class__") is None:
                    out.append((f"{path}.{k}", got[k], "nothing"))
            else:
                out += differ(got[k], want[k], f"{path}.{k}")
        return out
    if isinstance(want, list) and isinstance(got, list):
        if len(got) != len(want):
            return [(path, got, want)]
        return [d for i, (a, b) in enumerate(zip(got, want)) for d in differ(a, b, f"{path}[{i}]")]
    return [] if type(got) is type(want) and got == want else [(path or "the value", got, want)]


# ------------------------------------------------------------------------------------------------ C26: nothing is left behind
FAULTS = ["creating a temporary directory", "opening a file", "writing", "starting a thread", "binding a port", "running the CLI"]
HOOKS = '''
def prog():
    pass
def on_event(e):
    vx.note("event", e)
def bad_event(e):
    raise ValueError("the callback")
def on_output(t):
    vx.note("output", t)
def bad_output(t):
    raise ValueError("the callback")
'''
ENDED = ["SUMMARY\n", "CANCEL\n"]  # (an event log that was finished)


def c26(ctx):
    ctx.explanation = ("Every operation is run with every combination of callbacks and inline program, with each acquisition and each command failing in turn, with raising callbacks and with event logs that end "
                       "before the cancel event; everything acquired (temporary files and directories, threads, servers, processes) must have been released when the call returns or raises.")
    jobs, src = [], [HOOKS]

    def add(lab, where, expr, pre="", fault=None, logs=ENDED):
        fn = f"t{len(jobs)}"
        src.append(f"def {fn}():\n    w = workspace()\n    s = Stack('STACK', w, st_mod.StackInitMode.SELECT)\n    CMDS.clear()\n    HELD.clear()\n    GONE.clear()\n    ARMED[0] = True\n{pre}    attempt(lambda: {expr})\n")
        jobs.append((fn, lab, where, fault, logs))
    for op in OPS:
        where = ctx.at(f"pulumi.automation._stack.Stack.{op}")
        f = ctx.prog.find(f"pulumi.automation._stack.Stack.{op}")
        names = {a.arg for a in f.args.args}
        forms = [("", "")] + [(" with events", "on_event=on_event")] if "on_event" in names else [("", "")]
        if "program" in names:
            forms += [(" with a program", "program=prog"), (" with a program and events", "program=prog, on_event=on_event")]
        for lab, args in forms:
            ex = f"s.{op}({args})"
            add(f"{op}{lab}", where, ex)
            add(f"{op}{lab}, the log never ends", where, ex, logs=["SUMMARY\n"])
            add(f"{op}{lab}, nothing is logged", where, ex, logs=[])
            for n in (1, 2, 3, 4):
                add(f"{op}{lab}, command {n} fails", where, ex, pre=f"    FAILAT[0] = {n}\n")
            add(f"{op}{lab}, command 1 fails before anything is logged", where, ex, pre="    FAILAT[0] = 1\n", logs=[])
            for fault in FAULTS:
                add(f"{op}{lab}, {fault} fails", where, ex, fault=fault)
            if "on_output" in names:
                add(f"{op}{lab}, on_output raises", where, f"s.{op}({args}{', ' if args else ''}on_output=bad_output)", pre="    RAWOUT[0] = b'a line'\n", logs=[])
            if "on_event" in args:
                add(f"{op}{lab}, on_event raises", where, ex.replace("=on_event", "=bad_event"))
    for lab, ex, f, scoped in calls(ctx):
        if ex is None or f.name in OPS:
            continue
        where = ctx.loc(f)
        add(lab, where, ex)
        add(f"{lab}, the command fails", where, ex, pre="    FAILAT[0] = 1\n")
        add(f"{lab}, the second command fails", where, ex, pre="    FAILAT[0] = 2\n")
        for fault in FAULTS:
            add(f"{lab}, {fault} fails", where, ex, fault=fault)
    text = "\n".join(src)

    def go(fn, lab, where, fault, logs):
        w = world(ctx, text)
        w.logs = list(logs)
        if fault:
            w.e.fault = lambda e, desc, node, st: desc == fault
            w.e.fault_only = True
        rs, exs = w.run(fn)
        ended(ctx, w, "released", lab, where, rs)
        for s, v in rs:
            left = w.py(s, s.ghost("left")) if s.ghost("left") else None
            known = isinstance(left, list) and all(isinstance(x, str) for x in left)
            how = "returning" if not s.ghost("raised") else f"raising {excname(s, s.ghost('raised'))}"
            ctx.ob(not left if known else None, "released", lab, where, f"after {how}, still there: {', '.join(left) if known else left}")
        ctx.absorb(w)
        ctx.paths += len(rs)
    for a in jobs:
        ctx.scenario("released", a[1], a[2], lambda a=a: go(*a))
