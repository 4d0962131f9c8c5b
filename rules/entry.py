"""C35: the executable the language host starts.

The script's own statements are analysed as a program: a stand-in for the argument parser hands it a command line such as
the Go host builds (the flags are read from the host's source), the user's program is a small program ending in each of
the ways a program can end, and the exit status, the messages logged at error severity and the configuration the program
sees are compared with the command line and with the host's constants."""
import ast
import re
from pathlib import Path
from sa.dom import *
from sa.engine import Args
from . import outbound as O
from .combinators import excname
from .hierarchy import HARNESS, Engine, text, newurn
from .rootstack import plain, same

SCRIPT = "sdk/python/cmd/pulumi-language-python-exec"
HOST = "sdk/python/cmd/pulumi-language-python/main.go"
PARSER = '''
class VxNs:
    pass
class VxGroup:
    def __init__(self, d):
        self.d = d
    def add_argument(self, *names, **kw):
        self.d.append((names, kw))
class VxParser:
    def __init__(self, *a, **kw):
        self.d = []
    def add_argument(self, *names, **kw):
        self.d.append((names, kw))
    def add_argument_group(self, *a, **kw):
        return VxGroup(self.d)
    def parse_args(self, args=None, namespace=None):
        ns = VxNs()
        for names, kw in self.d:
            dest = None
            given = False
            v = kw.get("default")
            for n in names:
                if n in LINE:
                    v = LINE[n]
                    given = True
                if n.startswith("--"):
                    dest = n[2:].replace("-", "_")
                elif not n.startswith("-"):
                    dest = n
            if "dest" in kw:
                dest = kw["dest"]
            if given and kw.get("type") is not None:
                v = kw["type"](v)
            if not given and kw.get("nargs") == "*" and v is None:
                v = []
            setattr(ns, dest, v)
        return ns
    def parse_known_args(self, args=None, namespace=None):
        return (self.parse_args(), [])
'''
LINE = {"--monitor": "127.0.0.1:41", "--engine": "127.0.0.1:42", "--project": "proj", "--stack": "stk", "--parallel": "7", "--dry_run": "true",
        "--organization": "org", "--pwd": "/work/dir", "PROGRAM": "prog.py", "ARGS": ["a1", "a2"]}
# how the user's program ends: (statements, is the run a failure, who has to be told)
ENDS = {
    "returns": ("pass", False), "registers": ('Cus("k:m:T", "r")', False), "exports": ('pulumi.export("o", 1)', False),
    "run-error": ('raise pulumi.RunError("went wrong")', "went wrong"), "run-error-subclass": ('raise Mine("went wrong")', "went wrong"),
    "value-error": ('raise ValueError("x")', True), "own-error": ('raise Own("x")', True), "key-error": ('raise KeyError("x")', True),
    "type-error": ('raise TypeError("x")', True), "runtime-error": ('raise RuntimeError("x")', True), "stop": ('raise StopIteration("x")', True),
    "import-error": ('raise ImportError("x")', True), "timeout": ("raise asyncio.TimeoutError()", True), "os-error": ('raise OSError("x")', True),
    "assertion": ("assert False", True),
    "registers-then-raises": ('Cus("k:m:T", "r")\n    raise ValueError("x")', True),
    "in-callback": ("done(1).apply(lambda x: boom())", True), "in-callback-run-error": ("done(1).apply(lambda x: stop())", "stopped"),
    "in-second-callback": ("done(1).apply(lambda x: done(x).apply(lambda y: boom()))", True),
}


def parts(repo):
    src = Path(repo, SCRIPT).read_text()
    tree = ast.parse(src)
    pre, main = [], None
    for n in tree.body:
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            main = n
        else:
            pre.append(n)
    return src, tree, pre, main


def c35(ctx):
    ctx.explanation = ("The statements of the executable the language host starts are analysed with a command line such as the host builds and user "
                       "programs ending in each way a program can end; exit status, logged errors and the configuration seen are compared.")
    repo = ctx.prog.repo
    src, tree, pre, main = parts(repo)
    wh = f"{SCRIPT}:{main.lineno if main else 1} (main)"
    go = Path(repo, HOST).read_text()
    m = re.search(r"pythonProcessExitedAfterShowingUserActionableMessage\s*=\s*(\d+)", go)
    shown = int(m.group(1)) if m else None
    flags = re.findall(r'maybeAppendArg\("(\w+)"', go)
    ctx.ob(True if shown and flags and main else None, "host", "constants", wh, "the flags or the exit status of the language host were not found")
    if main is None:
        return
    # every flag the host passes is accepted by the executable
    have = {a.value for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument"
            for a in n.args if isinstance(a, ast.Constant)}
    dyn = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr == "parse_known_args" or n.func.attr == "add_argument" and not
              all(isinstance(a, ast.Constant) for a in n.args)) for n in ast.walk(tree))
    for f in flags:
        ok = "--" + f in have
        ctx.ob(True if ok else None if dyn else False, "flag-accepted", f, wh, "" if ok else f"the language host passes --{f}, which the executable does not accept")

    def stand_in(text):
        return re.sub(r"(?<![\w.])(argparse\.)?ArgumentParser\b", "VxParser", re.sub(r"^from argparse import .*$", "pass", text, flags=re.M))

    def source(user, line, tail=""):
        head = "\n".join(ast.unparse(n) for n in pre)
        body = "\n".join("    " + x for n in main.body for x in ast.unparse(n).splitlines())
        return (HARNESS + PARSER + f"LINE = {line!r}\nVX_SEEN = []\n" + '''
class Own(Exception):
    pass
class Mine(pulumi.RunError):
    pass
async def fut(x):
    return x
def done(x):
    return Output(set(), fut(x), fut(True), fut(False))
def boom():
    raise LookupError("x")
def stop():
    raise pulumi.RunError("stopped")
''' + f"def vx_user(path, run_name=None):\n    VX_SEEN.append([path, run_name])\n    {user}\n    return {{}}\n" + tail + "\n"
            + stand_in(head) + "\ndef vx_entry():\n" + stand_in(body) + "\ndef vx_seen():\n    return VX_SEEN\n")

    def start(src):
        w = ctx.world(src, lambda s: Engine(s, fixed={"supports_secrets": True, "supports_resourceReferences": True, "supports_outputValues": True}))
        mo = w.e.models
        for k in [k for k in mo if k.startswith("pulumi.log.")] + ["pulumi.runtime.settings.is_dry_run"]:
            mo.pop(k, None)
        w.e.MAXSTEPS = 1500000

        def exit_(e, st, args, node):
            v = args.get(0)
            e.raise_(st, V(e.newinst(st, node, Ext("SystemExit"), {"args": V(e.newlist(st, node, (v,) if v else (), kind="tuple")), "code": v or VNONE})))
            return []
        mo["sys.exit"] = mo["exit"] = mo["quit"] = mo["os._exit"] = exit_
        mo["runpy.run_path"] = lambda e, st, args, node: e.call(V(e.fn(f"{w.hname}.vx_user")), args, st, node)
        mo["os.getenv"] = mo["os.environ.get"] = lambda e, st, args, node: [(st, args.get(1, "default", VNONE))]

        def chdir(e, st, args, node):
            st.set_ghost("cwd", args.get(0))
            return [(st, VNONE)]
        mo["os.chdir"] = chdir
        mo["grpc.insecure_channel"] = lambda e, st, args, node: [(st, V(Sym("channel:" + str(next((a.v for a in args.get(0) if isinstance(a, K)), None)), "any")))]

        def stub(kind):
            def f(e, st, args, node):
                st.set_ghost("channel-" + kind, args.get(0))
                return [(st, V(Sym(kind, "stub")))]
            return f
        mo["pulumi.runtime.proto.resource_pb2_grpc.ResourceMonitorStub"] = stub("monitor")
        mo["pulumi.runtime.proto.engine_pb2_grpc.EngineStub"] = stub("engine")
        mo["pulumi.runtime.config.get_config_env"] = lambda e, st, args, node: [(st, V(e.newdict(st, node, {K("p:k"): V(K("v")), K("p:s"): V(K("hush"))})))]
        mo["pulumi.runtime.config.get_config_secret_keys_env"] = lambda e, st, args, node: [(st, V(e.newlist(st, node, (V(K("p:s")),))))]
        return w

    def code(st, x):
        """the exit status of an escaping exception; ... when it is not definite"""
        if excname(st, x) != "SystemExit":
            return None
        for a in x:
            h = st.heap[a.key]
            v = h.f.get("code", EMPTY)
            if not v:
                t = h.f.get("args", EMPTY)
                for b in t:
                    g = st.heap.get(b.key) if isinstance(b, Ref) else None
                    v = g.items[0] if g is not None and g.items else v
            c = next(iter(v)) if len(v) == 1 else None
            return c.v if isinstance(c, K) else ...

    for lab, (body, fails) in ENDS.items():
        def go2(lab=lab, body=body, fails=fails):
            w = start(source(body, LINE))
            rs, exs = w.run("vx_entry", drain=False)
            ends = [(s, 0) for s, v in rs] + [(s, code(s, x)) for s, x in exs]
            if not ends:
                ctx.ob(None, "exit-status", lab, wh, "no end of the run was found")
            for s, c in ends:
                if c is ...:
                    ctx.ob(None, "exit-status", lab, wh, "the exit status could not be determined")
                    continue
                if not fails:
                    ok = c == 0 and c is not None
                    ctx.ob(ok, "exit-status", lab, wh, "" if ok else f"a program that completes ends with status {c!r}")
                    continue
                ok = c not in (0, None)
                want = (shown,) if fails is True else (1, shown)
                ctx.ob(ok and c in want, "exit-status", lab, wh, "" if ok and c in want else
                       f"a failing program ends with status {c!r}, expected {' or '.join(map(str, want))}")
            errs = [(st, fl) for st, _, fl, _ in O.requests(w, "Log") if severity(fl.get("severity")) in ("ERROR", None)]
            sure = [f for _, f in errs if severity(f.get("severity")) == "ERROR"]
            if not fails:
                ctx.ob(not sure if not errs or sure else None, "error-logged", lab, wh, "an error is reported for a program that completes" if sure else "")
            else:
                ctx.ob(True if sure else None if errs else False, "error-logged", lab, wh, "" if sure else "the failure is not reported to the engine")
                if isinstance(fails, str) and sure:
                    msgs = [text(f.get("message")) for f in sure]
                    ok = True if any(x is not None and fails in x for x in msgs) else None if None in msgs else False
                    ctx.ob(ok, "error-logged", lab + ":text", wh, "" if ok else f"the error reported is {msgs!r} and does not carry the message of the exception")
            if "registers" in lab:
                n = [1 for _, _, fl, _ in O.requests(w, "RegisterResource") if text(fl.get("name")) == "r"]
                ctx.ob(bool(n), "outstanding-awaited", lab, wh, "" if n else "the process ends before a registration the program made is sent")
            ctx.absorb(w)
        ctx.scenario("exit-status", lab, wh, go2)

    ASK = ("[pulumi.get_project(), pulumi.get_stack(), pulumi.get_organization(), pulumi.runtime.is_dry_run(), settings.SETTINGS.parallel, sys.argv, "
           "pulumi.Config(\"p\").get(\"k\"), pulumi.runtime.is_config_secret(\"p:s\"), pulumi.runtime.is_config_secret(\"p:k\")]")
    NAMES = ["project", "stack", "organization", "dry_run", "parallel", "arguments", "configuration", "secret key", "plain key"]
    base = ["proj", "stk", "org", True, 7, ["prog.py", "a1", "a2"], "v", True, False]
    for lab, ch, exp in [("full", {}, {}), ("update", {"--dry_run": "false"}, {3: False}), ("serial", {"--parallel": "1"}, {4: 1}), ("unlimited", {"--parallel": "0"}, {4: 0}),
                         ("no-arguments", {"ARGS": []}, {5: ["prog.py"]}), ("directory", {"PROGRAM": "."}, {5: [".", "a1", "a2"]}), ("no-pwd", {"--pwd": None}, {}),
                         ("names", {"--project": "P-1", "--stack": "dev/x", "--organization": "acme"}, {0: "P-1", 1: "dev/x", 2: "acme"})]:
        def go3(lab=lab, ch=ch, exp=exp):
            line = {k: v for k, v in {**LINE, **ch}.items() if v is not None}
            w = start(source(f"VX_SEEN.append({ASK})", line, "import sys\n"))
            rs, exs = w.run("vx_entry", drain=False)
            ends = [s for s, v in rs] + [s for s, x in exs]
            for s0 in ends:
                for s, sv in w.e.call(V(w.e.fn(f"{w.hname}.vx_seen")), Args(), s0, "seen"):
                    t = w.tree(s, sv)
                    if t[0] != "list" or t[2] or len(t[1]) != 2 or t[1][1][0] != "list" or len(t[1][1][1]) != len(NAMES):
                        ctx.ob(False if t[0] == "list" and not t[2] and len(t[1]) in (0, 1) else None, "configuration", lab, wh, "the program is not run, or fails asking for its configuration")
                        continue
                    ran = plain(t[1][0])
                    ok = None if ran is ... else ran == [line["PROGRAM"], "__main__"]
                    ctx.ob(ok, "configuration", f"{lab}:program", wh, "" if ok else f"the program is run as {ran!r}")
                    for i, (n, x) in enumerate(zip(NAMES, t[1][1][1])):
                        got, want = plain(x), exp.get(i, base[i])
                        ok = None if got is ... else same(got, want)
                        ctx.ob(ok, "configuration", f"{lab}:{n}", wh, "" if ok else f"the program sees {n} {got!r}, expected {want!r}")
                cwd = text(s0.ghost("cwd")) if s0.ghost("cwd") else None
                ok = cwd == line.get("--pwd") if not s0.ghost("cwd") or cwd is not None else None
                ctx.ob(ok, "configuration", f"{lab}:directory", wh, "" if ok else f"the program runs in {cwd!r}, expected {line.get('--pwd')!r}")
                for kind in ("monitor", "engine"):
                    g = s0.ghost("channel-" + kind)
                    a = next(iter(g)) if len(g) == 1 else None
                    want = "channel:" + line["--" + kind]
                    ok = a.name == want if isinstance(a, Sym) and a.name.startswith("channel:") else None
                    ctx.ob(ok, "configuration", f"{lab}:{kind}", wh, "" if ok else f"the {kind} is reached through {a}, expected {want}")
            if not ends:
                ctx.ob(None, "configuration", lab, wh, "no end of the run was found")
            ctx.absorb(w)
        ctx.scenario("configuration", lab, wh, go3)


def severity(v):
    """name of a log severity, None when not definite"""
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    if isinstance(a, Ext):
        return a.key.split(".")[-1]
    if isinstance(a, K):
        return {0: "DEBUG", 1: "INFO", 2: "WARNING", 3: "ERROR"}.get(a.v)
    return None
