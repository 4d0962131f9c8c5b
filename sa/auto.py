"""The automation API's surroundings: a CLI, a file system, temporary files, threads and servers that only record what is
done with them, written as small Python classes which are analysed together with the SDK (never executed)."""
import json
from .dom import *
from .engine import Args
from .world import kstr
from .wire import WireWorld

FAKES = '''
import os
import pulumi
from pulumi import automation as auto
from pulumi.automation import _stack as st_mod
from pulumi.automation import LocalWorkspace, LocalWorkspaceOptions, Stack, ProjectSettings, StackSettings, ConfigValue, Deployment
from pulumi.automation import _cmd
import vx

CMDS = []          # the commands run: [argv, cwd, env]
FS = {}            # path -> content
HELD = []          # everything acquired: [kind, detail]
GONE = []          # everything released
CODE = [0]
ERR = [b""]
RAWOUT = [None]
FAILAT = [0]       # which command fails (0: as CODE says)

ARMED = [False]
def fault(what):
    if ARMED[0]:
        vx.fault(what)

def left():
    """what was acquired and not released"""
    out = []
    for kind, x in HELD:
        if x not in GONE:
            out.append(kind)
    return out

class Pipe:
    def __init__(self, lines):
        self.lines = lines
    def readline(self):
        if self.lines:
            return self.lines.pop(0)
        return b""
    def __iter__(self):
        return iter(self.lines)
    def read(self):
        return b"".join(self.lines)
    def close(self):
        pass

class Proc:
    def __init__(self, cmd, **kw):
        fault("running the CLI")
        env = kw.get("env")
        CMDS.append([list(cmd), kw.get("cwd"), None if env is None else dict(env)])
        HELD.append(["process", self])
        self.nth = len(CMDS)
        err = kw.get("stderr")
        if isinstance(err, TempFile):
            err.content = ERR[0]
        out = vx.answer(list(cmd)) if RAWOUT[0] is None else RAWOUT[0]
        self.out = out
        self.stdout = Pipe([out])
        self.stderr = Pipe([ERR[0]])
        self.returncode = None
        self.args = cmd
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        self.wait()
    def poll(self):
        return self.wait()
    def wait(self, timeout=None):
        self.returncode = 255 if FAILAT[0] == self.nth else CODE[0]
        GONE.append(self)
        return self.returncode
    def communicate(self, input=None, timeout=None):
        self.wait()
        return self.out, ERR[0]
    def kill(self):
        pass

def run_(cmd, **kw):
    p = Proc(cmd, **kw)
    p.wait()
    p.stdout = p.out
    p.stderr = ERR[0]
    return p

class TempFile:
    """an open (or closed) file; content is what was written last"""
    def __init__(self, name, delete=True, content=None):
        self.name = name
        self.delete = delete
        self.content = content
        self.closed = False
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        self.close()
    def close(self):
        self.closed = True
        if self.delete and self.name is not None:
            GONE.append(self.name)
    def seek(self, n):
        return n
    def flush(self):
        pass
    def fileno(self):
        return 3
    def read(self):
        return self.content
    def write(self, x):
        self.content = x
        FS[self.name] = x
    def readline(self):
        return vx.logline(self.name)
    def __iter__(self):
        return iter([])

class TempDir:
    def __init__(self, suffix=None, prefix=None, dir=None):
        fault("creating a temporary directory")
        self.name = vx.fresh("tempdir")
        HELD.append(["directory", self.name])
    def cleanup(self):
        GONE.append(self.name)
    def __enter__(self):
        return self.name
    def __exit__(self, t, v, tb):
        self.cleanup()

def temp_file(*a, **kw):
    return TempFile(None)
def named_temp(mode="w+b", delete=True, **kw):
    n = vx.fresh("tempfile")
    HELD.append(["file", n])
    FS[n] = None
    return TempFile(n, delete)
def mkstemp(*a, **kw):
    n = vx.fresh("tempfile")
    HELD.append(["file", n])
    return (3, n)
def mkdtemp(*a, **kw):
    return vx.fresh("workdir")
def remove(path):
    GONE.append(path)
def rmtree(path, *a, **kw):
    GONE.append(path)
def open_(path, mode="r", *a, **kw):
    fault("opening a file")
    if "w" in mode:
        FS[path] = ""
        return TempFile(path, False)
    if path in FS:
        return TempFile(path, False, FS[path])
    return TempFile(path, False, "")
def exists(path):
    return path in FS
def dump(obj, stream=None, *a, **kw):
    fault("writing")
    f = stream if stream is not None else a[0]
    f.write(["text of", vx.frozen(obj)])
def dumps(obj, *a, **kw):
    return ["text of", vx.frozen(obj)]
def load(f, *a, **kw):
    c = f.content if isinstance(f, TempFile) else f
    return vx.frozen(c[1])
def loads(x, *a, **kw):
    if isinstance(x, list):
        return vx.frozen(x[1])
    return vx.parse(x)

class Event:
    def __init__(self):
        self.flag = False
    def set(self):
        self.flag = True
    def clear(self):
        self.flag = False
    def is_set(self):
        return self.flag and vx.allwritten()
    def wait(self, timeout=None):
        return self.flag and vx.allwritten()
class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = kwargs or {}
        self.daemon = daemon
        self.joined = False
        self.started = False
    def start(self):
        fault("starting a thread")
        self.started = True
        HELD.append(["thread", self])
    def run(self):
        self.target(*self.args, **self.kwargs)
    def join(self, timeout=None):
        if not self.started:
            raise RuntimeError("cannot join thread before it is started")
        if not self.joined and vx.thread(self.target, self.args):
            self.joined = True
            GONE.append(self)
    def is_alive(self):
        return not self.joined
class Server:
    def __init__(self):
        self.on = False
    def add_insecure_port(self, address):
        fault("binding a port")
        return vx.sym("port", "int")
    def add_generic_rpc_handlers(self, h):
        pass
    def start(self):
        self.on = True
        HELD.append(["server", self])
    def stop(self, grace=None):
        GONE.append(self)
        return Event()
    def wait_for_termination(self, timeout=None):
        pass
def server(*a, **kw):
    return Server()
def register(servicer, srv):
    pass
def executor(*a, **kw):
    return None
def strptime(text, fmt):
    vx.note("format", fmt)
    return ["time", text]
class Version:
    def __init__(self, text):
        self.text = text
        self.major = 3
    def compare(self, o):
        return 0
    def __str__(self):
        return self.text

def workspace(work_dir="WORKDIR", env_vars=None, pulumi_home=None, program=None, secrets_provider=None, **kw):
    os.environ = {"PATH": "p", "SHARED": "from the process"}
    ws = LocalWorkspace(work_dir=work_dir, pulumi_home=pulumi_home, program=program, env_vars=env_vars, secrets_provider=secrets_provider, **kw)
    CMDS.clear()
    return ws
def stack(name="STACK", **kw):
    s = Stack.create(name, workspace(**kw))
    CMDS.clear()
    return s
def done():
    vx.note("cmds", CMDS)
    vx.note("fs", FS)
    vx.note("held", HELD)
    vx.note("gone", GONE)
    vx.note("left", left())
def attempt(f):
    try:
        vx.note("result", f())
    except Exception as e:
        vx.note("raised", e)
        done()
        return None
    done()
'''
EXT = {"subprocess.Popen": "Proc", "subprocess.run": "run_", "tempfile.TemporaryFile": "temp_file", "tempfile.NamedTemporaryFile": "named_temp",
       "tempfile.TemporaryDirectory": "TempDir", "tempfile.mkstemp": "mkstemp", "tempfile.mkdtemp": "mkdtemp", "os.remove": "remove", "os.unlink": "remove",
       "shutil.rmtree": "rmtree", "open": "open_", "io.open": "open_", "os.path.exists": "exists", "os.path.isfile": "exists", "json.dump": "dump", "yaml.dump": "dump",
       "yaml.safe_dump": "dump", "json.dumps": "dumps", "json.load": "load", "json.loads": "loads", "yaml.safe_load": "load", "yaml.load": "load",
       "threading.Thread": "Thread", "threading.Event": "Event", "grpc.server": "server", "concurrent.futures.ThreadPoolExecutor": "executor",
       "datetime.datetime.strptime": "strptime", "semver.VersionInfo.parse": "Version", "semver.VersionInfo": "Version"}


class AutoWorld(WireWorld):
    """`answers`: {words of the command: what it prints (a name for structured data, see `data`)}"""

    def __init__(self, src="", fixed=None, answers=None, data=None):
        self.answers = {"version": "3.0.0", **(answers or {})}
        self.data = data or {}
        self.n = 0
        self.logs = []
        super().__init__(FAKES + src, fixed={"dry_run": False, **(fixed or {})})
        self.e.max_list = 48
        self.e.max_loop = 14
        m = self.e.models
        for ext, fake in EXT.items():
            m[ext] = self.fake(fake)
        c = lambda v: lambda e, st, a, n: [(st, V(K(v)))]
        m["os.getcwd"] = c("CWD")
        m["tempfile.gettempdir"] = c("TMP")
        m["os.path.join"] = self.join
        m["os.path.dirname"] = m["os.path.basename"] = m["os.path.abspath"] = lambda e, st, a, n: [(st, a.get(0))]
        m["time.sleep"] = lambda e, st, a, n: [(st, VNONE)]
        m["pulumi.runtime.proto.language_pb2_grpc.add_LanguageRuntimeServicer_to_server"] = self.fake("register")

    def fake(self, name):
        def m(e, st, args, node):
            mod = self.prog.mods[self.hname]
            return e.call(e.eval_in_module(self.hname, _name(e, self.prog, self.hname, name), st), args, st, node)
        return m

    def join(self, e, st, args, node):
        ks = [kstr(p) for p in args.pos]
        if None in ks:
            return [(st, V(Sym("join(" + ",".join(map(repr, args.pos)) + ")", "str")))]
        return [(st, V(K("/".join(ks))))]

    # ------------------------------------------------------------- intrinsics of the fakes
    def vx_fresh(self, e, st, args, node):
        self.n += 1
        return [(st, V(K(f"{kstr(args.get(0))}{self.n}")))]

    def vx_fault(self, e, st, args, node):
        if e.may_fault(kstr(args.get(0)), st, node):
            return []
        return [(st, VNONE)]

    def vx_frozen(self, e, st, args, node):
        from .lib import MODELS
        return MODELS["copy.deepcopy"](e, st, args, node)

    def words(self, st, v):
        for a in v:
            h = st.heap[a.key]
            return [kstr(x, "?") for x in h.items]

    def vx_answer(self, e, st, args, node):
        ws = self.words(st, args.get(0))[1:]
        best = ""
        for k in self.answers:
            if all(w in ws for w in k.split()) and len(k) > len(best):
                best = k
        out = self.answers.get(best, "")
        return [(st, V(K(out.encode("utf-8") if isinstance(out, str) else out)))]

    def vx_parse(self, e, st, args, node):
        """the structured data a text stands for"""
        out = []
        for a in args.get(0):
            t = a.v.decode() if isinstance(a, K) and isinstance(a.v, bytes) else a.v if isinstance(a, K) else None
            t = t.strip() if isinstance(t, str) else t
            if t in self.data:
                out.append((st, self.build(e, st, self.data[t], (node, t))))
            elif isinstance(t, str):
                try:
                    out.append((st, self.build(e, st, json.loads(t), (node, t))))
                except ValueError:
                    e.raise_new(st, "ValueError", node)
            else:
                out.append((st, V(Opq())))
        return out

    def vx_logline(self, e, st, args, node):
        n = st.ghost("lines")
        i = len(n)
        if i < len(self.logs):
            st.set_ghost("lines", n | V(K(i)))
            return [(st, V(K(self.logs[i])))]
        return [(st, V(K("")))]

    def vx_allwritten(self, e, st, args, node):
        """has everything been written to the log by now (no pause is left in it)?"""
        return [(st, V(K("" not in self.logs[len(st.ghost("lines")):])))]

    def vx_thread(self, e, st, args, node):
        """what the thread does until it ends; False where it never does"""
        base = st.copy()
        its, rest = e.elements(args.get(1), st, node)
        rs, ex = e.with_sink(lambda: e.call(args.get(0), Args(list(its)), st, node))
        out = [(s, VTRUE) for s, v in rs] + [(s, VTRUE) for s, x in ex]
        return out or [(base, VFALSE)]

    def build(self, e, st, x, tag):
        """python data -> abstract value; "$n" is an unknown text, "$n:int" an unknown number"""
        if isinstance(x, dict):
            return V(e.newdict(st, (tag, "j"), {K(k): self.build(e, st, y, (tag, k)) for k, y in x.items()}))
        if isinstance(x, list):
            return V(e.newlist(st, (tag, "j"), [self.build(e, st, y, (tag, i)) for i, y in enumerate(x)]))
        if isinstance(x, str) and x.startswith("$"):
            n, _, k = x[1:].partition(":")
            return V(Sym(n, k or "str"))
        return V(K(x))

    # ------------------------------------------------------------- reading results
    def plain(self, st, n):
        super().plain(st, n)

    def py(self, s, v):
        """abstract value -> python data ("$name" for unknowns, None for what is not known)"""
        def conv(t):
            if t[0] == "dict":
                return {k: conv(x) for k, x in t[1].items() if k not in t[2]}
            if t[0] == "list":
                return [conv(x) for x in t[1]] + ([("?", "more")] if t[2] else [])
            if t[0] == "inst":
                return {"__class__": getattr(getattr(t[1], "node", None), "name", str(t[1])), **{k: conv(x) for k, x in t[2].items()}}
            if t[0] == "atom":
                a = t[1]
                if isinstance(a, K):
                    return a.v
                if isinstance(a, Sym):
                    return "$" + a.name
                if isinstance(a, Cat):
                    return "".join(str(p.v) if isinstance(p, K) else "{" + ("$" + p.name if isinstance(p, Sym) else "?") + "}" for p in a.parts)
                return a
            return ("?", t[0])
        return conv(self.tree(s, v))


def _name(e, prog, mod, name):
    import ast
    n = ast.parse(name, mode="eval").body
    e.adopt(n, prog.mods[mod].tree.body[0])
    return n
