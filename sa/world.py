"""Scenarios: small client programs (source text, parsed and analysed with the SDK, never executed) plus the
intrinsics they use to introduce unknown values, and helpers to read the abstract results."""
import itertools
from .dom import *
from .engine import Engine, Args, Unsupported, Budget
from .prog import Program, AnchorMissing

_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


_n = itertools.count()


def kstr(v, default=None):
    if v and len(v) == 1:
        (a,) = v
        if isinstance(a, K):
            return a.v
    return default


class World:
    MAXSTEPS = 400000
    VALKIND = "leaf"

    def __init__(self, src="", prog=None):
        self.prog = prog or program()
        self.hname = f"vxh{next(_n)}"
        if src:
            self.prog.add_source(self.hname, src)
        self.e = e = Engine(self.prog)
        e.MAXSTEPS = self.MAXSTEPS
        e.models["pulumi.runtime.settings.is_dry_run"] = lambda e, st, a, n: [(st, V(Sym("dry_run", "bool", frozenset())))]
        e.models["pulumi.runtime.settings.monitor_supports_feature"] = self._supports()
        for nm in dir(self):
            if nm.startswith("vx_"):
                e.models["vx." + nm[3:]] = getattr(self, nm)
        e.sym_call = self.sym_call
        self.rpcs = []
        self.snaps = {}
        self.sym_results = {}
        self.st = e.start(self.hname if src else "pulumi")

    def _supports(self):
        def m(e, st, args, node):
            v = args.get(0, "feature", EMPTY)
            key = "supports_" + str(kstr(v, "feature"))
            sy = V(Sym(key, "bool", frozenset()))
            c = e.alloc(st, node, HO("coro", meta=("model", lambda eng, s, nn: [(s, sy)], e.ctx)))
            return [(st, V(c))]
        return m

    def sym_call(self, e, st, f, d, args, node):
        if isinstance(f, Sym) and f.name in self.sym_results:
            return self.sym_results[f.name](e, st, args, node)
        return None

    # ---------------------------------------------------------------- intrinsics
    def vx_sym(self, e, st, args, node):
        return [(st, V(Sym(kstr(args.get(0)), kstr(args.get(1)))))]

    def vx_leaf(self, e, st, args, node):
        return [(st, V(Sym(kstr(args.get(0)), "leaf")))]

    def vx_obj(self, e, st, args, node):
        """an instance of an SDK class with nothing known about it but the given fields"""
        cls = next(iter(args.get(0)))
        f = {k: v for k, v in args.kw.items()}
        return [(st, V(e.newinst(st, node, cls, f)))]

    def vx_out(self, e, st, args, node):
        n = kstr(args.get(0))
        return [(st, V(self.mkout(st, n, args.get(1), args.kw.get("deps"), args.kw.get("secret"), args.kw.get("known"))))]

    def vx_choice(self, e, st, args, node):
        return [(st.copy(), p) for p in args.pos]

    def vx_note(self, e, st, args, node):
        t = kstr(args.get(0))
        st.set_ghost(t, st.ghost(t) | V(*(a for p in args.pos[1:] for a in p)) if len(args.pos) > 1 else V(TRUE))
        return [(st, VNONE)]

    def vx_watch(self, e, st, args, node):
        """remember what the object (and the containers in it) look like now; see `changed`"""
        n = f"snap{len(self.snaps)}"
        self.snaps[n] = snap = {}

        def walk(v, path):
            for a in v:
                h = st.heap.get(a.key) if isinstance(a, Ref) else None
                if h is None or a.key in snap or not self.watchable(h):
                    continue
                snap[a.key] = (path, h)
                for k, x in h.f.items():
                    walk(x, f"{path}.{k.v if isinstance(k, K) else k}")
                for i, x in enumerate(h.items):
                    walk(x, f"{path}[{i}]")
        walk(args.get(1), kstr(args.get(0)))
        st.set_ghost("watched", st.ghost("watched") | V(K(n)))
        return [(st, args.get(1))]

    def watchable(self, h):
        if h.kind in ("list", "set", "dict", "tuple", "deque"):
            return True
        return h.kind == "inst" and isinstance(h.cls, Cls) and not any(
            isinstance(c, Cls) and c.node.name in ("Output", "Resource", "Unknown", "Workspace") for c in self.e.mro(h.cls))

    def changed(self, s):
        """the watched objects a path has changed: [(path, before, after)]"""
        out = []
        for a in s.ghost("watched"):
            for key, (path, h) in self.snaps[a.v].items():
                n = s.heap.get(key)
                if n is not None and not n.same(h):
                    out.append((path, h, n))
        return out

    def vx_pump(self, e, st, args, node):
        """everything that can run has run"""
        return [(s, VNONE) for s in e.drain(st, node)]

    def mkout(self, st, name, val=None, deps=None, secret=None, known=None):
        e = self.e
        c = Cls(self.prog.find("pulumi.output.Output"))
        secret = secret or V(Sym(name + ".secret", "bool", frozenset()))
        known = known or V(Sym(name + ".known", "bool", frozenset()))
        dl = deps
        if dl is None:
            dl = V(e.newlist(st, name + ".rl", [self.mkdep(st, name + ".dep")], kind="set"))
        return e.newinst(st, name, c, {
            "__name": V(K(name)),
            "_is_secret": V(e.future(st, name + ".s", secret)), "_is_known": V(e.future(st, name + ".k", known)),
            "_future": V(e.future(st, name + ".v", val or V(Sym(name + ".value", self.VALKIND)))),
            "_resources": V(e.future(st, name + ".r", dl))})

    def mkdep(self, st, name):
        return V(Sym(name, "obj:pulumi.resource.Resource"))

    # ---------------------------------------------------------------- running
    def run(self, fn, *args, drain=True):
        """-> ([(state, V)], [(state, exc V)])"""
        e = self.e
        name = fn if "." in fn else f"{self.hname}.{fn}"
        rs, ex = e.run(name, Args(list(args)), self.st.copy())
        if not drain:
            return rs, ex
        out = []
        for s, v in rs:
            e.sink = []
            for s2 in e.drain(s):
                out.append((s2, v))
        return out, ex

    def wait(self, s, v):
        """await a value in a state: ([(state, V)], [(state, exc)])"""
        e = self.e
        return e.with_sink(lambda: e.await_(v, s.copy(), None))

    def setsite(self, s, v):
        for a in v:
            if isinstance(a, Ref) and s.heap[a.key].kind == "future":
                return s.heap[a.key].meta
        return None

    def osum(self, s, v):
        """Output object -> list of dict(state, secret, known, value, exc, deps, ref)"""
        out = []
        for a in v:
            if not (isinstance(a, Ref) and s.heap[a.key].kind == "inst" and self.e.is_subclass(s.heap[a.key].cls, Cls(self.prog.find("pulumi.output.Output")))):
                out.append({"state": s, "bad": a})
                continue
            cur = [(s, {"ref": a})]
            for f in ("_is_secret", "_is_known", "_resources", "_future"):
                nxt = []
                for st, d in cur:
                    fv = st.heap[a.key].f.get(f, EMPTY)
                    b0 = len(self.e.blocked)
                    rs, ex = self.wait(st, fv)
                    for s2, x in rs:
                        nxt.append((s2, {**d, f: x, f + "@": self.setsite(s2, fv)}))
                    for s2, x in ex:
                        nxt.append((s2, {**d, f: None, f + "!": x}))
                    if len(self.e.blocked) > b0:
                        nxt.append((st, {**d, f: None, f + "!": "never settles"}))
                cur = nxt
            for st, d in cur:
                d["state"] = st
                out.append(d)
        return out

    def deps(self, s, v):
        """dependency names in a set value -> (names, definite?)"""
        names, definite = set(), True
        for a in v or ():
            if isinstance(a, Ref) and s.heap[a.key].kind in LISTS:
                h = s.heap[a.key]
                for it in h.items + ((h.rest,) if h.rest else ()):
                    for x in it:
                        if isinstance(x, Sym):
                            names.add(x.name)
                        elif isinstance(x, Ref):
                            names.add(self.e.sname(x, s))
                        else:
                            definite = False
            else:
                definite = False
        return names, definite
