"""A trace-partitioning abstract interpreter for the Python subset used in the SDK.

It never executes code of /repo: it walks `ast` trees, computing over the finite domain of `dom`
(constants, unknown-but-fixed symbols, allocation-site heap objects, provenance labels).  States are kept
apart while there are few of them and joined when there are many; loops over summarised collections are
iterated to a fixpoint of the join (bounded, then widened).  Helpers are analysed in the calling context,
coroutines when awaited, so extracting, inlining or reordering code does not change what is computed.
"""
import ast
import re
import builtins as _b
import sys
from .dom import *
from . import protos
from .dom import _MISS
from .prog import Program, AnchorMissing

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Unsupported):
    pass


class Args:
    __slots__ = ("pos", "kw", "star", "kwstar")

    def __init__(self, pos=(), kw=None, star=EMPTY, kwstar=EMPTY):
        self.pos, self.kw, self.star, self.kwstar = list(pos), dict(kw or {}), star, kwstar

    def get(self, i, name=None, default=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.pos):
            return self.pos[i]
        if self.star:
            return self.star
        return default

    def all(self):
        r = list(self.pos) + list(self.kw.values())
        if self.star:
            r.append(self.star)
        if self.kwstar:
            r.append(self.kwstar)
        return r


class Out:
    __slots__ = ("normal", "ret", "brk", "cont")

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.ret, self.brk, self.cont = [], [], []


FDEFS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)

BUILTIN_NAMES = set(dir(_b))


def own_nodes(fn):
    """nodes of a function body, not descending into nested defs/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FDEFS + (ast.ClassDef,)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Engine:
    max_list = 16
    max_loop = 5
    LIMIT = 48
    MAXSTEPS = 600000
    MAXDEPTH = 90
    RECUR = 10

    def __init__(self, prog=None, lib=True):
        self.prog = prog or Program()
        self.fr = None
        self.sink = None
        self.steps = 0
        self.depth = 0
        self.active = {}
        self.ctx = ()
        self.ctx_ids = {}
        self.models = {}
        self.sym_call = None  # hook(engine, st, sym_or_ext_atom, args, node) -> list[(st,V)] | None
        self.sym_attr = None  # hook(engine, st, sym, attr) -> V | None
        self.on_mutate = None  # hook(engine, st, target_atom, what, node)
        self.inject, self.injected = None, 0  # functions whose every call fails (fault injection)
        self.fault = None  # pred(engine, desc, node, st) -> bool
        self.fault_only = False  # a fault always happens where the predicate holds
        self.curtask = []
        self.per_site = 12  # objects kept apart per allocation site and calling context; later ones share one
        self.shallow, self.waits = False, {}  # trying a task that must not wait; task -> the futures it was last seen to wait for
        self.blocked = []
        self.stuck = None  # tasks found to be waiting while another one is awaited
        self.escaped = []  # (task exc) never awaited
        self.visited = set()
        self.sites = set()
        self.joins = 0
        self._fninfo = {}
        self._marks = {}
        self._mro = {}
        self.exec_depth = 0
        self.yield_k = []
        self.path_hook = None
        self.sub_truth = None
        self.opaque_calls = set()
        self.warn = set()
        self._ev = {}
        if lib:
            from . import lib as L
            L.install(self)

    # ------------------------------------------------------------------ infra
    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("step budget exhausted")

    def ctxid(self):
        c = self.ctx_ids.get(self.ctx)
        if c is None:
            c = self.ctx_ids[self.ctx] = len(self.ctx_ids)
        return c

    def alloc(self, st, site, ho):
        key = (site if isinstance(site, str) else (type(site).__name__, getattr(site, "lineno", 0), id(site)), self.ctxid(), ho.kind)
        n = st.cnt.get(key, 0)
        if n < self.per_site:
            st.cnt[key] = n + 1
            oid = (key, n)
            st.heap[oid] = ho
        else:
            oid = (key, n)
            old = st.heap.get(oid)
            st.heap[oid] = ho if old is None else hjoin(old, ho)
        return Ref(oid)

    def new(self, st, kind, site, **kw):
        return self.alloc(st, site, HO(kind, **kw))

    def newlist(self, st, site, items=(), rest=EMPTY, kind="list"):
        return self.alloc(st, site, HO(kind, items=tuple(items), rest=rest))

    def newdict(self, st, site, f=None, rest=EMPTY, restk=EMPTY, kind="dict", opt=frozenset()):
        return self.alloc(st, site, HO(kind, f=dict(f or {}), rest=rest, restk=restk, opt=opt))

    def newinst(self, st, site, cls, f=None):
        return self.alloc(st, site, HO("inst", cls=cls, f=dict(f or {})))

    def future(self, st, site, value=None, exc=None, state="done"):
        return self.alloc(st, site, HO("future", f={"state": V(K(state)), "value": value or EMPTY, "exc": exc or EMPTY}))

    def raise_(self, st, exc):
        self.sink.append((st, exc))

    def raise_new(self, st, clsname, node=None, msg=None):
        e = self.newinst(st, node or clsname, Ext(clsname), {"args": V(msg) if msg else EMPTY})
        self.raise_(st, V(e))

    def merge_states(self, sts, limit=None):
        limit = limit or self.LIMIT
        if len(sts) <= 1:
            return sts
        out = []
        for s in sts:
            for o in out:
                if o.same(s):
                    break
            else:
                out.append(s)
        if len(out) > limit:
            self.joins += 1
            self.warn.add(f"join {len(out)}")
            j = out[0]
            for o in out[1:]:
                j = sjoin(j, o)
            return [j]
        return out

    def merge_vals(self, prs, limit=None):
        limit = limit or self.LIMIT
        if len(prs) <= 1:
            return prs
        out = []
        for s, v in prs:
            for i, (o, w) in enumerate(out):
                if v == w and o.same(s):
                    break
            else:
                out.append((s, v))
        if len(out) > limit:
            # join states that return the same value first, then everything
            self.joins += 1
            by = {}
            for s, v in out:
                by[v] = sjoin(by[v], s) if v in by else s
            out = [(s, v) for v, s in by.items()]
            if len(out) > limit:
                js, jv = out[0]
                for s, v in out[1:]:
                    js, jv = sjoin(js, s), vjoin(jv, v)
                out = [(js, jv)]
        return out

    def with_sink(self, f):
        """run f() collecting exceptions separately: returns (result, [(st,exc)])"""
        old, self.sink = self.sink, []
        try:
            r = f()
            return r, self.sink
        finally:
            self.sink = old

    # ------------------------------------------------------------------ functions info
    def fninfo(self, node):
        i = self._fninfo.get(node)
        if i is None:
            local, glob, nonl, nested, gen = set(), set(), set(), False, False
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                local.add(x.arg)
            if a.vararg:
                local.add(a.vararg.arg)
            if a.kwarg:
                local.add(a.kwarg.arg)
            for n in own_nodes(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    local.add(n.id)
                elif isinstance(n, ast.Global):
                    glob.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nonl.update(n.names)
                elif isinstance(n, FDEFS + (ast.ClassDef,)):
                    nested = True
                    if not isinstance(n, ast.Lambda):
                        local.add(n.name)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    gen = True
                elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    nested = True
            i = self._fninfo[node] = (local - glob - nonl, glob, nonl, nested, gen)
        return i

    def modname(self, node):
        return self.prog.node_mod[node].name

    # ------------------------------------------------------------------ names
    def frame_mod(self, st):
        return st.heap[self.fr].meta["mod"]

    def lookup(self, name, st, node):
        fo = self.fr
        while fo is not None:
            h = st.heap.get(fo)
            if h is None:
                break
            if name in h.f:
                return h.f[name]
            m = h.meta
            if m.get("glob") and name in m["glob"]:
                break
            fo = m["parent"]
        return self.lookup_global(self.frame_mod(st), name, st, node)

    def lookup_global(self, modname, name, st, node=None):
        oid = ("mod", modname)
        h = st.heap.get(oid)
        if h is not None and name in h.f:
            return h.f[name]
        r = self.prog.resolve(modname, name) if modname in self.prog.mods else None
        if r is None:
            if name in BUILTIN_NAMES:
                c = getattr(_b, name)
                if name in ("True", "False", "None"):
                    return V(K(c))
                return V(Ext(name))
            if name == "__name__":
                return V(K(modname))
            if name == "__file__":
                return V(Sym("__file__", "str"))
            return V(Opq())
        return self.from_resolution(r, name, st)

    def from_resolution(self, r, name, st):
        k = r[0]
        if k == "mod":
            return V(Mod(r[1]))
        if k == "ext":
            return V(self.canon_ext(r[1]))
        if k == "class":
            return V(Cls(r[2]))
        if k == "func":
            return self.decorate(r[2], Fn(r[2]), st, None)
        m, node = r[1], r[2]
        oid = ("mod", m.name)
        h = st.heap.get(oid) or HO("module")
        # every module-level binding of the name (there may be several branches)
        bound_name = None
        for n2, bl in m.bind.items():
            if any(b[1] is node for b in bl):
                if n2 == name:
                    bound_name = n2
                    break
        if bound_name is None:
            for n2, bl in m.bind.items():
                if any(b[1] is node for b in bl):
                    bound_name = n2
                    break
        if bound_name in h.f:
            return h.f[bound_name]
        st.heap[oid] = h.setf(bound_name, V(Opq()))  # cycle guard
        v = self.eval_in_module(m.name, node.value, st, node, bound_name)
        st.heap[oid] = st.heap[oid].setf(bound_name, v)
        return v

    def canon_ext(self, path):
        return Ext(EXT_ALIAS.get(path, path))

    def eval_in_module(self, modname, expr, st, assign=None, name=None):
        fo = ("modframe", modname)
        if fo not in st.heap:
            st.heap[fo] = HO("frame", meta={"parent": None, "mod": modname, "fn": None, "glob": None})
        old_fr, old_ctx, old_sink = self.fr, self.ctx, self.sink
        self.fr, self.ctx, self.sink = fo, ("module", modname), []
        try:
            try:
                res = self.ev(expr, st)
            except Unsupported:
                return V(Opq())
        finally:
            self.fr, self.ctx, self.sink = old_fr, old_ctx, old_sink
        if not res:
            return V(Opq())
        v = EMPTY
        for s, x in res:
            v = vjoin(v, x)
        s0 = res[0][0]
        if s0 is not st or len(res) > 1:
            j = s0
            for s, _ in res[1:]:
                j = sjoin(j, s)
            st.heap, st.facts, st.cnt = j.heap, j.facts, j.cnt
        if assign is not None and isinstance(assign, ast.Assign) and isinstance(assign.targets[0], (ast.Tuple, ast.List)):
            for i, t in enumerate(assign.targets[0].elts):
                if isinstance(t, ast.Name) and t.id == name:
                    r = EMPTY
                    for a in v:
                        if isinstance(a, Ref) and st.heap[a.key].kind in LISTS and i < len(st.heap[a.key].items):
                            r = vjoin(r, st.heap[a.key].items[i])
                        else:
                            r = vjoin(r, V(Opq(atom_labels(a))))
                    return r
        return v

    def setname(self, name, v, st, weak=False):
        h = st.heap[self.fr]
        m = h.meta
        if m.get("glob") and name in m["glob"]:
            oid = ("mod", m["mod"])
            g = st.heap.get(oid) or HO("module")
            st.heap[oid] = g.setf(name, v)
            return
        fo = self.fr
        if m.get("comp"):
            if m.get("compvars") and name in m["compvars"]:
                st.heap[fo] = h.setf(name, v)
                return
            while st.heap[fo].meta.get("comp"):
                fo = st.heap[fo].meta["parent"]
            h = st.heap[fo]
            m = h.meta
        if m.get("nonl") and name in m["nonl"]:
            p = m["parent"]
            while p is not None:
                hp = st.heap[p]
                if name in hp.f or (hp.meta.get("local") and name in hp.meta["local"]):
                    st.heap[p] = hp.setf(name, v)
                    return
                p = hp.meta["parent"]
        if fo[0] == "modframe":
            oid = ("mod", m["mod"])
            g = st.heap.get(oid) or HO("module")
            st.heap[oid] = g.setf(name, v)
            return
        st.heap[fo] = h.setf(name, v)

    # ------------------------------------------------------------------ classes
    def cls_frame(self, cls):
        return cls.frame

    def class_bases(self, cls):
        """bases of a repo class, as atoms (resolved without state)."""
        out = []
        m = self.prog.node_mod[cls.node]
        for b in cls.node.bases:
            e = b
            if isinstance(e, ast.Subscript):
                e = e.value
            out.append(self.static_name(e, m, cls))
        return out

    def static_name(self, e, m, cls=None):
        if isinstance(e, ast.Name):
            # local class defined in the same function?
            fn = self.prog.enclosing_func(cls.node) if cls is not None else None
            while fn is not None:
                for n in own_nodes(fn):
                    if isinstance(n, ast.ClassDef) and n.name == e.id:
                        return Cls(n, cls.frame)
                    if isinstance(n, ast.ImportFrom):
                        for al in n.names:
                            if (al.asname or al.name) == e.id:
                                return self.static_res(self.prog.resolve(m.import_target(n), al.name), al.name)
                fn = self.prog.enclosing_func(fn)
            r = self.prog.resolve(m.name, e.id)
            if r is None:
                return Ext(e.id)
            return self.static_res(r, e.id)
        if isinstance(e, ast.Attribute):
            v = self.static_name(e.value, m, cls)
            if isinstance(v, Mod):
                r = self.prog.resolve(v.key, e.attr)
                return self.static_res(r, e.attr) if r else Ext(f"{v.key}.{e.attr}")
            if isinstance(v, Ext):
                return self.canon_ext(f"{v.key}.{e.attr}")
        return Ext("?")

    def static_res(self, r, name):
        if r is None:
            return Ext(name)
        if r[0] == "class":
            return Cls(r[2])
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "ext":
            return self.canon_ext(r[1])
        return Ext(name)

    def mro(self, cls):
        if isinstance(cls, Ext):
            return [cls]
        m = self._mro.get(cls)
        if m is None:
            self._mro[cls] = [cls]
            m = [cls]
            for b in self.class_bases(cls):
                for c in self.mro(b) if isinstance(b, Cls) else [b]:
                    if c in m:
                        m.remove(c)
                    m.append(c)
            self._mro[cls] = m
        return m

    def class_member(self, cls, name):
        """(owner Cls, ast node) of the member a lookup on cls finds, or None."""
        for c in self.mro(cls):
            if isinstance(c, Cls):
                found = None
                for s in self._class_body(c.node):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and s.name == name:
                        if found is not None and any(self._is_setter(d) for d in getattr(s, "decorator_list", [])):
                            continue
                        found = s
                    elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                        found = s
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                        found = s
                if found is not None:
                    return c, found
        return None

    def _class_body(self, node):
        out = []
        for s in node.body:
            if isinstance(s, ast.If):
                out.extend(s.body)
                out.extend(s.orelse)
            else:
                out.append(s)
        return out

    @staticmethod
    def _is_setter(d):
        return isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")

    def class_setter(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Cls):
                for s in c.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == name and any(
                            isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                        return c, s
        return None

    def decos(self, node):
        out = []
        for d in getattr(node, "decorator_list", []):
            e = d.func if isinstance(d, ast.Call) else d
            if isinstance(e, ast.Name):
                out.append(e.id)
            elif isinstance(e, ast.Attribute):
                out.append(e.attr)
        return out

    def is_subclass(self, cls, target):
        """True/False/None(unknown) for class atoms."""
        if isinstance(cls, Cls):
            m = self.mro(cls)
            if target in m:
                return True
            if isinstance(target, Ext) and target.key == "object":
                return True
            res = False
            for c in m:
                if isinstance(c, Ext):
                    r = self.ext_subclass(c.key, target)
                    if r:
                        return True
                    if r is None:
                        res = None
            return res
        if isinstance(cls, Ext):
            return self.ext_subclass(cls.key, target)
        return None

    def ext_subclass(self, name, target):
        if not isinstance(target, Ext):
            if name == "*":
                return None
            return False if name in KNOWN_EXT or hasattr(_b, name) else (False if isinstance(target, Cls) else None)
        t = target.key
        if t == name or t == "object":
            return True
        if name == "*":
            return True if t in ("Exception", "BaseException") else None
        a, b = getattr(_b, name, None), getattr(_b, t, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if t in EXT_BASES.get(name, ()):
            return True
        if name in EXT_BASES:
            return False
        if isinstance(a, type):  # builtin class vs non-builtin target
            return t in ABC_OF.get(name, ())
        if t in ("Exception", "BaseException"):
            last = name.split(".")[-1]
            return True if last.endswith(("Error", "Exception", "Failure")) else (False if name in KNOWN_EXT else None)
        if name in KNOWN_EXT:
            return False
        return False if t.split(".")[-1] != name.split(".")[-1] else True

    def class_of(self, a, st):
        if isinstance(a, K):
            return Ext(type(a.v).__name__)
        if isinstance(a, Cat):
            return Ext("str")
        if isinstance(a, (Fn, Bound, BMeth)):
            return Ext("function")
        if isinstance(a, (Cls,)):
            return Ext("type")
        if isinstance(a, Mod):
            return Ext("module")
        if isinstance(a, DView):
            return Ext("dict")
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind == "inst":
                return h.cls
            return Ext({"future": "asyncio.Future", "coro": "Coroutine", "partial": "functools.partial",
                        "Struct": "google.protobuf.struct_pb2.Struct",
                        "ListValue": "google.protobuf.struct_pb2.ListValue"}.get(h.kind, h.kind))
        if isinstance(a, Sym) and a.kind:
            if a.kind.startswith("obj:"):
                return self.class_atom(a.kind[4:])
            if a.kind in ("str", "int", "bool", "float", "dict", "list"):
                return Ext(a.kind)
            if a.kind == "callable":
                return Ext("function")
            if a.kind in ("leaf", "scalar"):
                return Ext("leaf")
        return None

    def class_atom(self, dotted):
        try:
            n = self.prog.find(dotted)
            if isinstance(n, ast.ClassDef):
                return Cls(n)
        except AnchorMissing:
            pass
        return Ext(dotted)

    def isinstance_(self, a, target, st):
        if isinstance(target, Sym) or isinstance(target, Opq):
            return None
        if a == NONE:
            return isinstance(target, Ext) and target.key in ("NoneType", "object")
        c = self.class_of(a, st)
        if c is None:
            if isinstance(target, Ext) and target.key == "object":
                return True
            return None
        if isinstance(target, Ext) and target.key in UNIONS:
            r = False
            for t in UNIONS[target.key]:
                x = self.is_subclass(c, Ext(t))
                if x:
                    return True
                if x is None:
                    r = None
            return r
        return self.is_subclass(c, target)

    # ------------------------------------------------------------------ truth
    def truth(self, a, st):
        """True/False/None"""
        if isinstance(a, K):
            return bool(a.v)
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind in ("dict", "Struct"):
                if any(k not in h.opt for k in h.f):
                    return True
                if not h.f and not h.rest:
                    return False
                return None
            if h.kind in LISTS or h.kind == "ListValue":
                if h.items:
                    return True
                return None if h.rest else False
            if h.kind == "inst" and isinstance(h.cls, Cls):
                if self.class_member(h.cls, "__bool__") or self.class_member(h.cls, "__len__"):
                    return None
                for c in self.mro(h.cls):
                    if isinstance(c, Ext) and c.key in ("dict", "list", "str", "int", "TypedDict"):
                        return None
                return True
            return True
        if isinstance(a, (Fn, Cls, Mod, Bound, BMeth, Super)):
            return True
        if isinstance(a, DView):
            return None
        if isinstance(a, Ext):
            return True
        if isinstance(a, Cat):
            if any(isinstance(p, K) and p.v for p in a.parts):
                return True
            return None
        if isinstance(a, Sym):
            f = st.facts.get((a.name, "truth"))
            if f is not None:
                return f
            if st.facts.get((a.name, "none")) is True:
                return False
            if a.kind and (a.kind.startswith("obj:") or a.kind in ("callable", "leaf")):
                return True
            return None
        return None

    def is_none(self, a, st):
        if a == NONE:
            return True
        if isinstance(a, Sym):
            f = st.facts.get((a.name, "none"))
            if f is not None:
                return f
            if st.facts.get((a.name, "truth")) is True:
                return False
            return False if a.kind else None
        if isinstance(a, Opq):
            return None
        return False

    def branch(self, expr, st):
        """evaluate a test: ([true states], [false states])"""
        t, f = [], []
        if isinstance(expr, ast.BoolOp):
            conj = isinstance(expr.op, ast.And)
            cur = [st]
            for e in expr.values:
                nxt = []
                for s in cur:
                    a, b = self.branch(e, s)
                    if conj:
                        nxt += a
                        f += b
                    else:
                        t += a
                        nxt += b
                cur = self.merge_states(nxt)
            if conj:
                t = cur
            else:
                f = cur
            return self.merge_states(t), self.merge_states(f)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
            a, b = self.branch(expr.operand, st)
            return b, a
        if isinstance(expr, ast.Compare) and len(expr.ops) == 1:
            return self.branch_compare(expr, st)
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ("isinstance", "hasattr", "bool", "callable"):
            r = self.branch_builtin(expr, st)
            if r is not None:
                return r
        if isinstance(expr, ast.NamedExpr):
            for s, v in self.ev(expr, st):
                self._split(v, s, expr.target, t, f)
            return t, f
        for s, v in self.ev(expr, st):
            self._split(v, s, expr, t, f)
        return self.merge_states(t), self.merge_states(f)

    def _split(self, v, s, expr, t, f):
        tv, fv, unk = set(), set(), []
        for a in v:
            x = self.truth(a, s)
            if x is True:
                tv.add(a)
            elif x is False:
                fv.add(a)
            else:
                tv.add(a)
                fv.add(a)
                unk.append(a)
        if tv and fv:
            s2 = s.copy()
            self.refine(expr, s, frozenset(tv))
            self.refine(expr, s2, frozenset(fv))
            if len(v) == 1 and unk and isinstance(unk[0], Sym):
                s.facts[(unk[0].name, "truth")] = True
                s2.facts[(unk[0].name, "truth")] = False
            t.append(s)
            f.append(s2)
        elif tv:
            t.append(s)
        elif fv:
            f.append(s)

    def refine(self, expr, st, v):
        """narrow the storage location denoted by expr to v (subset of what it held)."""
        if isinstance(expr, ast.NamedExpr):
            expr = expr.target
        if isinstance(expr, ast.Name):
            fo = self.fr
            while fo is not None:
                h = st.heap.get(fo)
                if h is None:
                    return
                if expr.id in h.f:
                    if v <= h.f[expr.id]:
                        st.heap[fo] = h.setf(expr.id, v)
                    return
                fo = h.meta["parent"]
        elif isinstance(expr, ast.Attribute):
            o = self.peek(expr.value, st)
            if o is not None and len(o) == 1:
                (a,) = o
                if isinstance(a, Ref):
                    h = st.heap[a.key]
                    if h.kind == "inst" and expr.attr in h.f and v <= h.f[expr.attr]:
                        st.heap[a.key] = h.setf(expr.attr, v)
        elif isinstance(expr, ast.Subscript) and isinstance(expr.slice, ast.Constant):
            o = self.peek(expr.value, st)
            if o is not None and len(o) == 1:
                (a,) = o
                k = K(expr.slice.value)
                if isinstance(a, Ref):
                    h = st.heap[a.key]
                    if h.kind in ("dict", "Struct") and k in h.f and v <= h.f[k]:
                        st.heap[a.key] = h.setf(k, v)

    def peek(self, expr, st):
        """value of a simple location without side effects, or None."""
        if isinstance(expr, ast.Name):
            fo = self.fr
            while fo is not None:
                h = st.heap.get(fo)
                if h is None:
                    return None
                if expr.id in h.f:
                    return h.f[expr.id]
                fo = h.meta["parent"]
            return None
        if isinstance(expr, ast.Attribute):
            o = self.peek(expr.value, st)
            if o is not None and len(o) == 1:
                (a,) = o
                if isinstance(a, Ref):
                    h = st.heap[a.key]
                    if h.kind == "inst":
                        return h.f.get(expr.attr)
        return None

    def branch_compare(self, expr, st):
        t, f = [], []
        op = expr.ops[0]
        left, right = expr.left, expr.comparators[0]
        for s, lv in self.ev(left, st):
            for s2, rv in self.ev(right, s):
                if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    neg = isinstance(op, (ast.IsNot, ast.NotEq))
                    if rv == VNONE or (lv == VNONE):
                        e, v = (left, lv) if rv == VNONE else (right, rv)
                        tv, fv, unk = set(), set(), []
                        for a in v:
                            x = self.is_none(a, s2)
                            if x is True:
                                tv.add(a)
                            elif x is False:
                                fv.add(a)
                            else:
                                tv.add(a)
                                fv.add(a)
                                unk.append(a)
                        a_, b_ = [], []
                        if tv and fv:
                            s3 = s2.copy()
                            self.refine(e, s2, frozenset(tv))
                            self.refine(e, s3, frozenset(fv))
                            if len(v) == 1 and unk and isinstance(unk[0], Sym):
                                s2.facts[(unk[0].name, "none")] = True
                                s3.facts[(unk[0].name, "none")] = False
                            a_.append(s2)
                            b_.append(s3)
                        elif tv:
                            a_.append(s2)
                        else:
                            b_.append(s2)
                        if neg:
                            a_, b_ = b_, a_
                        t += a_
                        f += b_
                        continue
                    # equality against one constant: refine
                    tv, fv, unk = set(), set(), []
                    for a in lv:
                        r = set()
                        for b in rv:
                            r.add(self.eq(a, b, s2, isinstance(op, (ast.Is, ast.IsNot))))
                        if r == {True}:
                            tv.add(a)
                        elif r == {False}:
                            fv.add(a)
                        else:
                            tv.add(a)
                            fv.add(a)
                            unk.append(a)
                    a_, b_ = [], []
                    if tv and fv:
                        s3 = s2.copy()
                        self.refine(left, s2, frozenset(tv))
                        self.refine(left, s3, frozenset(fv))
                        if len(lv) == 1 and len(rv) == 1 and unk and isinstance(unk[0], Sym):
                            (b,) = rv
                            if isinstance(b, (K, Sym)):
                                s2.facts[(unk[0].name, "eq", b)] = True
                                s3.facts[(unk[0].name, "eq", b)] = False
                                if isinstance(b, K) and b.v is not None:
                                    s2.facts[(unk[0].name, "none")] = False
                        a_.append(s2)
                        b_.append(s3)
                    elif tv:
                        a_.append(s2)
                    elif fv:
                        b_.append(s2)
                    if neg:
                        a_, b_ = b_, a_
                    t += a_
                    f += b_
                    continue
                if isinstance(op, (ast.In, ast.NotIn)):
                    a_, b_ = self.branch_in(lv, rv, s2, expr)
                    if isinstance(op, ast.NotIn):
                        a_, b_ = b_, a_
                    t += a_
                    f += b_
                    continue
                for s3, v in self.compare(op, lv, rv, s2, expr):
                    self._split(v, s3, expr, t, f)
        return self.merge_states(t), self.merge_states(f)

    def branch_in(self, lv, rv, st, node):
        """membership; refines dict key presence."""
        if len(rv) == 1 and len(lv) == 1:
            (c,) = rv
            (k,) = lv
            if isinstance(c, Ref):
                h = st.heap[c.key]
                if h.kind in ("dict", "Struct"):
                    if k in h.f:
                        if k in h.opt:
                            s2 = st.copy()
                            st.heap[c.key] = h.w(opt=h.opt - {k})
                            ff = dict(h.f)
                            del ff[k]
                            s2.heap[c.key] = h.w(f=ff, opt=h.opt - {k})
                            return [st], [s2]
                        return [st], []
                    may = bool(h.rest) and not (h.restk and isinstance(k, K) and all(isinstance(x, K) for x in h.restk))
                    if not may and h.rest and k in h.restk:
                        may = True
                    if any(not isinstance(x, K) for x in h.f) and not isinstance(k, K):
                        may = True
                    if any(isinstance(x, (Sym, Opq)) for x in h.f) and ((("nokey", c.key, k) not in st.facts)):
                        may = any(self.eq(x, k, st) is not False for x in h.f)
                    if may:
                        s2 = st.copy()
                        st.heap[c.key] = h.setf(k, h.rest or V(Opq()))
                        return [st], [s2]
                    return [], [st]
                if h.kind == "inst" and isinstance(h.cls, Cls) and self.class_member(h.cls, "__contains__"):
                    t, f = [], []
                    for s, v in self.call_method(c, "__contains__", Args([lv]), st, node):
                        self._split(v, s, None, t, f)
                    return t, f
        out = set()
        for c in rv:
            for k in lv:
                out.add(self.contains(c, k, st))
        if out == {True}:
            return [st], []
        if out == {False}:
            return [], [st]
        fk = None
        if len(rv) == 1 and len(lv) == 1:
            (c,) = rv
            (k,) = lv
            if isinstance(c, (Sym,)) and isinstance(k, (K, Sym)):
                fk = (c.name, "in", k)
                if fk in st.facts:
                    return ([st], []) if st.facts[fk] else ([], [st])
        s2 = st.copy()
        if fk:
            st.facts[fk] = True
            s2.facts[fk] = False
        return [st], [s2]

    def contains(self, c, k, st):
        if isinstance(c, Ref):
            h = st.heap[c.key]
            if h.kind in LISTS or h.kind == "ListValue":
                r = False
                for it in h.items:
                    xs = {self.eq(k, x, st) for x in it}
                    if xs == {True}:
                        return True
                    if xs - {False}:
                        r = None
                if h.rest and any(self.eq(k, x, st) is not False for x in h.rest):
                    r = None
                return r
            if h.kind in ("dict", "Struct"):
                if k in h.f:
                    return None if k in h.opt else True
                if h.rest:
                    return None
                return False if all(self.eq(x, k, st) is False for x in h.f) else None
        if isinstance(c, K) and isinstance(k, K):
            try:
                return k.v in c.v
            except TypeError:
                return None
        if isinstance(c, Cat) and isinstance(k, K) and isinstance(k.v, str):
            if any(isinstance(p, K) and k.v in p.v for p in c.parts):
                return True
        if isinstance(c, DView):
            h = st.heap.get(c.key)
            if h and isinstance(k, K):
                if k.v in h.f:
                    return None if k.v in h.opt else True
                return False
        return None

    def eq(self, a, b, st, identity=False):
        if isinstance(a, K) and isinstance(b, K):
            if identity:
                return a == b or (type(a.v) == type(b.v) and a.v == b.v)
            return a.v == b.v
        if a == b:
            return True if not isinstance(a, Opq) else None
        if isinstance(a, Opq) or isinstance(b, Opq):
            return None
        if identity and (isinstance(a, DView) or isinstance(b, DView)):
            return False
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            f = st.facts.get((a.name, "eq", b))
            if f is not None:
                return f
            if isinstance(b, Sym):
                f = st.facts.get((b.name, "eq", a))
                if f is not None:
                    return f
                if a.kind == "leaf" and b.kind == "leaf":
                    return False
            if a.kind == "leaf":
                return False
            if b == NONE:
                return self.is_none(a, st)
            if isinstance(b, K) and b.v == "" and st.facts.get((a.name, "truth")):
                return False
            ca, cb = self.class_of(a, st), self.class_of(b, st)
            if ca is not None and cb is not None and isinstance(b, K) and isinstance(ca, Ext) and ca.key in (
                    "str", "dict", "list") and ca != cb:
                return False
            if isinstance(b, (Ref, Fn, Cls)) and isinstance(ca, Ext) and ca.key in ("str", "int", "bool", "float") and not (
                    isinstance(b, Ref) and st.heap[b.key].kind == "inst"):
                return False
            if isinstance(b, (Fn, Cls, Mod)):
                return None if a.kind is None or a.kind == "callable" else False
            if a.kind and a.kind.startswith("obj:") and isinstance(b, Ref) and st.heap[b.key].kind != "inst":
                return False
            return None
        if isinstance(a, Cat) or isinstance(b, Cat):
            x, y = (a, b) if isinstance(a, Cat) else (b, a)
            if isinstance(y, K):
                if not isinstance(y.v, str):
                    return False
                ks = [p.v for p in x.parts if isinstance(p, K)]
                if any(q not in y.v for q in ks):
                    return False
                return None
            return None if isinstance(y, Cat) else False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if identity:
                return False
            ha, hb = st.heap[a.key], st.heap[b.key]
            if ha.kind in LISTS and ha.kind == hb.kind and not ha.rest and not hb.rest:
                if len(ha.items) != len(hb.items):
                    return False if ha.kind not in ("set", "frozenset") else None
                r = True
                for x, y in zip(ha.items, hb.items):
                    es = {self.eq(p, q, st) for p in x for q in y}
                    if es == {False}:
                        return False
                    if es != {True}:
                        r = None
                return r
            if ha.kind == "inst" and hb.kind == "inst":
                if isinstance(ha.cls, Cls) and self.class_member(ha.cls, "__eq__"):
                    return None
                return False
            if ha.kind != hb.kind or ha.kind in ("future", "coro", "partial"):
                return False
            return None
        if isinstance(a, Ref) or isinstance(b, Ref):
            x, y = (a, b) if isinstance(a, Ref) else (b, a)
            h = st.heap[x.key]
            if h.kind == "inst":
                if h.cls is not None and isinstance(h.cls, Cls) and "value" in h.f and any(
                        isinstance(c, Ext) and c.key == "enum.Enum" for c in self.mro(h.cls)):
                    if any(isinstance(c, Ext) and c.key == "str" for c in self.mro(h.cls)):
                        rs = {self.eq(p, y, st) for p in h.f["value"]}
                        return rs.pop() if len(rs) == 1 else None
                return False if isinstance(y, (K, Fn, Cls, Mod, Ext)) else None
            return False
        return a == b

    def compare(self, op, lv, rv, st, node):
        res = set()
        for a in lv:
            for b in rv:
                if isinstance(op, (ast.Eq, ast.Is)):
                    r = self.eq(a, b, st, isinstance(op, ast.Is))
                elif isinstance(op, (ast.NotEq, ast.IsNot)):
                    r = self.eq(a, b, st, isinstance(op, ast.IsNot))
                    r = None if r is None else not r
                elif isinstance(op, ast.In):
                    r = self.contains(b, a, st)
                elif isinstance(op, ast.NotIn):
                    r = self.contains(b, a, st)
                    r = None if r is None else not r
                elif isinstance(a, K) and isinstance(b, K):
                    try:
                        r = {ast.Lt: lambda: a.v < b.v, ast.Gt: lambda: a.v > b.v, ast.LtE: lambda: a.v <= b.v,
                             ast.GtE: lambda: a.v >= b.v}[type(op)]()
                    except TypeError:
                        r = None
                else:
                    r = None
                if r is None:
                    res |= {TRUE, FALSE}
                else:
                    res.add(K(bool(r)))
        return [(st, frozenset(res))]

    def callable_(self, a, st):
        if isinstance(a, (Fn, Bound, BMeth, Cls, Ext)):
            return True
        if isinstance(a, (K, Cat)):
            return False
        if isinstance(a, Sym):
            return True if a.kind == "callable" else None if a.kind in (None, "any") or a.kind.startswith("obj:") else False
        if isinstance(a, Ref):
            h = st.heap.get(a.key)
            if h is not None and h.kind == "inst":
                return bool(self.class_member(h.cls, "__call__")) or None if isinstance(h.cls, Cls) else None
            if h is not None and h.kind in LISTS + ("dict", "Struct", "ListValue", "future", "coro"):
                return False
        return None

    def branch_builtin(self, expr, st):
        fn = expr.func.id
        if self.lookup(fn, st, expr) != V(Ext(fn)):
            return None
        if fn == "bool" and len(expr.args) == 1:
            return self.branch(expr.args[0], st)
        if fn not in ("isinstance", "hasattr", "callable"):
            return None
        t, f = [], []
        for s, v in self.ev(expr.args[0], st):
            if fn == "isinstance":
                for s2, cv in self.ev(expr.args[1], s):
                    clss = self.flat_classes(cv, s2)
                    tv, fv, unk = set(), set(), []
                    for a in v:
                        r = self.isinst_any(a, clss, s2)
                        if r is None and isinstance(a, Sym):
                            r = s2.facts.get((a.name, "isa", frozenset(clss)))
                        if r is not False:
                            tv.add(a)
                        if r is not True:
                            fv.add(a)
                        if r is None:
                            unk.append(a)
                    if tv and fv:
                        s3 = s2.copy()
                        self.refine(expr.args[0], s2, frozenset(tv))
                        self.refine(expr.args[0], s3, frozenset(fv))
                        if len(v) == 1 and isinstance(unk[0], Sym):
                            key = (unk[0].name, "isa", frozenset(clss))
                            s2.facts[key] = True
                            s2.facts[(unk[0].name, "none")] = False
                            s3.facts[key] = False
                        t.append(s2)
                        f.append(s3)
                    elif tv:
                        t.append(s2)
                    elif fv:
                        f.append(s2)
            elif fn == "callable":
                tv, fv = set(), set()
                for a in v:
                    r = self.callable_(a, s)
                    if r is not False:
                        tv.add(a)
                    if r is not True:
                        fv.add(a)
                if tv and fv:
                    s3 = s.copy()
                    self.refine(expr.args[0], s, frozenset(tv))
                    self.refine(expr.args[0], s3, frozenset(fv))
                    t.append(s)
                    f.append(s3)
                elif tv:
                    t.append(s)
                elif fv:
                    f.append(s)
            else:
                for s2, nv in self.ev(expr.args[1], s):
                    rs = set()
                    fk = None
                    for a in v:
                        for n in nv:
                            r = self.hasattr_(a, n, s2)
                            if r is None and isinstance(a, Sym) and len(v) == 1 and len(nv) == 1:
                                fk = (a.name, "has", n)
                                r = s2.facts.get(fk)
                            rs.add(r)
                    if rs == {True}:
                        t.append(s2)
                    elif rs == {False}:
                        f.append(s2)
                    else:
                        s3 = s2.copy()
                        if fk:
                            s2.facts[fk] = True
                            s3.facts[fk] = False
                        t.append(s2)
                        f.append(s3)
        return t, f

    def hasattr_(self, a, n, st):
        if not isinstance(n, K):
            return None
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind == "inst":
                if n.v == "__dict__" and isinstance(h.cls, Cls):
                    return True
                if n.v in h.f:
                    return None if n.v in h.opt else True
                if isinstance(h.cls, Cls):
                    if self.class_member(h.cls, n.v):
                        return True
                    if self.class_member(h.cls, "__getattr__"):
                        return None
                    if all(isinstance(c, Cls) or c.key in ("object", "Generic", "typing.Generic", "ABC", "abc.ABC", "Protocol", "typing.Protocol") for c in self.mro(h.cls)):
                        return False
                if h.cls == Ext("typing._GenericAlias") and isinstance(n.v, str) and n.v.startswith(("_pulumi", "__pulumi")):
                    return False
                return None
            t = getattr(_b, h.kind, None)
            return hasattr(t(), n.v) if t in (list, tuple, set, frozenset, dict) else None
        if isinstance(a, Cls):
            if self.class_member(a, n.v):
                return True
            h = st.heap.get(("clsf", id(a.node)))
            if h is not None and n.v in h.f:
                return True
            if n.v in self.class_marks(a.node):
                return True
            return False if all(isinstance(c, Cls) or c.key in BENIGN_BASES for c in self.mro(a)) else None
        if isinstance(a, Ext):
            if a.key == "leaf":
                return hasattr("", n.v)
            t = getattr(_b, a.key, None)
            if t is not None:
                return hasattr(t, n.v)
            return False if n.v.startswith(("_pulumi", "__pulumi")) else None
        if isinstance(a, Mod):
            r = self.prog.resolve(a.key, n.v) if isinstance(n.v, str) and a.key in self.prog.mods else None
            return True if r and r[0] in ("func", "class", "assign") else None
        if isinstance(a, DView):
            return hasattr({}, n.v)
        if isinstance(a, K):
            return hasattr(a.v, n.v)
        if isinstance(a, Sym) and a.kind in ("leaf", "str", "int", "bool"):
            return hasattr("", n.v)
        return None

    def class_marks(self, node):
        """attributes put on a class by @input_type / @output_type"""
        r = self._marks.get(node)
        if r is None:
            r = set()
            for d in self.decos(node):
                d = d.split(".")[-1]
                if d in ("input_type", "output_type"):
                    m = self.prog.mods.get("pulumi._types")
                    for nm, bl in (m.bind if m else {}).items():
                        for k, n in bl:
                            if k == "assign" and isinstance(n.value, ast.Constant) and nm == "_PULUMI_" + d.upper():
                                r.add(n.value.value)
            self._marks[node] = r
        return r

    def flat_classes(self, cv, st):
        out = []
        for c in cv:
            if isinstance(c, Ref) and st.heap[c.key].kind in LISTS:
                for it in st.heap[c.key].items:
                    out += self.flat_classes(it, st)
                if st.heap[c.key].rest:
                    out += self.flat_classes(st.heap[c.key].rest, st)
            else:
                out.append(c)
        return out

    def isinst_any(self, a, clss, st):
        r = False
        for c in clss:
            x = self.isinstance_(a, c, st)
            if x:
                return True
            if x is None:
                r = None
        return r

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st):
        self.tick()
        m = self._ev.get(type(node))
        if m is None:
            m = getattr(self, "ev_" + type(node).__name__, None)
            if m is None:
                raise Unsupported(f"expression {type(node).__name__}")
            self._ev[type(node)] = m
        return m(node, st)

    def ev_list(self, nodes, st):
        """evaluate several expressions in order -> [(st, [V...])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > self.LIMIT:
                js, jv = nxt[0]
                jv = list(jv)
                for s, vs in nxt[1:]:
                    js = sjoin(js, s)
                    jv = [vjoin(x, y) for x, y in zip(jv, vs)]
                nxt = [(js, jv)]
            cur = nxt
        return cur

    def ev_Constant(self, node, st):
        return [(st, V(K(node.value)))]

    def ev_Name(self, node, st):
        return [(st, self.lookup(node.id, st, node))]

    def ev_NamedExpr(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            self.setname(node.target.id, v, s)
            out.append((s, v))
        return out

    def ev_Starred(self, node, st):
        return self.ev(node.value, st)

    def ev_Tuple(self, node, st):
        return self._seq(node, st, "tuple")

    def ev_List(self, node, st):
        return self._seq(node, st, "list")

    def ev_Set(self, node, st):
        return self._seq(node, st, "set")

    def _seq(self, node, st, kind):
        out = []
        for s, vs in self.ev_list(node.elts, st):
            items, rest = [], EMPTY
            for e, v in zip(node.elts, vs):
                if isinstance(e, ast.Starred):
                    its, r = self.elements(v, s)
                    if rest or r:
                        for x in its:
                            rest = vjoin(rest, x)
                        rest = vjoin(rest, r)
                    else:
                        items += its
                elif rest:
                    rest = vjoin(rest, v)
                else:
                    items.append(v)
            if kind == "set":
                items = self.dedupe(items)
            out.append((s, V(self.newlist(s, node, items, rest, kind))))
        return out

    def dedupe(self, items):
        out = []
        for i in items:
            if len(i) == 1 and i in out:
                continue
            out.append(i)
        return out

    def ev_Dict(self, node, st):
        ks = [k if k is not None else ast.Constant(value=None) for k in node.keys]
        out = []
        inter = [x for p in zip(ks, node.values) for x in p]
        for s, vs in self.ev_list(inter, st):
            f, rest, restk, opt = {}, EMPTY, EMPTY, set()
            for i, k in enumerate(node.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    for a in vv:
                        df, do, dr, drk = self.dict_parts(a, s)
                        for kk, x in df.items():
                            if kk in do and kk in f:
                                f[kk] = vjoin(f[kk], x)
                            else:
                                f[kk] = x
                                if kk in do or len(vv) > 1:
                                    opt.add(kk)
                        rest, restk = vjoin(rest, dr), vjoin(restk, drk)
                elif len(kv) == 1 and isinstance(next(iter(kv)), (K, Sym, Cat, Ref)):
                    kk = next(iter(kv))
                    f[kk] = vv
                    opt.discard(kk)
                else:
                    rest, restk = vjoin(rest, vv), vjoin(restk, kv)
            out.append((s, V(self.newdict(s, node, f, rest, restk, opt=frozenset(opt)))))
        return out

    def dict_parts(self, a, st):
        """(known, opt, rest, restk) of any mapping-like atom"""
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind in ("dict", "Struct"):
                return h.f, h.opt, h.rest, h.restk
            if h.kind == "inst" and isinstance(h.cls, Cls):
                return {}, frozenset(), V(Opq(self.deep_labels(V(a), st))), EMPTY
        if isinstance(a, DView):
            h = st.heap[a.key]
            return {K(k): v for k, v in h.f.items()}, frozenset(K(k) for k in h.opt), EMPTY, EMPTY
        if a == NONE:
            return {}, frozenset(), EMPTY, EMPTY
        if isinstance(a, Sym):
            return {}, frozenset(), V(Sym(a.name + "[*]", None, a.labels)), V(Sym(a.name + ".key", "str", a.labels))
        return {}, frozenset(), V(Opq(atom_labels(a))), V(Opq(atom_labels(a)))

    def ev_JoinedStr(self, node, st):
        exprs = [v.value if isinstance(v, ast.FormattedValue) else v for v in node.values]
        out = []
        for s, vs in self.ev_list(exprs, st):
            conv = []
            cur = [(s, [])]
            for n, v in zip(node.values, vs):
                nxt = []
                for s1, parts in cur:
                    if isinstance(n, ast.FormattedValue) and n.conversion == 114:
                        for s2, rv in self.repr_(v, s1, n):
                            nxt.append((s2, parts + [rv]))
                    elif isinstance(n, ast.FormattedValue) and n.format_spec is not None:
                        nxt.append((s1, parts + [V(Opq(self.deep_labels(v, s1)))]))
                    else:
                        for s2, rv in self.str_(v, s1, n):
                            nxt.append((s2, parts + [rv]))
                cur = nxt
            for s1, parts in cur:
                out.append((s1, self.cat(parts)))
        return out

    def cat(self, parts):
        combos = [[]]
        for v in parts:
            nxt = []
            for c in combos:
                for a in sorted(v, key=repr):
                    nxt.append(c + [a])
            combos = nxt
            if len(combos) > CAP:
                l = frozenset()
                for v2 in parts:
                    l |= vlabels(v2)
                return V(Opq(l))
        return frozenset(mkcat(c) for c in combos)

    def str_(self, v, st, node):
        """str(v) -> [(st, V)]"""
        out = EMPTY
        pending = []
        for a in v:
            if isinstance(a, K):
                out = vjoin(out, V(K(str(a.v))))
            elif isinstance(a, Cat):
                out = vjoin(out, V(a))
            elif isinstance(a, Sym):
                out = vjoin(out, V(a if a.kind == "str" else Cat((a,))))
            elif isinstance(a, Ref):
                h = st.heap[a.key]
                if h.kind == "inst" and self.exception_text(h, st) is not None:
                    out = vjoin(out, V(K(self.exception_text(h, st))))
                    continue
                if h.kind == "inst" and isinstance(h.cls, Cls):
                    mem = self.class_member(h.cls, "__str__")
                    isenum = any(isinstance(c, Ext) and c.key == "enum.Enum" for c in self.mro(h.cls))
                    if mem or (self.class_member(h.cls, "__repr__") and not isenum):
                        pending.append((a, "__str__" if mem else "__repr__"))
                        continue
                    if isenum and "value" in h.f:
                        if any(isinstance(c, Ext) and c.key == "str" for c in self.mro(h.cls)):
                            out = vjoin(out, V(Opq(self.deep_labels(V(a), st))))
                            continue
                    if any(isinstance(c, Ext) and c.key in ("Exception",) for c in self.mro(h.cls)):
                        out = vjoin(out, V(Opq(self.deep_labels(V(a), st))))
                        continue
                    out = vjoin(out, V(Opq(frozenset())))
                elif self.printable(h):
                    pending.append((a, None))
                else:
                    out = vjoin(out, V(Opq(self.deep_labels(V(a), st))))
            else:
                out = vjoin(out, V(Opq(atom_labels(a))))
        cur = [(st, out)]
        for a, meth in pending:
            nxt = []
            for s, o in cur:
                for s2, r in self.call_method(a, meth, Args(), s, node) if meth else self.repr_(V(a), s, node):
                    nxt.append((s2, vjoin(o, r)))
            cur = nxt
        return cur

    def exception_text(self, h, st):
        """what str() of an exception made with one text says, else None"""
        ty = h.cls.key.split(".")[-1] if isinstance(h.cls, Ext) else None
        if isinstance(h.cls, Cls):
            if self.class_member(h.cls, "__str__") or self.class_member(h.cls, "__repr__"):
                return None
            ty = next((c.key.split(".")[-1] for c in self.mro(h.cls) if isinstance(c, Ext)), None)
        t = getattr(_b, ty or "", None)
        if not isinstance(t, type) or not issubclass(t, BaseException) or issubclass(t, (KeyError, UnicodeError, SyntaxError)):
            return None
        for a in h.f.get("args", EMPTY) if len(h.f.get("args", EMPTY)) == 1 else ():
            g = st.heap.get(a.key) if isinstance(a, Ref) else None
            if g is not None and g.kind == "tuple" and not g.rest and len(g.items) == 1 and len(g.items[0]) == 1:
                (x,) = g.items[0]
                if isinstance(x, K) and isinstance(x.v, str):
                    return x.v
        return None

    def printable(self, h):
        """a list, tuple or dictionary whose elements are all known to be there"""
        return h.kind in ("list", "tuple") and not h.rest and len(h.items) <= 12 and all(len(x) == 1 for x in h.items) or \
            h.kind == "dict" and not h.rest and not h.opt and len(h.f) <= 12 and all(len(x) == 1 for x in h.f.values())

    def repr_container(self, a, st, node, depth):
        h = st.heap[a.key]
        o, c = {"list": "[]", "tuple": "()", "dict": "{}"}[h.kind]
        parts = [([V(K(repr(k.v if isinstance(k, K) else k) + ": "))], x) for k, x in h.f.items()] if h.kind == "dict" else [([], x) for x in h.items]
        cur = [(st, [V(K(o))])]
        for i, (pre, x) in enumerate(parts):
            nxt = []
            for s, ps in cur:
                for s2, r in self.repr_(x, s, node, depth + 1):
                    nxt.append((s2, ps + ([V(K(", "))] if i else []) + pre + [r]))
            cur = nxt
        end = ",)" if h.kind == "tuple" and len(parts) == 1 else c
        return [(s, self.cat(ps + [V(K(end))])) for s, ps in cur]

    def repr_(self, v, st, node, depth=0):
        pend, out = [], EMPTY
        for a in v:
            if isinstance(a, K):
                out = vjoin(out, V(K(repr(a.v))))
            elif isinstance(a, Ref) and st.heap[a.key].kind == "inst" and isinstance(st.heap[a.key].cls, Cls):
                if self.class_member(st.heap[a.key].cls, "__repr__"):
                    pend.append(a)
                else:
                    out = vjoin(out, V(Opq()))
            elif isinstance(a, (Sym, Cat)):
                out = vjoin(out, V(Cat((K("'"), *(a.parts if isinstance(a, Cat) else (a,)), K("'")))))
            elif isinstance(a, Ref) and depth < 5 and self.printable(st.heap[a.key]):
                pend.append(a)
            else:
                out = vjoin(out, V(Opq(self.deep_labels(V(a), st))))
        cur = [(st, out)]
        for a in pend:
            nxt = []
            for s, o in cur:
                for s2, r in self.call_method(a, "__repr__", Args(), s, node) if s.heap[a.key].kind == "inst" else self.repr_container(a, s, node, depth):
                    nxt.append((s2, vjoin(o, r)))
            cur = nxt
        return cur

    def ev_FormattedValue(self, node, st):
        return self.ev(node.value, st)

    def ev_Lambda(self, node, st):
        fn, st = self.closure(node, st)
        return [(st, V(fn))]

    def closure(self, node, st):
        """a function made at run time: its defaults are evaluated now"""
        a = node.args
        pos = a.posonlyargs + a.args
        ds = [(p.arg, d) for p, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *zip(a.kwonlyargs, a.kw_defaults)] if d is not None and not isinstance(d, ast.Constant)]
        if self.fr is None or not ds or self.fr[0] == "modframe":
            return Fn(node, self.fr), st
        f = {}
        for p, d in ds:
            rs = self.ev(d, st)
            if not rs:
                return Fn(node, self.fr), st
            st = rs[0][0]
            f["default:" + p] = rs[0][1] if len(rs) == 1 else V(*(x for _, v in rs for x in v))
        m = st.heap[self.fr].meta
        r = self.alloc(st, node, HO("frame", f=f, meta={"parent": self.fr, "mod": m["mod"], "fn": None, "comp": True, "compvars": frozenset(), "selfctx": m.get("selfctx")}))
        return Fn(node, r.key), st

    def ev_IfExp(self, node, st):
        t, f = self.branch(node.test, st)
        out = []
        for s in t:
            out += self.ev(node.body, s)
        for s in f:
            out += self.ev(node.orelse, s)
        return self.merge_vals(out)

    def ev_BoolOp(self, node, st):
        conj = isinstance(node.op, ast.And)
        cur, done = [st], []
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                if isinstance(e, (ast.Compare, ast.BoolOp)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
                    if not isinstance(e, ast.BoolOp):
                        t, f = self.branch(e, s)
                        if last:
                            done += [(x, VTRUE) for x in t] + [(x, VFALSE) for x in f]
                        elif conj:
                            nxt += t
                            done += [(x, VFALSE) for x in f]
                        else:
                            nxt += f
                            done += [(x, VTRUE) for x in t]
                        continue
                for s2, v in self.ev(e, s):
                    if last:
                        done.append((s2, v))
                        continue
                    t, f = [], []
                    self._split(v, s2, e, t, f)
                    stop, go = (f, t) if conj else (t, f)
                    for x in stop:
                        keep = frozenset(a for a in v if self.truth(a, x) is not (True if conj else False))
                        done.append((x, keep or v))
                    nxt += go
            cur = self.merge_states(nxt)
        return self.merge_vals(done)

    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st)
            return [(s, VFALSE) for s in t] + [(s, VTRUE) for s in f]
        out = []
        for s, v in self.ev(node.operand, st):
            r = EMPTY
            for a in v:
                if isinstance(a, K) and isinstance(a.v, (int, float)):
                    r = vjoin(r, V(K({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(node.op)](a.v))))
                else:
                    r = vjoin(r, V(Opq(atom_labels(a))))
            out.append((s, r))
        return out

    def ev_Compare(self, node, st):
        if len(node.ops) == 1:
            t, f = self.branch_compare(node, st)
            return [(s, VTRUE) for s in t] + [(s, VFALSE) for s in f]
        out = []
        for s, vs in self.ev_list([node.left] + node.comparators, st):
            res = {True}
            for op, a, b in zip(node.ops, vs, vs[1:]):
                (_, r), = self.compare(op, a, b, s, node)
                r = {x.v for x in r}
                if r == {False}:
                    res = {False}
                    break
                if r != {True}:
                    res |= {False}
            out.append((s, frozenset(K(x) for x in res)))
        return out

    def ev_BinOp(self, node, st):
        out = []
        for s, (a, b) in self.ev_list([node.left, node.right], st):
            out += self.binop(node.op, a, b, s, node)
        return out

    def binop(self, op, av, bv, st, node, inplace=False):
        r = EMPTY
        extra = []
        for a in av:
            for b in bv:
                r = vjoin(r, self.binop1(op, a, b, st, node))
        return [(st, r)]

    def binop1(self, op, a, b, st, node):
        if isinstance(a, K) and isinstance(b, K):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.Mod: lambda x, y: x % y, ast.FloorDiv: lambda x, y: x // y, ast.Div: lambda x, y: x / y,
                     ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y, ast.Pow: lambda x, y: x ** y if abs(y) < 20 else 0}.get(type(op))
                if f:
                    return V(K(f(a.v, b.v)))
            except Exception:
                pass
            return V(Opq())
        if isinstance(a, Ext) and a.key in ("six.integer_types", "six.string_types") and isinstance(b, Ref) and st.heap[b.key].kind == "tuple":
            h = st.heap[b.key]
            return V(self.newlist(st, node, tuple(V(Ext(t)) for t in UNIONS[a.key]) + h.items, h.rest, "tuple"))
        stry = lambda x: isinstance(x, Cat) or (isinstance(x, K) and isinstance(x.v, str)) or (isinstance(x, Sym) and x.kind == "str")
        if isinstance(op, ast.Add) and (stry(a) or stry(b)) and not isinstance(a, Ref) and not isinstance(b, Ref):
            return V(mkcat([a, b]))
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = st.heap[a.key], st.heap[b.key]
            if isinstance(op, ast.Add) and ha.kind in ("list", "tuple") and hb.kind in ("list", "tuple"):
                if ha.kind != hb.kind:
                    self.type_errors = getattr(self, "type_errors", [])
                    self.type_errors.append((node, "list+tuple"))
                if ha.rest:
                    rest = vjoin(ha.rest, hb.rest)
                    for i in hb.items:
                        rest = vjoin(rest, i)
                    return V(self.newlist(st, node, ha.items, rest, ha.kind))
                return V(self.newlist(st, node, ha.items + hb.items, hb.rest, ha.kind))
            if ha.kind in ("set", "frozenset") and hb.kind in ("set", "frozenset", "dictkeys"):
                if isinstance(op, ast.BitOr):
                    return V(self.newlist(st, node, self.dedupe(list(ha.items) + list(hb.items)), vjoin(ha.rest, hb.rest), ha.kind))
                if isinstance(op, ast.Sub):
                    items = [i for i in ha.items if not any(len(i) == 1 and i == j for j in hb.items)]
                    sure = [i for i in items if all(self.eq(p, q, st) is False for p in i for j in list(hb.items) + [hb.rest] for q in j)]
                    rest = ha.rest
                    for i in items:
                        if i not in sure:
                            rest = vjoin(rest, i)
                    return V(self.newlist(st, node, sure, rest, ha.kind))
                if isinstance(op, ast.BitAnd):
                    both = [i for i in ha.items if any(len(i) == 1 and i == j for j in hb.items)]
                    rest = EMPTY
                    for i in list(ha.items) + [ha.rest]:
                        if i not in both:
                            for p in i:
                                if any(self.eq(p, q, st) is not False for j in list(hb.items) + [hb.rest] for q in j):
                                    rest = vjoin(rest, V(p))
                    return V(self.newlist(st, node, both, rest, ha.kind))
            if isinstance(op, ast.BitOr) and ha.kind == "dict" and hb.kind == "dict":
                f = dict(ha.f)
                opt = set(ha.opt)
                for k, v in hb.f.items():
                    if k in hb.opt and k in f:
                        f[k] = vjoin(f[k], v)
                    else:
                        f[k] = v
                        (opt.add if k in hb.opt else opt.discard)(k)
                return V(self.newdict(st, node, f, vjoin(ha.rest, hb.rest), vjoin(ha.restk, hb.restk), opt=frozenset(opt)))
        if isinstance(op, ast.Mod) and isinstance(a, K) and isinstance(a.v, str):
            args = [V(b)]
            if isinstance(b, Ref) and st.heap[b.key].kind == "tuple":
                args = list(st.heap[b.key].items)
            m = re.findall(r"%[sr]", a.v)
            if len(m) == len(args) and a.v.count("%") == len(m) and any(isinstance(y, Ref) or how == "%r" for x, how in zip(args, m) for y in x):
                lits = re.split(r"%[sr]", a.v)
                out = [V(K(lits[0]))]
                for x, how, lit in zip(args, m, lits[1:]):
                    r = (self.str_ if how == "%s" else self.repr_)(x, st, node)
                    out += [r[0][1] if len(r) == 1 else V(Opq(self.deep_labels(x, st))), V(K(lit))]
                return self.cat(out)
            parts = a.v.split("%s")
            if len(parts) == len(args) + 1 and all(len(x) == 1 for x in args):
                out = [K(parts[0])]
                for p, x in zip(parts[1:], args):
                    (y,) = x
                    if not isinstance(y, (K, Sym, Cat)):
                        break
                    out += [K(str(y.v)) if isinstance(y, K) else y, K(p)]
                else:
                    return V(mkcat(out))
        return V(Opq(self.deep_labels(V(a, b), st)))

    def ev_Await(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out += self.await_(v, s, node)
        return self.merge_vals(out)

    def ev_Yield(self, node, st):
        if not self.yield_k:
            raise Unsupported("yield outside generator run")
        out = []
        if node.value is None:
            vals = [(st, VNONE)]
        else:
            vals = self.ev(node.value, st)
        for s, v in vals:
            out += self.yield_k[-1](s, v)
        return out

    def ev_YieldFrom(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            its, rest = self.elements(v, s)
            for i in its + ([rest] if rest else []):
                rs = self.yield_k[-1](s, i)
                s = rs[0][0] if rs else s
            out.append((s, VNONE))
        return out

    def ev_Subscript(self, node, st):
        out = []
        for s, (o, i) in self.ev_list([node.value, node.slice], st):
            out += self.subscript(o, i, s, node)
        return self.merge_vals(out)

    def ev_Slice(self, node, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (node.lower, node.upper, node.step)]
        out = []
        for s, vs in self.ev_list(parts, st):
            c = []
            for v in vs:
                if len(v) == 1 and isinstance(next(iter(v)), K):
                    c.append(next(iter(v)).v)
                else:
                    c.append("?" + ("".join(sorted(repr(a) for a in v)) if all(isinstance(a, Sym) for a in v) else "?"))
            out.append((s, V(Ext("slice:" + repr(tuple(c))))))
        return out

    def subscript(self, ov, iv, st, node):
        out = []
        val = EMPTY
        for o in ov:
            for i in iv:
                if isinstance(o, Ref):
                    h = st.heap[o.key]
                    if h.kind in ("dict", "Struct"):
                        if i in h.f:
                            val = vjoin(val, h.f[i])
                            if i in h.opt:
                                s2 = st.copy()
                                self.raise_new(s2, "KeyError", node)
                        else:
                            cand = h.rest
                            for k, v in h.f.items():
                                if self.eq(k, i, st) is not False:
                                    cand = vjoin(cand, v)
                            s2 = st.copy() if cand or len(ov) > 1 or len(iv) > 1 else st
                            if h.meta != "total":
                                self.raise_new(s2, "KeyError", node)
                            if cand:
                                val = vjoin(val, cand)
                        continue
                    if h.kind in LISTS or h.kind == "ListValue":
                        if isinstance(i, K) and isinstance(i.v, int):
                            n = i.v
                            if -len(h.items) <= n < len(h.items) and (n >= 0 or not h.rest):
                                val = vjoin(val, h.items[n])
                                continue
                            if h.rest:
                                val = vjoin(val, h.rest)
                                if n < 0:
                                    for it in h.items:
                                        val = vjoin(val, it)
                                continue
                            self.raise_new(st.copy(), "IndexError", node)
                            continue
                        if isinstance(i, Ext) and i.key.startswith("slice:"):
                            t = ["?" if isinstance(x, str) else x for x in eval(i.key[6:])]  # ints/None/"?..." produced above
                            if "?" not in t and not h.rest:
                                val = vjoin(val, V(self.newlist(st, node, h.items[slice(*t)], EMPTY, h.kind)))
                            elif "?" not in t and h.rest and t[0] is not None and t[0] >= 0 and t[1] is None and t[2] is None and t[0] <= len(h.items):
                                val = vjoin(val, V(self.newlist(st, node, h.items[t[0]:], h.rest, h.kind)))
                            else:
                                r = h.rest
                                for it in h.items:
                                    r = vjoin(r, it)
                                val = vjoin(val, V(self.newlist(st, node, (), r, h.kind)))
                            continue
                        r = h.rest
                        for it in h.items:
                            r = vjoin(r, it)
                        val = vjoin(val, r or V(Opq()))
                        continue
                    if h.kind == "inst":
                        if isinstance(h.cls, Cls) and self.class_member(h.cls, "__getitem__"):
                            out += self.call_method(o, "__getitem__", Args([V(i)]), st.copy(), node)
                            continue
                        val = vjoin(val, V(Sym(f"{self.sname(o, st)}[{i!r}]", None, self.deep_labels(V(o), st))))
                        continue
                    val = vjoin(val, V(Opq(self.deep_labels(V(o), st))))
                elif isinstance(o, DView):
                    h = st.heap[o.key]
                    if isinstance(i, K) and i.v in h.f:
                        val = vjoin(val, h.f[i.v])
                    else:
                        s2 = st.copy()
                        self.raise_new(s2, "KeyError", node)
                        if not isinstance(i, K):
                            for v in h.f.values():
                                val = vjoin(val, v)
                elif isinstance(o, Sym):
                    h = self.sym_attr and self.sym_attr(self, st, o, i)
                    if h:
                        val = vjoin(val, h)
                    else:
                        if o.kind == "str" and isinstance(i, Ext) and i.key.startswith("slice:") and "??" not in i.key:
                            val = vjoin(val, V(Sym(f"{o.name}[{i.key[6:]}]", "str", o.labels)))
                            continue
                        ik = i.v if isinstance(i, K) else repr(i)
                        val = vjoin(val, V(Sym(f"{o.name}[{ik!r}]", "leaf" if o.kind in ("leaf", "scalar") else None, o.labels | atom_labels(i))))
                elif isinstance(o, (Ext, Cls)):
                    val = vjoin(val, V(o))
                elif isinstance(o, K) and isinstance(i, K):
                    try:
                        val = vjoin(val, V(K(o.v[i.v])))
                    except Exception:
                        self.raise_new(st.copy(), "TypeError", node)
                elif isinstance(o, K) and isinstance(i, Ext) and i.key.startswith("slice:") and isinstance(o.v, str):
                    t = eval(i.key[6:])
                    val = vjoin(val, V(K(o.v[slice(*t)])) if not any(isinstance(x, str) for x in t) else V(Opq()))
                elif o == NONE:
                    self.raise_new(st.copy(), "TypeError", node)
                else:
                    val = vjoin(val, V(Opq(atom_labels(o) | atom_labels(i))))
        if val:
            out.append((st, val))
        return out

    def sname(self, a, st):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind == "inst":
                n = h.f.get("__name")
                if n:
                    return next(iter(n)).v
                return f"<{h.cls.node.name if isinstance(h.cls, Cls) else h.cls.key.split('.')[-1]}>"
            return f"<{h.kind}>"
        return repr(a)

    # comprehension
    def ev_ListComp(self, node, st):
        return self._comp(node, st, "list")

    def ev_SetComp(self, node, st):
        return self._comp(node, st, "set")

    def ev_GeneratorExp(self, node, st):
        return self._comp(node, st, "list")

    def ev_DictComp(self, node, st):
        return self._comp(node, st, "dict")

    def _comp(self, node, st, kind):
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        if kind == "dict":
            acc = self.newdict(st, node)
        else:
            acc = self.newlist(st, node, kind=kind)
        parent = self.fr
        fo = ("comp", id(node), parent)
        st.heap[fo] = HO("frame", meta={"parent": parent, "mod": st.heap[parent].meta["mod"], "fn": None, "glob": None,
                                        "comp": True, "compvars": frozenset(names), "selfctx": st.heap[parent].meta.get("selfctx")})
        self.fr = fo
        try:
            sts = self._comp_gen(node, 0, [(st, False)], acc, kind)
        finally:
            self.fr = parent
        out = []
        for s in sts:
            s.heap.pop(fo, None)
            out.append((s, V(acc)))
        return self.merge_vals(out)

    def _comp_gen(self, node, gi, prs, acc, kind):
        """returns states after running generators gi.. for each (st, summary)"""
        if gi == len(node.generators):
            out = []
            for st, summ in prs:
                if kind == "dict":
                    for s, (k, v) in self.ev_list([node.key, node.value], st):
                        self.dict_store(acc, k, v, s, weak=summ)
                        out.append(s)
                else:
                    for s, v in self.ev(node.elt, st):
                        h = s.heap[acc.key]
                        if summ or h.rest:
                            s.heap[acc.key] = h.w(rest=vjoin(h.rest, v))
                        elif kind == "set" and len(v) == 1 and v in h.items:
                            pass
                        else:
                            s.heap[acc.key] = h.w(items=h.items + (v,))
                        out.append(s)
            return out
        g = node.generators[gi]
        out = []
        for st, summ in prs:
            for s, it in self.ev(g.iter, st):
                if self.not_iterable(it, s, node):
                    continue
                its, rest = self.elements(it, s, node)
                cur = [s]

                def step(states, val, summ2):
                    nxt = []
                    for s1 in states:
                        for s2 in self.assign(g.target, val, s1):
                            ok, no = [s2], []
                            for c in g.ifs:
                                o2 = []
                                for x in ok:
                                    t, f = self.branch(c, x)
                                    o2 += t
                                    no += f
                                ok = o2
                            ok = self.merge_states(ok)
                            # a filtered element may or may not be present: both states are kept
                            r = self._comp_gen(node, gi + 1, [(x, summ2) for x in ok], acc, kind)
                            nxt += r + no
                    return self.merge_states(nxt)

                for v in its:
                    cur = step(cur, v, summ)
                if rest:
                    base = cur
                    for _ in range(2):
                        nx = step([x.copy() for x in base], rest, True)
                        j = self.merge_states(base + nx, limit=1)
                        if len(j) == 1 and len(base) == 1 and j[0].same(base[0]):
                            break
                        base = j
                    cur = base
                out += cur
        return self.merge_states(out)

    def elements(self, v, st, node=None):
        """(fixed item list, summary V) of iterating v.  Several atoms -> summarised unless same shape."""
        if len(v) == 1:
            (a,) = v
            return self.elements1(a, st, node)
        fixed, rest, first = None, EMPTY, True
        outs = [self.elements1(a, st, node) for a in v if a != NONE]
        if outs and all(len(o[0]) == len(outs[0][0]) and not o[1] for o in outs):
            items = [EMPTY] * len(outs[0][0])
            for its, _ in outs:
                items = [vjoin(x, y) for x, y in zip(items, its)]
            return items, EMPTY
        for its, r in outs:
            for i in its:
                rest = vjoin(rest, i)
            rest = vjoin(rest, r)
        return [], rest

    def elements1(self, a, st, node=None):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind in LISTS or h.kind in ("ListValue", "dictkeys"):
                return list(h.items), h.rest
            if h.kind in ("dict", "Struct"):
                fixed = [V(k) for k in h.f if k not in h.opt]
                rest = h.restk
                if h.rest and not rest:
                    rest = V(Opq(vlabels(h.rest)))
                for k in h.opt:
                    rest = vjoin(rest, V(k))
                return fixed, rest
            if h.kind == "inst" and isinstance(h.cls, Cls) and self.class_member(h.cls, "__iter__"):
                rs = self.call_method(a, "__iter__", Args(), st, node)
                if rs:
                    s, v = rs[0]
                    return self.elements(v, s, node)
                return [], EMPTY
            return [], V(Opq(self.deep_labels(V(a), st)))
        if isinstance(a, DView):
            h = st.heap[a.key]
            return [V(K(k)) for k in h.f], EMPTY
        if isinstance(a, Sym):
            if a.kind in ("leaf", "scalar"):
                return [], V(Opq(a.labels))
            return [], V(Sym(a.name + "[*]", ELEM_KIND.get(a.kind) or ("scalar" if "[*]" in a.name else None), a.labels))
        if isinstance(a, K) and isinstance(a.v, (str, bytes, tuple)):
            return [V(K(c)) for c in a.v], EMPTY
        if isinstance(a, Cls):
            return [V(self.enum_member(a, n, st)) for n in self.enum_names(a)], EMPTY
        if isinstance(a, Cat):
            return [], V(Opq(atom_labels(a)))
        if a == NONE:
            return [], EMPTY
        return [], V(Opq(atom_labels(a)))

    def enum_names(self, cls):
        out = []
        for s in cls.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and not t.id.startswith("_"):
                        out.append(t.id)
        return out

    def is_enum(self, cls):
        return isinstance(cls, Cls) and any(isinstance(c, Ext) and c.key in ("enum.Enum", "enum.IntEnum", "Enum") for c in self.mro(cls))

    def enum_member(self, cls, name, st):
        oid = ("enum", id(cls.node), name)
        if oid not in st.heap:
            val = V(Opq())
            for s in cls.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    val = self.eval_in_module(self.modname(cls.node), s.value, st)
            st.heap[oid] = HO("inst", cls=cls, f={"name": V(K(name)), "value": val})
        return Ref(oid)

    # attributes
    def ev_Attribute(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out += self.getattr_(v, node.attr, s, node)
        return self.merge_vals(out)

    def getattr_(self, v, name, st, node):
        out = []
        val = EMPTY
        multi = len(v) > 1
        for a in v:
            r = self.getattr1(a, name, st, node)
            if r is None:
                continue
            if isinstance(r, frozenset):
                val = vjoin(val, r)
            else:  # list of outcomes
                out += r(st.copy() if multi else st)
                if not multi:
                    return out
        if val:
            out.append((st, val))
        return out

    def bind_member(self, a, cls, owner, mem, st):
        """value of class member mem accessed through instance a (a None: through the class)"""
        if isinstance(mem, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = self.decos(mem)
            fn = Fn(mem, owner.frame, owner)
            if "staticmethod" in d:
                return V(fn)
            if "classmethod" in d:
                return V(Bound(cls, fn))
            if a is None:
                return V(fn)
            return V(Bound(a, fn))
        if isinstance(mem, ast.ClassDef):
            return V(Cls(mem, owner.frame))
        return None

    def getattr1(self, a, name, st, node):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if name == "__dict__" and h.kind == "inst":
                return V(DView(a.key))
            if name == "__class__":
                c = self.class_of(a, st)
                return V(c)
            if name == "__annotations__" and h.kind == "inst" and isinstance(h.cls, Cls) and name not in h.f:
                return self.getattr1(h.cls, name, st, node)
            if h.kind == "inst":
                cls = h.cls
                mem = self.class_member(cls, name) if isinstance(cls, Cls) else None
                if mem and isinstance(mem[1], ast.FunctionDef) and ("property" in self.decos(mem[1]) or "getter" in self.decos(mem[1])):
                    if "property" in self.decos(mem[1]):
                        return lambda s: self.call(V(Fn(mem[1], mem[0].frame, mem[0])), Args([V(a)]), s, node)
                if name in h.f:
                    if name in h.opt and not mem:
                        if isinstance(cls, Cls):
                            s2 = st.copy()
                            self.raise_new(s2, "AttributeError", node)
                        return h.f[name]
                    return h.f[name] if not (name in h.opt and mem) else vjoin(h.f[name], self.member_value(a, cls, mem, st, node))
                if mem:
                    return self.member_value(a, cls, mem, st, node)
                if isinstance(cls, Cls):
                    ga = self.class_member(cls, "__getattr__")
                    if ga and not (name.startswith("__") and name.endswith("__")):
                        return lambda s: self.call_method(a, "__getattr__", Args([V(K(name))]), s, node)
                    exts = [c for c in self.mro(cls) if isinstance(c, Ext) and c.key not in BENIGN_BASES]
                    if exts or name.startswith("__"):
                        return V(BMeth(a, name))
                    if h.f.get("__partial"):
                        return V(Sym(f"{self.sname(a, st)}.{name}"))
                    s2 = st
                    return lambda s: (self.raise_new(s, "AttributeError", node, K(name)), [])[1]
                m = self.ext_method(cls.key, name)
                if m:
                    return V(BMeth(a, name))
                pf = protos.fields(self.prog.repo, cls.key)
                if pf and name in pf:
                    kind, ty = pf[name]
                    if kind == "scalar":
                        return V(K(protos.SCALARS[ty]))
                    if kind in ("repeated", "map"):
                        x = V(self.newlist(st, ("unset", a.key, name)) if kind == "repeated" else self.newdict(st, ("unset", a.key, name)))
                        st.heap[a.key] = h.w(f={**h.f, name: x})
                        return x
                    if kind == "message" and ty.split(".")[-1] == "Struct":
                        x = V(self.newdict(st, ("unset", a.key, name), kind="Struct"))
                        st.heap[a.key] = h.w(f={**h.f, name: x})
                        return x
                return V(BMeth(a, name)) if self.looks_method(node) or (name.startswith("__") and name.endswith("__")) else V(
                    Sym(f"{self.sname(a, st)}.{name}", None, self.deep_labels(V(a), st) | {f"{self.sname(a, st)}.{name}"}))
            if h.kind == "partial" and name in ("func", "args", "keywords"):
                return V(Opq())
            return V(BMeth(a, name))
        if isinstance(a, Mod):
            return self.mod_attr(a.key, name, st, node)
        if isinstance(a, Ext):
            p = f"{a.key}.{name}"
            stored = st.heap.get(("ext", a.key))
            if stored is not None and name in stored.f:
                return stored.f[name]
            if name == "__name__":
                return V(K(a.key.split(".")[-1]))
            return V(self.canon_ext(p))
        if isinstance(a, Cls):
            if name == "__name__":
                return V(K(a.node.name))
            if name == "__annotations__":
                return V(self.newdict(st, (a.node, "annotations"), {K(b.target.id): V(Opq()) for b in a.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)}))
            if self.is_enum(a) and name in self.enum_names(a):
                return V(self.enum_member(a, name, st))
            h = st.heap.get(("clsf", id(a.node)))
            if h is not None and name in h.f:
                return h.f[name]
            mem = self.class_member(a, name)
            if mem:
                return self.member_value(None, a, mem, st, node)
            return V(BMeth(a, name))
        if isinstance(a, Super):
            selfcls = self.class_of(a.self_, st) if not isinstance(a.self_, Cls) else a.self_
            m = self.mro(selfcls) if isinstance(selfcls, Cls) else self.mro(a.cls)
            try:
                i = m.index(a.cls)
            except ValueError:
                m, i = self.mro(a.cls), 0
            for c in m[i + 1:]:
                if isinstance(c, Cls):
                    for s in c.node.body:
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                            if "property" in self.decos(s):
                                return lambda st_: self.call(V(Fn(s, c.frame, c)), Args([V(a.self_)]), st_, node)
                            return V(Fn(s, c.frame, c)) if "staticmethod" in self.decos(s) else V(Bound(a.self_, Fn(s, c.frame, c)))
            return V(BMeth(a, name))
        if isinstance(a, Sym):
            if self.sym_attr:
                r = self.sym_attr(self, st, a, K(name))
                if r:
                    return r
            stored = st.heap.get(("symattr", a.name))
            if stored is not None and name in stored.f:
                return stored.f[name]
            if a.kind and a.kind.startswith("obj:"):
                c = self.class_atom(a.kind[4:])
                if isinstance(c, Cls):
                    mem = self.class_member(c, name)
                    if mem and isinstance(mem[1], (ast.FunctionDef, ast.AsyncFunctionDef)):
                        if "property" in self.decos(mem[1]):
                            return V(Sym(f"{a.name}.{name}", None, a.labels | {f"{a.name}.{name}"}))
                        return V(BMeth(a, name))
            if a.kind in ("str", "dict", "list", "int", "float", "bool") or self.looks_method(node):
                return V(BMeth(a, name))
            return V(Sym(f"{a.name}.{name}", "leaf" if a.kind in ("leaf", "scalar") else None, a.labels | {f"{a.name}.{name}"}))
        if isinstance(a, K) and a.v is None:
            def none_attr(s):
                self.raise_new(s, "AttributeError", node)
                return []
            return none_attr
        if isinstance(a, (K, Cat)):
            return V(BMeth(a, name))
        if isinstance(a, DView):
            return V(BMeth(a, name))
        if isinstance(a, (Fn, Bound, BMeth)):
            if name in ("__name__", "__qualname__"):
                n = a.func.node if isinstance(a, Bound) else getattr(a, "node", None)
                return V(K(getattr(n, "name", "<lambda>")) if n is not None else K("m"))
            h = st.heap.get(("fnattr", a))
            if h is not None and name in h.f:
                return h.f[name]
            return V(Opq())
        return V(Opq(atom_labels(a)))

    def looks_method(self, node):
        p = self.prog.parent.get(node)
        return isinstance(p, ast.Call) and p.func is node

    def ext_method(self, cls, name):
        return EXT_METHODS.get((cls, name))

    def member_value(self, a, cls, mem, st, node):
        owner, m = mem
        r = self.bind_member(a, cls, owner, m, st)
        if r is not None:
            return r
        expr = m.value
        oid = ("clsf", id(owner.node))
        h = st.heap.get(oid)
        if h is not None and name_of(m) in h.f:
            return h.f[name_of(m)]
        v = self.eval_in_module(self.modname(owner.node), expr, st)
        h = st.heap.get(oid) or HO("clsf")
        st.heap[oid] = h.setf(name_of(m), v)
        return v

    def mod_attr(self, modname, name, st, node):
        if f"{modname}.{name}" in self.prog.mods:
            r = self.prog.resolve(modname, name)
            if r and r[0] in ("func", "class", "assign"):
                return self.from_resolution(r, name, st)
            return V(Mod(f"{modname}.{name}"))
        return self.lookup_global(modname, name, st, node)

    # ------------------------------------------------------------------ stores
    def assign(self, target, v, st):
        """-> list of states"""
        if isinstance(target, ast.Name):
            self.setname(target.id, v, st)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            its, rest = self.elements(v, st)
            n = len(target.elts)
            stars = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            cur = [st]
            if stars:
                i = stars[0]
                after = n - i - 1
                if not rest and len(its) >= n - 1:
                    vals = its[:i] + [("l", its[i:len(its) - after])] + its[len(its) - after:]
                else:
                    allv = rest
                    for x in its:
                        allv = vjoin(allv, x)
                    vals = [allv] * n
                    vals[i] = ("l", None, allv)
            elif not rest and len(its) != n:
                if its or not v:
                    self.raise_new(st, "ValueError", target)
                    return []
                vals = [V(Opq(vlabels(v)))] * n
            elif rest:
                vals = [(its[i] if i < len(its) else self._idx(rest, i)) for i in range(n)]
            else:
                vals = its
            for e, x in zip(target.elts, vals):
                nxt = []
                for s in cur:
                    if isinstance(x, tuple):
                        xv = V(self.newlist(s, e, x[1] or (), x[2] if len(x) > 2 else EMPTY))
                    else:
                        xv = x
                    nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, xv, s)
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for s, o in self.ev(target.value, st):
                out += self.setattr_(o, target.attr, v, s, target)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, (o, k) in self.ev_list([target.value, target.slice], st):
                out += self.setitem(o, k, v, s, target)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st)
        raise Unsupported("assignment target")

    def _idx(self, rest, i):
        r = EMPTY
        for a in rest:
            if isinstance(a, Sym) and a.name.endswith("[*]"):
                r = vjoin(r, V(Sym(a.name[:-3] + f"[{i}]", None, a.labels)))
            else:
                r = vjoin(r, V(a))
        return r

    def mutated(self, a, what, st, node):
        if self.on_mutate:
            self.on_mutate(self, st, a, what, node)

    def setattr_(self, ov, name, v, st, node):
        weak = len(ov) > 1
        cur = [st]
        for o in ov:
            nxt = []
            for s in cur:
                if isinstance(o, Ref):
                    h = s.heap[o.key]
                    if h.kind == "inst" and isinstance(h.cls, Cls):
                        setter = self.class_setter(h.cls, name)
                        if setter:
                            for s2, _ in self.call(V(Fn(setter[1], setter[0].frame, setter[0])), Args([V(o), v]), s, node):
                                nxt.append(s2)
                            continue
                    self.mutated(o, ("attr", name, v), s, node)
                    h = s.heap[o.key]
                    s.heap[o.key] = h.setf(name, v, weak)
                    nxt.append(s)
                elif isinstance(o, Cls):
                    self.mutated(o, ("attr", name, v), s, node)
                    h = s.heap.get(("clsf", id(o.node))) or HO("clsf")
                    s.heap[("clsf", id(o.node))] = h.setf(name, v)
                    nxt.append(s)
                elif isinstance(o, Mod):
                    self.mutated(o, ("attr", name, v), s, node)
                    h = s.heap.get(("mod", o.key)) or HO("module")
                    s.heap[("mod", o.key)] = h.setf(name, v)
                    nxt.append(s)
                elif isinstance(o, Sym):
                    self.mutated(o, ("attr", name, v), s, node)
                    h = s.heap.get(("symattr", o.name)) or HO("symattr")
                    s.heap[("symattr", o.name)] = h.setf(name, v)
                    nxt.append(s)
                elif isinstance(o, Ext):
                    self.mutated(o, ("attr", name, v), s, node)
                    s.heap[("ext", o.key)] = (s.heap.get(("ext", o.key)) or HO("ext")).setf(name, v)
                    nxt.append(s)
                elif isinstance(o, (Fn, Bound)):
                    s.heap[("fnattr", o)] = (s.heap.get(("fnattr", o)) or HO("fnattr")).setf(name, v)
                    nxt.append(s)
                elif o == NONE:
                    self.raise_new(s, "AttributeError", node)
                else:
                    self.mutated(o, ("attr", name, v), s, node)
                    nxt.append(s)
            cur = nxt
        return cur

    def setitem(self, ov, kv, v, st, node):
        weak = len(ov) > 1
        cur = [st]
        for o in ov:
            nxt = []
            for s in cur:
                if isinstance(o, Ref):
                    h = s.heap[o.key]
                    if h.kind == "inst" and isinstance(h.cls, Cls) and self.class_member(h.cls, "__setitem__"):
                        for s2, _ in self.call_method(o, "__setitem__", Args([kv, v]), s, node):
                            nxt.append(s2)
                        continue
                    self.mutated(o, ("item", kv, v), s, node)
                    h = s.heap[o.key]
                    if h.kind in ("dict", "Struct"):
                        self.dict_store(o, kv, v, s, weak)
                    elif h.kind in LISTS:
                        if len(kv) == 1 and isinstance(next(iter(kv)), K) and isinstance(next(iter(kv)).v, int) and 0 <= next(iter(kv)).v < len(h.items):
                            i = next(iter(kv)).v
                            its = list(h.items)
                            its[i] = vjoin(its[i], v) if weak else v
                            s.heap[o.key] = h.w(items=tuple(its))
                        else:
                            s.heap[o.key] = h.w(items=tuple(vjoin(i, v) for i in h.items), rest=vjoin(h.rest, v) if h.rest else h.rest)
                    elif h.kind == "inst":
                        s.heap[o.key] = h.setf(("item", kv), v)
                elif isinstance(o, DView):
                    self.mutated(Ref(o.key), ("attr", next(iter(kv)), v), s, node)
                    h = s.heap[o.key]
                    if len(kv) == 1 and isinstance(next(iter(kv)), K):
                        s.heap[o.key] = h.setf(next(iter(kv)).v, v, weak)
                    else:
                        for k in kv:
                            s.heap[o.key] = s.heap[o.key].setf(k.v if isinstance(k, K) else k, v, True)
                else:
                    self.mutated(o, ("item", kv, v), s, node)
                nxt.append(s)
            cur = nxt
        return cur

    def dict_store(self, o, kv, v, st, weak=False):
        h = st.heap[o.key]
        if len(kv) == 1:
            (k,) = kv
            if isinstance(k, (K, Sym, Cat, Ref)) and not (isinstance(k, Sym) and "[*]" in k.name and weak):
                st.heap[o.key] = h.setf(k, v, weak)
                return
        for k in kv:
            if isinstance(k, K):
                h = h.setf(k, v, True)
            else:
                h = h.w(rest=vjoin(h.rest, v), restk=vjoin(h.restk, V(k)))
        st.heap[o.key] = h

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        out = Out()
        cur = [st]
        for s in stmts:
            nxt = []
            for x in cur:
                o = self.stmt(s, x)
                nxt += o.normal
                out.ret += o.ret
                out.brk += o.brk
                out.cont += o.cont
            cur = self.merge_states(nxt)
            if not cur:
                break
        out.normal = cur
        return out

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, st)

    def st_Expr(self, s, st):
        return Out(self.merge_states([x for x, _ in self.ev(s.value, st)]))

    def st_Pass(self, s, st):
        return Out([st])

    st_Global = st_Nonlocal = st_Pass

    def st_Assert(self, s, st):
        t, f = self.branch(s.test, st)
        for x in f:
            self.raise_new(x, "AssertionError", s)
        return Out(t)

    def st_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt += self.assign(t, v, y)
                cur = nxt
            out += cur
        return Out(out)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return Out([st])
        out = []
        for x, v in self.ev(s.value, st):
            out += self.assign(s.target, v, x)
        return Out(out)

    def st_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        self.adopt(load, s)
        out = []
        for x, (a, b) in self.ev_list([load, s.value], st):
            # in-place container ops mutate
            if len(a) == 1:
                (o,) = a
                if isinstance(o, Ref) and x.heap[o.key].kind in ("list", "set") and isinstance(s.op, (ast.Add, ast.BitOr)):
                    self.mutated(o, ("iadd", b), x, s)
                    its, rest = self.elements(b, x)
                    h = x.heap[o.key]
                    if h.rest or rest:
                        r = vjoin(h.rest, rest)
                        for i in its:
                            r = vjoin(r, i)
                        x.heap[o.key] = h.w(rest=r)
                    else:
                        new = h.items + tuple(its)
                        if h.kind == "set":
                            new = tuple(self.dedupe(list(new)))
                        x.heap[o.key] = h.w(items=new)
                    out += self.assign(s.target, a, x)
                    continue
            for y, r in self.binop(s.op, a, b, x, s):
                out += self.assign(s.target, r, y)
        return Out(out)

    def adopt(self, node, like):
        for n in ast.walk(node):
            self.prog.node_mod[n] = self.prog.node_mod.get(like)
            self.prog.parent.setdefault(n, like)

    def st_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    h = x.heap[self.fr]
                    f = dict(h.f)
                    f.pop(t.id, None)
                    x.heap[self.fr] = h.w(f=f)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, (o, k) in self.ev_list([t.value, t.slice], x):
                        for a in o:
                            if isinstance(a, Ref):
                                self.mutated(a, ("del", k), y, t)
                                h = y.heap[a.key]
                                if h.kind in ("dict", "Struct"):
                                    f = dict(h.f)
                                    for kk in k:
                                        f.pop(kk, None)
                                    y.heap[a.key] = h.w(f=f, opt=h.opt & frozenset(f))
                        nxt.append(y)
                elif isinstance(t, ast.Attribute):
                    for y, o in self.ev(t.value, x):
                        for a in o:
                            if isinstance(a, Ref):
                                self.mutated(a, ("delattr", t.attr), y, t)
                                h = y.heap[a.key]
                                f = dict(h.f)
                                f.pop(t.attr, None)
                                y.heap[a.key] = h.w(f=f)
                        nxt.append(y)
            cur = nxt
        return Out(cur)

    def st_Return(self, s, st):
        o = Out()
        if s.value is None:
            o.ret.append((st, VNONE))
        else:
            o.ret += self.ev(s.value, st)
        return o

    def st_Raise(self, s, st):
        if s.exc is None:
            cur = st.heap.get(("excinfo",))
            self.raise_(st, cur.f.get("cur", V(Opq())) if cur else V(Opq()))
            return Out()
        for x, v in self.ev(s.exc, st):
            cause = []
            r = EMPTY
            todo = [(x, EMPTY)]
            for a in v:
                if isinstance(a, (Cls, Ext)):
                    nxt = []
                    for y, acc in todo:
                        for z, iv in self.call(V(a), Args(), y, s):
                            nxt.append((z, vjoin(acc, iv)))
                    todo = nxt
                else:
                    todo = [(y, vjoin(acc, V(a))) for y, acc in todo]
            for y, ev_ in todo:
                if s.cause is not None:
                    for z, cv in self.ev(s.cause, y):
                        for a in ev_:
                            if isinstance(a, Ref):
                                z.heap[a.key] = z.heap[a.key].setf("__cause__", cv)
                        self.raise_(z, ev_)
                else:
                    self.raise_(y, ev_)
        return Out()

    def st_If(self, s, st):
        t, f = self.branch(s.test, st)
        out = Out()
        for states, body in ((t, s.body), (f, s.orelse)):
            for x in states:
                o = self.block(body, x)
                out.normal += o.normal
                out.ret += o.ret
                out.brk += o.brk
                out.cont += o.cont
        out.normal = self.merge_states(out.normal)
        return out

    def fixed_size(self, h):
        """the number of entries of a set or dict, when it is definite"""
        if h is None or h.rest or h.opt:
            return None
        if h.kind == "dict":
            return len(h.f)
        return len(h.items) if all(len(v) == 1 for v in h.items) else None

    def not_iterable(self, it, st, node):
        """iterating over a definite None, number or truth value raises TypeError"""
        if len(it) == 1:
            (a,) = it
            if isinstance(a, K) and (a.v is None or isinstance(a.v, (bool, int, float))):
                self.raise_new(st, "TypeError", node)
                return True
        return False

    def st_For(self, s, st):
        out = Out()
        after = []
        for x, it in self.ev(s.iter, st):
            if self.not_iterable(it, x, s):
                continue
            its, rest = self.elements(it, x, s)
            cur = [x]
            broke = []
            live = None  # a set or dict iterated over directly: growing it in the body ends the loop with an error
            if len(it) == 1 and not rest:
                (a0,) = it
                h0 = x.heap.get(a0.key) if isinstance(a0, Ref) else None
                if h0 is not None and h0.kind in ("set", "dict") and not h0.rest and not h0.opt:
                    live = (a0.key, self.fixed_size(h0))

            def step(states, val):
                nxt = []
                for y in states:
                    for z in self.assign(s.target, val, y):
                        o = self.block(s.body, z)
                        out.ret.extend(o.ret)
                        broke.extend(o.brk)
                        nxt.extend(o.normal)
                        nxt.extend(o.cont)
                if live is not None:
                    for q in [q for q in nxt if self.fixed_size(q.heap.get(live[0])) not in (live[1], None)]:
                        nxt.remove(q)
                        self.raise_new(q, "RuntimeError", s)
                return self.merge_states(nxt)

            for v in its:
                cur = step(cur, v)
                if not cur:
                    break
            if rest and cur:
                base = cur
                for _ in range(3):
                    nx = step([y.copy() for y in base], rest)
                    j = self.merge_states(base + nx, limit=6)
                    if len(j) == len(base) and all(any(a.same(b) for b in base) for a in j):
                        break
                    base = j
                cur = base
            for y in cur:
                if s.orelse:
                    o = self.block(s.orelse, y)
                    after += o.normal
                    out.ret += o.ret
                    out.brk += o.brk
                    out.cont += o.cont
                else:
                    after.append(y)
            after += broke
        out.normal = self.merge_states(after)
        return out

    st_AsyncFor = st_For

    def st_While(self, s, st):
        out = Out()
        exits = []
        cur = [st]
        seen = []
        for it in range(self.max_loop):
            nxt = []
            for x in cur:
                t, f = self.branch(s.test, x)
                exits += f
                for y in t:
                    o = self.block(s.body, y)
                    out.ret += o.ret
                    exits += o.brk
                    nxt += o.normal + o.cont
            nxt = self.merge_states(nxt, limit=8)
            nxt = [y for y in nxt if not any(y.same(z) for z in seen)]
            if not nxt:
                break
            seen += [y.copy() for y in nxt]
            cur = nxt
        else:
            # widening: forget and leave through the (abstractly possible) exit
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                exits += cur
        if s.orelse:
            ex2 = []
            for y in exits:
                o = self.block(s.orelse, y)
                ex2 += o.normal
                out.ret += o.ret
            exits = ex2
        out.normal = self.merge_states(exits)
        return out

    def st_Break(self, s, st):
        o = Out()
        o.brk.append(st)
        return o

    def st_Continue(self, s, st):
        o = Out()
        o.cont.append(st)
        return o

    def st_Import(self, s, st):
        for a in s.names:
            n = a.name if a.asname else a.name.split(".")[0]
            v = V(Mod(n)) if n in self.prog.mods else V(self.canon_ext(n))
            self.setname(a.asname or a.name.split(".")[0], v, st)
        return Out([st])

    def st_ImportFrom(self, s, st):
        m = self.prog.node_mod[s]
        tgt = m.import_target(s)
        for a in s.names:
            r = self.prog.resolve(tgt, a.name)
            if r is None:
                v = V(Opq())
            elif f"{tgt}.{a.name}" in self.prog.mods and r[0] == "mod":
                v = V(Mod(f"{tgt}.{a.name}"))
            else:
                v = self.lookup_global(tgt, a.name, st, s) if tgt in self.prog.mods else self.from_resolution(r, a.name, st)
            self.setname(a.asname or a.name, v, st)
        return Out([st])

    def st_FunctionDef(self, s, st):
        fn, st = self.closure(s, st)
        self.setname(s.name, V(fn), st)
        v = self.decorate(s, fn, st, s)
        self.setname(s.name, v, st)
        return Out([st])

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, node, fn, st, site):
        v = V(fn)
        for d in reversed(node.decorator_list):
            e = d.func if isinstance(d, ast.Call) else d
            nm = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "")
            if nm in ("staticmethod", "classmethod", "property", "abstractmethod", "overload", "wraps", "contextmanager",
                      "asynccontextmanager", "setter", "getter", "lru_cache", "cache", "final", "runtime_checkable", "dataclass"):
                continue
            if isinstance(d, ast.Call):
                continue
            m = self.prog.node_mod[node]
            if isinstance(e, ast.Name):
                r = self.prog.resolve(m.name, e.id)
                if r and r[0] == "func":
                    old_fr = self.fr
                    fo = ("modframe", m.name)
                    if fo not in st.heap:
                        st.heap[fo] = HO("frame", meta={"parent": None, "mod": m.name, "fn": None, "glob": None})
                    if self.fr is None:
                        self.fr = fo
                    try:
                        if self.sink is None:
                            self.sink = []
                        rs = self.call(V(Fn(r[2])), Args([v]), st, d)
                    finally:
                        self.fr = old_fr
                    if len(rs) == 1 and rs[0][0] is st:
                        v = rs[0][1]
        return v

    def st_ClassDef(self, s, st):
        self.setname(s.name, V(Cls(s, self.fr)), st)
        return Out([st])

    # --- exceptions
    def exc_match(self, exc, cls, st):
        """does exception atom exc match handler class atom?  True/False/None"""
        if isinstance(exc, Ref):
            c = st.heap[exc.key].cls
            return self.is_subclass(c, cls) if c is not None else None
        if isinstance(exc, Sym) and exc.kind and exc.kind.startswith("obj:"):
            return self.is_subclass(self.class_atom(exc.kind[4:]), cls)
        if isinstance(cls, Ext) and cls.key in ("Exception", "BaseException"):
            return True
        return None

    def st_Try(self, s, st):
        out = Out()
        o, raised = self.with_sink(lambda: self.block(s.body, st))
        # else clause runs outside the handlers
        escaping = []
        normals = list(o.normal)
        if s.orelse:
            def run_else():
                acc = Out()
                for x in normals:
                    p = self.block(s.orelse, x)
                    acc.normal += p.normal
                    acc.ret += p.ret
                    acc.brk += p.brk
                    acc.cont += p.cont
                return acc
            p, r2 = self.with_sink(run_else)
            escaping += r2
            normals = p.normal
            o.ret += p.ret
            o.brk += p.brk
            o.cont += p.cont
        res = Out(normals)
        res.ret, res.brk, res.cont = o.ret, o.brk, o.cont
        # handlers
        for x, exc in self.merge_vals(raised):
            self.handle(s, x, exc, res, escaping)
        if not s.finalbody:
            out.normal = self.merge_states(res.normal)
            out.ret, out.brk, out.cont = res.ret, res.brk, res.cont
            for x, e in escaping:
                self.raise_(x, e)
            return out
        # finally on every exit
        for x in self.merge_states(res.normal):
            f = self.block(s.finalbody, x)
            out.normal += f.normal
            out.ret += f.ret
            out.brk += f.brk
            out.cont += f.cont
        for x, v in self.merge_vals(res.ret):
            f = self.block(s.finalbody, x)
            out.ret += [(y, v) for y in f.normal] + f.ret
        for x in res.brk:
            f = self.block(s.finalbody, x)
            out.brk += f.normal + f.brk
            out.ret += f.ret
        for x in res.cont:
            f = self.block(s.finalbody, x)
            out.cont += f.normal + f.cont
            out.ret += f.ret
        for x, e in self.merge_vals(escaping):
            f = self.block(s.finalbody, x)
            for y in f.normal:
                self.raise_(y, e)
            out.ret += f.ret
            out.brk += f.brk
            out.cont += f.cont
        return out

    def handle(self, s, st, exc, res, escaping):
        todo = [(st, exc)]
        for h in s.handlers:
            if not todo:
                break
            nxt = []
            for x, e in todo:
                if h.type is None:
                    hit, miss = e, EMPTY
                    clss = None
                else:
                    r, rs = self.with_sink(lambda: self.ev(h.type, x))
                    if not r:
                        nxt.append((x, e))
                        continue
                    x, cv = r[0]
                    clss = self.flat_classes(cv, x)
                    hit, miss = set(), set()
                    for a in e:
                        m = False
                        for c in clss:
                            k = self.exc_match(a, c, x)
                            if k is True:
                                m = True
                                break
                            if k is None:
                                m = None
                        if m is not False:
                            hit.add(a)
                        if m is not True:
                            miss.add(a)
                    hit, miss = frozenset(hit), frozenset(miss)
                if miss:
                    nxt.append((x.copy() if hit else x, miss))
                if hit:
                    def run(x=x, hit=hit, h=h, clss=clss):
                        if clss and len(hit) == 1 and isinstance(next(iter(hit)), Ref):
                            a = next(iter(hit))
                            ho = x.heap[a.key]
                            if ho.cls == Ext("*") and len(clss) == 1 and clss[0] not in (Ext("Exception"), Ext("BaseException")):
                                # the caught object is an instance of the handler class
                                na = self.newinst(x, h, clss[0], dict(ho.f))
                                hit = V(na)
                        if h.name:
                            self.setname(h.name, hit, x)
                        oldx = x.heap.get(("excinfo",))
                        x.heap[("excinfo",)] = HO("excinfo", f={"cur": hit})
                        o = self.block(h.body, x)
                        return o
                    o, esc = self.with_sink(run)
                    escaping += esc
                    res.normal += o.normal
                    res.ret += o.ret
                    res.brk += o.brk
                    res.cont += o.cont
            todo = nxt
        escaping += todo

    # --- with
    def st_With(self, s, st):
        return self._with(s, 0, st)

    st_AsyncWith = st_With

    def _with(self, s, i, st):
        if i == len(s.items):
            return self.block(s.body, st)
        item = s.items[i]
        out = Out()
        isasync = isinstance(s, ast.AsyncWith)
        for x, v in self.ev(item.context_expr, st):
            for a in v:
                self._with_one(s, i, item, a, x if len(v) == 1 else x.copy(), out, isasync)
        out.normal = self.merge_states(out.normal)
        return out

    def _with_one(self, s, i, item, a, st, out, isasync):
        def body(x, val):
            o = Out()
            sts = [x]
            if item.optional_vars is not None:
                sts = self.assign(item.optional_vars, val, x)
            for y in sts:
                p = self._with(s, i + 1, y)
                o.normal += p.normal
                o.ret += p.ret
                o.brk += p.brk
                o.cont += p.cont
            return o

        h = st.heap[a.key] if isinstance(a, Ref) else None
        if h is not None and h.kind == "suppress":
            o, esc = self.with_sink(lambda: body(st, VNONE))
            out.normal += o.normal
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            for x, e in esc:
                hit, miss = set(), set()
                for ex in e:
                    ms = [self.exc_match(ex, c, x) for c in h.meta]
                    if True in ms:
                        hit.add(ex)
                    elif None in ms:
                        hit.add(ex)
                        miss.add(ex)
                    else:
                        miss.add(ex)
                if miss:
                    self.raise_(x.copy() if hit else x, frozenset(miss))
                if hit:
                    out.normal.append(x)
            return
        if h is not None and h.kind == "genctx":
            # @contextmanager: the body runs at the yield point
            fn, args = h.meta
            side = []
            caller = (self.fr,)

            def k(x, val):
                gfr, gctx = self.fr, self.ctx
                self.fr = caller[0]
                yk = self.yield_k.pop()
                try:
                    o = body(x, val)
                finally:
                    self.yield_k.append(yk)
                    self.fr, self.ctx = gfr, gctx
                res = [(y, VNONE) for y in o.normal]
                for kind in ("ret", "brk", "cont"):
                    for y in getattr(o, kind):
                        z = y[0] if kind == "ret" else y
                        z.set_ghost("__exit", V(K(len(side))))
                        side.append((kind, y[1] if kind == "ret" else None))
                        res.append((z, VNONE))
                return res
            self.yield_k.append(k)
            try:
                rs = self.run_fn(fn, args, st, item.context_expr)
            finally:
                self.yield_k.pop()
            for x, _ in rs:
                g = x.ghost("__exit")
                tags = {q.v for q in g} if g else {None}
                if g:
                    x.heap["ghost"] = x.heap["ghost"].w(f={kk: vv for kk, vv in x.heap["ghost"].f.items() if kk != "__exit"})
                for t in tags:
                    y = x if len(tags) == 1 else x.copy()
                    if t is None:
                        out.normal.append(y)
                    else:
                        kind, val = side[t]
                        if kind == "ret":
                            out.ret.append((y, val))
                        else:
                            getattr(out, kind).append(y)
            return
        # generic context manager protocol
        pre = "__a" if isasync else "__"

        def maybe_await(rs):
            if not isasync:
                return rs
            o2 = []
            for x, v in rs:
                o2 += self.await_(v, x, item.context_expr)
            return o2

        entered = maybe_await(self.call_method(a, pre + "enter__", Args(), st, item.context_expr))
        for x, val in entered:
            o, esc = self.with_sink(lambda: body(x, val))

            def exit_(y, e=None):
                if e is None:
                    ar = Args([VNONE, VNONE, VNONE])
                else:
                    ar = Args([V(Opq()), e, V(Opq())])
                return maybe_await(self.call_method(a, pre + "exit__", ar, y, item.context_expr))
            for y in o.normal:
                out.normal += [z for z, _ in exit_(y)]
            for y, v in o.ret:
                out.ret += [(z, v) for z, _ in exit_(y)]
            for y in o.brk:
                out.brk += [z for z, _ in exit_(y)]
            for y in o.cont:
                out.cont += [z for z, _ in exit_(y)]
            for y, e in esc:
                for z, rv in exit_(y, e):
                    t = {self.truth(q, z) for q in rv}
                    if True in t:
                        out.normal.append(z.copy() if t != {True} else z)
                    if t != {True}:
                        self.raise_(z, e)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, node, st):
        self.sites.add(node)
        out = []
        # super() without arguments
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            sc = st.heap[self.fr].meta.get("selfctx")
            fo = self.fr
            while sc is None and fo is not None:
                fo = st.heap[fo].meta["parent"]
                sc = st.heap[fo].meta.get("selfctx") if fo else None
            if sc:
                return [(st, V(Super(sc[0], sc[1])))]
        for s, fv in self.ev(node.func, st):
            for s2, args in self.ev_args(node, s):
                if self.path_hook:
                    self.path_hook(self, s2, node, fv, args)
                out += self.call(fv, args, s2, node)
        return self.merge_vals(out)

    def ev_args(self, node, st):
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in node.args] + [k.value for k in node.keywords]
        out = []
        if any(k.arg is None and isinstance(k.value, ast.Call) and isinstance(k.value.func, ast.Name) and k.value.func.id == "locals" for k in node.keywords):
            pass
        for s, vs in self.ev_list(exprs, st):
            args = Args()
            n = len(node.args)
            for a, v in zip(node.args, vs[:n]):
                if isinstance(a, ast.Starred):
                    its, rest = self.elements(v, s)
                    if args.star:
                        for i in its:
                            args.star = vjoin(args.star, i)
                    else:
                        args.pos += its
                    args.star = vjoin(args.star, rest)
                elif args.star:
                    args.star = vjoin(args.star, v)
                else:
                    args.pos.append(v)
            for k, v in zip(node.keywords, vs[n:]):
                if k.arg is not None:
                    args.kw[k.arg] = v
                else:
                    for a in v:
                        f, opt, rest, restk = self.dict_parts(a, s)
                        for kk, x in f.items():
                            if isinstance(kk, K) and isinstance(kk.v, str):
                                args.kw[kk.v] = x
                            else:
                                args.kwstar = vjoin(args.kwstar, x)
                        args.kwstar = vjoin(args.kwstar, rest)
            out.append((s, args))
        return out

    def call(self, fv, args, st, node):
        out = []
        n = len(fv)
        for i, f in enumerate(sorted(fv, key=repr) if n > 1 else fv):
            s = st if i == n - 1 else st.copy()
            out += self.call1(f, args, s, node)
        return self.merge_vals(out)

    def call_method(self, a, name, args, st, node):
        out = []
        for s, fv in self.getattr_(V(a), name, st, node):
            out += self.call(fv, args, s, node)
        return out

    def may_fault(self, desc, st, node):
        if self.fault and self.fault(self, desc, node, st):
            s2 = st.copy()
            e = self.newinst(s2, node if isinstance(node, ast.AST) else "fault", Ext("*"), {"__fault": V(K(desc))})
            self.raise_(s2, V(e))
            return self.fault_only
        return False

    def call1(self, f, args, st, node):
        self.tick()
        if isinstance(f, Fn):
            return self.call_fn(f, args, st, node)
        if isinstance(f, Bound):
            a2 = Args([V(f.self_)] + args.pos, args.kw, args.star, args.kwstar)
            return self.call1(f.func, a2, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, st, node)
        if isinstance(f, Ext):
            m = self.models.get(f.key)
            if m is not None:
                return m(self, st, args, node)
            return self.call_ext(f, args, st, node)
        if isinstance(f, BMeth):
            from . import lib
            return lib.call_bmeth(self, f, args, st, node)
        if isinstance(f, Ref):
            h = st.heap[f.key]
            if h.kind == "partial":
                fn, pos, kw = h.meta
                return self.call(fn, Args(list(pos) + args.pos, {**dict(kw), **args.kw}, args.star, args.kwstar), st, node)
            if h.kind == "inst" and isinstance(h.cls, Cls) and self.class_member(h.cls, "__call__"):
                return self.call_method(f, "__call__", args, st, node)
            return self.opaque_call(f, args, st, node)
        if isinstance(f, (Sym, Opq)):
            return self.opaque_call(f, args, st, node)
        if f == NONE:
            self.raise_new(st, "TypeError", node)
            return []
        if isinstance(f, (K,)):
            self.raise_new(st, "TypeError", node)
            return []
        return self.opaque_call(f, args, st, node)

    def desc(self, f, st):
        if isinstance(f, BMeth):
            return f"{self.desc(f.obj, st)}.{f.name}"
        if isinstance(f, Sym):
            return f.name
        if isinstance(f, (Ext, Mod)):
            return f.key
        if isinstance(f, Ref):
            return self.sname(f, st)
        if isinstance(f, Super):
            return f"super({f.cls.node.name})"
        if isinstance(f, Fn):
            return self.prog.qualname(f.node)
        return repr(f)

    def opaque_call(self, f, args, st, node):
        d = self.desc(f, st)
        if self.sym_call:
            r = self.sym_call(self, st, f, d, args, node)
            if r is not None:
                return r
        self.may_fault(d, st, node)
        self.opaque_calls.add(d)
        labels = atom_labels(f)
        if isinstance(f, BMeth) and isinstance(f.obj, Ref):
            labels |= self.deep_labels(V(f.obj), st)
        for v in args.all():
            labels |= self.deep_labels(v, st)
        if isinstance(f, Sym) or (isinstance(f, BMeth) and isinstance(f.obj, Sym)):
            nm = f"{d}({', '.join(sorted('|'.join(sorted(map(repr, v))) for v in args.all()))})" if args.all() else f"{d}()"
            if len(nm) < 160:
                return [(st, V(Sym(nm, None, labels | {d})))]
        return [(st, V(Opq(labels)))]

    def call_ext(self, f, args, st, node):
        d = f.key
        if self.sym_call:
            r = self.sym_call(self, st, f, d, args, node)
            if r is not None:
                return r
        last = d.split(".")[-1]
        if last[:1].isupper() or (hasattr(_b, d) and isinstance(getattr(_b, d), type) and issubclass(getattr(_b, d), BaseException)):
            fields = dict(args.kw)
            if args.pos:
                fields["args"] = V(self.newlist(st, node, args.pos, args.star, "tuple"))
                for i, p in enumerate(args.pos):
                    fields[f"arg{i}"] = p
            self.may_fault(d, st, node)
            return [(st, V(self.newinst(st, node, f, fields)))]
        return self.opaque_call(f, args, st, node)

    def instantiate(self, cls, args, st, node):
        dotted = self.prog.qualname(cls.node)
        m = self.models.get(dotted)
        if m is not None:
            return m(self, st, args, node)
        if self.is_enum(cls):
            v = args.get(0)
            if v and len(v) == 1 and isinstance(next(iter(v)), K):
                for n in self.enum_names(cls):
                    r = self.enum_member(cls, n, st)
                    if st.heap[r.key].f["value"] == v:
                        return [(st, V(r))]
                self.raise_new(st, "ValueError", node)
                return []
            return [(st, V(Sym(f"{cls.node.name}({'|'.join(sorted(map(repr, v or ())))})", "obj:" + dotted, vlabels(v or EMPTY) | frozenset())))]
        init = self.class_member(cls, "__init__")
        kind = None
        for c in self.mro(cls):
            if isinstance(c, Ext) and c.key in ("TypedDict", "typing.TypedDict", "typing_extensions.TypedDict"):
                kind = "dict"
        if kind == "dict":
            return [(st, V(self.newdict(st, node, {K(k): v for k, v in args.kw.items()})))]
        a = self.newinst(st, node, cls)
        if init:
            out = []
            for s, _ in self.call1(Fn(init[1], init[0].frame, init[0]), Args([V(a)] + args.pos, args.kw, args.star, args.kwstar), st, node):
                out.append((s, V(a)))
            return out
        decos = [d for c in self.mro(cls) if isinstance(c, Cls) for d in self.decos(c.node)]
        isnt = any(isinstance(c, Ext) and c.key in ("NamedTuple", "typing.NamedTuple") for c in self.mro(cls))
        if "dataclass" in decos or isnt:
            fields = []
            for c in reversed(self.mro(cls)):
                if isinstance(c, Cls):
                    for s_ in c.node.body:
                        if isinstance(s_, ast.AnnAssign) and isinstance(s_.target, ast.Name):
                            fields = [x for x in fields if x[0] != s_.target.id] + [(s_.target.id, s_.value, c)]
            f = {}
            for i, (n, dflt, c) in enumerate(fields):
                v = args.get(i, n)
                if v is None:
                    if dflt is None:
                        v = V(Opq())
                    else:
                        v = self.eval_in_module(self.modname(c.node), dflt, st)
                f[n] = v
            st.heap[a.key] = st.heap[a.key].w(f=f)
            return [(st, V(a))]
        ext = [c for c in self.mro(cls) if isinstance(c, Ext) and c.key not in BENIGN_BASES]
        if ext or args.all():
            f = dict(args.kw)
            if args.pos:
                f["args"] = V(self.newlist(st, node, args.pos, args.star, "tuple"))
            st.heap[a.key] = st.heap[a.key].w(f=f)
        return [(st, V(a))]

    def bind(self, fn, args, st, node):
        """-> frame oid or None (TypeError raised)"""
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        f = {}
        pos = list(args.pos)
        kw = dict(args.kw)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                defaults[p] = d
        used = 0
        missing = []
        for i, p in enumerate(params):
            if i < len(pos):
                f[p] = pos[i]
                used = i + 1
            elif p in kw:
                f[p] = kw.pop(p)
            elif args.star and not args.kwstar and p not in defaults:
                f[p] = args.star
            elif args.star:
                f[p] = vjoin(args.star, EMPTY)
                missing.append((p, True))
            else:
                missing.append((p, False))
        extra = pos[len(params):]
        for p in [x.arg for x in a.kwonlyargs]:
            if p in kw:
                f[p] = kw.pop(p)
            else:
                missing.append((p, False))
        if extra and not a.vararg:
            self.raise_new(st, "TypeError", node)
            return None
        if kw and not a.kwarg:
            self.raise_new(st, "TypeError", node)
            return None
        if a.vararg:
            f[a.vararg.arg] = V(self.newlist(st, fn.node, extra, args.star, "tuple"))
        if a.kwarg:
            f[a.kwarg.arg] = V(self.newdict(st, fn.node, {K(k): v for k, v in kw.items()}, args.kwstar,
                                            V(Opq()) if args.kwstar else EMPTY))
        for p, partial in missing:
            if p in defaults:
                v = self.eval_default(fn, defaults[p], st, p)
                f[p] = vjoin(f[p], v) if p in f else v
                if args.kwstar:
                    f[p] = vjoin(f[p], args.kwstar)
            elif args.kwstar:
                f[p] = args.kwstar
            elif p not in f:
                self.raise_new(st, "TypeError", node, K(f"missing argument {p}"))
                return None
        local, glob, nonl, nested, gen = self.fninfo(fn.node)
        selfctx = None
        if fn.cls is not None and params and "staticmethod" not in self.decos(fn.node):
            sv = f.get(params[0], EMPTY)
            if len(sv) == 1:
                selfctx = (fn.cls, next(iter(sv)))
        elif fn.frame is not None and fn.frame in st.heap:
            selfctx = st.heap[fn.frame].meta.get("selfctx")
        meta = {"parent": fn.frame, "mod": self.modname(fn.node), "fn": fn.node, "glob": glob, "nonl": nonl, "local": local,
                "selfctx": selfctx}
        r = self.alloc(st, fn.node, HO("frame", f=f, meta=meta))
        return r.key

    def eval_default(self, fn, expr, st, p=None):
        h = st.heap.get(fn.frame)
        if h is not None and "default:" + str(p) in h.f:
            return h.f["default:" + p]
        if isinstance(expr, ast.Constant):
            return V(K(expr.value))
        return self.eval_in_module(self.modname(fn.node), expr, st)

    def call_fn(self, fn, args, st, node):
        q = self.prog.qualname(fn.node)
        m = self.models.get(q)
        if m is not None:
            return m(self, st, args, node)
        self.visited.add(fn.node)
        if isinstance(fn.node, ast.AsyncFunctionDef):
            old = self.ctx
            self.ctx = self.ctx + (id(node),)
            try:
                fo = self.bind(fn, args, st, node)
                if fo is None:
                    return []
                return [(st, V(self.alloc(st, node, HO("coro", meta=(fn, fo, self.ctx)))))]
            finally:
                self.ctx = old
        if self.fninfo(fn.node)[4]:
            d = self.decos(fn.node)
            if "contextmanager" in d:
                return [(st, V(self.alloc(st, node, HO("genctx", meta=(fn, args)))))]
            return self.run_generator(fn, args, st, node)
        return self.run_fn(fn, args, st, node)

    def run_generator(self, fn, args, st, node):
        acc = self.newlist(st, node)

        def k(s, v):
            h = s.heap[acc.key]
            if len(h.items) < 8 and not h.rest:
                s.heap[acc.key] = h.w(items=h.items + (v,))
            else:
                s.heap[acc.key] = h.w(rest=vjoin(h.rest, v))
            return [(s, VNONE)]
        self.yield_k.append(k)
        try:
            rs = self.run_fn(fn, args, st, node)
        finally:
            self.yield_k.pop()
        return [(s, V(acc)) for s, _ in rs]

    def run_fn(self, fn, args, st, node):
        n = self.active.get(fn.node, 0)
        if n >= self.RECUR or self.depth >= self.MAXDEPTH:
            l = frozenset()
            for v in args.all():
                l |= self.deep_labels(v, st)
            self.warn.add(f"recursion cut in {self.prog.qualname(fn.node)}")
            return [(st, V(Opq(l)))]
        old_fr, old_ctx = self.fr, self.ctx
        self.ctx = old_ctx + (id(node),)
        try:
            fo = self.bind(fn, args, st, node)
            if fo is None:
                return []
            self.active[fn.node] = n + 1
            self.depth += 1
            self.fr = fo
            try:
                return self.run_body(fn.node, fo, st)
            finally:
                self.active[fn.node] = n
                self.depth -= 1
        finally:
            self.fr, self.ctx = old_fr, old_ctx

    def run_body(self, fnode, fo, st):
        self.visited.add(fnode)
        if self.inject and fnode in self.inject:
            x = st.heap.get(("excinfo",))
            if x is None or not x.f.get("cur"):
                self.injected += 1
                self.raise_new(st, "Exception", ("injected", fnode))
                return []
        if isinstance(fnode, ast.Lambda):
            res = self.ev(fnode.body, st)
        else:
            o = self.block(fnode.body, st)
            res = o.ret + [(s, VNONE) for s in o.normal]
        if not self.fninfo(fnode)[3]:
            for s, _ in res:
                s.heap.pop(fo, None)
        return self.merge_vals(res)

    def run_coro(self, a, st, node):
        """run a coroutine object's body"""
        h = st.heap[a.key]
        fn, fo, ctx = h.meta
        if isinstance(fn, str):  # executor / model coroutine
            return fo(self, st, node)
        if a.key[1] < self.per_site:
            if h.f.get("awaited") == VTRUE:  # a coroutine object can be awaited once
                self.raise_new(st, "RuntimeError", node)
                return []
            st.heap[a.key] = h.setf("awaited", VTRUE)
        n = self.active.get(fn.node, 0)
        if n >= self.RECUR or self.depth >= self.MAXDEPTH:
            l = frozenset()
            for v in st.heap[fo].f.values():
                l |= self.deep_labels(v, st)
            self.warn.add(f"recursion cut in {self.prog.qualname(fn.node)}")
            return [(st, V(Opq(l)))]
        old_fr, old_ctx, old_ed = self.fr, self.ctx, self.exec_depth
        self.fr, self.ctx, self.exec_depth = fo, ctx, 0
        self.active[fn.node] = n + 1
        self.depth += 1
        yk, self.yield_k = self.yield_k, []
        try:
            return self.run_body(fn.node, fo, st)
        finally:
            self.active[fn.node] = n
            self.depth -= 1
            self.fr, self.ctx, self.exec_depth = old_fr, old_ctx, old_ed
            self.yield_k = yk

    # ------------------------------------------------------------------ tasks
    def make_task(self, v, st, node):
        """ensure_future"""
        out = EMPTY
        for a in v:
            if isinstance(a, Ref) and st.heap[a.key].kind == "future":
                out = vjoin(out, V(a))
            elif isinstance(a, Ref) and st.heap[a.key].kind == "coro":
                t = self.alloc(st, node, HO("future", f={"state": V(K("scheduled")), "value": EMPTY, "exc": EMPTY, "coro": V(a)}))
                h = st.heap.get("tasks") or HO("tasks")
                if not any(t.key == x for x in h.items):
                    st.heap["tasks"] = h.w(items=h.items + (t.key,))
                out = vjoin(out, V(t))
            elif isinstance(a, Sym):
                out = vjoin(out, V(a))
            else:
                out = vjoin(out, V(Opq(atom_labels(a))))
        return out

    def run_task(self, oid, st, node):
        """run a scheduled task to completion -> list of states (with the future settled)"""
        h = st.heap[oid]
        (c,) = h.f["coro"]
        st.heap[oid] = h.setf("state", V(K("running")))
        self.curtask.append(oid)
        t = st.heap.get("tasks")
        if t:
            st.heap["tasks"] = t.w(items=tuple(x for x in t.items if x != oid))
        yk, self.yield_k = self.yield_k, []
        try:
            res, exc = self.with_sink(lambda: self.run_coro(c, st, node))
        finally:
            self.yield_k = yk
            self.curtask.pop()
        out = []
        for s, v in self.merge_vals(res):
            s.heap[oid] = s.heap[oid].setf("state", V(K("done"))).setf("value", v)
            out.append(s)
        for s, e in self.merge_vals(exc):
            s.heap[oid] = s.heap[oid].setf("state", V(K("exc"))).setf("exc", e)
            out.append(s)
        return out

    def await_(self, v, st, node):
        out = []
        n = len(v)
        for i, a in enumerate(v):
            s = st if i == n - 1 else st.copy()
            out += self.await1(a, s, node)
        return out

    def await1(self, a, st, node):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind == "coro":
                return self.run_coro(a, st, node)
            if h.kind == "future":
                return self.await_future(a, st, node)
            if h.kind == "inst" and isinstance(h.cls, Cls) and self.class_member(h.cls, "__await__"):
                return self.call_method(a, "__await__", Args(), st, node)
            return [(st, V(a))] if h.kind != "inst" else [(st, V(Opq(self.deep_labels(V(a), st))))]
        if isinstance(a, Sym):
            if self.sym_call:
                r = self.sym_call(self, st, a, "await " + a.name, Args(), node)
                if r is not None:
                    return r
            self.may_fault("await " + a.name, st, node)
            return [(st, V(Sym("await " + a.name if not a.name.startswith("await ") else a.name, None, a.labels)))]
        if isinstance(a, K):
            self.raise_new(st, "TypeError", node)
            return []
        self.may_fault("await", st, node)
        return [(st, V(Opq(atom_labels(a))))]

    def await_future(self, a, st, node):
        out = []
        h = st.heap[a.key]
        states = sorted(h.f["state"], key=repr)
        for i, k in enumerate(states):
            s = st if i == len(states) - 1 else st.copy()
            h = s.heap[a.key]
            if len(states) > 1:
                s.heap[a.key] = h = h.setf("state", V(k))
            if k.v == "done":
                out.append((s, h.f["value"] or VNONE))
            elif k.v == "exc":
                self.raise_(s, h.f["exc"] or V(Opq()))
            elif k.v == "scheduled":
                for s2 in self.run_task(a.key, s, node):
                    out += self.await_future(a, s2, node)
            elif k.v == "pending":
                if self.shallow:
                    self.blocked.append((node, a, s))
                    continue
                t = s.heap.get("tasks")
                got = False
                base = self.blocked
                top = self.stuck is None
                if top:
                    self.stuck = set()
                # first the tasks that need not wait in turn, then the others
                for shallow, oid in [(True, x) for x in (t.items if t else ())] + [(False, x) for x in (t.items if t else ())]:
                    if oid in self.stuck or (shallow and self.waiting(oid, s)):
                        continue
                    self.blocked = []
                    r, ran = [], False
                    self.shallow = shallow
                    after = self.run_task(oid, s.copy(), node)
                    self.shallow = False
                    if shallow and self.blocked:
                        self.waits[oid] = {f.key for _, f, _ in self.blocked}
                        self.blocked = base
                        continue
                    for s2 in after:
                        ran = True
                        r += self.await_future(a, s2, node)
                    mine, self.blocked = self.blocked, base
                    if r or not mine:
                        out += r
                        base.extend(mine)
                        got = True
                        self.stuck.clear()
                        break
                    if ran:  # it ran, and everything else was then tried in vain
                        break
                    self.stuck.add(oid)
                if top:
                    self.stuck = None
                if not got:
                    self.blocked.append((node, a, s))
            elif k.v == "running":
                self.blocked.append((node, a, s))
        return out

    def waiting(self, oid, s):
        """the task was last seen to wait for futures that are still not settled"""
        w = self.waits.get(oid)
        return bool(w) and all(r in s.heap and s.heap[r].f["state"] == V(K("pending")) for r in w)

    def drain(self, st, node=None):
        """run every scheduled task; tasks that can only wait for something that never comes are left pending"""
        cur, out = [(st, 0)], []
        for _ in range(200):
            nxt = []
            for s, waits in cur:
                t = s.heap.get("tasks")
                if not (t and t.items):
                    out.append(s)
                    continue
                if waits >= len(t.items):  # nothing left makes progress
                    for oid in t.items:
                        s.heap[oid] = s.heap[oid].setf("state", V(K("pending")))
                    s.heap["tasks"] = t.w(items=())
                    out.append(s)
                    continue
                oid = t.items[0]
                base, self.blocked = self.blocked, []
                keep = s.copy()
                rs = self.run_task(oid, s, node or "drain")
                mine, self.blocked = self.blocked, base
                if rs or not mine:
                    self.blocked.extend(mine)
                    nxt += [(x, 0) for x in rs]
                else:
                    keep.heap["tasks"] = t.w(items=t.items[1:] + (oid,))
                    nxt.append((keep, waits + 1))
            done = [x for x in nxt if not x[1]]
            cur = [(x, 0) for x in self.merge_states([x for x, _ in done])] + [x for x in nxt if x[1]]
            if not cur:
                break
        return out

    # ------------------------------------------------------------------ labels
    def deep_labels(self, v, st, depth=6, seen=None):
        seen = seen if seen is not None else set()
        r = frozenset()
        for a in v:
            r |= atom_labels(a)
            if isinstance(a, Bound):
                continue
            if isinstance(a, Ref) and depth > 0 and a.key not in seen:
                seen.add(a.key)
                h = st.heap.get(a.key)
                if h is None or h.kind in ("frame", "coro", "partial"):
                    if h is not None and h.kind == "coro" and not isinstance(h.meta[0], str):
                        for x in st.heap.get(h.meta[1], HO("x")).f.values():
                            r |= self.deep_labels(x, st, depth - 2, seen)
                    if h is not None and h.kind == "partial":
                        for x in h.meta[1]:
                            r |= self.deep_labels(x, st, depth - 1, seen)
                    continue
                for k, x in h.f.items():
                    if isinstance(k, Atom):
                        r |= atom_labels(k)
                    r |= self.deep_labels(x, st, depth - 1, seen)
                for x in h.items:
                    r |= self.deep_labels(x, st, depth - 1, seen)
                if h.rest:
                    r |= self.deep_labels(h.rest, st, depth - 1, seen)
                if h.restk:
                    r |= self.deep_labels(h.restk, st, depth - 1, seen)
        return r

    # ------------------------------------------------------------------ entry
    def start(self, modname="pulumi"):
        st = State()
        fo = ("modframe", modname)
        st.heap[fo] = HO("frame", meta={"parent": None, "mod": modname, "fn": None, "glob": None})
        self.fr = fo
        self.sink = []
        return st

    def fn(self, dotted):
        node = self.prog.find(dotted)
        p = self.prog.parent.get(node)
        cls = Cls(p) if isinstance(p, ast.ClassDef) else None
        return Fn(node, None, cls)

    def run(self, dotted_or_fn, args, st):
        """analyse a call to a repo function: ([(st,V)], [(st,exc)])"""
        f = self.fn(dotted_or_fn) if isinstance(dotted_or_fn, str) else dotted_or_fn
        node = f.node if isinstance(f, Fn) else "run"
        return self.with_sink(lambda: self.call(V(f), args, st, node))


def name_of(m):
    if isinstance(m, ast.AnnAssign):
        return m.target.id
    for t in m.targets:
        if isinstance(t, ast.Name):
            return t.id
    return "?"


def _as_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


ELEM_KIND = {"list[str]": "str"}

BENIGN_BASES = {"object", "Generic", "typing.Generic", "ABC", "abc.ABC", "Protocol", "typing.Protocol", "?"}

EXT_METHODS = {}

EXT_ALIAS = {
    "typing_extensions.Protocol": "typing.Protocol",
    "collections.abc.Awaitable": "Awaitable",
    "typing.Awaitable": "Awaitable",
    "typing.Mapping": "Mapping",
    "collections.abc.Mapping": "Mapping",
    "typing.MutableMapping": "MutableMapping",
    "collections.abc.MutableMapping": "MutableMapping",
    "typing.Sequence": "Sequence",
    "collections.abc.Sequence": "Sequence",
    "typing.Iterable": "Iterable",
    "collections.abc.Iterable": "Iterable",
    "collections.abc.Callable": "Callable",
    "typing.Callable": "Callable",
    "typing.Dict": "dict",
    "typing.List": "list",
    "typing.Set": "set",
    "typing.Tuple": "tuple",
    "asyncio.futures.Future": "asyncio.Future",
    "asyncio.exceptions.InvalidStateError": "asyncio.InvalidStateError",
    "asyncio.exceptions.CancelledError": "asyncio.CancelledError",
    "concurrent.futures.CancelledError": "asyncio.CancelledError",
    "builtins.dict": "dict",
    "google.protobuf.struct_pb2.Struct": "google.protobuf.struct_pb2.Struct",
}

EXT_BASES = {
    "asyncio.Future": ("Awaitable", "object"),
    "Coroutine": ("Awaitable", "object"),
    "dict": ("Mapping", "MutableMapping", "Iterable", "object", "dict", "Collection"),
    "list": ("Sequence", "Iterable", "object", "list", "MutableSequence"),
    "tuple": ("Sequence", "Iterable", "object", "tuple"),
    "str": ("Sequence", "Iterable", "object", "str"),
    "set": ("Iterable", "object", "set"),
    "frozenset": ("Iterable", "object", "frozenset"),
    "int": ("object", "int"),
    "bool": ("object", "int", "bool"),
    "float": ("object", "float"),
    "leaf": ("object",),
    "function": ("object", "Callable"),
    "type": ("object", "Callable", "type"),
    "module": ("object",),
    "functools.partial": ("object", "Callable"),
    "google.protobuf.struct_pb2.Struct": ("google.protobuf.message.Message", "MutableMapping", "object", "Mapping"),
    "google.protobuf.struct_pb2.ListValue": ("google.protobuf.message.Message", "object", "MutableSequence", "Sequence"),
    "asyncio.InvalidStateError": ("Exception", "BaseException", "asyncio.InvalidStateError"),
    "asyncio.CancelledError": ("BaseException",),
    "grpc.RpcError": ("Exception", "BaseException", "grpc.RpcError"),
}
ABC_OF = {}
KNOWN_EXT = set(EXT_BASES)
UNIONS = {"six.string_types": ("str",), "six.integer_types": ("int",), "typing.Any": ("object",)}
