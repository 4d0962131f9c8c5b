"""Abstract models of the Python builtins and library calls the SDK uses."""
import ast
import re
from .dom import *
from . import engine as E
from .engine import Args


def install(eng):
    g = globals()
    for k, v in MODELS.items():
        eng.models[k] = v


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def const(v):
    return lambda e, st, a, n: [(st, v)]


for _n in ("pulumi.log.debug", "pulumi.log.info", "pulumi.log.warn", "pulumi.log.error", "print", "traceback.print_exc",
           "sys.stderr.write", "sys.stdout.write", "sys.stdout.flush", "sys.stderr.flush", "traceback.print_exception"):
    MODELS[_n] = const(VNONE)
MODELS["traceback.format_exc"] = const(V(Sym("traceback", "str", frozenset())))


# ---------------------------------------------------------------- builtins
def _branchy(name):
    def m(e, st, args, node):
        out = EMPTY
        clss = None
        v = args.get(0, default=V(Opq()))
        for a in v:
            if name == "isinstance":
                r = e.isinst_any(a, e.flat_classes(args.get(1), st), st)
            elif name == "issubclass":
                r = False
                for c in e.flat_classes(args.get(1), st):
                    x = e.is_subclass(a, c) if isinstance(a, (Cls, Ext)) else None
                    if x:
                        r = True
                        break
                    if x is None:
                        r = None
            elif name == "hasattr":
                rs = {e.hasattr_(a, n, st) for n in args.get(1)}
                r = rs.pop() if len(rs) == 1 else None
            elif name == "callable":
                r = e.callable_(a, st)
            else:
                r = e.truth(a, st)
            out = vjoin(out, BOOL if r is None else V(K(r)))
        return [(st, out)]
    return m


for _n in ("isinstance", "issubclass", "hasattr", "callable"):
    MODELS[_n] = _branchy(_n)


@model("bool")
def m_bool(e, st, args, node):
    if not args.pos:
        return [(st, VFALSE)]
    out = EMPTY
    unk = None
    for a in args.pos[0]:
        r = e.truth(a, st)
        if r is None and isinstance(a, Sym) and len(args.pos[0]) == 1:
            unk = a
        out = vjoin(out, BOOL if r is None else V(K(r)))
    if unk is not None:
        s2 = st.copy()
        st.facts[(unk.name, "truth")] = True
        s2.facts[(unk.name, "truth")] = False
        return [(st, VTRUE), (s2, VFALSE)]
    return [(st, out)]


@model("len")
def m_len(e, st, args, node):
    out = EMPTY
    for a in args.get(0, default=EMPTY):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            if h.kind in E.LISTS and not h.rest:
                out = vjoin(out, V(K(len(h.items))))
                continue
            if h.kind in ("dict", "Struct") and not h.rest and not h.opt:
                out = vjoin(out, V(K(len(h.f))))
                continue
        if isinstance(a, K) and hasattr(a.v, "__len__"):
            out = vjoin(out, V(K(len(a.v))))
            continue
        out = vjoin(out, V(Sym(f"len({a!r})", "int", atom_labels(a))))
    return [(st, out)]


def _anyall(isany):
    def m(e, st, args, node):
        its, rest = e.elements(args.get(0, default=EMPTY), st, node)
        if not rest and len(its) <= 8:
            out, cur = [], [st]
            for it in its:
                nxt = []
                for s in cur:
                    t, f = [], []
                    e._split(it, s, node, t, f)
                    go, stop = (f, t) if isany else (t, f)
                    out += [(x, VTRUE if isany else VFALSE) for x in stop]
                    nxt += go
                cur = nxt
            return out + [(x, VFALSE if isany else VTRUE) for x in cur]
        can = {True: False, False: True}  # outcome of any()
        if not isany:
            can = {True: True, False: False}
        for it in its:
            ts = set()
            for a in it:
                r = e.truth(a, st)
                ts |= {True, False} if r is None else {r}
            if isany:
                if True in ts:
                    can[True] = True
                if False not in ts:
                    can[False] = False
            else:
                if False in ts:
                    can[False] = True
                if True not in ts:
                    can[True] = False
        for a in rest:
            r = e.truth(a, st)
            if isany and r is not False:
                can[True] = True
            if not isany and r is not True:
                can[False] = True
        out = V(*[K(k) for k, v in can.items() if v])
        if any(isinstance(a, Opq) for it in its + [rest] for a in it) and len(out) == 2:
            l = frozenset()
            for it in its + [rest]:
                l |= vlabels(it)
            return [(st, V(Opq(l)))] if not any(a in (TRUE, FALSE) for it in its for a in it) else [(st, out)]
        return [(st, out)]
    return m


MODELS["any"] = _anyall(True)
MODELS["all"] = _anyall(False)


@model("str")
def m_str(e, st, args, node):
    if not args.all():
        return [(st, V(K("")))]
    return e.str_(args.get(0), st, node)


@model("repr")
def m_repr(e, st, args, node):
    return e.repr_(args.get(0), st, node)


@model("int", "float")
def m_int(e, st, args, node):
    out = EMPTY
    for a in args.get(0, default=V(K(0))):
        if isinstance(a, K):
            try:
                out = vjoin(out, V(K(int(a.v))))
                continue
            except Exception:
                e.raise_new(st.copy(), "ValueError", node)
                continue
        if isinstance(a, Sym) and a.kind in ("int", "float", "bool"):
            out = vjoin(out, V(a))
        else:
            e.raise_new(st.copy(), "ValueError", node)
            out = vjoin(out, V(Sym(f"int({a!r})", "int", atom_labels(a))))
    return [(st, out)] if out else []


def _mk(kind):
    def m(e, st, args, node):
        if not args.all():
            return [(st, V(e.newlist(st, node, kind=kind)))]
        its, rest = e.elements(args.get(0), st, node)
        if kind in ("set", "frozenset"):
            its = e.dedupe(its)
        return [(st, V(e.newlist(st, node, its, rest, kind)))]
    return m


for _k in ("list", "tuple", "set", "frozenset"):
    MODELS[_k] = _mk(_k)


@model("iter")
def m_iter(e, st, args, node):
    v = args.get(0)
    if any(isinstance(a, K) and not isinstance(a.v, (str, bytes)) and a.v is not Ellipsis for a in v):
        bad = frozenset(a for a in v if isinstance(a, K) and not isinstance(a.v, (str, bytes)))
        e.raise_new(st.copy() if bad != v else st, "TypeError", node)
        if bad == v:
            return []
    return _mk("list")(e, st, args, node)


MODELS["collections.deque"] = _mk("list")


@model("sorted", "reversed")
def m_sorted(e, st, args, node):
    its, rest = e.elements(args.get(0), st, node)
    rev = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "reversed"
    if rev:
        if rest:
            for i in its:
                rest = vjoin(rest, i)
            its = []
        its = its[::-1]
    elif not args.kw and all(len(i) == 1 and isinstance(next(iter(i)), K) for i in its) and not rest:
        try:
            its = sorted(its, key=lambda i: next(iter(i)).v)
        except TypeError:
            pass
    return [(st, V(e.newlist(st, node, its, rest)))]


@model("dict")
def m_dict(e, st, args, node):
    f, opt, rest, restk = {}, set(), EMPTY, EMPTY
    if args.pos:
        for a in args.pos[0]:
            if isinstance(a, Ref) and st.heap[a.key].kind in E.LISTS:
                its, r = e.elements1(a, st)
                for p in its:
                    pi, pr = e.elements(p, st)
                    if len(pi) == 2 and len(pi[0]) == 1 and isinstance(next(iter(pi[0])), (K, Sym)):
                        f[next(iter(pi[0]))] = pi[1]
                    elif len(pi) == 2:
                        rest, restk = vjoin(rest, pi[1]), vjoin(restk, pi[0])
                    else:
                        rest = vjoin(rest, pr or V(Opq()))
                for x in r:
                    if isinstance(x, Ref) and len(st.heap[x.key].items) == 2:
                        restk, rest = vjoin(restk, st.heap[x.key].items[0]), vjoin(rest, st.heap[x.key].items[1])
                    else:
                        rest = vjoin(rest, V(Opq(atom_labels(x))))
            else:
                df, do, dr, drk = e.dict_parts(a, st)
                f.update(df)
                opt |= do
                rest, restk = vjoin(rest, dr), vjoin(restk, drk)
    for k, v in args.kw.items():
        f[K(k)] = v
    rest = vjoin(rest, args.kwstar)
    return [(st, V(e.newdict(st, node, f, rest, restk, opt=frozenset(opt))))]


@model("collections.OrderedDict", "collections.defaultdict")
def m_odict(e, st, args, node):
    return m_dict(e, st, Args(), node)


@model("enumerate")
def m_enum(e, st, args, node):
    its, rest = e.elements(args.get(0), st, node)
    start = 0
    out = [V(e.newlist(st, node, (V(K(i + start)), v), kind="tuple")) for i, v in enumerate(its)]
    r = V(e.newlist(st, node, (V(Sym("idx", "int", frozenset())), rest), kind="tuple")) if rest else EMPTY
    return [(st, V(e.newlist(st, node, out, r)))]


@model("zip")
def m_zip(e, st, args, node):
    els = [e.elements(a, st, node) for a in args.pos]
    if all(not r for _, r in els):
        n = min((len(i) for i, _ in els), default=0)
        out = [V(e.newlist(st, node, tuple(i[k] for i, _ in els), kind="tuple")) for k in range(n)]
        return [(st, V(e.newlist(st, node, out)))]
    cols = []
    for i, r in els:
        c = r
        for x in i:
            c = vjoin(c, x)
        cols.append(c)
    n = min(len(i) for i, _ in els)
    out = [V(e.newlist(st, node, tuple(i[k] for i, _ in els), kind="tuple")) for k in range(n)]
    return [(st, V(e.newlist(st, node, out, V(e.newlist(st, node, tuple(cols), kind="tuple")))))]


@model("map")
def m_map(e, st, args, node):
    fn = args.pos[0]
    its, rest = e.elements(args.pos[1], st, node)
    cur = [(st, [])]
    for it in its:
        nxt = []
        for s, acc in cur:
            for s2, v in e.call(fn, Args([it]), s, node):
                nxt.append((s2, acc + [v]))
        cur = nxt
    out = []
    for s, acc in cur:
        r = EMPTY
        if rest:
            for s2, v in e.call(fn, Args([rest]), s, node):
                r = vjoin(r, v)
                s = s2
        out.append((s, V(e.newlist(s, node, acc, r))))
    return out


@model("filter")
def m_filter(e, st, args, node):
    fn = args.pos[0]
    its, rest = e.elements(args.pos[1], st, node)
    items, r = [], EMPTY
    for it in its:
        if fn == VNONE:
            ts = {e.truth(a, st) for a in it}
            s = st
        else:
            ts = set()
            for s2, v in e.call(fn, Args([it]), st.copy(), node):
                ts |= {e.truth(a, s2) for a in v}
        if ts == {True}:
            items.append(it) if not r else None
            if r:
                r = vjoin(r, it)
        elif ts == {False}:
            pass
        else:
            r = vjoin(r, it)
    return [(st, V(e.newlist(st, node, items, vjoin(r, rest))))]


@model("functools.reduce", "reduce")
def m_reduce(e, st, args, node):
    fn = args.pos[0]
    its, rest = e.elements(args.pos[1], st, node)
    if len(args.pos) > 2:
        cur = [(st, args.pos[2])]
    elif its:
        cur = [(st, its.pop(0))]
    else:
        cur = [(st, rest)]
    for it in its:
        nxt = []
        for s, acc in cur:
            nxt += e.call(fn, Args([acc, it]), s, node)
        cur = e.merge_vals(nxt)
    if rest:
        for _ in range(2):
            nxt = list(cur)
            for s, acc in cur:
                nxt += e.call(fn, Args([acc, rest]), s.copy(), node)
            cur = e.merge_vals(nxt, 4)
    return cur


@model("range")
def m_range(e, st, args, node):
    if all(len(p) == 1 and isinstance(next(iter(p)), K) for p in args.pos):
        r = range(*[next(iter(p)).v for p in args.pos])
        if len(r) <= 16:
            return [(st, V(e.newlist(st, node, [V(K(i)) for i in r])))]
    return [(st, V(e.newlist(st, node, (), V(Sym("range", "int", frozenset())))))]


@model("min", "max", "sum")
def m_minmax(e, st, args, node):
    l = frozenset()
    for v in args.all():
        l |= e.deep_labels(v, st)
    return [(st, V(Opq(l)))]


@model("next")
def m_next(e, st, args, node):
    its, rest = e.elements(args.get(0), st, node)
    if its:
        return [(st, its[0])]
    d = args.get(1)
    out = []
    if rest:
        out.append((st.copy(), rest))
    if d is not None:
        out.append((st, d))
    else:
        e.raise_new(st, "StopIteration", node)
    return out


@model("type")
def m_type(e, st, args, node):
    out = EMPTY
    if args.get(2, default=EMPTY):
        # type(name, bases, namespace): an object whose attributes are the entries of the namespace
        for d in args.get(2):
            ho = st.heap.get(d.key) if isinstance(d, Ref) else None
            if ho is None or ho.kind != "dict" or ho.rest or not all(isinstance(getattr(k, "v", k), str) for k in ho.f):
                return [(st, V(Opq()))]
            out = vjoin(out, V(e.newinst(st, node, Ext("type()"), {getattr(k, "v", k): x for k, x in ho.f.items()})))
        return [(st, out)]
    for a in args.get(0, default=EMPTY):
        c = e.class_of(a, st)
        if a == NONE:
            c = Ext("NoneType")
        out = vjoin(out, V(c if c is not None else Sym(f"type({e.desc(a, st)})", "any", frozenset())))
    return [(st, out)]


@model("super")
def m_super(e, st, args, node):
    out = EMPTY
    for c in args.get(0, default=EMPTY):
        for s in args.get(1, default=EMPTY):
            if isinstance(c, Cls):
                out = vjoin(out, V(E.Super(c, s)))
    return [(st, out or V(Opq()))]


@model("getattr")
def m_getattr(e, st, args, node):
    out = []
    for n in args.get(1):
        if isinstance(n, K) and isinstance(n.v, str):
            if len(args.pos) > 2:
                yes, no = EMPTY, EMPTY
                for a in args.pos[0]:
                    h = e.hasattr_(a, n, st)
                    if h is not False:
                        yes = vjoin(yes, V(a))
                    if h is not True and not (h is None and isinstance(a, Ref) is False and isinstance(a, Mod)):
                        no = vjoin(no, V(a))
                if yes:
                    rs, exc = e.with_sink(lambda: e.getattr_(yes, n.v, st.copy(), node))
                    out += rs
                if no or not yes:
                    out.append((st, args.pos[2]))
            else:
                out += e.getattr_(args.pos[0], n.v, st, node)
        else:
            l = frozenset()
            for v in args.all():
                l |= e.deep_labels(v, st)
            dyn = []
            for a in args.pos[0]:
                if isinstance(a, Sym):
                    dyn.append(Sym(f"{a.name}.{n!r}", None, a.labels | atom_labels(n)))
            out.append((st, V(*dyn) if dyn else V(Opq(l))))
    return out


@model("setattr", "object.__setattr__")
def m_setattr(e, st, args, node):
    cur = [st]
    for n in args.get(1):
        nm = n.v if isinstance(n, K) else n
        nxt = []
        for s in cur:
            if isinstance(nm, str):
                nxt += e.setattr_(args.pos[0], nm, args.pos[2], s, node)
            else:
                for o in args.pos[0]:
                    e.mutated(o, ("attr", nm, args.pos[2]), s, node)
                    if isinstance(o, Ref):
                        s.heap[o.key] = s.heap[o.key].setf(nm, args.pos[2])
                nxt.append(s)
        cur = nxt
    return [(s, VNONE) for s in cur]


@model("vars")
def m_vars(e, st, args, node):
    return e.getattr_(args.get(0), "__dict__", st, node)


@model("locals")
def m_locals(e, st, args, node):
    h = st.heap[e.fr]
    return [(st, V(e.newdict(st, node, {K(k): v for k, v in h.f.items() if isinstance(k, str) and not k.startswith("__")})))]


@model("id", "hash")
def m_id(e, st, args, node):
    (a,) = list(args.get(0))[:1]
    return [(st, V(Sym(f"id({a!r})", "int", frozenset())))]


@model("object")
def m_object(e, st, args, node):
    return [(st, V(e.newinst(st, node, Ext("object"))))]


@model("typing.cast", "typing.NewType", "cast")
def m_cast(e, st, args, node):
    return [(st, args.get(1))]


@model("typing.TypeVar")
def m_typevar(e, st, args, node):
    return [(st, V(Ext("typing.Any")))]


@model("typing.overload")
def m_overload(e, st, args, node):
    return [(st, args.get(0))]


@model("functools.partial")
def m_partial(e, st, args, node):
    fn = args.pos[0]
    kw = tuple(sorted(args.kw.items()))
    return [(st, V(e.alloc(st, node, HO("partial", meta=(fn, tuple(args.pos[1:]), kw)))))]


@model("copy.copy")
def m_copy(e, st, args, node):
    out = EMPTY
    for a in args.get(0):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            out = vjoin(out, V(e.alloc(st, node, h.w())))
        else:
            out = vjoin(out, V(a))
    return [(st, out)]


@model("copy.deepcopy")
def m_deepcopy(e, st, args, node):
    def deep(v, d):
        out = EMPTY
        for a in v:
            if isinstance(a, Ref) and d > 0 and a.key in st.heap and st.heap[a.key].kind not in ("future", "coro", "frame", "partial"):
                h = st.heap[a.key]
                n = h.w(f={k: deep(x, d - 1) for k, x in h.f.items()}, items=tuple(deep(x, d - 1) for x in h.items),
                        rest=deep(h.rest, d - 1))
                out = vjoin(out, V(e.alloc(st, node, n)))
            else:
                out = vjoin(out, V(a))
        return out
    return [(st, deep(args.get(0), 6))]


@model("contextlib.suppress")
def m_suppress(e, st, args, node):
    clss = []
    for p in args.pos:
        clss += e.flat_classes(p, st)
    return [(st, V(e.alloc(st, node, HO("suppress", meta=tuple(clss)))))]


@model("inspect.isawaitable", "inspect.iscoroutine", "asyncio.iscoroutine", "asyncio.isfuture")
def m_isawaitable(e, st, args, node):
    t, f = EMPTY, EMPTY
    fk = None
    for a in args.get(0):
        if isinstance(a, Ref):
            h = st.heap[a.key]
            r = h.kind in ("future", "coro") or (h.kind == "inst" and isinstance(h.cls, Cls) and bool(e.class_member(h.cls, "__await__")))
        elif isinstance(a, Sym):
            r = False if a.kind and a.kind != "any" else None
            if r is None:
                r = st.facts.get((a.name, "isawaitable"))
                fk = (a.name, "isawaitable")
        elif isinstance(a, Opq):
            r = None
        else:
            r = False
        if r is not False:
            t = vjoin(t, V(a))
        if r is not True:
            f = vjoin(f, V(a))
    if t and f:
        if fk and len(args.get(0)) == 1:
            s2 = st.copy()
            st.facts[fk] = True
            s2.facts[fk] = False
            return [(st, VTRUE), (s2, VFALSE)]
        return [(st, BOOL)]
    return [(st, VTRUE if t else VFALSE)]


@model("inspect.isclass")
def m_isclass(e, st, args, node):
    out = EMPTY
    for a in args.get(0):
        out = vjoin(out, BOOL if isinstance(a, (Opq,)) or (isinstance(a, Sym) and not a.kind) else V(K(isinstance(a, (Cls, Ext)))))
    return [(st, out)]


# ---------------------------------------------------------------- asyncio
@model("asyncio.Future", "asyncio.Loop.create_future")
def m_future(e, st, args, node):
    return [(st, V(e.future(st, node, state="pending")))]


@model("asyncio.ensure_future", "asyncio.create_task", "asyncio.Task")
def m_ensure(e, st, args, node):
    return [(st, e.make_task(args.get(0), st, node))]


@model("asyncio.gather")
def m_gather(e, st, args, node):
    # one task per argument, awaited in order; the aggregate is itself a task
    pos = []
    for p in args.pos:
        pos.append(e.make_task(p, st, node))
    star = args.star
    rx = args.kw.get("return_exceptions", VFALSE)

    def runner(eng, s, n):
        cur = [(s, [])]
        for p in pos:
            nxt = []
            for s1, acc in cur:
                if rx == VTRUE:
                    rs, ex = eng.with_sink(lambda: eng.await_(p, s1, n))
                    nxt += [(s2, acc + [v]) for s2, v in rs] + [(s2, acc + [x]) for s2, x in ex]
                else:
                    for s2, v in eng.await_(p, s1, n):
                        nxt.append((s2, acc + [v]))
            cur = nxt
        out = []
        for s1, acc in cur:
            r = EMPTY
            if star:
                for s2, v in eng.await_(star, s1, n):
                    r = vjoin(r, v)
                    s1 = s2
            out.append((s1, V(eng.newlist(s1, node, acc, r))))
        return out
    c = e.alloc(st, node, HO("coro", meta=("model", runner, e.ctx)))
    return [(st, e.make_task(V(c), st, node))]


@model("asyncio.get_event_loop", "asyncio.get_running_loop", "asyncio.new_event_loop", "asyncio.events.get_event_loop")
def m_loop(e, st, args, node):
    oid = ("eventloop",)
    if oid not in st.heap:
        st.heap[oid] = HO("inst", cls=Ext("asyncio.Loop"))
    return [(st, V(Ref(oid)))]


@model("asyncio.Loop.run_in_executor")
def m_executor(e, st, args, node):
    fn, rest = args.pos[1], args.pos[2:]

    def runner(eng, s, n):
        old = eng.exec_depth
        eng.exec_depth = 1
        try:
            return eng.call(fn, Args(rest), s, node)
        finally:
            eng.exec_depth = old
    c = e.alloc(st, node, HO("coro", meta=("exec", runner, e.ctx)))
    return [(st, e.make_task(V(c), st, node))]


@model("asyncio.to_thread")
def m_to_thread(e, st, args, node):
    return m_executor(e, st, Args([VNONE] + args.pos), node)


@model("asyncio.Loop.create_task")
def m_loop_task(e, st, args, node):
    return m_ensure(e, st, args, node)


@model("asyncio.Loop.run_until_complete", "asyncio.run")
def m_run_until(e, st, args, node):
    out = []
    for s, v in e.await_(args.get(0), st, node):
        out.append((s, v))
    return out


@model("asyncio.wait_for")
def m_wait_for(e, st, args, node):
    c = e.alloc(st, node, HO("coro", meta=("model", lambda eng, s, n: eng.await_(args.get(0), s, n), e.ctx)))
    return [(st, V(c))]


@model("asyncio.all_tasks", "asyncio.Task.all_tasks")
def m_all_tasks(e, st, args, node):
    out = []
    for k, h in list(st.heap.items()):
        if h.kind == "future" and h.f.get("coro") and {x.v for x in h.f["state"]} & {"scheduled", "pending", "running"}:
            out.append(V(Ref(k)))
    if not e.curtask:
        out.append(_main_task(e, st))
    return [(st, V(e.newlist(st, node, out, kind="set")))]


def _main_task(e, st):
    if ("maintask",) not in st.heap:
        st.heap[("maintask",)] = HO("future", f={"state": V(K("running")), "value": EMPTY, "exc": EMPTY})
    return V(Ref(("maintask",)))


@model("asyncio.current_task", "asyncio.Task.current_task")
def m_current_task(e, st, args, node):
    return [(st, V(Ref(e.curtask[-1])) if e.curtask else _main_task(e, st))]


@model("asyncio.wait")
def m_wait(e, st, args, node):
    when = args.get(2, "return_when", EMPTY)
    stop = {a.v if isinstance(a, K) else str(getattr(a, "key", "")).rsplit(".", 1)[-1] for a in when}
    fixed, rest = [], EMPTY
    for a in args.get(0, "fs", EMPTY):
        f, r = e.elements1(a, st)
        fixed += f
        rest = vjoin(rest, r)
    if rest:
        raise E.Unsupported("asyncio.wait on an unbounded collection")

    def runner(eng, s, n):
        cur, out = [(s, [], 0)], []
        for i, p in enumerate(fixed):
            nxt = []
            for s1, acc, _ in cur:
                rs, ex = eng.with_sink(lambda: eng.await_(p, s1, n))
                for s2, _v in rs:
                    (out if "FIRST_COMPLETED" in stop else nxt).append((s2, acc + [p], i + 1))
                for s2, _x in ex:
                    (out if stop & {"FIRST_COMPLETED", "FIRST_EXCEPTION"} else nxt).append((s2, acc + [p], i + 1))
            cur = nxt
        res = []
        # (tasks started by the awaited ones have had their first steps by the time the wait ends)
        for s1, acc, i in [(s2, acc, i) for s1, acc, i in cur + out for s2 in (eng.drain(s1, n) if i == len(fixed) else [s1])]:
            done = V(eng.newlist(s1, (n, "done"), acc, kind="set"))
            pend = V(eng.newlist(s1, (n, "pend"), fixed[i:], kind="set"))
            res.append((s1, V(eng.newlist(s1, n, [done, pend], kind="tuple"))))
        return res
    return [(st, V(e.alloc(st, node, HO("coro", meta=("model", runner, e.ctx)))))]


@model("asyncio.sleep")
def m_sleep(e, st, args, node):
    c = e.alloc(st, node, HO("coro", meta=("model", lambda eng, s, n: [(s, VNONE)], e.ctx)))
    return [(st, V(c))]


def _lock(e, st, args, node):
    return [(st, V(e.newinst(st, node, Ext("asyncio.Lock"), {"locked": VFALSE})))]


MODELS["asyncio.Lock"] = _lock
MODELS["threading.Lock"] = _lock
MODELS["threading.RLock"] = _lock


# ---------------------------------------------------------------- protobuf
@model("google.protobuf.struct_pb2.Struct")
def m_struct(e, st, args, node):
    return [(st, V(e.newdict(st, node, kind="Struct")))]


@model("google.protobuf.struct_pb2.ListValue")
def m_listvalue(e, st, args, node):
    return [(st, V(e.newlist(st, node, kind="ListValue")))]


# ---------------------------------------------------------------- os / misc
@model("os.getenv", "os.environ.get")
def m_getenv(e, st, args, node):
    k = args.get(0)
    out = EMPTY
    for a in k:
        g = st.ghost(("env", a))
        if g:
            out = vjoin(out, g)
        else:
            out = vjoin(out, V(Sym(f"env[{a!r}]", "str")))
            d = args.get(1)
            out = vjoin(out, d if d is not None else VNONE)
    return [(st, out)]


# ---------------------------------------------------------------- methods
def call_bmeth(e, f, args, st, node):
    o, name = f.obj, f.name
    if isinstance(o, Ref):
        h = st.heap[o.key]
        k = h.kind
        if k == "future":
            return fut_method(e, o, h, name, args, st, node)
        if k in ("dict", "Struct"):
            r = dict_method(e, o, h, name, args, st, node)
            if r is not None:
                return r
        if k in E.LISTS or k == "ListValue":
            r = list_method(e, o, h, name, args, st, node)
            if r is not None:
                return r
        if k == "ctxvar":
            if name == "get":
                if "v" in h.f:
                    return [(st, h.f["v"])]
                d = args.get(0, "default")
                if d:
                    return [(st, d)]
                if "default" in h.f:
                    return [(st, h.f["default"])]
                e.raise_new(st, "LookupError", node)
                return []
            if name == "set":
                st.heap[o.key] = h.setf("v", args.get(0, "value"))
                return [(st, V(e.newinst(st, node, Ext("contextvars.Token"), {})))]
            if name == "reset":
                st.heap[o.key] = h.setf("v", V(Opq()))
                return [(st, VNONE)]
        if k == "inst" and isinstance(h.cls, Ext):
            m = e.models.get(f"{h.cls.key}.{name}")
            if m is not None:
                return m(e, st, Args(args.pos, args.kw, args.star, args.kwstar), node)
            if h.cls.key in ("asyncio.Lock", "threading.Lock"):
                return lock_method(e, o, h, name, args, st, node)
        if k == "inst" and isinstance(h.cls, Cls) and e.is_enum(h.cls) and name in ("__str__",):
            return e.str_(V(o), st, node)
        return e.opaque_call(f, args, st, node)
    if isinstance(o, E.Super):
        a = o.self_
        if name == "__init__" and isinstance(a, Ref):
            h = st.heap[a.key]
            if args.pos:
                h = h.setf("args", V(e.newlist(st, node, args.pos, EMPTY, "tuple")))
                st.heap[a.key] = h
            ff = dict(st.heap[a.key].f)
            for k2, v in args.kw.items():
                ff.setdefault(k2, v)
            st.heap[a.key] = st.heap[a.key].w(f=ff)
            return [(st, VNONE)]
        if name == "__setattr__" and isinstance(a, Ref):
            return m_setattr(e, st, Args([V(a)] + args.pos), node)
        return e.opaque_call(f, args, st, node)
    if isinstance(o, DView):
        h = st.heap[o.key]
        if name in ("get", "items", "keys", "values", "copy", "__contains__"):
            d = e.newdict(st, node, {K(k) if isinstance(k, str) else k: v for k, v in h.f.items()}, opt=frozenset(K(k) for k in h.opt))
            return dict_method(e, d, st.heap[d.key], name, args, st, node)
        if name in ("update", "setdefault"):
            src = {}
            for p in args.pos:
                for a in p:
                    df, do, dr, drk = e.dict_parts(a, st)
                    src.update(df)
            for k2, v in args.kw.items():
                src[K(k2)] = v
            e.mutated(Ref(o.key), ("update",), st, node)
            for k2, v in src.items():
                st.heap[o.key] = st.heap[o.key].setf(k2.v if isinstance(k2, K) else k2, v)
            return [(st, VNONE)]
    if isinstance(o, (K, Cat)) or (isinstance(o, Sym) and o.kind == "str"):
        r = str_method(e, o, name, args, st, node)
        if r is not None:
            return r
    if isinstance(o, Sym) and o.kind == "dict" and name in ("items", "keys", "values", "get"):
        df, do, rest, restk = e.dict_parts(o, st)
        if name == "items":
            t = e.newlist(st, node, (restk, rest), kind="tuple")
            return [(st, V(e.newlist(st, node, (), V(t))))]
        if name == "keys":
            return [(st, V(e.newlist(st, node, (), restk)))]
        if name == "values":
            return [(st, V(e.newlist(st, node, (), rest)))]
    if isinstance(o, Cls) and name == "__init__":
        return [(st, VNONE)]
    if isinstance(o, Cls) and name == "__new__":
        return [(st, V(e.newinst(st, node, next(iter(args.pos[0])) if args.pos else o)))]
    return e.opaque_call(f, args, st, node)


def lock_method(e, o, h, name, args, st, node):
    if name in ("acquire", "__aenter__", "__enter__"):
        st.heap[o.key] = h.setf("locked", VTRUE)
        res = VTRUE if name == "acquire" else VNONE
        if h.cls.key == "asyncio.Lock":
            return [(st, V(e.alloc(st, node, HO("coro", meta=("model", lambda g, s, n: [(s, res)], e.ctx)))))]
        return [(st, res)]
    if name in ("release", "__exit__", "__aexit__"):
        st.heap[o.key] = h.setf("locked", VFALSE)
        if name == "__aexit__":
            return [(st, V(e.alloc(st, node, HO("coro", meta=("model", lambda g, s, n: [(s, VNONE)], e.ctx)))))]
        return [(st, VNONE)]
    if name == "locked":
        return [(st, h.f["locked"])]
    return [(st, V(Opq()))]


def fut_method(e, o, h, name, args, st, node):
    if name in ("set_result", "set_exception"):
        ss = {k.v for k in h.f["state"]}
        out = []
        if ss & {"done", "exc"}:
            e.raise_new(st.copy() if ss - {"done", "exc"} else st, "asyncio.InvalidStateError", node)
        if ss - {"done", "exc"}:
            v = args.get(0, default=VNONE)
            if name == "set_result":
                st.heap[o.key] = h.setf("state", V(K("done"))).setf("value", v).w(meta=node)
            else:
                st.heap[o.key] = h.setf("state", V(K("exc"))).setf("exc", v).w(meta=node)
            out.append((st, VNONE))
        return out
    if name == "done":
        r = EMPTY
        for k in h.f["state"]:
            r = vjoin(r, VTRUE if k.v in ("done", "exc") else (VFALSE if k.v == "pending" else BOOL))
        return [(st, r)]
    if name == "result":
        rs = []
        for k in h.f["state"]:
            if k.v == "done":
                rs.append((st.copy(), h.f["value"] or VNONE))
            elif k.v == "exc":
                e.raise_(st.copy(), h.f["exc"])
            elif k.v == "scheduled":
                for s2 in e.run_task(o.key, st.copy(), node):
                    rs += fut_method(e, o, s2.heap[o.key], name, args, s2, node)
            else:
                e.raise_new(st.copy(), "asyncio.InvalidStateError", node)
        return rs
    if name == "exception":
        rs = []
        for k in h.f["state"]:
            if k.v in ("done", "exc"):
                rs.append((st.copy(), h.f["exc"] if k.v == "exc" else VNONE))
            else:
                e.raise_new(st.copy(), "asyncio.InvalidStateError", node)
        return rs
    if name == "add_done_callback":
        return [(st, VNONE)]
    if name == "cancel":
        if h.f["state"] <= V(K("scheduled"), K("pending")):
            x = e.newinst(st, (node, "cancel"), Ext("asyncio.CancelledError"), {})
            st.heap[o.key] = h.setf("state", V(K("exc"))).setf("exc", V(x)).setf("cancelled", VTRUE)
            t = st.heap.get("tasks")
            if t:
                st.heap["tasks"] = t.w(items=tuple(y for y in t.items if y != o.key))
            return [(st, VTRUE)]
        return [(st, BOOL)]
    if name == "cancelled":
        return [(st, h.f.get("cancelled", VFALSE))]
    return [(st, V(Opq()))]


def _pairs(e, st, node, h):
    fixed = []
    rest = EMPTY
    for k, v in h.f.items():
        t = V(e.newlist(st, node, (V(k), v), kind="tuple"))
        if k in h.opt:
            rest = vjoin(rest, t)
        else:
            fixed.append(t)
    if h.rest:
        rk = h.restk or V(Opq(vlabels(h.rest)))
        rest = vjoin(rest, V(e.newlist(st, node, (rk, h.rest), kind="tuple")))
    return fixed, rest


def dict_method(e, o, h, name, args, st, node):
    if name == "items":
        f, r = _pairs(e, st, node, h)
        return [(st, V(e.newlist(st, node, f, r)))]
    if name in ("keys", "__iter__"):
        f, r = e.elements1(o, st)
        return [(st, V(e.newlist(st, node, f, r)))]
    if name == "values":
        r = h.rest
        f = []
        for k, v in h.f.items():
            if k in h.opt:
                r = vjoin(r, v)
            else:
                f.append(v)
        return [(st, V(e.newlist(st, node, f, r)))]
    if name in ("get", "pop", "setdefault", "__getitem__"):
        kv = args.get(0)
        d = args.get(1, default=VNONE)
        out = []
        val = EMPTY
        miss = False
        for k in kv:
            if k in h.f:
                val = vjoin(val, h.f[k])
                if k in h.opt:
                    miss = True
            else:
                miss = True
                if h.rest and not (isinstance(k, K) and h.restk and all(isinstance(x, K) for x in h.restk) and k not in h.restk):
                    val = vjoin(val, h.rest)
                for kk, v in h.f.items():
                    if (isinstance(kk, (Sym, Opq, Cat)) or isinstance(k, (Sym, Opq, Cat))) and e.eq(kk, k, st) is not False:
                        val = vjoin(val, v)
        if name == "get":
            if not miss:
                return [(st, val)]
            if not val:
                return [(st, d)]
            # keep presence correlated when the key is a single constant that may be absent
            if len(kv) == 1 and next(iter(kv)) in h.f:
                (k,) = kv
                s2 = st.copy()
                st.heap[o.key] = h.w(opt=h.opt - {k})
                ff = dict(h.f)
                del ff[k]
                s2.heap[o.key] = h.w(f=ff, opt=h.opt - {k})
                return [(st, val), (s2, d)]
            return [(st, vjoin(val, d))]
        if name == "pop":
            e.mutated(o, ("pop", kv), st, node)
            if miss and len(args.pos) < 2:
                e.raise_new(st.copy(), "KeyError", node)
            r = vjoin(val, args.pos[1]) if miss and len(args.pos) > 1 else val
            ff = dict(h.f)
            opt = set(h.opt)
            for k in kv:
                if k in ff:
                    if len(kv) == 1:
                        del ff[k]
                        opt.discard(k)
                    else:
                        opt.add(k)
            st.heap[o.key] = h.w(f=ff, opt=frozenset(opt))
            return [(st, r)] if r else []
        if name == "setdefault":
            e.mutated(o, ("setdefault", kv), st, node)
            if miss:
                r = vjoin(val, d)
                e.dict_store(o, kv, r, st)
                return [(st, r)]
            return [(st, val)]
        if name == "__getitem__":
            return e.subscript(V(o), kv, st, node)
    if name == "update":
        e.mutated(o, ("update", args.get(0)), st, node)
        for p in args.pos:
            for a in p:
                df, do, dr, drk = e.dict_parts(a, st)
                if isinstance(a, Ref) and st.heap[a.key].kind in E.LISTS:
                    (s_, dv), = m_dict(e, st, Args([V(a)]), node)
                    df, do, dr, drk = e.dict_parts(next(iter(dv)), st)
                weak = len(p) > 1
                for k, v in df.items():
                    st.heap[o.key] = st.heap[o.key].setf(k, v, weak or k in do)
                hh = st.heap[o.key]
                if dr:
                    # unknown keys may overwrite known ones
                    st.heap[o.key] = hh.w(rest=vjoin(hh.rest, dr), restk=vjoin(hh.restk, drk))
        for k, v in args.kw.items():
            st.heap[o.key] = st.heap[o.key].setf(K(k), v)
        if args.kwstar:
            hh = st.heap[o.key]
            st.heap[o.key] = hh.w(rest=vjoin(hh.rest, args.kwstar))
        return [(st, VNONE)]
    if name == "copy":
        return [(st, V(e.alloc(st, node, h.w())))]
    if name == "clear":
        e.mutated(o, ("clear",), st, node)
        st.heap[o.key] = h.w(f={}, opt=frozenset(), rest=EMPTY, restk=EMPTY)
        return [(st, VNONE)]
    if name == "get_or_create_struct" or name == "get_or_create_list":
        n = e.newdict(st, node, kind="Struct") if name.endswith("struct") else e.newlist(st, node, kind="ListValue")
        e.dict_store(o, args.get(0), V(n), st)
        return [(st, V(n))]
    if name in ("CopyFrom", "MergeFrom"):
        return dict_method(e, o, h, "update", args, st, node)
    if name == "__contains__":
        t, f = e.branch_in(args.get(0), V(o), st, node)
        return [(s, VTRUE) for s in t] + [(s, VFALSE) for s in f]
    return None


def list_method(e, o, h, name, args, st, node):
    def put(n):
        st.heap[o.key] = n
    if name in ("append", "add", "appendleft"):
        e.mutated(o, (name, args.get(0)), st, node)
        h = st.heap[o.key]
        v = args.get(0)
        if h.rest or len(h.items) >= e.max_list:
            put(h.w(rest=vjoin(h.rest, v)))
        elif name == "add" and len(v) == 1 and v in h.items:
            pass
        else:
            put(h.w(items=h.items + (v,)))
        return [(st, VNONE)]
    if name in ("extend", "update", "union", "__or__"):
        if name in ("extend", "update"):
            e.mutated(o, (name, args.get(0)), st, node)
        h = st.heap[o.key]
        items, rest = list(h.items), h.rest
        for p in args.pos + ([args.star] if args.star else []):
            its, r = e.elements(p, st, node)
            if rest:
                for i in its:
                    rest = vjoin(rest, i)
            else:
                items += its
            rest = vjoin(rest, r)
        if h.kind in ("set", "frozenset"):
            items = e.dedupe(items)
        if len(items) > e.max_list + 8:
            for i in items:
                rest = vjoin(rest, i)
            items = []
        n = h.w(items=tuple(items), rest=rest)
        if name in ("extend", "update"):
            put(n)
            return [(st, VNONE)]
        return [(st, V(e.alloc(st, node, n)))]
    if name == "insert":
        e.mutated(o, (name, args.get(1)), st, node)
        h = st.heap[o.key]
        i = args.get(0)
        if len(i) == 1 and isinstance(next(iter(i)), K) and next(iter(i)).v <= len(h.items) and next(iter(i)).v >= 0:
            l = list(h.items)
            l.insert(next(iter(i)).v, args.get(1))
            put(h.w(items=tuple(l)))
        else:
            put(h.w(rest=vjoin(h.rest, args.get(1))))
        return [(st, VNONE)]
    if name in ("pop", "popleft"):
        e.mutated(o, (name,), st, node)
        h = st.heap[o.key]
        i = args.get(0)
        idx = -1 if i is None else (next(iter(i)).v if len(i) == 1 and isinstance(next(iter(i)), K) else None)
        if name == "popleft":
            idx = 0
        if h.items and not h.rest and isinstance(idx, int) and -len(h.items) <= idx < len(h.items):
            l = list(h.items)
            v = l.pop(idx)
            put(h.w(items=tuple(l)))
            return [(st, v)]
        if idx == 0 and h.items:
            put(h.w(items=h.items[1:]))
            return [(st, h.items[0])]
        r = h.rest
        for x in h.items:
            r = vjoin(r, x)
        if not r:
            e.raise_new(st, "IndexError", node)
            return []
        put(h.w(items=(), rest=r))
        return [(st, r)]
    if name in ("remove", "discard"):
        e.mutated(o, (name, args.get(0)), st, node)
        h = st.heap[o.key]
        v = args.get(0)
        l = list(h.items)
        if v in l:
            l.remove(v)
            put(h.w(items=tuple(l)))
        return [(st, VNONE)]
    if name == "copy":
        return [(st, V(e.alloc(st, node, h.w())))]
    if name == "clear":
        e.mutated(o, (name,), st, node)
        put(h.w(items=(), rest=EMPTY))
        return [(st, VNONE)]
    if name in ("reverse", "sort"):
        e.mutated(o, (name,), st, node)
        h = st.heap[o.key]
        if name == "reverse":
            if h.rest:
                r = h.rest
                for x in h.items:
                    r = vjoin(r, x)
                put(h.w(items=(), rest=r))
            else:
                put(h.w(items=h.items[::-1]))
        return [(st, VNONE)]
    if name in ("difference", "intersection", "symmetric_difference", "issubset", "issuperset", "index", "count"):
        if name == "difference":
            b = args.get(0)
            other = EMPTY
            its, r = e.elements(b, st, node)
            for i in its:
                other = vjoin(other, i)
            other = vjoin(other, r)
            sure = [i for i in h.items if all(e.eq(p, q, st) is False for p in i for q in other)]
            rest = h.rest
            for i in h.items:
                if i not in sure and not (len(i) == 1 and i in its):
                    rest = vjoin(rest, i)
            return [(st, V(e.newlist(st, node, sure, rest, h.kind)))]
        l = e.deep_labels(V(o), st)
        for v in args.all():
            l |= e.deep_labels(v, st)
        if name in ("issubset", "issuperset"):
            return [(st, BOOL)]
        return [(st, V(Opq(l)))]
    if name == "__iter__":
        return [(st, V(o))]
    if name == "__contains__":
        t, f = e.branch_in(args.get(0), V(o), st, node)
        return [(s, VTRUE) for s in t] + [(s, VFALSE) for s in f]
    return None


CONC = {"startswith", "endswith", "split", "upper", "lower", "strip", "lstrip", "rstrip", "replace", "partition", "rpartition",
        "title", "capitalize", "isdigit", "isidentifier", "find", "rfind", "rindex", "casefold", "swapcase", "removeprefix", "removesuffix", "zfill", "ljust", "rjust", "center", "isalpha", "isalnum", "isspace", "encode", "index", "count", "splitlines", "rsplit", "isupper", "islower",
        "isalpha", "isalnum", "zfill", "casefold", "removeprefix", "removesuffix", "encode"}


def regex(e, pat, how, args, st, node):
    """a match of a known pattern against a known text; None when either is unknown"""
    x = args.get(0)
    if how not in ("search", "match", "fullmatch") or len(x) != 1 or not isinstance(next(iter(x)), K):
        return None
    try:
        m = getattr(pat, how)(next(iter(x)).v)
    except TypeError:
        e.raise_new(st, "TypeError", node)
        return []
    if m is None:
        return [(st, VNONE)]
    nm = f"match({pat.pattern},{m.group(0)})"
    st.facts[(nm, "truth")] = True
    st.facts[(nm, "none")] = False
    return [(st, V(Sym(nm, "match")))]


def m_re(how):
    def f(e, st, args, node):
        p = args.get(0)
        if len(p) == 1 and isinstance(next(iter(p)), K):
            try:
                pat = re.compile(next(iter(p)).v)
            except (re.error, TypeError):
                return [(st, V(Opq()))]
            if how == "compile":
                return [(st, V(K(pat)))]
            r = regex(e, pat, how, Args(args.pos[1:], args.kw), st, node)
            if r is not None:
                return r
        return e.call_ext(Ext("re." + how), args, st, node)
    return f


def split_on(fk, st):
    """one answer per path to a question about an unknown text"""
    if fk in st.facts:
        return [(st, V(K(st.facts[fk])))]
    s2 = st.copy()
    st.facts[fk] = True
    s2.facts[fk] = False
    return [(st, VTRUE), (s2, VFALSE)]


def str_method(e, o, name, args, st, node):
    if isinstance(o, K) and isinstance(o.v, re.Pattern):
        return regex(e, o.v, name, args, st, node)
    if isinstance(o, K) and not isinstance(o.v, (str, bytes)):
        if o.v is None:
            e.raise_new(st, "AttributeError", node)
            return []
        return None
    consts = all(len(p) == 1 and isinstance(next(iter(p)), K) for p in list(args.pos) + list(args.kw.values())) and not args.star
    if isinstance(o, K) and (name in CONC or isinstance(o.v, bytes) and name == "decode") and consts:
        try:
            r = getattr(o.v, name)(*[next(iter(p)).v for p in args.pos], **{k: next(iter(p)).v for k, p in args.kw.items()})
        except ValueError:
            e.raise_new(st, "ValueError", node)
            return []
        except Exception:
            return [(st, V(Opq()))]
        if isinstance(r, (list, tuple)):
            return [(st, V(e.newlist(st, node, [V(K(x)) for x in r], kind=type(r).__name__)))]
        return [(st, V(K(r)))]
    if name == "join":
        its, rest = e.elements(args.get(0), st, node)
        if rest or any(len(i) != 1 for i in its):
            l = atom_labels(o)
            for i in its + [rest]:
                l |= e.deep_labels(i, st)
            return [(st, V(Opq(l)))]
        parts = []
        for n, i in enumerate(its):
            if n:
                parts.append(o)
            (a,) = i
            if isinstance(a, (K, Cat, Sym)):
                if isinstance(a, K) and not isinstance(a.v, str):
                    e.raise_new(st, "TypeError", node)
                    return []
                parts.append(a)
            else:
                parts.append(Opq(e.deep_labels(i, st)))
        return [(st, V(mkcat(parts)))]
    if name == "format" and isinstance(o, K):
        import string
        parts, idx = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(o.v):
                if lit:
                    parts.append(V(K(lit)))
                if fld is None:
                    continue
                if fld == "":
                    v = args.get(idx)
                    idx += 1
                elif fld.isdigit():
                    v = args.get(int(fld))
                else:
                    v = args.kw.get(fld.split(".")[0].split("[")[0])
                if v is None or "." in fld or "[" in fld:
                    parts.append(V(Opq()))
                else:
                    r = e.repr_(v, st, node) if conv == "r" else e.str_(v, st, node)
                    parts.append(r[0][1])
            return [(st, e.cat(parts))]
        except Exception:
            return None
    if name in ("startswith", "endswith") and isinstance(o, Cat) and consts:
        p = next(iter(args.pos[0])).v
        first = o.parts[0] if name == "startswith" else o.parts[-1]
        if isinstance(first, K) and isinstance(p, str):
            s = first.v
            if (s.startswith(p) if name == "startswith" else s.endswith(p)):
                return [(st, VTRUE)]
            if len(s) >= len(p) or not (p.startswith(s) if name == "startswith" else p.endswith(s)):
                return [(st, VFALSE)]
        if not any(isinstance(q, Opq) for q in o.parts):
            return split_on((repr(o), name, next(iter(args.pos[0]))), st)
        return [(st, BOOL)]
    if name in ("find", "rfind", "index", "rindex", "count") and isinstance(o, Sym) and consts and not args.kw:
        if name in ("index", "rindex"):
            e.raise_new(st.copy(), "ValueError", node)
        return [(st, V(Sym(f"{o.name}.{name}({','.join(repr(next(iter(p)).v) for p in args.pos)})", "int", o.labels)))]
    if name in ("startswith", "endswith", "isidentifier", "isdigit", "__contains__"):
        if isinstance(o, Sym) and consts and args.pos:
            return split_on((o.name, name, next(iter(args.pos[0]))), st)
        return [(st, BOOL)]
    if name in ("strip", "lstrip", "rstrip", "lower", "upper", "encode", "decode", "replace", "title", "casefold") and isinstance(o, (Sym, Cat)):
        l = atom_labels(o)
        d = e.desc(o, st) if isinstance(o, Sym) else repr(o)
        extra = ",".join("|".join(sorted(map(repr, p))) for p in args.pos)
        return [(st, V(Sym(f"{d}.{name}({extra})", "str", l)))]
    if isinstance(o, Cat):
        if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            return [(st, V(e.newlist(st, node, (), V(Opq(atom_labels(o))))))]
        return [(st, V(Opq(atom_labels(o))))]
    return None


@model("contextvars.ContextVar")
def m_ctxvar(e, st, args, node):
    d = args.kw.get("default")
    return [(st, V(e.alloc(st, node, HO("ctxvar", f={"default": d} if d else {}))))]


@model("os.fspath")
def m_fspath(e, st, args, node):
    v = args.get(0, "path", EMPTY)
    if all((isinstance(a, K) and isinstance(a.v, str)) or isinstance(a, Cat) or (isinstance(a, Sym) and a.kind in ("str", "leaf")) for a in v):
        return [(st, v)]
    return [(st, V(Opq(vlabels(v))))]

for _h in ("compile", "search", "match", "fullmatch"):
    MODELS["re." + _h] = m_re(_h)
