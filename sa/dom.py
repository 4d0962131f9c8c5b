"""Abstract domain: value sets over a small vocabulary of atoms, and a copy-on-write abstract heap."""


class Atom:
    __slots__ = ("key", "_h")

    def __init__(self, key):
        self.key = key
        self._h = hash((self.__class__.__name__, key))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return o.__class__ is self.__class__ and o._h == self._h and o.key == self.key

    def __repr__(self):
        return f"{self.__class__.__name__}({self.key})"


class K(Atom):
    """A constant."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        super().__init__((type(v).__name__, v))

    def __repr__(self):
        return repr(self.v)


class Ref(Atom):
    """A heap object."""
    __slots__ = ()

    def __repr__(self):
        return f"&{self.key[0] if isinstance(self.key, tuple) else self.key}"


class Fn(Atom):
    """A repo function closed over a frame."""
    __slots__ = ("node", "frame", "cls")

    def __init__(self, node, frame=None, cls=None):
        self.node, self.frame, self.cls = node, frame, cls
        super().__init__((id(node), frame))

    def __repr__(self):
        return f"Fn({getattr(self.node, 'name', '<lambda>')})"


class Cls(Atom):
    """A repo class (frame: defining frame for local classes)."""
    __slots__ = ("node", "frame")

    def __init__(self, node, frame=None):
        self.node, self.frame = node, frame
        super().__init__(id(node))

    def __repr__(self):
        return f"Cls({self.node.name})"


class Mod(Atom):
    __slots__ = ()


class Ext(Atom):
    """Something outside the repo (or a builtin), by dotted path."""
    __slots__ = ()


class Bound(Atom):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_, self.func = self_, func
        super().__init__((self_, func))


class BMeth(Atom):
    """A builtin method of an abstract container/string/future/symbol."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        super().__init__((obj, name))


class Sym(Atom):
    """An unknown but fixed value, identified by name.  kind: None (anything, possibly None) or
    'str','int','bool','float','dict','list','callable','obj:<dotted class>','any' (anything but None)."""
    __slots__ = ("name", "kind", "labels")

    def __init__(self, name, kind=None, labels=None):
        self.name, self.kind = name, kind
        self.labels = labels if labels is not None else frozenset([name])
        super().__init__(name)

    def __repr__(self):
        return f"${self.name}"


class Opq(Atom):
    """The result of an operation the analysis does not model; remembers what it was computed from."""
    __slots__ = ("labels",)

    def __init__(self, labels=frozenset()):
        self.labels = frozenset(labels)
        super().__init__(self.labels)

    def __repr__(self):
        return f"?{sorted(self.labels)}"


class Cat(Atom):
    """A string concatenation of constants and symbols."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)
        super().__init__(self.parts)

    def __repr__(self):
        return "".join(p.v if isinstance(p, K) else "{" + repr(p) + "}" for p in self.parts) or "''"


class Super(Atom):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_
        super().__init__((id(cls), self_))


class DView(Atom):
    """obj.__dict__"""
    __slots__ = ()


TRUE, FALSE, NONE = K(True), K(False), K(None)


def V(*atoms):
    return frozenset(atoms)


EMPTY = frozenset()
VNONE = V(NONE)
VTRUE = V(TRUE)
VFALSE = V(FALSE)
BOOL = V(TRUE, FALSE)
CAP = 24


def atom_labels(a):
    if isinstance(a, (Sym, Opq)):
        return a.labels
    if isinstance(a, Cat):
        r = frozenset()
        for p in a.parts:
            r |= atom_labels(p)
        return r
    if isinstance(a, BMeth):
        return atom_labels(a.obj)
    return frozenset()


def vlabels(v):
    r = frozenset()
    for a in v:
        r |= atom_labels(a)
    return r


def vjoin(a, b):
    if a is b or b <= a:
        return a
    r = a | b
    if len(r) > CAP:
        keep = {x for x in r if isinstance(x, (Ref, Fn, Cls, Bound)) or x in (NONE, TRUE, FALSE)}
        rest = r - keep
        if rest:
            keep = set(keep)
            keep.add(Opq(vlabels(rest)))
        r = frozenset(keep)
    return r


def mkcat(parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            for q in p.parts:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return K("")
    if len(out) == 1 and isinstance(out[0], K):
        return out[0]
    return Cat(out)


def _push(out, p):
    if isinstance(p, K):
        p = K(str(p.v))
        if p.v == "":
            return
        if out and isinstance(out[-1], K):
            out[-1] = K(out[-1].v + p.v)
            return
    out.append(p)


class HO:
    """Heap object; treated as immutable (replaced on write)."""
    __slots__ = ("kind", "cls", "f", "opt", "items", "rest", "restk", "meta")

    def __init__(self, kind, cls=None, f=None, opt=frozenset(), items=(), rest=EMPTY, restk=EMPTY, meta=None):
        self.kind, self.cls = kind, cls
        self.f = f if f is not None else {}
        self.opt, self.items, self.rest, self.restk, self.meta = opt, items, rest, restk, meta

    def w(self, **kw):
        n = HO(self.kind, self.cls, self.f, self.opt, self.items, self.rest, self.restk, self.meta)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def setf(self, k, v, weak=False):
        f = dict(self.f)
        if weak and k in f:
            v = vjoin(f[k], v)
        f[k] = v
        opt = self.opt
        if k in opt and not weak:
            opt = opt - {k}
        elif weak and k not in self.f:
            opt = opt | {k}
        return self.w(f=f, opt=opt)

    def same(self, o):
        return (self is o) or (self.kind == o.kind and self.cls == o.cls and self.f == o.f and self.opt == o.opt
                               and self.items == o.items and self.rest == o.rest and self.restk == o.restk
                               and self.meta == o.meta)


LISTS = ("list", "tuple", "set", "frozenset", "deque")


def hjoin(a, b):
    if a.same(b):
        return a
    if a.kind != b.kind:
        if a.kind in LISTS and b.kind in LISTS:
            pass
        else:
            return a.w(f={**a.f, **b.f})
    if a.kind in LISTS:
        if len(a.items) == len(b.items):
            items = tuple(vjoin(x, y) for x, y in zip(a.items, b.items))
            return a.w(items=items, rest=vjoin(a.rest, b.rest))
        n = 0
        while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
            n += 1
        rest = vjoin(a.rest, b.rest)
        for x in a.items[n:] + b.items[n:]:
            rest = vjoin(rest, x)
        return a.w(items=a.items[:n], rest=rest)
    f = dict(a.f)
    opt = set(a.opt | b.opt)
    for k, v in b.f.items():
        if k in f:
            f[k] = vjoin(f[k], v)
        else:
            f[k] = v
            opt.add(k)
    for k in a.f:
        if k not in b.f:
            opt.add(k)
    return a.w(f=f, opt=frozenset(opt), rest=vjoin(a.rest, b.rest), restk=vjoin(a.restk, b.restk))


class State:
    __slots__ = ("heap", "facts", "cnt", "eloop")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.cnt = {}

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.cnt = dict(self.cnt)
        return s

    def get(self, oid):
        return self.heap[oid]

    def put(self, oid, ho):
        self.heap[oid] = ho

    def same(self, o):
        if len(self.heap) != len(o.heap) or self.facts != o.facts:
            return False
        oh = o.heap
        for k, v in self.heap.items():
            w = oh.get(k)
            if w is None or not v.same(w):
                return False
        return True

    # ghost variables (analysis-only state)
    def ghost(self, name):
        g = self.heap.get("ghost")
        return g.f.get(name, EMPTY) if g else EMPTY

    def set_ghost(self, name, v):
        g = self.heap.get("ghost") or HO("ghost")
        self.heap["ghost"] = g.setf(name, v)

    def add_ghost(self, name, v):
        self.set_ghost(name, vjoin(self.ghost(name), v))


def sjoin(a, b):
    s = State()
    s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k, _MISS) == v}
    s.cnt = dict(a.cnt)
    for k, v in b.cnt.items():
        if v > s.cnt.get(k, 0):
            s.cnt[k] = v
    h = dict(a.heap)
    for k, v in b.heap.items():
        if k in h:
            h[k] = hjoin(h[k], v) if k != "tasks" else tjoin(h[k], v)
        else:
            h[k] = v
    s.heap = h
    return s


def tjoin(a, b):
    items = list(a.items)
    for x in b.items:
        if x not in items:
            items.append(x)
    return a.w(items=tuple(items))


_MISS = object()
