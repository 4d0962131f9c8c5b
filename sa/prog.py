"""Program database: every analysed module parsed from the working tree, with resolved imports.

Nothing of /repo is imported or executed; only `ast` trees are built.
"""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = "sdk/python/lib"
EXEC_SCRIPT = "sdk/python/cmd/pulumi-language-python-exec"


class AnchorMissing(Exception):
    """A construct every rule depends on is gone: the analysis itself is broken."""


def desugar(tree):
    """`X = namedtuple("X", [...])` as the class it creates"""
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and len(s.value.args) == 2 \
                and (s.value.func.id if isinstance(s.value.func, ast.Name) else getattr(s.value.func, "attr", "")) == "namedtuple":
            f = s.value.args[1]
            if isinstance(f, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in f.elts):
                names = [e.value for e in f.elts]
            elif isinstance(f, ast.Constant) and isinstance(f.value, str):
                names = f.value.replace(",", " ").split()
            else:
                continue
            src = f"class {s.targets[0].id}(__import_typing.NamedTuple):\n" + "".join(f"    {n}: object\n" for n in names)
            c = ast.parse(src).body[0]
            c.bases = [ast.Name(id="NamedTuple", ctx=ast.Load())]
            for x in ast.walk(c):
                if hasattr(x, "lineno"):
                    x.lineno, x.end_lineno, x.col_offset = s.lineno, s.end_lineno, s.col_offset
            ast.copy_location(c.bases[0], s)
            tree.body[i] = c
    return tree


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bind = {}  # name -> list[(kind, node_or_tuple)]
        self._collect(tree.body)

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)

    def package(self, level):
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        for _ in range(level - 1):
            parts = parts[:-1]
        return ".".join(parts)

    def import_target(self, node):
        if node.level:
            base = self.package(node.level)
            return base + ("." + node.module if node.module else "")
        return node.module

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add(s.name, ("func", s))
            elif isinstance(s, ast.ClassDef):
                self._add(s.name, ("class", s))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._target(t, s)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self._target(s.target, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self._add(a.asname, ("import", (a.name, None)))
                    else:
                        self._add(a.name.split(".")[0], ("import", (a.name.split(".")[0], None)))
            elif isinstance(s, ast.ImportFrom):
                tgt = self.import_target(s)
                for a in s.names:
                    self._add(a.asname or a.name, ("import", (tgt, a.name)))
            elif isinstance(s, ast.If):
                self._collect(s.orelse)
                self._collect(s.body)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._collect(s.body)

    def _target(self, t, s):
        if isinstance(t, ast.Name):
            self._add(t.id, ("assign", s))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._target(e, s)

    def _add(self, name, b):
        self.bind.setdefault(name, []).append(b)


class Program:
    def __init__(self, repo=None, exclude=("runtime/proto",)):
        self.repo = repo or REPO
        self.mods = {}
        lib = os.path.join(self.repo, LIB)
        root = os.path.join(lib, "pulumi")
        if not os.path.isdir(root):
            raise AnchorMissing(f"{root} is gone")
        for d, dirs, files in os.walk(root):
            dirs.sort()
            rel = os.path.relpath(d, root)
            if any(rel == e or rel.startswith(e + "/") for e in exclude):
                dirs[:] = []
                continue
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                relm = os.path.relpath(p, lib)[:-3].replace(os.sep, ".")
                is_pkg = relm.endswith(".__init__")
                if is_pkg:
                    relm = relm[: -len(".__init__")]
                self._load(relm, p, is_pkg)
        p = os.path.join(self.repo, EXEC_SCRIPT)
        if os.path.exists(p):
            self._load("pulumi_language_python_exec", p, False)
        self.node_mod = {}
        self.parent = {}
        self.owner_class = {}
        for m in self.mods.values():
            self._index(m)

    def _load(self, name, path, is_pkg):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = desugar(ast.parse(src, filename=path))
        m = Module(name, path, tree, is_pkg)
        m.src = src
        self.mods[name] = m

    def add_source(self, name, text):
        """A harness module: a client program analysed together with the SDK (parsed, never executed)."""
        tree = desugar(ast.parse(text, filename=name))
        m = Module(name, os.path.join(self.repo, "<" + name + ">"), tree, False)
        m.src = text
        self.mods[name] = m
        self._index(m)
        return m

    def _index(self, m):
        stack = [(m.tree, None)]
        while stack:
            n, par = stack.pop()
            self.parent[n] = par
            self.node_mod[n] = m
            for c in ast.iter_child_nodes(n):
                stack.append((c, n))

    # ---- lookups -------------------------------------------------------
    def mod(self, name):
        if name not in self.mods:
            raise AnchorMissing(f"module {name} is gone")
        return self.mods[name]

    def loc(self, node):
        m = self.node_mod.get(node)
        return f"{m.rel}:{getattr(node, 'lineno', 0)}" if m else "?"

    def enclosing_func(self, node):
        p = self.parent.get(node)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            p = self.parent.get(p)
        return p

    def qualname(self, node):
        parts = []
        n = node
        while n is not None:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                parts.append(n.name)
            elif isinstance(n, ast.Lambda):
                parts.append("<lambda>")
            n = self.parent.get(n)
        m = self.node_mod.get(node)
        return (m.name + "." if m else "") + ".".join(reversed(parts))

    def resolve(self, modname, name, _seen=None):
        """Resolve a module-level name to ('func',mod,node) / ('class',mod,node) /
        ('assign',mod,node) / ('mod',name) / ('ext',dotted) / None."""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        if modname not in self.mods:
            return ("ext", f"{modname}.{name}")
        m = self.mods[modname]
        bs = m.bind.get(name)
        if not bs:
            if f"{modname}.{name}" in self.mods:
                return ("mod", f"{modname}.{name}")
            return None
        # overloads: the last definition is the implementation
        kind, node = bs[-1]
        if kind in ("func", "class", "assign"):
            return (kind, m, node)
        tgt, attr = node
        if attr is None:
            if tgt in self.mods:
                return ("mod", tgt)
            return ("ext", tgt)
        if f"{tgt}.{attr}" in self.mods:
            # a submodule, unless the package rebinds the name to something else
            if tgt in self.mods:
                r = None
                for k2, n2 in self.mods[tgt].bind.get(attr, []):
                    if k2 != "import":
                        r = (k2, self.mods[tgt], n2)
                if r:
                    return r
            return ("mod", f"{tgt}.{attr}")
        if tgt in self.mods:
            r = self.resolve(tgt, attr, _seen)
            if r is not None:
                return r
            if any(k == "import" and n[1] == "*" for bl in self.mods[tgt].bind.values() for k, n in bl):
                for bl in self.mods[tgt].bind.values():
                    for k, n in bl:
                        if k == "import" and n[1] == "*":
                            r = self.resolve(n[0], attr, _seen)
                            if r:
                                return r
            return ("ext", f"{tgt}.{attr}")
        return ("ext", f"{tgt}.{attr}")

    def find(self, dotted):
        """find('pulumi.output.Output.apply') -> ast node of the def."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.mods:
                rest = parts[i:]
                break
        else:
            raise AnchorMissing(f"{dotted} is gone")
        if not rest:
            return self.mods[mn].tree
        r = self.resolve(mn, rest[0])
        if r is None or r[0] not in ("func", "class"):
            raise AnchorMissing(f"{dotted} is gone")
        node = r[2]
        for p in rest[1:]:
            nxt = None
            for s in ast.walk(node) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and s.name == p and s is not node:
                    nxt = s
            if nxt is None:
                raise AnchorMissing(f"{dotted} is gone")
            node = nxt
        return node

    def functions(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
