"""Parses the package under analysis and resolves names across modules.

Nothing is imported or executed: only the text of the .py files is read.
"""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field

from . import windows

PKG = "building3d"
SKIP_DIRS = {"_to_be_ported", "__pycache__"}


class AnalysisError(Exception):
    """The analysis cannot decide (vanished anchor, unparsable file, budget)."""


@dataclass(eq=False)
class Func:
    name: str
    qualname: str           # module.Class.func or module.func
    module: "Module"
    node: ast.AST           # FunctionDef | Lambda
    cls: "Class | None" = None
    decorators: list[str] = field(default_factory=list)
    parent: "Func | None" = None

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_generator(self):
        cached = getattr(self, "_gen", None)
        if cached is None:
            cached = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
            self._gen = cached
        return cached

    def where(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qualname}>"


@dataclass(eq=False)
class Class:
    name: str
    qualname: str
    module: "Module"
    node: ast.ClassDef
    methods: dict[str, Func] = field(default_factory=dict)
    setters: dict[str, Func] = field(default_factory=dict)
    bases: list[str] = field(default_factory=list)
    attr_ann: dict[str, ast.AST] = field(default_factory=dict)
    class_vars: dict[str, ast.AST] = field(default_factory=dict)

    def __repr__(self):
        return f"<Class {self.qualname}>"


@dataclass(eq=False)
class Module:
    name: str
    relpath: str
    tree: ast.Module
    source: str
    names: dict[str, tuple] = field(default_factory=dict)
    is_pkg: bool = False


def walk_own(node):
    """Walks a function body without descending into nested functions/lambdas/classes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + "." + node.attr
    if isinstance(node, ast.Call):
        return dotted(node.func)
    return None


class Program:
    def __init__(self, root: str):
        self.root = root
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self._load()

    # ------------------------------------------------------------------ load
    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError(f"package {PKG} not found under {self.root}")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d not in SKIP_DIRS)
            for fn in sorted(filenames):
                if fn.endswith(".py"):
                    self._load_file(os.path.join(dirpath, fn))
        for m in self.modules.values():
            self._index(m)

    def _load_file(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        try:
            tree = windows.rewrite(ast.parse(src))
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        self.modules[name] = Module(name, rel, tree, src, is_pkg=is_pkg)

    def _index(self, m: Module):
        for st in self._toplevel(m.tree.body):
            self._index_stmt(m, st)

    def _toplevel(self, body):
        for st in body:
            yield st
            if isinstance(st, ast.If):
                yield from self._toplevel(st.body)
                yield from self._toplevel(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._toplevel(st.body)
                for h in st.handlers:
                    yield from self._toplevel(h.body)

    def _index_stmt(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    m.names[a.asname] = ("import", a.name)
                else:
                    m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self._resolve_from(m, st)
            for a in st.names:
                m.names[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self._make_func(m, st, None)
            m.names[st.name] = ("func", f)
        elif isinstance(st, ast.ClassDef):
            c = self._make_class(m, st)
            m.names[st.name] = ("class", c)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.names[t.id] = ("const", st.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            sub = ast.Subscript(value=st.value, slice=ast.Constant(value=i), ctx=ast.Load())
                            ast.copy_location(sub, st)
                            ast.fix_missing_locations(sub)
                            m.names[e.id] = ("const", sub)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            m.names[st.target.id] = ("const", st.value)

    def spec(self, source: str, name="building3d._spec"):
        """Adds specification functions written in the analysed language; returns name -> Func."""
        m = Module(name, "spec", ast.parse(source), source)
        self.modules[name] = m
        self._index(m)
        return {k: b[1] for k, b in m.names.items() if b[0] == "func"}

    def _resolve_from(self, m, st):
        if st.level == 0:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)

    def _make_func(self, m, node, cls):
        decs = [dotted(d) or "" for d in node.decorator_list]
        q = f"{cls.qualname}.{node.name}" if cls else f"{m.name}.{node.name}"
        f = Func(node.name, q, m, node, cls, decs)
        return self._reg(f)

    def _reg(self, f):
        key = f.qualname
        if any(d.endswith(".setter") for d in f.decorators):
            key += ".setter"
        self.funcs[key] = f
        return f

    def _make_class(self, m, node):
        c = Class(node.name, f"{m.name}.{node.name}", m, node, bases=[dotted(b) or "" for b in node.bases])
        self.classes[c.qualname] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._make_func(m, st, c)
                if any(d.endswith(".setter") for d in f.decorators):
                    c.setters[st.name] = f
                else:
                    c.methods[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.attr_ann[st.target.id] = st.annotation
                if st.value is not None:
                    c.class_vars[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.class_vars[t.id] = st.value
        for f in c.methods.values():
            args = f.node.args.posonlyargs + f.node.args.args
            selfname = args[0].arg if args else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                        and isinstance(n.target.value, ast.Name) and n.target.value.id == selfname:
                    c.attr_ann.setdefault(n.target.attr, n.annotation)
        return c

    # --------------------------------------------------------------- resolve
    def lookup(self, m: Module, name: str, depth=0):
        """('func', Func) | ('class', Class) | ('const', Module, expr, name) | ('module', dotted) |
        ('ext', dotted) | None."""
        if depth > 20:
            return None
        b = m.names.get(name)
        if b is None:
            return None
        kind = b[0]
        if kind == "func" or kind == "class":
            return b
        if kind == "const":
            return ("const", m, b[1], name)
        if kind == "import":
            return ("module", b[1]) if b[1] in self.modules or b[1].split(".")[0] == PKG else ("ext", b[1])
        if kind == "from":
            base, attr = b[1], b[2]
            return self.lookup_in(base, attr, depth + 1)
        return None

    def lookup_in(self, base: str, attr: str, depth=0):
        if base in self.modules:
            r = self.lookup(self.modules[base], attr, depth + 1)
            if r is not None:
                return r
            sub = base + "." + attr
            if sub in self.modules:
                return ("module", sub)
            return None
        sub = base + "." + attr
        if sub in self.modules:
            return ("module", sub)
        if base.split(".")[0] == PKG:
            return None
        return ("ext", sub)

    # --------------------------------------------------------------- anchors
    def func(self, qualname: str) -> Func:
        """Finds a function by its dotted public name, following re-exports."""
        f = self.find_func(qualname)
        if f is None:
            raise AnalysisError(f"anchor not found: {qualname}")
        return f

    def find_func(self, qualname: str):
        if qualname in self.funcs:
            return self.funcs[qualname]
        base, _, name = qualname.rpartition(".")
        r = self.lookup_in(base, name) if base else None
        if r and r[0] == "func":
            return r[1]
        # method of a re-exported class
        cbase, _, cname = base.rpartition(".")
        r = self.lookup_in(cbase, cname) if cbase else None
        if r and r[0] == "class":
            return self.method(r[1], name)
        # moved: unique function with the same name anywhere
        cands = [f for f in self.funcs.values() if f.name == name and (f.cls.name if f.cls else None) ==
                 (cname if cname[:1].isupper() else None)]
        if len(cands) == 1:
            return cands[0]
        return None

    def cls(self, qualname: str) -> Class:
        if qualname in self.classes:
            return self.classes[qualname]
        base, _, name = qualname.rpartition(".")
        r = self.lookup_in(base, name)
        if r and r[0] == "class":
            return r[1]
        cands = [c for c in self.classes.values() if c.name == name]
        if len(cands) == 1:
            return cands[0]
        raise AnalysisError(f"anchor not found: class {qualname}")

    def base_classes(self, c: Class):
        out = []
        for b in c.bases:
            parts = b.split(".")
            r = self.lookup(c.module, parts[0])
            for p in parts[1:]:
                if r and r[0] == "module":
                    r = self.lookup_in(r[1], p)
                elif r and r[0] == "ext":
                    r = ("ext", r[1] + "." + p)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def mro(self, c: Class):
        seen, order = set(), []

        def go(k):
            if id(k) in seen:
                return
            seen.add(id(k))
            order.append(k)
            for b in self.base_classes(k):
                go(b)
        go(c)
        return order

    def method(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def setter(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def attr_annotation(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.attr_ann:
                return k.attr_ann[name], k.module
        return None

    def class_var(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.class_vars:
                return k.class_vars[name], k
        return None

    def is_subclass(self, c: Class, d: Class):
        return d in self.mro(c)
