"""Interprocedural effect analysis: which parameters (or what is reachable from them) a function may modify.

Values are sets of origins: something reachable from parameter i, a fresh object allocated at a site (with the origins
of what was put into it), or a module-level object. Local variables are updated flow-sensitively; summaries of all
functions are computed together until they no longer change.
"""
from __future__ import annotations

import ast
import re
from dataclasses import dataclass, field

from .loader import dotted

MUT = {"append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "clear", "update", "pop", "popitem", "setdefault",
       "fill", "resize", "partition", "itemset", "put", "setflags", "intersection_update", "difference_update",
       "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "popleft", "appendleft", "byteswap"}
PUTS = {"append": 0, "add": 0, "insert": 1, "extend": 0, "update": 0, "setdefault": 1, "__setitem__": 1, "appendleft": 0}
VIEW_METHODS = {"ravel", "reshape", "view", "transpose", "squeeze", "swapaxes", "diagonal"}
INNER_METHODS = {"get", "pop", "popitem", "setdefault", "popleft"}
SHALLOW_METHODS = {"values", "items", "keys", "copy", "union", "intersection", "difference", "__iter__"}
VIEW_FUNCS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "reshape", "ravel", "transpose", "squeeze",
              "broadcast_to", "expand_dims", "swapaxes", "flip", "flipud", "fliplr", "split", "array_split"}
SHALLOW_FUNCS = {"list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "enumerate", "zip", "map", "filter", "iter", "chain", "deque",
                 "islice", "permutations", "combinations", "product", "from_iterable"}
INNER_FUNCS = {"next", "max", "min", "getattr", "choice"}
MUT_FUNCS = {"copyto", "put", "place", "putmask", "fill_diagonal", "at", "shuffle", "heappush", "heappop", "heapify", "setattr", "delattr"}
SCALARS = {"int", "float", "str", "bool", "bytes", "complex", "None"}
ARRAYS = {"PointType", "VectorType", "IndexType", "FloatDataType", "ndarray"}


@dataclass
class Summary:
    mods: dict = field(default_factory=dict)      # (origin, field or operation) -> (where, what)
    ret: set = field(default_factory=set)         # origins returned themselves
    rcont: set = field(default_factory=set)       # origins inside a fresh result
    flows: set = field(default_factory=set)       # (into, from)
    items: object = None                          # of a tuple returned: ((origins, origins inside, kind), ...); False if not always such a tuple

    def key(self):
        return (frozenset(self.mods), frozenset(self.ret), frozenset(self.rcont), frozenset(self.flows), self.items)

    def add_items(self, items):
        """Joins with what another return gives."""
        if self.items is None or items is None:
            self.items = self.items if items is None else items
        elif self.items is False or items is False or len(self.items) != len(items):
            self.items = False
        else:
            self.items = tuple((a[0] | b[0], a[1] | b[1], a[2] if a[2] == b[2] else None) for a, b in zip(self.items, items))


@dataclass(frozen=True)
class Val:
    toks: frozenset = frozenset()
    kind: object = None          # 'scalar' | ('arr', rank|None) | 'coll' | Class | None


NOTHING = Val(frozenset(), "scalar")


class ModRef:
    def __init__(self, prog, skip=("building3d._to_be_ported",)):
        self.prog = prog
        self.funcs = {q: f for q, f in prog.funcs.items() if f.module.relpath != "spec" and not q.startswith(skip)
                      and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.parent is None}
        self.sum = {q: Summary() for q in self.funcs}
        self.by_method: dict = {}
        self.props: dict = {}
        for q, f in self.funcs.items():
            if f.cls is not None:
                (self.props if f.is_property else self.by_method).setdefault(f.name, []).append(f)
        self.calls: dict = {}
        self.rounds = 0

    def solve(self):
        todo = set(self.funcs)
        while todo and self.rounds < 40:
            self.rounds += 1
            changed = set()
            for q in sorted(todo):
                s = Analysis(self, self.funcs[q]).run()
                if s.key() != self.sum[q].key():
                    changed.add(q)
                    old = self.sum[q]
                    s.mods = {**s.mods, **old.mods}
                    s.ret |= old.ret
                    s.rcont |= old.rcont
                    s.flows |= old.flows
                    s.add_items(old.items)
                    self.sum[q] = s
            todo = {q for q, cs in self.calls.items() if cs & changed}
        return self


def ann_kind(prog, m, a, name=""):
    if a is None:
        return None
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(a, ast.BinOp):
        ks = [ann_kind(prog, m, x, name) for x in (a.left, a.right)]
        ks = [k for k in ks if k != "scalar"]
        return ks[0] if len(ks) == 1 else None if ks else "scalar"
    if isinstance(a, ast.Constant) and a.value is None:
        return "scalar"
    d = dotted(a) if not isinstance(a, ast.Subscript) else dotted(a.value)
    if d is None:
        return None
    last = d.split(".")[-1]
    if last in SCALARS:
        return "scalar"
    if last in ARRAYS:
        return ("arr", 2 if many(name) else None)
    if last in ("tuple", "Tuple") and isinstance(a, ast.Subscript):
        es = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        ks = [ann_kind(prog, m, e) for e in es if not (isinstance(e, ast.Constant) and e.value is Ellipsis)]
        return "scalar" if all(k == "scalar" for k in ks) else "coll"
    if last in ("list", "List", "dict", "Dict", "set", "Set", "Iterable", "Sequence"):
        return "coll"
    r = prog.lookup(m, last)
    if r and r[0] == "class":
        return r[1]
    return None


def many(name):
    return bool(re.search(r"(^|_)(pts|points|vertices|positions?|velocity|faces|absorbers|coords)\d*$|s$", name or ""))


class Analysis:
    def __init__(self, mr, f):
        self.mr, self.f, self.prog = mr, f, mr.prog
        self.out = Summary()
        self.cont: dict = {}
        self.kinds: dict = {}
        a = f.node.args
        self.params = [p for p in a.posonlyargs + a.args + a.kwonlyargs] + [x for x in (a.vararg, a.kwarg) if x]
        self.depth = 0

    def run(self):
        env = {}
        for i, p in enumerate(self.params):
            k = ann_kind(self.prog, self.f.module, p.annotation, p.arg)
            if i == 0 and self.f.cls is not None and not self.f.is_static:
                k = self.f.cls
            env[p.arg] = NOTHING if k == "scalar" else Val(frozenset([("P", i)]), k)
        n = -1
        while n != sum(len(v) for v in self.cont.values()):     # until the contents of fresh objects are stable
            n = sum(len(v) for v in self.cont.values())
            self.block(dict(env), self.f.node.body)
        return self.out

    # ---------------------------------------------------------------- values
    def inner(self, v):
        """Origins of what can be reached from a value."""
        out = set()
        for t in v.toks:
            if t[0] == "P":
                out.add(("D", t[1]))
            else:
                out.add(t)
            if t[0] == "N":
                for x in self.closure(t):
                    out |= {x, ("D", x[1])} if x[0] == "P" else {x}
        return frozenset(out)

    def closure(self, t):
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            for y in self.cont.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def fresh(self, node, content=frozenset(), kind=None):
        t = ("N", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.depth)
        if content:
            self.cont.setdefault(t, set()).update(x for x in content if x != t)
        return Val(frozenset([t]), kind)

    def put(self, into, v):
        for t in into.toks:
            src = self.inner(v) | v.toks
            if t[0] == "N":
                self.cont.setdefault(t, set()).update(x for x in src if x != t)
            else:
                for y in src | v.toks:
                    if y[0] in "PD" and t[0] in "PD" and y[1] != t[1]:
                        self.out.flows.add((t[1], y))

    def modify(self, v, node, what, label, where=None):
        for t in v.toks:
            if t[0] != "N":
                self.out.mods.setdefault((t, label), (where or self.f.where(node), what))

    def join(self, *vs):
        ks = {v.kind for v in vs if v.toks or v.kind != "scalar"}
        return Val(frozenset().union(*[v.toks for v in vs]), ks.pop() if len(ks) == 1 else None)

    # ---------------------------------------------------------------- statements
    def block(self, env, body):
        for n in body:
            env = self.stmt(env, n)
        return env

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: self.join(a.get(k, NOTHING), b.get(k, NOTHING)) if a.get(k) != b.get(k) else a[k] for k in set(a) | set(b)}

    def stmt(self, env, n):
        if isinstance(n, ast.Assign):
            v = self.ev(env, n.value)
            for t in n.targets:
                self.assign(env, t, v, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                v = self.ev(env, n.value)
                k = ann_kind(self.prog, self.f.module, n.annotation, n.target.id if isinstance(n.target, ast.Name) else "")
                self.assign(env, n.target, Val(v.toks, k if k is not None else v.kind), n)
        elif isinstance(n, ast.AugAssign):
            v = self.ev(env, n.value)
            if isinstance(n.target, ast.Name):
                cur = env.get(n.target.id)
                if cur is None:
                    g = self.name(env, n.target.id)
                    cur = g
                if cur.kind == "coll" or isinstance(cur.kind, tuple) or (cur.kind is None and self.listlike(v)):
                    self.modify(cur, n, f"updates {n.target.id} in place", "[]")
                    self.put(cur, v)
                elif cur.kind is None:
                    env[n.target.id] = Val(cur.toks, None)
            elif isinstance(n.target, ast.Subscript):
                b = self.ev(env, n.target.value)
                self.ev(env, n.target.slice)
                self.modify(b, n, f"updates an element of {ast.unparse(n.target.value)[:40]}", elem_label(n.target.value))
            elif isinstance(n.target, ast.Attribute):
                b = self.ev(env, n.target.value)
                self.modify(b, n, f"updates {ast.unparse(n.target)[:40]}", n.target.attr)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.ev(env, n.iter)
            for _ in range(3):
                e2 = dict(env)
                self.assign(e2, n.target, self.elem(it), n)
                e2 = self.block(e2, n.body)
                env = self.merge(env, e2)
            env = self.block(env, n.orelse)
        elif isinstance(n, ast.While):
            for _ in range(3):
                self.ev(env, n.test)
                env = self.merge(env, self.block(dict(env), n.body))
            env = self.block(env, n.orelse)
        elif isinstance(n, ast.If):
            self.ev(env, n.test)
            a = self.block(dict(env), n.body)
            b = self.block(dict(env), n.orelse)
            ea, eb = ends(n.body), ends(n.orelse)
            env = b if ea and not eb else a if eb and not ea else self.merge(a, b)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(env, i.context_expr)
                if i.optional_vars is not None:
                    self.assign(env, i.optional_vars, v, n)
            env = self.block(env, n.body)
        elif isinstance(n, ast.Try):
            a = self.block(dict(env), n.body)
            out = self.block(dict(a), n.orelse)
            for h in n.handlers:
                e = self.merge(dict(env), a)
                if h.name:
                    e[h.name] = NOTHING
                out = self.merge(out, self.block(e, h.body))
            env = self.block(out, n.finalbody)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.ret(self.ev(env, n.value))
        elif isinstance(n, ast.Expr):
            self.ev(env, n.value)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.modify(self.ev(env, t.value), n, f"deletes from {ast.unparse(t.value)[:40]}", elem_label(t.value))
                elif isinstance(t, ast.Attribute):
                    self.modify(self.ev(env, t.value), n, f"deletes {ast.unparse(t)[:40]}", t.attr)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(n, ast.Raise):
            for x in (n.exc, n.cause):
                if x is not None:
                    self.ev(env, x)
        elif isinstance(n, ast.Assert):
            self.ev(env, n.test)
            if n.msg is not None:
                self.ev(env, n.msg)
            self.refine(env, n.test)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[n.name] = Val(frozenset(), ("fn", n))
        elif isinstance(n, ast.Match):
            s = self.ev(env, n.subject)
            out = env
            for c in n.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None)
                    if isinstance(nm, str):
                        e[nm] = Val(self.inner(s))
                out = self.merge(out, self.block(e, c.body))
            env = out
        return env

    def refine(self, env, test):
        if isinstance(test, ast.Call) and dotted(test.func) == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            k = ann_kind(self.prog, self.f.module, test.args[1])
            n = test.args[0].id
            if k is not None and n in env:
                env[n] = NOTHING if k == "scalar" else Val(env[n].toks, k)

    def ret(self, v):
        items = False
        if isinstance(v.kind, tuple) and v.kind[0] == "tup":
            items = tuple((frozenset(t for t in x.toks if t[0] != "N"), frozenset(y for t in x.toks if t[0] == "N" for y in self.closure(t) if y[0] in "PD"),
                           x.kind if not isinstance(x.kind, tuple) or x.kind[0] == "arr" else None) for x in v.kind[1])
        self.out.add_items(items)
        for t in v.toks:
            if t[0] == "N":
                self.out.rcont |= {x for x in self.closure(t) if x[0] in "PD"}
            else:
                self.out.ret.add(t)

    def elem(self, v):
        if isinstance(v.kind, tuple) and v.kind[0] == "arr":
            r = v.kind[1]
            if r == 1:
                return NOTHING
            return Val(self.inner(v), ("arr", r - 1) if r else None)
        if isinstance(v.kind, tuple) and v.kind[0] == "rows":
            return Val(self.inner(v), ("tup", v.kind[1]))
        return Val(self.inner(v), None)

    def assign(self, env, t, v, n):
        if isinstance(t, ast.Name):
            if isinstance(v.kind, tuple) and v.kind[0] == "arr" and v.kind[1] is None and many(t.id):
                v = Val(v.toks, ("arr", 2))
            if t.id in self.globals_declared():
                self.out.mods.setdefault((("G", self.f.module.name, t.id), "="), (self.f.where(n), f"assigns global {t.id}"))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(env, x.value, self.fresh(x, self.inner(v), "coll"), n)
                elif isinstance(v.kind, tuple) and v.kind[0] == "tup" and i < len(v.kind[1]):
                    self.assign(env, x, v.kind[1][i], n)
                else:
                    self.assign(env, x, self.elem(v) if v.kind != "scalar" else NOTHING, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(env, t.value)
            self.ev(env, t.slice)
            self.modify(b, n, f"writes an element of {ast.unparse(t.value)[:40]}", elem_label(t.value))
            if not (isinstance(b.kind, tuple) and b.kind[0] == "arr"):
                self.put(b, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(env, t.value)
            self.modify(b, n, f"sets {ast.unparse(t)[:40]}", t.attr)
            self.put(b, v)
        elif isinstance(t, ast.Starred):
            self.assign(env, t.value, v, n)

    def globals_declared(self):
        g = getattr(self, "_g", None)
        if g is None:
            g = self._g = {x for n in ast.walk(self.f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        return g

    # ---------------------------------------------------------------- expressions
    def listlike(self, v):
        return v.kind == "coll"

    def name(self, env, name):
        if name in env:
            return env[name]
        r = self.prog.lookup(self.f.module, name)
        if r and r[0] == "const" and isinstance(r[2], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            return Val(frozenset([("G", r[1].name, r[3])]), "coll" if not isinstance(r[2], ast.Call) else None)
        if r and r[0] == "func":
            return Val(frozenset(), ("func", r[1]))
        if r and r[0] == "class":
            return Val(frozenset(), ("class", r[1]))
        return NOTHING

    def ev(self, env, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(env, n)
        vs = [self.ev(env, x) for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
        return NOTHING if not vs else Val(frozenset(), None)

    def e_Constant(self, env, n):
        return NOTHING

    def e_Name(self, env, n):
        return self.name(env, n.id)

    def e_Tuple(self, env, n):
        vs = [self.ev(env, x.value if isinstance(x, ast.Starred) else x) for x in n.elts]
        v = self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in vs]) if vs else frozenset())
        star = any(isinstance(x, ast.Starred) for x in n.elts)
        return Val(v.toks, "coll" if star else ("tup", tuple(vs)))

    def e_List(self, env, n):
        vs = [self.ev(env, x.value if isinstance(x, ast.Starred) else x) for x in n.elts]
        return self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in vs]) if vs else frozenset(), "coll")

    e_Set = e_List

    def e_Dict(self, env, n):
        vs = [self.ev(env, x) for x in list(n.keys) + list(n.values) if x is not None]
        return self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in vs]) if vs else frozenset(), "coll")

    def comp(self, env, n, elts):
        e = dict(env)
        for g in n.generators:
            self.assign(e, g.target, self.elem(self.ev(e, g.iter)), n)
            for c in g.ifs:
                self.ev(e, c)
        vs = [self.ev(e, x) for x in elts]
        return self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in vs]), "coll")

    def e_ListComp(self, env, n):
        return self.comp(env, n, [n.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, env, n):
        return self.comp(env, n, [n.key, n.value])

    def e_Lambda(self, env, n):
        e = dict(env)
        for p in n.args.args:
            e[p.arg] = Val(frozenset(), None)
        self.ev(e, n.body)
        return Val(frozenset(), ("fn", n))

    def e_IfExp(self, env, n):
        self.ev(env, n.test)
        return self.join(self.ev(env, n.body), self.ev(env, n.orelse))

    def e_BoolOp(self, env, n):
        return self.join(*[self.ev(env, x) for x in n.values])

    def e_Compare(self, env, n):
        for x in [n.left] + n.comparators:
            self.ev(env, x)
        return NOTHING

    def e_UnaryOp(self, env, n):
        v = self.ev(env, n.operand)
        return NOTHING if v.kind == "scalar" or isinstance(n.op, ast.Not) else self.fresh(n, frozenset(), v.kind if isinstance(v.kind, tuple) else None)

    def e_BinOp(self, env, n):
        a, b = self.ev(env, n.left), self.ev(env, n.right)
        if a.kind == b.kind == "scalar":
            return NOTHING
        arr = [v.kind for v in (a, b) if isinstance(v.kind, tuple) and v.kind[0] == "arr"]
        if arr:
            return self.fresh(n, frozenset(), arr[0])
        if isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor, ast.Mult)) and "coll" in (a.kind, b.kind):
            return self.fresh(n, self.inner(a) | self.inner(b), "coll")
        if isinstance(n.op, ast.Add) and a.kind is None and b.kind is None:
            return self.fresh(n, self.inner(a) | self.inner(b))
        return self.fresh(n)

    def e_JoinedStr(self, env, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(env, v.value)
        return NOTHING

    def e_NamedExpr(self, env, n):
        v = self.ev(env, n.value)
        self.assign(env, n.target, v, n)
        return v

    def e_Yield(self, env, n):
        if n.value is not None:
            v = self.ev(env, n.value)
            self.out.rcont |= {x for x in self.inner(v) | v.toks if x[0] in "PD"}
        return NOTHING

    def e_YieldFrom(self, env, n):
        v = self.ev(env, n.value)
        self.out.rcont |= {x for x in self.inner(v) | v.toks if x[0] in "PD"}
        return NOTHING

    def e_Await(self, env, n):
        return self.ev(env, n.value)

    def e_Starred(self, env, n):
        return self.ev(env, n.value)

    def e_Slice(self, env, n):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ev(env, x)
        return NOTHING

    def e_Subscript(self, env, n):
        b = self.ev(env, n.value)
        i = self.ev(env, n.slice)
        if b.kind == "scalar":
            return NOTHING
        if isinstance(b.kind, tuple) and b.kind[0] == "tup" and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) \
                and -len(b.kind[1]) <= n.slice.value < len(b.kind[1]):
            return b.kind[1][n.slice.value]
        if isinstance(b.kind, tuple) and b.kind[0] == "arr":
            r = b.kind[1]
            es = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if any(self.fancy(env, e) for e in es):
                return self.fresh(n, frozenset(), ("arr", None))       # fancy indexing copies
            fixed = sum(1 for e in es if not isinstance(e, ast.Slice) and not (isinstance(e, ast.Constant) and e.value in (None, Ellipsis)))
            if r is not None and fixed >= r:
                return NOTHING
            if r is None and fixed and fixed == len(es):
                return NOTHING if fixed > 1 else Val(self.inner(b), None)
            return Val(self.inner(b), ("arr", None if r is None else r - fixed))
        if isinstance(n.slice, ast.Slice) and b.kind == "coll":
            return self.fresh(n, self.inner(b), "coll")
        return Val(self.inner(b), None)

    def fancy(self, env, e):
        if isinstance(e, (ast.List, ast.Compare, ast.ListComp)):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            return True
        if isinstance(e, ast.Name):
            k = env.get(e.id, NOTHING).kind
            return k == "coll" or isinstance(k, tuple) and k[0] == "arr"
        return False

    def e_Attribute(self, env, n):
        b = self.ev(env, n.value)
        d = dotted(n)
        if d and d.split(".")[0] not in env:
            r = self.prog.lookup(self.f.module, d.split(".")[0])
            if r and r[0] in ("module", "ext"):
                if r[0] == "module":
                    x = self.prog.lookup_in(r[1], n.attr)
                    if x and x[0] == "func":
                        return Val(frozenset(), ("func", x[1]))
                    if x and x[0] == "class":
                        return Val(frozenset(), ("class", x[1]))
                return NOTHING
        for f in self.prop_targets(b, n.attr):
            return self.apply(f, [b], {}, n, env)
        if n.attr in ("shape", "size", "ndim", "dtype", "name", "uid", "num", "path"):
            return NOTHING
        kind = None
        if not isinstance(b.kind, (tuple, str)) and b.kind is not None:
            a = self.prog.attr_annotation(b.kind, n.attr) if hasattr(self.prog, "attr_annotation") else None
            kind = ann_kind(self.prog, b.kind.module, a, n.attr) if a is not None else None
        if kind == "scalar":
            return NOTHING
        if n.attr in ("pts", "points"):
            kind = ("arr", 2)
        if n.attr == "T":
            kind = b.kind
        return Val(self.inner(b), kind)

    def prop_targets(self, b, name):
        fs = self.mr.props.get(name, ())
        if b.kind is not None and not isinstance(b.kind, (tuple, str)):
            f = self.prog.method(b.kind, name)
            return [f] if f is not None and f.is_property and f.qualname in self.mr.sum else []
        if b.kind == "scalar" or isinstance(b.kind, tuple) or b.kind == "coll":
            return []
        return list(fs)[:1]

    def e_Call(self, env, n):
        args = [self.ev(env, a) for a in n.args]
        kw = {k.arg: self.ev(env, k.value) for k in n.keywords}
        for k in n.keywords:
            if k.arg == "out":
                for v in (kw["out"],):
                    self.modify(v, n, "writes its output into an argument", "[]")
        star = any(isinstance(a, ast.Starred) for a in n.args) or None in kw
        if isinstance(n.func, ast.Attribute):
            d = dotted(n.func)
            head = d.split(".")[0] if d else None
            r = self.prog.lookup(self.f.module, head) if head and head not in env else None
            if r and r[0] == "ext":
                return self.external(d.split(".")[-1], args, kw, n, d)
            if r and r[0] == "module":
                x = self.ev(env, n.func)
                if isinstance(x.kind, tuple) and x.kind[0] in ("func", "class"):
                    return self.target(x, args, kw, n, env, star)
            if r and r[0] == "class":
                f = self.prog.method(r[1], n.func.attr)
                if f is not None:
                    a2 = args if f.is_static else ([self.fresh(n)] + args if f.is_classmethod else args)
                    return self.apply(f, a2, kw, n, env, star)
            if isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == "super":
                b = Val(frozenset([("P", 0)]), self.f.cls)
                for base in (self.prog.base_classes(self.f.cls) if self.f.cls else []):
                    f = self.prog.method(base, n.func.attr)
                    if f is not None:
                        return self.apply(f, [b] + args, kw, n, env, star)
                self.modify(b, n, f"calls super().{n.func.attr}", "[]") if n.func.attr in MUT else None
                return Val(self.inner(b))
            b = self.ev(env, n.func.value)
            return self.method(b, n.func.attr, args, kw, n, env, star)
        v = self.ev(env, n.func)
        if isinstance(v.kind, tuple) and v.kind[0] in ("func", "class", "fn"):
            return self.target(v, args, kw, n, env, star)
        d = dotted(n.func)
        return self.external(d.split(".")[-1] if d else "?", args, kw, n, d or "?")

    def target(self, v, args, kw, n, env, star):
        if v.kind[0] == "func":
            return self.apply(v.kind[1], args, kw, n, env, star)
        if v.kind[0] == "class":
            c = v.kind[1]
            f = self.prog.method(c, "__init__")
            allv = frozenset().union(*[self.inner(x) | x.toks for x in args + list(kw.values())]) if args or kw else frozenset()
            o = self.fresh(n, allv if f is None else frozenset(), c)
            if f is not None:
                self.apply(f, [o] + args, kw, n, env, star)
            return Val(o.toks, c)
        node = v.kind[1]
        if self.depth > 4:
            return Val(frozenset().union(*[x.toks for x in args]) if args else frozenset())
        self.depth += 1
        e = dict(env)
        ps = [p.arg for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for p in ps:
            e[p] = Val()
        for p, x in zip(ps, args):
            e[p] = x
        e.update({k: x for k, x in kw.items() if k in ps})
        if isinstance(node, ast.Lambda):
            r = self.ev(e, node.body)
        else:
            save = self.out
            self.out = Summary(mods=save.mods, flows=save.flows)
            self.block(e, node.body)
            toks = set(self.out.ret) | set(self.out.rcont)
            self.out = save
            r = self.fresh(n, frozenset(toks))
            r = Val(r.toks | frozenset(toks))
        self.depth -= 1
        return r

    def apply(self, f, args, kw, n, env, star=False):
        """Uses the summary of a function of the library at a call."""
        q = f.qualname
        self.mr.calls.setdefault(self.f.qualname, set()).add(q)
        s = self.mr.sum.get(q)
        if s is None:
            return Val(frozenset().union(*[self.inner(x) | x.toks for x in args]) if args else frozenset())
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        vals = {}
        npos = len(a.posonlyargs + a.args)
        for i, x in enumerate(args):
            if i < npos:
                vals[i] = x
            elif a.vararg:
                j = len(ps)
                vals[j] = self.join(vals[j], x) if j in vals else x
        for k, x in kw.items():
            if k in ps:
                vals[ps.index(k)] = x
            elif k is not None and a.kwarg:
                vals[len(ps) + (1 if a.vararg else 0)] = x
        if star:
            everything = Val(frozenset().union(*[self.inner(x) | x.toks for x in args + list(kw.values())]))
            for i in range(len(ps)):
                vals.setdefault(i, everything)
        def at(t):
            """Origins at the call of an origin of the callee."""
            if t[0] == "G":
                return {t}
            v = vals.get(t[1])
            return set() if v is None else set(v.toks) if t[0] == "P" else set(self.inner(v))
        for (t, label), (where, what) in s.mods.items():
            text = what if " (in " in what else f"{what} (in {q.split('.')[-1]}, {where})"
            self.modify(Val(frozenset(at(t))), n, text, label)
        for i, y in s.flows:
            if i in vals and y[1] in vals:
                self.put(vals[i], Val(frozenset(at(y))))
        toks, cont = set(), set()
        for t in s.ret:
            toks |= at(t)
        for t in s.rcont:
            cont |= at(t)
        k = ann_kind(self.prog, f.module, f.node.returns, f.name)
        if k == "scalar":
            return NOTHING
        fr = self.fresh(n, frozenset(cont))
        if s.items and (k in (None, "coll") or isinstance(k, tuple) and k[0] == "tup" and len(k[1]) == len(s.items)):
            vs = []
            for i, (ret, inside, kind) in enumerate(s.items):
                if isinstance(k, tuple) and k[1][i].kind is not None:
                    kind = k[1][i].kind
                if kind == "scalar":
                    vs.append(NOTHING)
                    continue
                t = ("N", getattr(n, "lineno", 0), getattr(n, "col_offset", 0), self.depth, i)
                c = {y for x in inside for y in at(x)}
                if c:
                    self.cont.setdefault(t, set()).update(c - {t})
                vs.append(Val(frozenset(y for x in ret for y in at(x)) | {t}, kind))
            self.cont.setdefault(next(iter(fr.toks)), set()).update(y for v in vs for y in v.toks if y not in fr.toks)
            k = ("tup", tuple(vs))
        return Val(frozenset(toks) | fr.toks, k)

    def method(self, b, name, args, kw, n, env, star):
        cands = []
        if b.kind is not None and not isinstance(b.kind, (tuple, str)):
            f = self.prog.method(b.kind, name)
            if f is not None:
                cands = [f]
        elif b.kind is None and name not in ("copy", "get", "items", "values", "keys", "append", "add", "extend", "update"):
            cands = self.mr.by_method.get(name, [])
        if cands:
            vs = [self.apply(f, (args if f.is_static else [b] + args), kw, n, env, star) for f in cands]
            return self.join(*vs)
        if b.kind == "scalar":
            return NOTHING
        if name in MUT and not (isinstance(b.kind, tuple) and b.kind[0] == "func"):
            self.modify(b, n, f"calls {ast.unparse(n.func)[:40]}()", elem_label(n.func.value))
            if name in PUTS:
                for x in args[PUTS[name]:]:
                    self.put(b, x)
            if name in INNER_METHODS:
                return Val(self.inner(b))
            return NOTHING
        if name in INNER_METHODS:
            return Val(self.inner(b) | frozenset().union(*[x.toks for x in args]) if args else self.inner(b))
        if name in VIEW_METHODS:
            return Val(b.toks, b.kind)
        if name in SHALLOW_METHODS:
            arr = isinstance(b.kind, tuple) and b.kind[0] == "arr"
            return self.fresh(n, frozenset() if arr else self.inner(b), b.kind if arr else "coll")
        if name in ("sum", "min", "max", "mean", "dot", "all", "any", "astype", "round", "cumsum", "flatten", "tolist", "argmin", "argmax"):
            return self.fresh(n, frozenset(), None)
        return self.fresh(n)

    def external(self, name, args, kw, n, full):
        arrs = [x.kind for x in args if isinstance(x.kind, tuple) and x.kind[0] == "arr"]
        if name in MUT_FUNCS and args and full.split(".")[0] in ("np", "numpy", "random", "heapq", "setattr", "delattr"):
            self.modify(args[0], n, f"calls {full}()", "[]")
            for x in args[1:]:
                self.put(args[0], x)
            return NOTHING
        if full in ("isinstance", "len", "print", "int", "float", "str", "bool", "abs", "round", "sum", "hash", "id", "any", "all", "range", "prange",
                    "hasattr", "type", "repr", "ord", "chr", "divmod", "callable", "open"):
            return NOTHING if full != "open" else self.fresh(n)
        if name in INNER_FUNCS and full == name:
            return Val(frozenset().union(*[self.inner(x) | x.toks for x in args]) if args else frozenset())
        if full == "zip" or full == "enumerate":
            es = [self.elem(x) for x in args]
            if full == "enumerate":
                es = [NOTHING] + es[:1]
            v = self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in args]) if args else frozenset())
            return Val(v.toks, ("rows", tuple(es)))
        if name in SHALLOW_FUNCS and not full.startswith("np."):
            return self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in args]) if args else frozenset(), "coll")
        if name in VIEW_FUNCS and full.split(".")[0] in ("np", "numpy"):
            return Val(args[0].toks, args[0].kind) if args else self.fresh(n)
        if full in ("copy.copy",):
            return self.fresh(n, frozenset().union(*[self.inner(x) | x.toks for x in args]))
        if full.split(".")[0] in ("np", "numpy"):
            k = arrs[0] if arrs else ("arr", None)
            if name in ("zeros", "ones", "full", "empty"):
                k = ("arr", None)
            return self.fresh(n, frozenset(), k)
        return self.fresh(n)


def elem_label(e):
    return e.attr + "[]" if isinstance(e, ast.Attribute) else "[]"


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
