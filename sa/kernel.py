"""Dataflow analysis of array kernels (the compiled ray loop and its helpers).

Arrays are tracked per element: the contents of an array are a base version plus updates at index terms. Loops are
summarised by replacing everything their body changes with a symbol for 'the value at the start of some round';
relations between such values that hold on entry and are preserved by the body are kept.
Helper functions are analysed in place of their calls, so extracting or inlining code does not change the result.
"""
from __future__ import annotations

import ast
from dataclasses import dataclass, field

from . import terms as tm
from .loader import AnalysisError
from .terms import FALSE, NONE, ONE, TRUE, ZERO, const, is_const, mk

UNDEF = mk("undef")
FULL = mk("slice", NONE, NONE, NONE)


@dataclass(eq=False)
class Root:
    key: tuple
    name: str
    kind: str = "arr"
    rank: int | None = None
    shape: object = None
    loops: tuple = ()
    param: bool = False
    elem: str | None = None      # kind of the elements of a list


@dataclass(eq=False)
class Event:
    kind: str
    root: Root | None
    idx: tuple
    val: object
    arr: dict
    guards: tuple
    loops: tuple
    where: str
    node: object
    old: object = None
    fn: str = ""

    def now(self, root):
        return self.arr.get(root)


@dataclass(eq=False)
class LoopRec:
    key: tuple
    node: object
    kind: str
    count: object
    index: object
    loops: tuple
    entry: object = None
    head: object = None
    end: object = None
    breaks: list = field(default_factory=list)
    after: object = None
    mods: set = field(default_factory=set)
    where: str = ""
    test: object = None            # condition of a while loop, at entry


class KState:
    __slots__ = ("env", "arr", "guards", "loops", "dead")

    def __init__(self):
        self.env, self.arr, self.guards, self.loops, self.dead = {}, {}, (), (), False

    def copy(self):
        s = KState()
        s.env, s.arr, s.guards, s.loops, s.dead = dict(self.env), dict(self.arr), self.guards, self.loops, self.dead
        return s

    def guard(self, c):
        for x in tm.conj_list(c):
            if x is FALSE:
                self.dead = True
            if x is not TRUE and x not in self.guards:
                self.guards = self.guards + (x,)
        return self


class Kernel:
    def __init__(self, prog, opaque=(), ranks=None, axioms=()):
        self.prog = prog
        self.opaque = set(opaque)
        self.roots: dict = {}
        self.by_name: dict = {}
        self.events: list[Event] = []
        self.loop_recs: list[LoopRec] = []
        self.exits: list = []
        self.stack: list = []          # (func, fid)
        self.targets: list = []
        self.rank: dict = {}           # rank of array-valued terms
        self.seen_funcs: set = set()
        self.calls: list = []
        self.reads: list = []          # (root, index, loops, where)
        self.axioms = dict(axioms)
        self.ticks = 0
        self.at = None
        self.nonneg: set = set()
        self.counts: dict = {}         # loop -> number of rounds
        self.sites: set = set()
        self.types: dict = {}          # term -> class, for objects whose attributes and methods are followed

    # ------------------------------------------------------------ entry
    def run(self, f, params: dict, st=None):
        """params: name -> ('arr', rank) | ('list', elem kind) | ('set',) | ('dict',) | term | None; st: state of a run before."""
        st = st or KState()
        self.func = f
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            spec = params.get(p.arg)
            if isinstance(spec, tm.T):
                v = spec
            elif spec:
                r = Root(("param", p.arg), p.arg, spec[0], spec[1] if len(spec) > 1 and spec[0] == "arr" else None, param=True)
                if spec[0] == "list":
                    r.elem = spec[1] if len(spec) > 1 else None
                self.roots[r.key] = r
                self.by_name[p.arg] = r
                st.arr[r] = mk("base", p.arg, "")
                v = mk("ref", r.key, ())
            else:
                v = mk("p", p.arg)
            st.env[((), p.arg)] = v
        self.stack.append((f, ()))
        self.seen_funcs.add(f.qualname)
        self.targets.append([])
        s = self.exec_block(st, f.node.body)
        rets = [(e[2], e[3]) for e in self.exits if e[0] == "return"]
        self.exits = []
        self.stack.pop()
        return s, rets

    @property
    def fid(self):
        return self.stack[-1][1]

    def where(self, n):
        return self.stack[-1][0].where(n)

    @property
    def call_sites(self):
        return len(self.sites)

    def here(self):
        return self.where(self.at) if self.at is not None else self.stack[-1][0].where()

    def pos(self, n):
        return self.fid + ((getattr(n, "lineno", 0), getattr(n, "col_offset", 0)),)

    def event(self, st, kind, root, idx, val, node, old=None, fn=""):
        self.events.append(Event(kind, root, idx, val, dict(st.arr), st.guards, st.loops, self.where(node), node, old, fn))

    # ------------------------------------------------------------ contents
    def root_of(self, v):
        return self.roots[v[1]]

    def deref(self, st, v):
        if not isinstance(v, tm.T):
            return v
        if v[0] == "ref":
            r = self.roots[v[1]]
            self.reads.append((r, v[2], st.loops, self.here()))
            t = self.read(st.arr.get(r, mk("base", r.name, "lost")), v[2])
            if r.kind == "arr" and r.rank is not None:
                self.rank.setdefault(t, r.rank - len(v[2]))
            return t
        if v[0] == "tuple":
            return tm.tup(self.deref(st, x) for x in v[1])
        return v

    def read(self, c, idx):
        if not idx:
            return c
        k = c[0]
        if k == "upd":
            i = c[2]
            if i == idx:
                return c[3]
            if len(i) < len(idx) and idx[:len(i)] == i:
                return self.read(c[3], idx[len(i):])
            if self.apart(i, idx):
                return self.read(c[1], idx)
            return mk("sel", c, idx)
        if k == "mix":
            return tm.phi(c[1], self.read(c[2], idx), self.read(c[3], idx))
        if k == "phi":
            return tm.phi(c[1], self.read(c[2], idx), self.read(c[3], idx))
        if k == "fill":
            return c[1]
        if k == "gen":
            return self.read(tm.subst(c[2], {c[1]: idx[0]}), idx[1:]) if self.plain(idx[0]) else mk("sel", c, idx)
        if k == "span":
            if idx[0][0] == "ix" and self.counts.get(idx[0][1]) is c[4] or tm.is_int(idx[0]) and tm.is_int(c[4]) and 0 <= idx[0][2] < c[4][2]:
                return self.read(tm.subst(c[3], {c[2]: idx[0]}), idx[1:])
            return mk("sel", c, idx)
        if k == "sum":
            return tm.add(*[tm.scale(self.read(x, idx), w) for x, w in c[1]], const(c[2]))
        if k == "mul":
            fs = [self.read(x, idx) for x in c[1]]
            r = fs[0]
            for x in fs[1:]:
                r = tm.mul(r, x)
            return r
        if k == "op":
            return tm.binop(c[1], self.read(c[2], idx), self.read(c[3], idx))
        if k in ("c", "p") and self.rank.get(c, 0) == 0:
            return c
        if self.number(c):
            return c
        if k == "tuple":
            if tm.is_int(idx[0]) and -len(c[1]) <= idx[0][2] < len(c[1]):
                return self.read(c[1][idx[0][2]], idx[1:])
        if k == "sel" and self.plain(*c[2]):
            return mk("sel", c[1], c[2] + idx)
        if k == "sel" and c[2][0] is FULL and len(c[2]) == 1:
            return mk("sel", c[1], idx)
        if k == "mcall" and c[2] in ("min", "max", "sum") and c[4] == (("axis", ZERO),) and len(idx) == 1:
            return mk("mcall", self.read(c[1], (FULL, idx[0])), c[2], (), ())
        return mk("sel", c, idx)

    def number(self, t):
        """Certainly a single number, the same for every element it is combined with."""
        if t[0] == "call" and not t[3]:
            return t[1] in ("vdot", "np.linalg.norm", "float", "int", "len") or t[1].startswith("math.")
        return t[0] in ("len", "ix")

    def plain(self, *idx):
        return all(x[0] != "slice" for x in idx)

    def apart(self, i, j):
        """Certainly different elements."""
        for a, b in zip(i, j):
            if a is b:
                continue
            d = tm.sub(a, b)
            if self.plain(a, b) and tm.is_num(d) and d[2] != 0:
                return True
        return False

    def norm_idx(self, idx):
        idx = list(idx)
        while idx and idx[-1] is FULL:
            idx.pop()
        return tuple(idx)

    def store(self, st, ref, idx, v, node):
        r = self.roots[ref[1]]
        full = self.norm_idx(self.cat_idx(ref[2], idx))
        v = self.deref(st, v)
        old = st.arr.get(r, mk("base", r.name, "lost"))
        self.event(st, "store", r, full, v, node, old)
        st.arr[r] = self.upd(old, full, v)

    def upd(self, old, idx, v):
        if not idx:
            return mk("fill", v) if is_const(v) or v[0] == "p" else v
        if old[0] == "upd" and old[2] == idx:
            old = old[1]
        return mk("upd", old, idx, v)

    def cat_idx(self, a, b):
        """Index b applied to the view a."""
        if self.plain(*a):
            return tuple(a) + tuple(b)
        out, b = [], list(b)
        for x in a:
            if x is FULL and b:
                out.append(b.pop(0))
            else:
                out.append(x)
        return tuple(out) + tuple(b)

    def new_root(self, st, node, kind, content, rank=None, shape=None, name=None, tag=""):
        key = self.pos(node) + (tag,)
        r = self.roots.get(key)
        if r is None:
            r = Root(key, name or f"@{getattr(node, 'lineno', 0)}", kind, rank, shape)
            self.roots[key] = r
        r.loops, r.shape = st.loops, shape
        if rank is not None:
            r.rank = rank
        st.arr[r] = content
        return mk("ref", key, ())

    # ------------------------------------------------------------ statements
    def exec_block(self, st, body):
        for n in body:
            if st.dead:
                break
            st = self.exec(st, n)
        return st

    def exec(self, st, n):
        self.ticks += 1
        if self.ticks > 400000:
            raise AnalysisError(f"analysis budget exceeded at {self.where(n)}")
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(n).__name__} at {self.where(n)}")
        self.at = n
        return m(st, n)

    def x_Pass(self, st, n):
        return st

    x_Import = x_ImportFrom = x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, st, n):
        self.eval(st, n.value)
        return st

    def x_FunctionDef(self, st, n):
        st.env[(self.fid, n.name)] = mk("lfn", id(n))
        self.__dict__.setdefault("local_fns", {})[id(n)] = (n, self.stack[-1])
        return st

    def x_Assign(self, st, n):
        v = self.eval(st, n.value)
        for t in n.targets:
            self.assign(st, t, v)
        return st

    def x_AnnAssign(self, st, n):
        if n.value is not None:
            self.assign(st, n.target, self.eval(st, n.value))
        return st

    def bind(self, st, name, v, node, scope=None):
        if isinstance(v, tm.T) and v[0] not in ("ref", "tuple", "c") and (self.rank.get(v) or 0) > 0:
            v = self.new_root(st, node, "arr", v, self.rank[v], name=name, tag=name)
        st.env[(scope or self.fid, name)] = v
        if v[0] == "ref" and not v[2] and self.roots[v[1]].name.startswith("@"):
            self.roots[v[1]].name = name
        if len(self.stack) == 1 and v[0] == "ref" and not v[2]:
            self.by_name.setdefault(name, self.roots[v[1]])

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n, star = len(t.elts), None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    star = i
                    tail = n - 1 - i
                    if v[0] == "tuple":
                        self.assign(st, x.value, self.new_root(st, x, "list", tm.tup(v[1][i:len(v[1]) - tail])))
                    else:
                        self.assign(st, x.value, self.item(st, v, (mk("slice", const(i) if i else NONE, const(-tail) if tail else NONE, NONE),), x))
                else:
                    self.assign(st, x, self.item(st, v, (const(i if star is None else i - n),), x))
        elif isinstance(t, ast.Subscript):
            b = self.eval(st, t.value)
            idx = self.index(st, t.slice)
            self.put(st, b, idx, v, t, t.value)
        elif isinstance(t, ast.Attribute):
            b = self.eval(st, t.value)
            self.event(st, "setattr", None, (), v, t, fn=t.attr)
            if b in self.types:
                self.bind(st, t.attr, v, t, scope=("@", b))
        else:
            raise AnalysisError(f"unsupported target at {self.where(t)}")

    def put(self, st, b, idx, v, node, owner):
        if b[0] == "ref":
            self.store(st, b, idx, v, node)
        else:
            self.event(st, "store", None, idx, self.deref(st, v), node, b)
            if isinstance(owner, ast.Name) and b[0] in ("phi", "mix", "head", "upd") and (self.fid, owner.id) in st.env:
                self.bind(st, owner.id, mk("upd", b, self.norm_idx(idx), self.deref(st, v)), node)

    def x_AugAssign(self, st, n):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.eval(st, n.target)
            v = self.binop(st, n.op, cur, self.eval(st, n.value))
            if cur[0] == "ref" and self.roots[cur[1]].kind == "arr":
                self.store(st, cur, (), v, n)
            elif cur[0] == "ref":
                self.mutate(st, cur, "extend", [self.eval(st, n.value)], n)
            else:
                self.bind(st, n.target.id, v, n)
        elif isinstance(n.target, ast.Subscript):
            b = self.eval(st, n.target.value)
            idx = self.index(st, n.target.slice)
            cur = self.item(st, b, idx, n)
            v = self.binop(st, n.op, cur, self.eval(st, n.value))
            self.put(st, b, idx, v, n, n.target.value)
        else:
            raise AnalysisError(f"unsupported update ({op}) at {self.where(n)}")
        return st

    def x_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop((self.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(st, t.value)
                self.mutate(st, b, "del", [x for x in self.index(st, t.slice)], n)
        return st

    def x_Return(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        self.exits.append(("return", self.fid, st.copy(), v))
        st.dead = True
        return st

    def x_Raise(self, st, n):
        self.event(st, "raise", None, (), NONE, n)
        st.dead = True
        return st

    def x_Assert(self, st, n):
        c = self.cond(st, n.test)
        self.event(st, "assert", None, (), c, n)
        return st.guard(c)

    def x_With(self, st, n):
        for i in n.items:
            self.eval(st, i.context_expr)
        return self.exec_block(st, n.body)

    def x_Try(self, st, n):
        st = self.exec_block(st, n.body)
        if n.finalbody:
            st = self.exec_block(st, n.finalbody)
        return st

    def x_If(self, st, n):
        c = self.cond(st, n.test)
        if c is TRUE:
            return self.exec_block(st, n.body)
        if c is FALSE:
            return self.exec_block(st, n.orelse)
        a = self.exec_block(st.copy().guard(c), n.body)
        b = self.exec_block(st.copy().guard(tm.neg(c)), n.orelse)
        return self.join(c, a, b, st.guards)

    def join(self, c, a, b, g0):
        if a.dead:
            return b
        if b.dead:
            return a
        out = a.copy()
        ga = tm.conj([x for x in a.guards if x not in g0])
        gb = tm.conj([x for x in b.guards if x not in g0])
        out.guards = tuple(g0)
        d = tm.disj([ga, gb])
        if not (ga is c and gb is tm.neg(c)):
            out.guard(d)
        for k in set(a.env) | set(b.env):
            out.env[k] = self.join_val(c, a, b, a.env.get(k, UNDEF), b.env.get(k, UNDEF))
        for r in list(a.arr) + [r for r in b.arr if r not in a.arr]:
            x, y = a.arr.get(r), b.arr.get(r)
            out.arr[r] = x if y is None or x is y else y if x is None else mk("mix", c, x, y)
        return out

    def join_val(self, c, a, b, x, y):
        if x is y:
            return x
        if x[0] == y[0] == "tuple" and len(x[1]) == len(y[1]):
            return tm.tup(self.join_val(c, a, b, p, q) for p, q in zip(x[1], y[1]))
        return tm.phi(c, self.deref(a, x), self.deref(b, y))

    def x_Break(self, st, n):
        self.exits.append(("break", self.targets[-1][-1], st.copy(), None))
        st.dead = True
        return st

    def x_Continue(self, st, n):
        self.exits.append(("continue", self.targets[-1][-1], st.copy(), None))
        st.dead = True
        return st

    def merge(self, states, g0):
        """Joins states that leave a region on different paths; conditions are what was assumed since g0."""
        states = [s for s in states if not s.dead]
        if not states:
            s = KState()
            s.dead = True
            return s
        acc = states[-1]
        acc_g = tm.conj([x for x in acc.guards if x not in g0])
        for s in reversed(states[:-1]):
            c = tm.conj([x for x in s.guards if x not in g0])
            if c is TRUE:
                acc, acc_g = s, TRUE
                continue
            j = self.join(c, s, acc, g0)
            acc_g = tm.disj([c, acc_g])
            j.guards = tuple(g0)
            j.guard(acc_g)
            acc = j
        acc = acc.copy()
        return acc

    # ------------------------------------------------------------ loops
    def x_For(self, st, n):
        it = self.eval_iter(st, n.iter)
        kind = it[0]
        key = self.pos(n)
        ix = mk("ix", key)
        if kind == "const":
            g0 = st.guards
            brk = []
            for v in it[1]:
                if st.dead:
                    break
                st, b = self.one_round(st, n, key, lambda s, v=v: self.assign(s, n.target, v))
                brk += b
            out = [st] + brk if not st.dead else brk
            return self.merge(out, g0)
        count = it[1]

        def bind(s):
            self.assign(s, n.target, it[2](s, ix))
        return self.loop(st, n, key, kind, count, ix, bind, None)

    def one_round(self, st, n, key, bind):
        mark = len(self.exits)
        bind(st)
        g0 = st.guards
        self.targets[-1].append(key)
        s = self.exec_block(st, n.body)
        self.targets[-1].pop()
        mine = [e for e in self.exits[mark:] if e[1] == key and e[0] in ("break", "continue")]
        self.exits[mark:] = [e for e in self.exits[mark:] if e not in mine]
        cont = [e[2] for e in mine if e[0] == "continue"]
        s = self.merge([s] + cont, g0)
        return s, [e[2] for e in mine if e[0] == "break"]

    def x_While(self, st, n):
        key = self.pos(n)
        n = plain_while(n)
        return self.loop(st, n, key, "while", None, None, None, n.test)

    def eval_iter(self, st, n):
        """('range'|'prange', count, elem(state, ix)) or ('const', elements) or ('seq', ...)."""
        if isinstance(n, ast.Call):
            f = self.eval(st, n.func)
            nm = f[1].split(".")[-1] if f[0] == "ext" else ""
            if nm in ("range", "prange", "pndindex") and not n.keywords:
                a = [self.deref(st, self.eval(st, x)) for x in n.args]
                lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
                if nm == "range" and all(tm.is_int(x) for x in (lo, hi, step)) and step[2] != 0 and len(range(lo[2], hi[2], step[2])) <= 4:
                    return "const", [const(i) for i in range(lo[2], hi[2], step[2])]
                kind = "prange" if nm != "range" else "range"
                if step is ONE:
                    return kind, tm.sub(hi, lo), lambda s, ix: tm.add(lo, ix)
                return kind, tm.call("rangelen", (lo, hi, step)), lambda s, ix: tm.add(lo, tm.mul(step, ix))
            if nm == "enumerate" and n.args:
                it = self.eval_iter(st, n.args[0])
                at = n.args[1:] + [k.value for k in n.keywords if k.arg == "start"]
                at = self.deref(st, self.eval(st, at[0])) if at else ZERO
                if it[0] == "const":
                    return "const", [tm.tup((tm.add(at, const(i)), x)) for i, x in enumerate(it[1])]
                k, c, e = it
                return k, c, lambda s, ix: tm.tup((tm.add(at, ix), e(s, ix)))
            if nm == "zip":
                its = [self.eval_iter(st, a) for a in n.args]
                if all(x[0] != "const" for x in its):
                    ns = sorted({e[1] for e in its}, key=tm.tkey)
                    return "seq", ns[0] if len(ns) == 1 else mk("call", "min", tuple(ns), ()), lambda s, ix: tm.tup(e[2](s, ix) for e in its)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values") and not n.args and not n.keywords and f[0] != "ext":
                c = self.deref(st, self.eval(st, n.func.value))
                key = lambda ix: mk("elem", c, ix)
                val = lambda ix: self.lookup(c, key(ix))
                pick = {"items": lambda s, ix: tm.tup((key(ix), val(ix))), "keys": lambda s, ix: key(ix), "values": lambda s, ix: val(ix)}
                return "seq", tm.length(c), pick[n.func.attr]
        v = self.eval(st, n)
        if v[0] == "tuple" and len(v[1]) <= 8:
            return "const", list(v[1])
        if v[0] == "ref" and self.roots[v[1]].kind in ("arr", "list"):
            c = self.deref(st, v)
            if c[0] == "tuple" and len(c[1]) <= 4 and self.roots[v[1]].kind == "list" and all(x[0] == "tuple" for x in c[1]):
                return "const", list(c[1])
            return "seq", self.length(c), lambda s, ix: self.item(s, v, (ix,), n)
        c = self.deref(st, v)
        return "seq", tm.length(c), lambda s, ix: mk("elem", c, ix)

    def snapshot(self, st):
        return dict(st.env), dict(st.arr)

    def diff(self, a, b):
        out = set()
        if b.dead:
            return out
        for k, v in b.env.items():
            if k in a.env and a.env[k] is not v:
                out.add(("e", k))
        for r, c in b.arr.items():
            if r in a.arr and a.arr[r] is not c:
                out.add(("a", r))
        return out

    def get(self, st, m):
        if m[0] == "e":
            return st.env.get(m[1], UNDEF)
        if m[0] == "a":
            return st.arr[m[1]]
        return self.read(st.arr[m[1]], m[2])

    def head_sym(self, key, m):
        if m[0] == "e":
            return mk("head", key, m[1][1])
        if m[0] == "a":
            return mk("base", m[1].name, key)
        return mk("head", key, m[1].name, m[2])

    def set_heads(self, s, entry, mods, rel, key, sym):
        """Gives everything the loop changes its value at the start of a round."""
        vals = {}

        def value(m, depth=0):
            if m in vals:
                return vals[m]
            if m in rel and depth < 20:
                mp = {sym(u): value(u, depth + 1) for u in rel[m][1]}
                vals[m] = tm.subst(rel[m][0], mp)
            else:
                vals[m] = sym(m)
            return vals[m]
        for m in mods:
            value(m)
        for m in sorted(mods, key=repr_mod):
            v = vals[m]
            if m[0] == "e":
                s.env[m[1]] = v
            elif m[0] == "a":
                s.arr[m[1]] = v
        for m in sorted(mods, key=repr_mod):
            if m[0] == "cell":
                s.arr[m[1]] = self.upd(s.arr[m[1]], m[2], vals[m])
        return vals

    def loop(self, st, n, key, kind, count, ix, bind, test):
        entry = st.copy()
        if count is not None:
            self.counts[key] = count
        marks = (len(self.exits), len(self.events), len(self.loop_recs), len(self.calls), len(self.reads))
        mods: set = set()
        rel: dict = {}
        banned: set = set()
        cells: dict = {}
        sym = lambda m: self.head_sym(key, m)
        counter = None
        for it in range(40):
            del self.exits[marks[0]:]
            del self.events[marks[1]:]
            del self.loop_recs[marks[2]:]
            del self.calls[marks[3]:]
            del self.reads[marks[4]:]
            s = entry.copy()
            s.loops = entry.loops + (key,)
            vals = self.set_heads(s, entry, mods, rel, key, sym)
            if counter:
                s.env[counter[0]] = tm.add(counter[1], ix)
            head = s.copy()
            brk, wex = [], None
            if test is not None:
                c = self.cond(s, test)
                if not counter:
                    wex = s.copy().guard(tm.neg(c))
                s.guard(c)
            if bind is not None:
                bind(s)
            g0 = s.guards
            if s.dead:
                end, brk = s, []
            else:
                mark = len(self.exits)
                self.targets[-1].append(key)
                e = self.exec_block(s, n.body)
                self.targets[-1].pop()
                mine = [x for x in self.exits[mark:] if x[1] == key and x[0] in ("break", "continue")]
                self.exits[mark:] = [x for x in self.exits[mark:] if x not in mine]
                end = self.merge([e] + [x[2] for x in mine if x[0] == "continue"], g0)
                brk = [x[2] for x in mine if x[0] == "break"]
            changed = self.diff(head, end)
            new = set()
            for m in changed:
                if counter and m == ("e", counter[0]):
                    continue
                if m[0] == "a" and m not in mods and m not in banned:
                    idx = {ev.idx for ev in self.events[marks[1]:] if ev.root is m[1] and ev.kind == "store"}
                    others = any(ev.root is m[1] and ev.kind != "store" for ev in self.events[marks[1]:])
                    old = cells.get(m[1], set())
                    want = idx | old
                    stable = want and not others and () not in want and all(self.invariant(i, entry.loops) for i in want) and \
                        (len(want) == 1 or all(self.apart(i, j) for i in want for j in want if i != j))
                    if stable:
                        cells[m[1]] = want
                        for i in want:
                            if ("cell", m[1], i) not in mods:
                                new.add(("cell", m[1], i))
                        if not any(("cell", m[1], i) not in mods for i in want):
                            pass
                        continue
                    for i in old:
                        mods.discard(("cell", m[1], i))
                    banned.add(m)
                    new.add(m)
                elif m not in mods:
                    new.add(m)
            if new:
                mods |= new
                rel = {}
                continue
            if test is not None and not counter and not any(b for b in [n.orelse]):
                cnt = self.counter(entry, head, end, mods, self.cond(head.copy(), test), key)
                if cnt:
                    counter = (cnt[0], cnt[1])
                    ix = mk("ix", key)
                    count, kind = cnt[2], "range"
                    self.counts[key] = count
                    mods.discard(("e", cnt[0]))
                    rel = {}
                    continue
            if counter is None or it < 39:
                r2 = self.relations(entry, head, end, mods, banned, key, sym, vals, rel, ix, marks[1])
                if r2 != rel:
                    rel = r2
                    continue
            break
        else:
            raise AnalysisError(f"loop does not stabilise at {self.where(n)}")
        rec = LoopRec(key, n, kind, count, ix, entry.loops, entry, head, end, brk, None, set(mods), self.where(n))
        if test is not None:
            mark = len(self.events), len(self.reads), len(self.calls)
            rec.test = self.cond(entry.copy(), test)
            del self.events[mark[0]:], self.reads[mark[1]:], self.calls[mark[2]:]
        if kind == "while":
            out = self.merge([wex] + brk, head.guards)
        else:
            out = entry.copy()
            post = lambda m: self.head_sym(key + ("post",), m)
            lists = {m: self.list_form(entry, head, end, m, vals, ix, count) for m in mods if m[0] == "a"}
            self.set_heads(out, entry, mods, {m: (tm.subst(f, {sym(u): post(u) for u in us}), us) for m, (f, us) in rel.items()}, key, post)
            for m, c in lists.items():
                if c is not None and not brk:
                    out.arr[m[1]] = c
            if counter:
                out.env[counter[0]] = tm.add(counter[1], count)
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not end.dead:
                out.env[(self.fid, n.target.id)] = mk("head", key + ("post",), n.target.id)
            if brk:
                g = out.guards
                out = self.merge(brk + [out], g) if not all(b.guards == g for b in brk) else out
        out.loops = entry.loops
        for r in list(out.arr):
            if key in r.loops:
                pass
        rec.after = out
        self.loop_recs.append(rec)
        if n.orelse and not out.dead:
            out = self.exec_block(out, n.orelse)
        return out

    def invariant(self, idx, loops):
        """The index does not change from round to round: it depends on enclosing loops only."""
        def varies(x):
            if x[0] in ("ix", "head"):
                return x[1] not in loops and not (x[1] and x[1][-1] == "post" and not self.nested(x[1][:-1], loops))
            return x[0] == "base" and x[2] != "" and x[2] not in loops
        return not any(i[0] == "slice" or tm.contains(i, varies) for i in idx)

    def nested(self, key, loops):
        return True

    def counter(self, entry, head, end, mods, test, key):
        for m in mods:
            if m[0] != "e" or end.dead:
                continue
            h = mk("head", key, m[1][1])
            if end.env.get(m[1]) is not tm.add(h, ONE) or entry.env[m[1]][0] == "ref":
                continue
            for c in tm.conj_list(test):
                bound = None
                if c[0] == "cmp" and c[1] == "<" and c[2] is h:
                    bound = c[3]
                elif c[0] == "not" and c[1][0] == "cmp" and c[1][1] == "<" and c[1][3] is h:
                    bound = tm.add(c[1][2], ONE)
                elif c[0] == "not" and c[1][0] == "cmp" and c[1][1] == "==" and h in c[1][2:4]:
                    bound = c[1][3] if c[1][2] is h else c[1][2]
                if bound is not None and test is c and not tm.contains(bound, lambda x: x[0] == "head" and x[1] == key):
                    return m[1], entry.env[m[1]], tm.sub(bound, entry.env[m[1]])
        return None

    def list_form(self, entry, head, end, m, vals, ix, count):
        """A list that starts empty and gets one element per round."""
        if ix is None or end.dead:
            return None
        b = end.arr[m[1]]
        if b[0] == "upd" and b[1] is vals[m] and b[2] == (ix,) and not tm.contains(b[3], lambda x: x[0] in ("head", "base") and x[1 if x[0] == "head" else 2] == ix[1]):
            return mk("span", entry.arr[m[1]], ix, b[3], count)
        if entry.arr[m[1]][0] != "empty":
            return None
        if b[0] == "app" and b[1] is vals[m] and not tm.contains(b[2], lambda x: x is vals[m]):
            return mk("gen", ix, b[2], count)
        return None

    def relations(self, entry, head, end, mods, banned, key, sym, vals, rel, ix, mark):
        """Relations 'value = F(other values)' that hold on entry and are preserved by every round."""
        if end.dead:
            return {}
        if rel:
            # verify the assumed relations on the result of a round
            out = {}
            bad = False
            for m, (f, us) in rel.items():
                mp = {sym(u): self.get(end, u) for u in us}
                exp = tm.subst(f, mp)
                got = self.get(end, m)
                if m[0] == "a":
                    ok = got is exp or self.rowwise(m, us, got, exp, ix, mark)
                else:
                    ok = self.same(got, exp)
                if ok:
                    out[m] = (f, us)
                else:
                    banned.add(("rel", m))
                    bad = True
            return {} if bad and not out else out
        out = {}
        ev = {}
        for u in sorted(mods, key=repr_mod):
            e = self.get(entry, u)
            if e[0] in ("c", "undef", "ref", "fn", "ext", "empty", "fill", "tuple") or u[0] == "e" and self.is_refish(e):
                continue
            ev.setdefault(e, u)
        for m in sorted(mods, key=repr_mod):
            if ("rel", m) in banned:
                continue
            e = self.get(entry, m)
            mp = {x: sym(u) for x, u in ev.items() if u != m and x is not e and (m[0] != "a" or u[0] == "a")}
            # equal values: the later one is expressed by the first
            if e in ev and ev[e] != m:
                mp[e] = sym(ev[e])
            f = tm.subst(e, mp)
            us = [u for u in mods if u != m and tm.contains(f, lambda x: x is sym(u))]
            if f is e or not us:
                continue
            if any(self.depends(out, u, m) for u in us):
                continue
            out[m] = (f, tuple(us))
        return out

    def is_refish(self, e):
        return isinstance(e, tm.T) and e[0] == "ref"

    def depends(self, rel, u, m, depth=0):
        if u == m:
            return True
        if u not in rel or depth > 20:
            return False
        return any(self.depends(rel, x, m, depth + 1) for x in rel[u][1])

    def rowwise(self, m, us, got, exp, ix, mark):
        """Two arrays stay related row by row when a round only changes its own row of either."""
        if ix is None:
            return False
        rs = {m[1]} | {u[1] for u in us if u[0] == "a"}
        if any(u[0] != "a" for u in us):
            return False
        for e in self.events[mark:]:
            if e.root in rs and (e.kind != "store" or not e.idx or e.idx[0] is not ix):
                return False
        return self.same(self.read(got, (ix,)), self.read(exp, (ix,)))

    # ------------------------------------------------------------ logic
    def same(self, a, b, depth=0):
        a, b = self.simplify(a), self.simplify(b)
        if a is b:
            return True
        if depth > 12:
            return False
        at = self.split_atom(a) or self.split_atom(b)
        if at is None:
            return False
        for v in (TRUE, FALSE):
            if not self.same(tm.subst(a, {at: v}), tm.subst(b, {at: v}), depth + 1):
                return False
        return True

    def simplify(self, t):
        for _ in range(3):
            if self.axioms:
                t = tm.subst(t, self.axioms)
        return t

    def split_atom(self, t):
        """An atomic condition of a conditional inside t that does not itself contain conditionals."""
        seen = set()
        todo = [(t, False)]
        while todo:
            x, inner = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "mix" and inner:
                continue                       # contents of an array or set handed to a function
            if x[0] in ("phi", "mix"):
                for a in self.atoms(x[1]):
                    if not tm.contains(a, lambda y: y[0] == "phi"):
                        return a
            todo += [(y, inner or x[0] == "call") for y in tm.children(x)]
        return None

    def atoms(self, c):
        if c[0] in ("and", "or"):
            out = []
            for x in c[1]:
                out += self.atoms(x)
            return out
        if c[0] == "not":
            return self.atoms(c[1])
        if c[0] == "phi":
            return self.atoms(c[1]) + self.atoms(c[2]) + self.atoms(c[3])
        if is_const(c):
            return []
        return [c]

    def lift(self, c, depth=0):
        """Moves conditionals out of atomic conditions."""
        if c[0] == "and":
            return tm.conj([self.lift(x, depth) for x in c[1]])
        if c[0] == "or":
            return tm.disj([self.lift(x, depth) for x in c[1]])
        if c[0] == "not":
            return tm.neg(self.lift(c[1], depth))
        if c[0] == "phi":
            k = self.lift(c[1], depth)
            a, b = self.lift(c[2], depth), self.lift(c[3], depth)
            return tm.disj([tm.conj([k, a]), tm.conj([tm.neg(k), b])])
        at = self.split_atom(c) if depth < 10 else None
        if at is None:
            return self.simplify(c)
        a = self.lift(tm.subst(c, {at: TRUE}), depth + 1)
        b = self.lift(tm.subst(c, {at: FALSE}), depth + 1)
        if a is b:
            return a
        return tm.disj([tm.conj([at, a]), tm.conj([tm.neg(at), b])])

    def unsat(self, cs, depth=0):
        c = tm.conj(cs)
        if c is FALSE:
            return True
        if c is TRUE:
            return False
        if depth > 24:
            return False
        # unit propagation
        units = {}
        for x in tm.conj_list(c):
            if x[0] == "not" and x[1][0] not in ("and", "or", "phi"):
                if units.get(x[1]) is TRUE:
                    return True
                units[x[1]] = FALSE
            elif x[0] not in ("and", "or", "phi", "not"):
                if units.get(x) is FALSE:
                    return True
                units[x] = TRUE
        if self.theory(units):
            return True
        rest = [x for x in tm.conj_list(c) if not (x in units or x[0] == "not" and x[1] in units)]
        if not rest:
            return False
        rest2 = [tm.subst(x, units) for x in rest]
        if rest2 != rest:
            keep = [k if v is TRUE else tm.neg(k) for k, v in units.items()]
            return self.unsat(keep + rest2, depth + 1)
        at = self.atoms(rest[0])[0]
        keep = [k if v is TRUE else tm.neg(k) for k, v in units.items()]
        return all(self.unsat(keep + [at if v is TRUE else tm.neg(at)] + [tm.subst(x, {at: v}) for x in rest], depth + 1) for v in (TRUE, FALSE))

    def theory(self, units):
        """Contradictions between comparisons: a < b together with b <= a - c."""
        lows = []
        for x, v in units.items():
            if x[0] == "cmp" and x[1] == "<":
                d = tm.sub(x[3], x[2])               # d > 0, or d <= 0
                lows.append((d, True) if v is TRUE else (tm.scale(d, -1), False))
            elif x[0] == "cmp" and x[1] == "==" and v is TRUE and (tm.is_num(x[2]) or tm.is_num(x[3])):
                d = tm.sub(x[3], x[2])
                lows += [(d, False), (tm.scale(d, -1), False)]
        for i, (d, strict) in enumerate(lows):
            if self.below(d, strict):
                return True
            for e, s2 in lows[i + 1:]:
                if self.below(tm.add(d, e), strict or s2):
                    return True
        return False

    def below(self, t, strict):
        """t is negative (or zero when it should be positive), given what is known to be non-negative."""
        if tm.is_num(t):
            return t[2] != "nan" and (t[2] < 0 or strict and t[2] == 0)
        if self.nonneg and t[0] == "sum" and all(x in self.nonneg and w < 0 for x, w in t[1]):
            return t[2] < 0 or strict and t[2] == 0
        if self.nonneg and t in self.nonneg:
            return False
        return False

    def skipped(self, rec, facts):
        """If the facts rule out that the while loop is entered: its symbols mapped to the values before the loop."""
        if rec.test is None or not self.unsat([self.lift(g) for g in tuple(rec.entry.guards) + tuple(facts) + (rec.test,)]):
            return None
        out = {}
        for m in rec.mods:
            v = self.get(rec.entry, m)
            for key in (rec.key, rec.key + ("post",)):
                out[self.head_sym(key, m)] = v
        return out

    def leaves(self, t, depth=0):
        """(condition, value) for each alternative of a conditional value."""
        if t[0] in ("phi", "mix") and depth < 8:
            return [(tm.conj([t[1], c]), v) for c, v in self.leaves(t[2], depth + 1)] + \
                   [(tm.conj([tm.neg(t[1]), c]), v) for c, v in self.leaves(t[3], depth + 1)]
        return [(TRUE, t)]

    def implies(self, guards, fact):
        gs = [self.lift(g) for g in guards]
        return self.unsat(gs + [self.lift(tm.neg(fact))])

    # ------------------------------------------------------------ expressions
    def cond(self, st, n):
        v = self.deref(st, self.eval(st, n))
        return self.truth(v)

    def truth(self, v):
        if is_const(v):
            return const(bool(v[2]))
        if v[0] == "phi":
            return tm.phi(v[1], self.truth(v[2]), self.truth(v[3]))
        return v

    def eval(self, st, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return mk("opq", type(n).__name__, self.pos(n))
        return m(st, n)

    def e_Constant(self, st, n):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def e_Name(self, st, n):
        fid = self.fid
        v = st.env.get((fid, n.id))
        if v is not None:
            return v
        f = self.stack[-1][0]
        clo = getattr(f, "closure_fid", None)
        if clo is not None and (clo, n.id) in st.env:
            return st.env[(clo, n.id)]
        return self.entity(self.prog.lookup(f.module, n.id), n.id)

    def entity(self, r, name):
        if r is None:
            return mk("ext", "builtins." + name)
        if r[0] == "func":
            return mk("fn", r[1].qualname)
        if r[0] == "class":
            return mk("cls", r[1].qualname)
        if r[0] == "module":
            return mk("mod", r[1])
        if r[0] == "ext":
            p = r[1].split(".")
            return mk("ext", ".".join(["np" if p[0] == "numpy" else p[0]] + p[1:]))
        if r[0] == "const":
            m, e = r[1], r[2]
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and isinstance(e.op, ast.USub):
                return const(-e.operand.value)
            d = _dotted(e)
            if d:
                p = d.split(".")
                b = self.entity(self.prog.lookup(m, p[0]), p[0])
                if b[0] == "ext":
                    return mk("ext", ".".join([b[1]] + p[1:]))
            return mk("glob", m.name, name)
        return mk("opq", name)

    def e_Attribute(self, st, n):
        b = self.eval(st, n.value)
        if b[0] == "ext":
            return mk("ext", b[1] + "." + n.attr)
        if b[0] == "mod":
            return self.entity(self.prog.lookup_in(b[1], n.attr), n.attr)
        if n.attr == "shape" and b[0] == "ref" and self.roots[b[1]].shape is not None:
            sh = self.roots[b[1]].shape
            return tm.tup(sh[1][len(b[2]):]) if sh[0] == "tuple" else tm.tup((sh,))
        if b in self.types:
            v = st.env.get((("@", b), n.attr))
            if v is not None:
                return v
            m = self.prog.method(self.types[b], n.attr)
            if m is not None and m.is_property:
                return self.call_fn(st, m, [b], {}, n)
        mark = len(self.reads)
        t = mk("attr", self.deref(st, b), n.attr)
        if n.attr in ("shape", "size", "ndim", "dtype"):
            del self.reads[mark:]
        return t

    def e_Tuple(self, st, n):
        return tm.tup(self.eval(st, x) for x in n.elts)

    def e_List(self, st, n):
        xs = [self.deref(st, self.eval(st, x)) for x in n.elts]
        if not xs:
            return self.new_root(st, n, "list", mk("empty"))
        return self.new_root(st, n, "list", tm.tup(xs))

    def e_Set(self, st, n):
        return self.new_root(st, n, "set", tm.tup(self.deref(st, self.eval(st, x)) for x in n.elts))

    def e_Dict(self, st, n):
        xs = [(self.deref(st, self.eval(st, k)), self.deref(st, self.eval(st, v))) for k, v in zip(n.keys, n.values) if k is not None]
        return self.new_root(st, n, "dict", mk("dictof", tuple(xs)))

    def e_JoinedStr(self, st, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(st, v.value)
        return mk("str")

    def e_Starred(self, st, n):
        return self.eval(st, n.value)

    def e_Lambda(self, st, n):
        self.__dict__.setdefault("local_fns", {})[id(n)] = (n, self.stack[-1])
        return mk("lfn", id(n))

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_UnaryOp(self, st, n):
        v = self.deref(st, self.eval(st, n.operand))
        if isinstance(n.op, ast.Not):
            return tm.neg(self.truth(v))
        if isinstance(n.op, ast.USub):
            return self.keep_rank(tm.scale(v, -1), v)
        if isinstance(n.op, ast.Invert):
            return tm.neg(v) if tm.is_boolish(v) else mk("call", "invert", (v,), ())
        return v

    def keep_rank(self, t, *xs):
        r = max([self.rank.get(x) or 0 for x in xs] + [0])
        if r and t not in self.rank:
            self.rank[t] = r
        return t

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Mod": "%", "FloorDiv": "//", "Pow": "**", "MatMult": "@",
           "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>"}

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        return self.binop(st, n.op, a, self.eval(st, n.right))

    def binop(self, st, op, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        o = self.OPS[type(op).__name__]
        if o in ("&", "|") and tm.is_boolish(a) and tm.is_boolish(b):
            return tm.conj([a, b]) if o == "&" else tm.disj([a, b])
        if o == "**" and b == const(2):
            return self.keep_rank(tm.mul(a, a), a)
        if o == "@":
            return self.dot(a, b)
        if o == "-":
            return self.keep_rank(tm.sub(a, b), a, b)
        return self.keep_rank(tm.binop(o, a, b), a, b)

    def dot(self, a, b):
        if self.table(a) or self.table(b):
            return mk("call", "np.dot", (a, b), ())
        return tm.vdot(a, b)

    def table(self, t):
        """Whether the term is certainly an array of rows, for which a product is not commutative."""
        if (self.rank.get(t) or 0) > 1:
            return True
        if t[0] == "phi":
            return self.table(t[2]) or self.table(t[3])
        return t[0] == "attr" and t[2] == "T"

    def e_BoolOp(self, st, n):
        vs = []
        s = st
        for x in n.values:
            v = self.truth(self.deref(s, self.eval(s, x)))
            vs.append(v)
        return tm.conj(vs) if isinstance(n.op, ast.And) else tm.disj(vs)

    CMPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "Is": "is", "IsNot": "is not",
            "In": "in", "NotIn": "not in"}

    def e_Compare(self, st, n):
        a = self.deref(st, self.eval(st, n.left))
        out = []
        for op, r in zip(n.ops, n.comparators):
            b = self.deref(st, self.eval(st, r))
            t = tm.cmp(self.CMPS[type(op).__name__], a, b)
            self.keep_rank(t, a, b)
            out.append(t)
            a = b
        return tm.conj(out) if len(out) > 1 else out[0]

    def e_IfExp(self, st, n):
        c = self.cond(st, n.test)
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)
        a, b = st.copy().guard(c), st.copy().guard(tm.neg(c))
        x, y = self.eval(a, n.body), self.eval(b, n.orelse)
        v = self.join_val(c, a, b, x, y)
        j = self.join(c, a, b, st.guards)
        st.env, st.arr = j.env, j.arr
        return v

    def e_ListComp(self, st, n):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.eval_iter(st, g.iter)
            if it[0] == "const":
                xs = []
                for v in it[1]:
                    self.assign(st, g.target, v)
                    xs.append(self.deref(st, self.eval(st, n.elt)))
                return self.new_root(st, n, "list", tm.tup(xs))
            key = self.pos(n)
            ix = mk("ix", key)
            s = st.copy()
            s.loops = st.loops + (key,)
            self.assign(s, g.target, it[2](s, ix))
            v = self.deref(s, self.eval(s, n.elt))
            return self.new_root(st, n, "list", mk("gen", ix, v, it[1]))
        # several generators or filters: the nested loops they stand for
        name = f"comp@{n.lineno}_{n.col_offset}"
        put = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "add" if isinstance(n, ast.SetComp) else "append", ast.Load()), [n.elt], []))
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                put = ast.copy_location(ast.If(c, [put], []), c)
            put = ast.For(g.target, g.iter, [put], [])
            ast.copy_location(put, g.iter)
        for x in ast.walk(put):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ref = self.new_root(st, n, "set" if isinstance(n, ast.SetComp) else "list", mk("empty"), name=name)
        st.env[(self.fid, name)] = ref
        out = self.exec(st, put)
        if out is not st:
            st.env, st.arr, st.guards = out.env, out.arr, out.guards
        return ref

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, st, n):
        return self.new_root(st, n, "dict", mk("opq", "comp", self.pos(n)))

    def index(self, st, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.index1(st, x) for x in n.elts)
        v = self.index1(st, n)
        if v[0] == "tuple":
            return (v,)
        return (v,)

    def index1(self, st, n):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.deref(st, self.eval(st, x))
            lo, hi, s = f(n.lower), f(n.upper), f(n.step)
            if lo is ZERO:
                lo = NONE
            return mk("slice", lo, hi, s)
        return self.deref(st, self.eval(st, n))

    def e_Subscript(self, st, n):
        b = self.eval(st, n.value)
        return self.item(st, b, self.index(st, n.slice), n)

    def item(self, st, b, idx, node):
        if b[0] == "tuple" and len(idx) >= 1 and tm.is_int(idx[0]) and -len(b[1]) <= idx[0][2] < len(b[1]):
            x = b[1][idx[0][2]]
            return self.item(st, x, idx[1:], node) if len(idx) > 1 else x
        if b[0] == "ref":
            r = self.roots[b[1]]
            if r.kind in ("dict", "set"):
                return self.lookup(self.deref(st, b), tm.tup(idx) if len(idx) > 1 else idx[0])
            full = self.norm_idx(self.cat_idx(b[2], idx))
            if not full:
                return b
            if r.kind == "arr" and r.rank is not None and self.plain(*full) and r.rank > len(full) and all(self.scalar(x) for x in full):
                return mk("ref", b[1], full)
            self.reads.append((r, full, st.loops, self.where(node)))
            t = self.read(st.arr.get(r, mk("base", r.name, "lost")), full)
            if r.kind == "arr" and r.rank is not None:
                self.rank.setdefault(t, max(0, r.rank - sum(1 for x in full if x[0] != "slice")))
            return t
        d = self.deref(st, b)
        if len(idx) == 1 and idx[0][0] == "elem" and idx[0][1] is d:
            return self.lookup(d, idx[0])
        if d[0] == "call" or d[0] in ("p", "head", "elem", "phi", "tuple", "attr", "mcall", "get", "opq"):
            if d[0] == "mcall":
                return self.read(d, idx)
            if d[0] == "phi" and (d[2][0] == "tuple" or d[3][0] == "tuple"):
                return tm.phi(d[1], self.item(st, d[2], idx, node), self.item(st, d[3], idx, node))
            return mk("sel", d, self.norm_idx(idx)) if self.norm_idx(idx) else d
        return self.read(d, self.norm_idx(idx))

    def lookup(self, c, k):
        if k[0] == "phi":
            return tm.phi(k[1], self.lookup(c, k[2]), self.lookup(c, k[3]))
        if c[0] in ("phi", "mix"):
            return tm.phi(c[1], self.lookup(c[2], k), self.lookup(c[3], k))
        if c[0] == "upd" and c[2] == (k,):
            return c[3]
        if c[0] == "upd" and self.apart(c[2], (k,)):
            return self.lookup(c[1], k)
        if c[0] == "dict":
            for a, v in c[1]:
                if a is k:
                    return v
        return mk("get", c, k)

    def given(self, t, guards):
        """t simplified by what the guards say."""
        for _ in range(3):
            units = {}
            for g in guards:
                for x in tm.conj_list(self.lift(tm.subst(g, {}))):
                    if x[0] == "not" and x[1][0] not in ("and", "or", "phi"):
                        units[x[1]] = FALSE
                    elif x[0] not in ("and", "or", "phi", "not"):
                        units[x] = TRUE
            t2 = tm.subst(t, units)
            if t2 is t:
                break
            t = t2
        return t

    def scalar(self, t):
        return not (self.rank.get(t) or 0) and t[0] not in ("slice", "ellipsis")

    # ------------------------------------------------------------ calls
    REDUCE = {"np.sum": "sum", "np.min": "min", "np.max": "max", "np.amin": "min", "np.amax": "max", "np.all": "all", "np.any": "any",
              "np.mean": "mean", "np.prod": "prod"}
    MUTATORS = {"append", "extend", "insert", "pop", "remove", "discard", "add", "clear", "update", "sort", "reverse", "setdefault",
                "popitem", "resize", "partition", "itemset", "put", "intersection_update", "difference_update"}

    # calls with effects on files
    EFFECTS = {"np.save", "np.savez", "np.savez_compressed", "np.savetxt", "os.makedirs", "os.mkdir", "os.remove", "os.unlink", "os.rmdir", "os.removedirs",
               "os.rename", "os.replace", "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile", "builtins.open", "json.dump", "pickle.dump"}
    FILE_METHODS = {"mkdir", "unlink", "rmdir", "touch", "rename", "write_text", "write_bytes", "tofile", "write"}

    def e_Call(self, st, n):
        if isinstance(n.func, ast.Attribute):
            b = self.eval(st, n.func.value)
            if b[0] not in ("ext", "mod"):
                return self.method(st, b, n.func.attr, n)
        f = self.eval(st, n.func)
        args, kw = self.args(st, n)
        if f[0] == "fn":
            return self.call_fn(st, self.prog.funcs[f[1]], args, kw, n)
        if f[0] == "lfn":
            node, (of, ofid) = self.local_fns[f[1]]
            from .loader import Func
            g = Func(getattr(node, "name", "<lambda>"), of.qualname + "." + getattr(node, "name", "<lambda>"), of.module, node)
            g.closure_fid = ofid
            return self.inline(st, g, args, kw, n)
        if f[0] == "ext":
            return self.ext(st, f[1], args, kw, n)
        return mk("call", tm.show(f), tuple(self.deref(st, a) for a in args), tuple(sorted((k, self.deref(st, v)) for k, v in kw.items())))

    def args(self, st, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                if v[0] == "tuple":
                    args += list(v[1])
                else:
                    args.append(mk("star", self.deref(st, v)))
            else:
                args.append(self.eval(st, a))
        return args, {k.arg: self.eval(st, k.value) for k in n.keywords if k.arg}

    def call_fn(self, st, f, args, kw, n):
        self.sites.add(self.pos(n))
        if f.qualname in self.opaque:
            a = f.node.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            ds = dict(zip(reversed(ps), reversed(a.defaults)))
            vals = dict(zip(ps, args))
            vals.update(kw)
            out = []
            for p in ps:
                if p in vals:
                    out.append(self.deref(st, vals[p]))
                elif p in ds:
                    self.stack.append((f, ("default",)))
                    out.append(self.deref(st, self.eval(st, ds[p])))
                    self.stack.pop()
                else:
                    out.append(UNDEF)
            t = mk("call", f.qualname, tuple(out), ())
            self.calls.append((f.qualname, dict(zip(ps, out)), dict(st.arr), st.guards, st.loops, self.where(n), vals))
            return t
        if len(self.stack) > 12 or any(g is f for g, _ in self.stack):
            return mk("call", f.qualname, tuple(self.deref(st, a) for a in args), tuple(sorted((k, self.deref(st, v)) for k, v in kw.items())))
        return self.inline(st, f, args, kw, n)

    def inline(self, st, f, args, kw, n):
        fid = self.pos(n)
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        vals = dict(zip(ps, args))
        for k, v in kw.items():
            vals[k] = v
        if a.vararg:
            vals[a.vararg.arg] = tm.tup(args[len(ps):])
        ds = dict(zip(reversed(ps), reversed(a.defaults)))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.seen_funcs.add(f.qualname)
        saved = {k: v for k, v in st.env.items() if k[0] == fid}
        for k in saved:
            del st.env[k]
        self.stack.append((f, fid))
        for p in ps + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []):
            if p in vals:
                st.env[(fid, p)] = vals[p]
            elif p in ds:
                st.env[(fid, p)] = self.eval(st, ds[p])
            else:
                st.env[(fid, p)] = UNDEF
        if isinstance(f.node, ast.Lambda):
            v = self.eval(st, f.node.body)
            self.stack.pop()
            return v
        g0 = st.guards
        mark = len(self.exits)
        self.targets.append([])
        s = self.exec_block(st.copy(), f.node.body)
        self.targets.pop()
        rets = [e for e in self.exits[mark:] if e[0] == "return" and e[1] == fid]
        self.exits[mark:] = [e for e in self.exits[mark:] if e not in rets]
        outs = []
        for e in rets:
            e[2].env[(fid, "__ret__")] = e[3]
            outs.append(e[2])
        if not s.dead:
            s.env[(fid, "__ret__")] = NONE
            outs.append(s)
        self.stack.pop()
        if not outs:
            st.dead = True
            return UNDEF
        m = self.merge(outs, g0)
        v = m.env.get((fid, "__ret__"), NONE)
        for k in [k for k in m.env if k[0][:len(fid)] == fid]:
            del m.env[k]
        st.env, st.arr, st.guards, st.dead = m.env, m.arr, m.guards, m.dead
        return v

    def shape_rank(self, sh):
        return len(sh[1]) if sh[0] == "tuple" else 1

    def ext(self, st, name, args, kw, n):
        mark = len(self.reads)
        d = [self.deref(st, a) for a in args]
        dk = {k: self.deref(st, v) for k, v in kw.items()}
        if name == "builtins.len" or name.endswith("_like"):
            del self.reads[mark:]
        if name in ("np.zeros", "np.ones", "np.empty", "np.full"):
            sh = d[0] if d else dk.get("shape", UNDEF)
            fill = {"np.zeros": ZERO, "np.ones": ONE, "np.empty": mk("opq", "empty")}.get(name)
            if name == "np.full":
                fill = d[1] if len(d) > 1 else dk.get("fill_value", UNDEF)
            return self.new_root(st, n, "arr", mk("fill", self.num(fill)), self.shape_rank(sh), sh)
        if name in ("np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like"):
            fill = {"np.zeros_like": ZERO, "np.ones_like": ONE, "np.empty_like": mk("opq", "empty")}.get(name) or (d[1] if len(d) > 1 else dk.get("fill_value", UNDEF))
            rk = self.rank.get(d[0])
            return self.new_root(st, n, "arr", mk("fill", self.num(fill)), rk)
        if name in ("np.copy", "np.array", "np.asarray", "np.ascontiguousarray") and args:
            if args[0][0] == "ref" and self.roots[args[0][1]].kind == "arr":
                if name in ("np.asarray", "np.ascontiguousarray"):
                    return args[0]
                return self.new_root(st, n, "arr", d[0], self.rank.get(d[0]))
            if args[0][0] == "ref" and self.roots[args[0][1]].kind == "list" and d[0][0] == "tuple":
                return self.new_root(st, n, "arr", d[0], 1 + max([self.rank.get(x) or (1 if x[0] == "tuple" else 0) for x in d[0][1]]))
            return mk("call", name, tuple(d), ())
        if name in self.REDUCE and d:
            return self.reduce(d[0], self.REDUCE[name], d[1:], dk)
        if name == "np.dot" and len(d) == 2:
            return self.dot(*d)
        if name in ("np.square",) and len(d) == 1:
            return self.keep_rank(tm.mul(d[0], d[0]), d[0])
        if name in ("np.floor", "math.floor") and len(d) == 1:
            return self.keep_rank(mk("call", "floor", (d[0],), ()), d[0])
        if name == "np.floor_divide" and len(d) == 2:
            return self.keep_rank(tm.binop("//", *d), *d)
        if name in ("np.subtract", "np.add", "np.multiply", "np.divide") and len(d) == 2 and "out" not in kw:
            o = {"np.subtract": "-", "np.add": "+", "np.multiply": "*", "np.divide": "/"}[name]
            return self.keep_rank(tm.sub(*d) if o == "-" else tm.binop(o, *d), *d)
        if name == "np.negative" and len(d) == 1:
            return self.keep_rank(tm.scale(d[0], -1), d[0])
        if name in ("builtins.int", "np.int64", "np.int32", "builtins.float", "np.float64", "np.float32", "builtins.bool", "np.bool_"):
            kind = "int" if "int" in name else "float" if "float" in name else "bool"
            if d and is_const(d[0]) and d[0][1] in ("int", "float", "bool"):
                try:
                    return const({"int": int, "float": float, "bool": bool}[kind](d[0][2]))
                except (ValueError, OverflowError, TypeError):
                    pass
            if not d:
                return const({"int": 0, "float": 0.0, "bool": False}[kind])
            if kind == "int":
                return mk("call", "int", (d[0],), ())
            return d[0]
        if name == "builtins.len" and d:
            return self.length(d[0])
        if name in ("builtins.abs", "np.abs", "np.fabs"):
            return self.keep_rank(mk("call", "abs", (d[0],), ()), d[0])
        if name in ("builtins.min", "builtins.max", "np.minimum", "np.maximum") and len(d) == 2:
            return self.keep_rank(mk("call", name.split(".")[-1][:3], tuple(sorted(d, key=tm.tkey)), ()), *d)
        if name in ("builtins.set", "builtins.list", "builtins.dict") and len(args) <= 1:
            kind = name.split(".")[1]
            return self.new_root(st, n, kind, d[0] if d else mk("empty"))
        if name == "builtins.tuple" and len(args) == 1:
            return args[0] if args[0][0] == "tuple" else d[0]
        if name == "builtins.print" or name.startswith("logging.") or name.startswith("warnings."):
            return NONE
        if name.startswith("np.random.") or name.startswith("random."):
            self.event(st, "random", None, (), mk("call", name, tuple(d), ()), n, fn=name)
            if name in ("np.random.rand", "np.random.randn") and d:
                self.rank[mk("call", name, tuple(d), ())] = len(d)
        if name in self.EFFECTS:
            self.event(st, "ext", None, (), mk("call", name, tuple(d), tuple(sorted(dk.items()))), n, fn=name)
        if name in ("np.copyto", "np.put", "np.place", "np.putmask", "np.fill_diagonal", "np.add.at", "np.subtract.at", "np.random.shuffle") and args:
            if name == "np.copyto" and args[0][0] == "ref" and len(args) == 2 and not kw:
                self.store(st, args[0], (), args[1], n)
            else:
                self.mutate(st, args[0], name, args[1:], n)
            return NONE
        if "out" in kw:
            o = kw["out"]
            v = mk("call", name, tuple(d), ())
            if o[0] == "ref":
                self.store(st, o, (), v, n)
            return o
        t = mk("call", name, tuple(d), tuple(sorted((k, v) for k, v in dk.items() if k != "dtype")))
        return self.keep_rank(t, *d)

    def num(self, v):
        """0.0 and 0 are the same fill value."""
        if is_const(v) and v[1] == "float" and isinstance(v[2], float) and v[2] == int(v[2] if abs(v[2]) < 1e15 else 0):
            return const(int(v[2]))
        return v

    def length(self, t):
        if t[0] == "gen":
            return t[3]
        if t[0] == "tuple":
            return const(len(t[1]))
        if t[0] in ("upd", "span"):
            return self.length(t[1])
        if t[0] == "mix":
            a, b = self.length(t[2]), self.length(t[3])
            return a if a is b else tm.phi(t[1], a, b)
        return tm.length(t)

    def reduce(self, x, op, args, kw):
        kw = {k: v for k, v in kw.items() if k != "dtype"}
        if args and "axis" not in kw:
            kw["axis"] = args[0]
        if kw.get("axis") is NONE or (self.rank.get(x) == 1 and kw.get("axis") is ZERO):
            kw.pop("axis", None)
        if op in ("all", "any") and not kw:
            return self.quantify(x, op)
        t = mk("mcall", x, op, (), tuple(sorted(kw.items())))
        if kw.get("axis") is not None and (self.rank.get(x) or 0) > 1:
            self.rank[t] = self.rank[x] - 1
        return t

    def quantify(self, x, op):
        """all(x < c) is max(x) < c, any(x < c) is min(x) < c, ..."""
        if x[0] == "not":
            return tm.neg(self.quantify(x[1], "any" if op == "all" else "all"))
        if x[0] == "cmp" and x[1] == "<":
            la, lb = (bool(self.rank.get(y)) or y[0] == "sel" and any(i[0] == "slice" for i in y[2])
                      for y in (x[2], x[3]))
            if la and not lb:
                return tm.cmp("<", mk("mcall", x[2], "max" if op == "all" else "min", (), ()), x[3])
            if lb and not la:
                return tm.cmp("<", x[2], mk("mcall", x[3], "min" if op == "all" else "max", (), ()))
        return mk("mcall", x, op, (), ())

    def method(self, st, b, name, n):
        args, kw = self.args(st, n)
        d = [self.deref(st, a) for a in args]
        dk = {k: self.deref(st, v) for k, v in kw.items()}
        if b[0] == "ref":
            r = self.roots[b[1]]
            if name == "fill" and r.kind == "arr":
                self.store(st, b, (), d[0], n)
                return NONE
            if name == "copy":
                c = self.deref(st, b)
                return self.new_root(st, n, r.kind, c, None if r.rank is None else r.rank - len(b[2]))
            if name in self.MUTATORS:
                return self.mutate(st, b, name, args, n)
        x = self.deref(st, b)
        if name in ("sum", "min", "max", "all", "any", "mean", "prod"):
            return self.reduce(x, name, d, dk)
        if name == "dot" and len(d) == 1:
            return self.dot(x, d[0])
        if name == "astype":
            return x
        if name in ("flatten", "ravel", "reshape", "tolist", "item"):
            return mk("mcall", x, name, tuple(d), ())
        m = self.prog.method(self.types[b], name) if b in self.types else None
        if m is not None:
            return self.call_fn(st, m, (args if m.is_static else [b] + args), kw, n)
        if b[0] == "cls":
            m = self.prog.method(self.prog.cls(b[1]), name)
            if m is not None and not m.is_classmethod:
                return self.call_fn(st, m, args, kw, n)
        t = mk("mcall", x, name, tuple(d), tuple(sorted(dk.items())))
        if name in self.FILE_METHODS:
            self.event(st, "ext", None, (), t, n, fn=name)
        return t

    def mutate(self, st, b, op, args, n):
        d = tuple(self.deref(st, a) for a in args)
        if b[0] != "ref":
            self.event(st, "mutate", None, (), tm.tup(d), n, b, fn=op)
            return mk("opq", op, self.pos(n))
        r = self.roots[b[1]]
        old = st.arr.get(r, mk("base", r.name, "lost"))
        self.event(st, "mutate", r, b[2], tm.tup(d), n, old, fn=op)
        if op == "append" and len(d) == 1 and r.kind == "list":
            if old[0] == "empty":
                st.arr[r] = tm.tup(d) if not st.loops[len(r.loops):] else mk("app", old, d[0])
            elif old[0] == "tuple":
                st.arr[r] = tm.tup(old[1] + d)
            else:
                st.arr[r] = mk("app", old, d[0])
        else:
            st.arr[r] = mk("mut", old, op, d)
        return NONE if op not in ("pop", "setdefault", "popitem") else mk("opq", op, self.pos(n))


def plain_while(n):
    """while True: if c: break; rest  ->  while not c: rest"""
    tests, body = [], list(n.body)
    if not (isinstance(n.test, ast.Constant) and n.test.value):
        return n
    while body and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
        tests.append(ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0].test))
        body = list(body[0].orelse) + body[1:]
    if not tests or not body:
        return n
    t = tests[0] if len(tests) == 1 else ast.copy_location(ast.BoolOp(ast.And(), tests), tests[0])
    return ast.copy_location(ast.While(t, body, []), n)


def repr_mod(m):
    if m[0] == "e":
        return (1, m[1][1], m[1][0])
    if m[0] == "a":
        return (2, m[1].name, m[1].key)
    return (0, m[1].name, tuple(tm.show(i) for i in m[2]))


def _dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = _dotted(e.value)
        return b and b + "." + e.attr
    return None
