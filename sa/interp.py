"""Value-provenance dataflow analysis over the resolved program.

The analysis walks each function once per context, keeps one abstract state per program point and
joins states where control flow merges (no path enumeration, no constraint solver).  Values are
provenance terms (terms.py); loops are summarised by iterating the transfer function of the body
until the set of loop-carried locations is stable and then replacing recognised recurrences
(counters, offsets, flags) by closed forms.
"""
from __future__ import annotations

import ast
from collections import namedtuple
from dataclasses import dataclass, field

from . import canon
from . import terms as tm
from . import typesys as ty
from .loader import AnalysisError, Class, Func, Program, dotted, walk_own
from .exprs import Exprs
from .frozen import Frozen
from .state import SKIP, UNDEF, Effect, Entry, State, common_prefix, join
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T, const, is_const, mk

Exit = namedtuple("Exit", "kind target guards state exc")
LoopRec = namedtuple("LoopRec", "L serial where func updates inits exits entry final")


@dataclass(eq=False)
class Frame:
    func: Func
    fid: int
    gen: T | None = None
    has_closures: bool = False


@dataclass(eq=False)
class LoopCtx:
    breaks: bool = False
    node: object = None


@dataclass(eq=False)
class TryCtx:
    names: tuple = ()


@dataclass
class ObjInfo:
    kind: str                 # list | dict | set | arr | inst | gen
    cls: Class | None
    loops: tuple              # loops open at allocation
    guards: tuple
    where: str
    init: T | None = None
    auto: object = None       # default factory term for autovivifying dicts


class Interp(Exprs, Frozen):
    MAX_STEPS = 400000

    def __init__(self, prog: Program, opaque=(), param_types=None, inline=None):
        self.prog = prog
        self.opaque_names = set(opaque)
        self.inline_pred = inline
        self.objs: dict[int, ObjInfo] = {}
        self.fns: list[tuple] = []
        self.fn_ids: dict = {}
        self.effects: list[Effect] = []
        self.exits: list[Exit] = []
        self.frames: list[Frame] = []
        self.trys: list[TryCtx] = []
        self.loop_ctxs: list[LoopCtx] = []
        self.loop_recs: dict = {}
        self.types: dict[T, object] = {}
        self.steps = 0
        self.serial = 0
        self.nobj = 0
        self.alloc_keys: dict = {}
        self.seen_funcs: set = set()
        self.call_sites = 0
        self.globals_cache: dict = {}
        self.cur_node = None
        self.unknown_log: list = []
        self.param_types = param_types or {}
        self.hooks: dict = {}
        self.nonnull: set = set()
        self.sepfree: set = set()
        self.clo_of: dict = {}
        self.item_types: dict = {}
        self.ptype_name: dict = {}
        self.len_reg: dict = {}       # length of a built list -> the list
        self.parallel: dict = {}      # array -> array with the same number of rows
        self.width: dict = {}         # array -> number of columns
        self._discover_containers()

    # ------------------------------------------------------------------ entry points
    def start(self):
        st = State()
        st.fid = 0
        st.envs[0] = {}
        self.push_frame(Func("<root>", "<root>", next(iter(self.prog.modules.values())),
                             ast.parse("def f(): pass").body[0]), 0)
        return st

    def param(self, name, typ=None):
        p = mk("p", name)
        if typ is not None:
            self.set_type(p, typ)
        return p

    def obj_param(self, name, cls):
        p = mk("p", name)
        self.set_type(p, ("cls", cls))
        self.nonnull.add(p)
        return p

    def run(self, st, f: Func, args=(), kw=None, selfv=None):
        """Analyses f called with the given argument terms in state st (updated in place)."""
        return self.call_func(st, f, list(args), dict(kw or {}), selfv)

    def run_sym(self, f: Func, **over):
        """Analyses f with symbolic parameters; returns (state, value)."""
        st = self.start()
        args = {}
        a = f.node.args
        for i, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if p.arg in over:
                args[p.arg] = over[p.arg]
                continue
            t = mk("p", p.arg)
            if i == 0 and f.cls is not None and not f.is_static:
                self.set_type(t, ("cls", f.cls))
                self.nonnull.add(t)
            else:
                pt = ty.parse(self.prog, f.module, p.annotation, f.cls)
                self.set_type(t, pt)
                if p.annotation is not None and "None" not in ast.unparse(p.annotation):
                    self.nonnull.add(t)
            args[p.arg] = t
        selfv = None
        names = [p.arg for p in a.posonlyargs + a.args]
        if f.cls is not None and not f.is_static and names:
            selfv = args.pop(names[0])
        v = self.call_func(st, f, [], args, selfv)
        return st, v

    # ------------------------------------------------------------------ domain facts
    def _discover_containers(self):
        """Container classes: which attribute holds the children, which holds the parent."""
        self.child_attr: dict[str, str] = {}
        self.parent_attr: dict[str, str] = {}
        for c in self.prog.classes.values():
            for prop, table in (("children", self.child_attr), ("parent", self.parent_attr)):
                f = c.methods.get(prop)
                if f is None or not f.is_property:
                    continue
                for n in walk_own(f.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) \
                            and isinstance(n.value.value, ast.Name):
                        table[c.name] = n.value.attr
        for k, v in (("Building", "zones"), ("Zone", "solids"), ("Solid", "walls"), ("Wall", "polygons")):
            self.child_attr.setdefault(k, v)
        for k in ("Zone", "Solid", "Wall", "Polygon"):
            self.parent_attr.setdefault(k, "_parent")
        self.parent_names = set(self.parent_attr.values())

    def is_child_map(self, t):
        if t[0] != "attr":
            return False
        tt = self.type_of(t[1])
        return bool(tt and tt[0] == "cls" and self.child_attr.get(tt[1].name) == t[2])

    def owner_of(self, t):
        """The container owning element t, when t is drawn from a child map."""
        if t[0] == "elem":
            coll = t[1][1]
        elif t[0] == "item":
            coll = t[1]
        else:
            return None
        if coll[0] in ("vals",):
            coll = coll[1]
        if self.is_child_map(coll):
            return coll[1]
        return None

    # ------------------------------------------------------------------ types
    PARENT_CLS = {"Polygon": "Wall", "Wall": "Solid", "Solid": "Zone", "Zone": "Building"}

    def class_named(self, name):
        for c in self.prog.classes.values():
            if c.name == name and c.module.name.startswith("building3d.geom"):
                return c
        for c in self.prog.classes.values():
            if c.name == name:
                return c
        return None

    def set_type(self, t, typ):
        if typ is not None:
            self.types.setdefault(t, typ)

    def type_of(self, t):
        r = self.types.get(t, 0)
        if r != 0:
            return r
        r = self._type_of(t)
        if r is not None:
            self.types[t] = r
        return r

    def _type_of(self, t):
        k = t[0]
        if k == "c":
            return {"str": ty.STR, "int": ty.INT, "float": ty.FLOAT, "bool": ty.BOOL}.get(t[1])
        if k in ("cat", "str"):
            return ty.STR
        if k in ("cmp", "not", "and", "or"):
            return ty.BOOL
        if k == "len" or k == "idx":
            return ty.INT
        if k == "J":
            return ("dict", None, None)
        if k == "obj":
            o = self.objs.get(t[1])
            if o is None:
                return None
            if o.kind == "inst":
                return ("cls", o.cls)
            if o.kind == "dict":
                return ("dict", None, None)
            if o.kind == "arr":
                return ty.ARR
            return (o.kind if o.kind != "gen" else "list", None)
        if k == "attr":
            bt = self.type_of(t[1])
            if bt and bt[0] == "cls":
                c = bt[1]
                if t[2] in self.parent_names and c.name in self.PARENT_CLS:
                    pc = self.class_named(self.PARENT_CLS[c.name])
                    return ("cls", pc) if pc else None
                ann = self.prog.attr_annotation(c, t[2])
                if ann:
                    return ty.parse(self.prog, ann[1], ann[0], c)
                if t[2] in ("name", "uid", "path"):
                    return ty.STR
            if t[2] in ("T",):
                return bt
            return None
        if k == "elem":
            ct = self.type_of(t[1][1])
            if t[1][1][0] in ("range",):
                return ty.INT
            if t[1][1][0] == "vals":
                ct = self.type_of(t[1][1][1])
            if t[1][1][0] == "keys":
                ct = self.type_of(t[1][1][1])
                return ct[1] if ct and ct[0] == "dict" else None
            return self.elem_type(ct)
        if k == "key":
            ct = self.type_of(t[1][1])
            return ct[1] if ct and ct[0] == "dict" else None
        if k == "item":
            bt = self.type_of(t[1])
            if bt and bt[0] == "tuple" and bt[1] and tm.is_int(t[2]) and -len(bt[1]) <= t[2][2] < len(bt[1]):
                return bt[1][t[2][2]]
            return self.elem_type(bt)
        if k == "slice":
            return self.type_of(t[1])
        if k == "phi":
            a, b = self.type_of(t[2]), self.type_of(t[3])
            return a if b is None or a == b else (b if a is None else None)
        if k == "sum":
            ts = [self.type_of(x) for x, _ in t[1]]
            if ty.ARR in ts:
                return ty.ARR
            if all(x == ty.INT for x in ts):
                return ty.INT
            return None
        if k == "mul":
            ts = [self.type_of(x) for x in t[1]]
            if ty.ARR in ts:
                return ty.ARR
            return None
        if k == "op":
            a, b = self.type_of(t[2]), self.type_of(t[3])
            return ty.ARR if ty.ARR in (a, b) else a
        if k == "psum" or (k == "red" and t[1] == "sum"):
            return ty.INT
        if k == "vals":
            ct = self.type_of(t[1])
            return ("list", ct[2] if ct and ct[0] == "dict" else None)
        if k == "keys":
            ct = self.type_of(t[1])
            return ("list", ct[1] if ct and ct[0] == "dict" else None)
        if k == "items":
            return ("list", None)
        if k in ("rev", "listof", "sorted"):
            ct = self.type_of(t[1])
            return ("list", self.elem_type(ct) if ct and ct[0] != "dict" else None)
        if k == "red" and t[1] in ("list", "flat"):
            L = tm.loop_id(t[2], 97)
            b = tm.instantiate(t[3], *self.loop_terms(L), loop=L)
            if b[0] == "phi" and b[3] is SKIP:
                b = b[2]
            bt = self.type_of(b)
            return ("list", bt) if t[1] == "list" else bt
        if k == "last":
            return self.type_of(t[4])
        if k == "tuple":
            return ("tuple", tuple(self.type_of(x) for x in t[1]))
        if k == "call":
            return self.call_type(t)
        if k == "mcall":
            return self.mcall_type(t)
        if k == "opq" and len(t) > 2:
            return None
        return None

    def elem_type(self, ct):
        if not ct:
            return None
        if ct[0] == "dict":
            return ct[2]
        if ct[0] in ("list", "set"):
            return ct[1]
        if ct[0] == "str":
            return ty.STR
        if ct[0] == "tuple" and ct[1] and len(set(ct[1])) == 1:
            return ct[1][0]
        return None

    # ------------------------------------------------------------------ helpers
    def where(self, node=None):
        f = self.frames[-1].func if self.frames else None
        n = node if node is not None else self.cur_node
        if f is None:
            return "?"
        return f.where(n)

    def fname(self):
        return self.frames[-1].func.qualname if self.frames else "?"

    def stack(self):
        return tuple(fr.func.qualname for fr in self.frames)

    def effect(self, st, kind, *args):
        e = Effect(kind, args, st.loops, st.guards, self.where(), self.fname())
        self.effects.append(e)
        return e

    def unknown(self, st, what):
        self.unknown_log.append((what, self.where()))
        return mk("opq", what)

    def new_serial(self):
        self.serial += 1
        return self.serial

    def alloc(self, st, kind, cls=None, init=None, auto=None):
        """Allocates an object; identity is stable per allocation site and call context."""
        key = (kind, id(self.cur_node), tuple(fr.fid_key for fr in self.frames) if False else None, self.new_serial())
        self.nobj += 1
        oid = self.nobj
        self.objs[oid] = ObjInfo(kind, cls, st.loops, st.guards, self.where(), init, auto)
        o = mk("obj", oid, tuple(l for l, _ in st.loops))
        if kind in ("list", "dict", "set"):
            st.mem[mk("len", o)] = ZERO
        st.ents[self.base_key(o)] = ()
        return o

    def info(self, o) -> ObjInfo | None:
        return self.objs.get(o[1]) if o[0] == "obj" else None

    def default_mem(self, loc):
        if loc[0] == "attr" and loc[1][0] == "obj":
            return UNDEF
        if loc[0] == "contents":
            return mk("ver", 0)
        return loc

    def join(self, c, a, b):
        return join(c, a, b, self.default_mem)

    def implied(self, st, g):
        """Residual of condition g given the facts of st."""
        if g is TRUE or g is FALSE:
            return g
        facts = set(st.facts())
        lits = [x for x in tm.conj_list(g) if x not in facts]
        for x in lits:
            if tm.neg_raw(x) in facts:
                return FALSE
        return tm.conj(lits)

    def fold(self, st, c):
        """Simplifies a boolean using the facts of st."""
        if is_const(c):
            return c
        facts = set(st.facts())
        if c in facts:
            return TRUE
        if tm.neg_raw(c) in facts:
            return FALSE
        if c[0] == "and":
            return tm.conj([self.fold(st, x) for x in c[1]])
        if c[0] == "or":
            return tm.disj([self.fold(st, x) for x in c[1]])
        if c[0] == "not":
            return tm.neg(self.fold(st, c[1]))
        return c

    # ------------------------------------------------------------------ statements
    def exec_block(self, st, body):
        for stmt in body:
            if st.dead:
                break
            st = self.exec(st, stmt)
        return st

    def tick(self, node):
        self.steps += 1
        self.cur_node = node
        if self.steps > self.MAX_STEPS:
            raise AnalysisError(f"analysis budget exceeded at {self.where(node)}")

    def exec(self, st, n):
        self.tick(n)
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            self.unknown(st, f"statement {type(n).__name__}")
            return st
        return m(st, n)

    def x_Pass(self, st, n):
        return st

    x_Global = x_Nonlocal = x_Pass

    def x_Import(self, st, n):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = mk("ext", a.name if a.asname else a.name.split(".")[0])
        return st

    def x_ImportFrom(self, st, n):
        m = self.frames[-1].func.module
        base = self.prog._resolve_from(m, n)
        for a in n.names:
            r = self.prog.lookup_in(base, a.name)
            st.env[a.asname or a.name] = self.entity(st, r, a.name)
        return st

    def x_Expr(self, st, n):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(st, n.value)
        return st

    def x_Assign(self, st, n):
        v = self.eval(st, n.value)
        if st.dead:
            return st
        for t in n.targets:
            self.assign(st, t, v)
        return st

    def x_AnnAssign(self, st, n):
        if n.value is not None:
            v = self.eval(st, n.value)
            if st.dead:
                return st
            if v[0] not in ("c", "obj"):
                f = self.frames[-1].func
                t = ty.parse(self.prog, f.module, n.annotation, f.cls)
                if t is not None and self.type_of(v) is None:
                    self.set_type(v, t)
            self.assign(st, n.target, v)
        return st

    def x_AugAssign(self, st, n):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(st, ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.eval(st, n.value)
            new = self.aug(st, n.op, cur, v)
            if new is not cur:
                self.assign(st, t, new)
            return st
        if isinstance(t, ast.Attribute):
            b = self.eval(st, t.value)
            cur = self.read_attr(st, b, t.attr)
            v = self.eval(st, n.value)
            new = self.aug(st, n.op, cur, v)
            self.write_attr(st, b, t.attr, new)
            return st
        if isinstance(t, ast.Subscript):
            b = self.eval(st, t.value)
            i = self.eval_index(st, t.slice)
            cur = self.read_item(st, b, i)
            v = self.eval(st, n.value)
            new = self.aug(st, n.op, cur, v)
            self.write_item(st, b, i, new)
            return st
        return st

    def aug(self, st, op, cur, v):
        inf = self.info(cur)
        if inf is not None and inf.kind == "list" and isinstance(op, ast.Add):
            self.list_extend(st, cur, v)
            return cur
        if inf is not None and inf.kind in ("set", "dict") and isinstance(op, ast.BitOr):
            self.method(st, cur, "update", [v], {})
            return cur
        if self.is_array(cur) and (inf is None or inf.kind == "arr"):
            # in-place numpy arithmetic: the array object itself changes
            self.effect(st, "inplace", cur, type(op).__name__, self.val(st, v))
        return self.binop(st, op, cur, v)

    def is_array(self, t):
        inf = self.info(t)
        return (inf is not None and inf.kind == "arr") or self.type_of(t) == ty.ARR

    def x_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(st, t.value)
                i = self.eval_index(st, t.slice)
                self.del_item(st, b, i)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(st, t.value)
                self.effect(st, "delattr", b, t.attr)
        return st

    def x_FunctionDef(self, st, n):
        fr = self.frames[-1]
        f = Func(n.name, f"{fr.func.qualname}.<{n.name}>", fr.func.module, n, None,
                 [dotted(d) or "" for d in n.decorator_list], fr.func)
        fr.has_closures = True
        st.env[n.name] = self.fn_term(f, fr.fid)
        return st

    def fn_term(self, f, clo=None):
        key = (id(f.node), clo)
        i = self.fn_ids.get(key)
        if i is None:
            i = len(self.fns)
            self.fn_ids[key] = i
            self.fns.append((f, clo))
        return mk("fn", i)

    def x_ClassDef(self, st, n):
        return st

    def x_Return(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        if st.dead:
            return st
        fr = self.frames[-1]
        if fr.gen is not None:
            v = fr.gen
        st.env["__ret__"] = v
        self.exits.append(Exit("return", fr, st.guards, st, None))
        s = st.copy()
        s.dead = "return"
        return s

    def x_Raise(self, st, n):
        name = "?"
        msg = None
        if n.exc is not None:
            e = n.exc
            name = (dotted(e) or "?").split(".")[-1]
        self.effect(st, "raise", name)
        return self.do_raise(st, name)

    def do_raise(self, st, name):
        for tc in reversed(self.trys):
            if any(self.exc_matches(name, h) for h in tc.names):
                self.exits.append(Exit("raise", tc, st.guards, st.copy(), name))
                break
        s = st.copy()
        s.dead = "raise"
        return s

    EXC_PARENTS = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "FileNotFoundError": ("OSError",),
                   "FileExistsError": ("OSError",), "UnicodeDecodeError": ("ValueError",),
                   "JSONDecodeError": ("ValueError",), "LinAlgError": ("ValueError",),
                   "ZeroDivisionError": ("ArithmeticError",), "NotImplementedError": ("RuntimeError",)}

    def exc_matches(self, name, handler):
        if handler in ("Exception", "BaseException", "*") or name == handler:
            return True
        if handler in self.EXC_PARENTS.get(name, ()):
            return True
        c = self.class_named(name)
        h = self.class_named(handler)
        if c is not None and h is not None:
            return self.prog.is_subclass(c, h)
        if c is not None:
            return any(handler in k.bases for k in self.prog.mro(c))
        return False

    def x_Assert(self, st, n):
        c = self.cond(st, n.test)
        if st.dead:
            return st
        self.effect(st, "assert", c)
        if c is FALSE:
            return self.do_raise(st, "AssertionError")
        st.guard(c, "check")
        return st

    def x_If(self, st, n):
        c = self.cond(st, n.test)
        if st.dead:
            return st
        if c is TRUE:
            return self.exec_block(st, n.body)
        if c is FALSE:
            return self.exec_block(st, n.orelse)
        return self.branch(st, c, lambda s: self.exec_block(s, n.body), lambda s: self.exec_block(s, n.orelse))

    def branch(self, st, c, fa, fb):
        a = st.copy().guard(c)
        b = st.copy().guard(tm.neg(c))
        m0, x0 = len(self.effects), len(self.exits)
        a = fa(a)
        m1, x1 = len(self.effects), len(self.exits)
        b = fb(b)
        if a.dead and b.dead:
            if a.dead == "raise" and b.dead != "raise":
                if x0 == x1:
                    self._survivors(st, tm.neg(c), m1, len(self.effects), x1)
                return b
            if b.dead == "raise" and a.dead != "raise" and len(self.exits) == x1:
                self._survivors(st, c, m0, m1, x0)
            return a
        if a.dead:
            return self._survivor(st, b, tm.neg(c), a.dead, m1, len(self.effects))
        if b.dead:
            return self._survivor(st, a, c, b.dead, m0, m1)
        return self.join(c, a, b)

    def _survivor(self, entry, s, c, reason, lo, hi):
        """The other side always raises: what happened on this side is not conditional, c is a check."""
        if reason == "raise":
            n = len(entry.guards)
            lits = set(tm.conj_list(c)) - {g for g, _ in entry.guards}

            def checks(gs):
                return gs[:n] + tuple((g, "check") if g in lits else (g, k) for g, k in gs[n:])
            s.guards = checks(s.guards)
            for e in self.effects[lo:hi]:
                e.guards = checks(e.guards)
            for o, log in s.ents.items():
                old = entry.ents.get(o, ())
                k = len(old)
                if len(log) > k and log[:k] == old:
                    s.ents[o] = old + tuple(
                        x.with_guard(tm.conj([y for y in tm.conj_list(x.guard) if y not in lits])) for x in log[k:])
        return s

    def _survivors(self, entry, c, lo, hi, mark):
        """The same for the ways out taken on this side."""
        for i in range(mark, len(self.exits)):
            e = self.exits[i]
            self._survivor(entry, e.state, c, "raise", lo, hi)
            self.exits[i] = e._replace(guards=e.state.guards)

    def x_With(self, st, n):
        for it in n.items:
            v = self.eval(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        return self.exec_block(st, n.body)

    def x_Try(self, st, n):
        names = []
        for h in n.handlers:
            names.append(self.handler_names(h))
        tc = TryCtx(tuple(x for ns in names for x in ns))
        entry = st.copy()
        mark = len(self.exits)
        self.trys.append(tc)
        s = self.exec_block(st, n.body)
        self.trys.pop()
        raised = [e for e in self.exits[mark:] if e.kind == "raise" and e.target is tc]
        self.exits[mark:] = [e for e in self.exits[mark:] if not (e.kind == "raise" and e.target is tc)]
        if not s.dead and n.orelse:
            s = self.exec_block(s, n.orelse)
        outs = []
        for h, hn in zip(n.handlers, names):
            self.tick(h)
            ex = [e for e in raised if any(self.exc_matches(e.exc, x) for x in hn)]
            self.effect(entry, "handler", tuple(hn), h)
            for e in ex:
                hs = e.state.copy()
                hs.dead = None
                if h.name:
                    hs.env[h.name] = mk("opq", "exception")
                outs.append((None, self.exec_block(hs, h.body)))
            hs = entry.copy()
            g = mk("exc", self.new_serial(), ",".join(hn), h.lineno)
            hs.guard(g)
            self.havoc_assigned(hs, n.body)
            if h.name:
                hs.env[h.name] = mk("opq", "exception")
            outs.append((g, self.exec_block(hs, h.body)))
        for g, o in outs:
            if o.dead:
                continue
            if s.dead:
                s = o
                continue
            k = common_prefix(o.guards, entry.guards)
            c = g if g is not None else tm.conj([x for x, kd in o.guards[len(entry.guards):] if kd == "branch"])
            if c is TRUE:
                c = mk("exc", self.new_serial(), "?", 0)
            s = self.join(c, o, s)
        if n.finalbody:
            dead = s.dead
            s.dead = None
            s = self.exec_block(s, n.finalbody)
            s.dead = s.dead or dead
        return s

    def havoc_assigned(self, st, body):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in st.env:
                    st.env[x.id] = mk("opq", f"{x.id} in handler")

    def handler_names(self, h):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [(dotted(t) or "?").split(".")[-1] for t in ts]

    # ------------------------------------------------------------------ loops
    def x_Break(self, st, n):
        return self.loop_exit(st, "break")

    def x_Continue(self, st, n):
        return self.loop_exit(st, "continue")

    def loop_exit(self, st, kind):
        ctx = self.loop_ctxs[-1]
        self.exits.append(Exit(kind, ctx, st.guards, st, None))
        s = st.copy()
        s.dead = kind
        return s

    def x_For(self, st, n):
        it = self.eval(st, n.iter)
        if st.dead:
            return st
        ctx = LoopCtx(node=n)

        def body(s, elem, key, idx):
            self.tick(n)
            mark = len(self.exits)
            g0 = s.guards
            self.loop_ctxs.append(ctx)
            self.assign(s, n.target, elem)
            s = self.exec_block(s, n.body)
            self.loop_ctxs.pop()
            return self.merge(s, "continue", ctx, mark, g0)
        mark = len(self.exits)
        g0 = st.guards
        s = self.iterate(st, it, body, n)
        if n.orelse and not s.dead:
            s = self.exec_block(s, n.orelse)
        return self.merge(s, "break", ctx, mark, g0)

    def merge(self, s, kind, target, mark, g0):
        """Folds the exits of the given kind back into the fall-through state."""
        mine = [e for e in self.exits[mark:] if e.kind == kind and e.target is target]
        if not mine:
            return s
        self.exits[mark:] = [e for e in self.exits[mark:] if not (e.kind == kind and e.target is target)]
        states = [(e.guards, e.state) for e in mine]
        if not s.dead:
            states.append((s.guards, s))
        g, acc = states[-1]
        acc = acc.copy()
        acc.dead = None
        for g, r in reversed(states[:-1]):
            r = r.copy()
            r.dead = None
            c = tm.conj([x for x, k in g[len(g0):] if k != "check"])
            if c is TRUE:
                c = tm.conj([x for x, k in g[len(g0):]])
            if c is TRUE:
                acc = r
                continue
            acc = self.join(c, r, acc)
        return acc

    def x_While(self, st, n):
        # bounded unrolling while the condition is decided by the abstract state
        for _ in range(70):
            probe = st.copy()
            c = self.cond(probe, n.test)
            if probe.dead:
                return probe
            if c is FALSE:
                return self.exec_block(probe, n.orelse) if n.orelse else probe
            if c is not TRUE or self._has(n.body, (ast.Break,)):
                break
            ctx = LoopCtx(node=n)
            mark = len(self.exits)
            self.loop_ctxs.append(ctx)
            s = self.exec_block(probe, n.body)
            self.loop_ctxs.pop()
            st = self.merge(s, "continue", ctx, mark, probe.guards)
            if st.dead:
                return st
        ctx = LoopCtx(node=n)
        coll = mk("while", n.lineno, n.col_offset, self.frames[-1].func.qualname)
        L = self.open_id(st, coll)
        seen_test = []

        def body(s, tested=True):
            mark = len(self.exits)
            if tested:
                c = self.cond(s, n.test)
                seen_test.append(c)
                if c is not TRUE:
                    b = s.copy().guard(tm.neg(c), "loop")
                    self.exits.append(Exit("wexit", ctx, b.guards, b, None))
                    s.guard(c, "loop")
            g0 = s.guards
            self.loop_ctxs.append(ctx)
            s = self.exec_block(s, n.body)
            self.loop_ctxs.pop()
            return self.merge(s, "continue", ctx, mark, g0)
        mark = len(self.exits)
        marks = (len(self.effects), len(self.unknown_log))
        g0 = st.guards
        entry = st.copy()
        s = self.run_loop(st, L, body, n, is_while=True)
        cnt = self.counter_while(self.last_rec, seen_test[-1]) if seen_test else None
        if cnt is not None and not n.orelse:
            # the condition counts a variable up to a fixed bound: same as a range loop
            del self.exits[mark:]
            del self.effects[marks[0]:]
            del self.unknown_log[marks[1]:]
            L = self.open_id(entry, self.count_coll(cnt))
            s = self.run_loop(entry, L, lambda x: body(x, False), n)
            return self.merge(s, "break", ctx, mark, g0)
        # a while loop ends through its condition or a break: both are exits of the body
        self.exits[mark:] = [e for e in self.exits[mark:] if e.target is not ctx]
        return s

    def counter_while(self, rec, test):
        """Number of rounds of a loop 'while v < bound' whose body always adds one to v."""
        neg = False
        if test[0] == "not":
            test, neg = test[1], True
        if test[0] != "cmp" or rec.final.dead:
            return None
        op, a, b = test[1], test[2], test[3]
        for c in rec.updates:
            lv = self.lv(rec.serial, c[2] if c[0] == "e" else c[1])
            if c[0] != "e" or rec.updates[c] is None:
                continue
            if self._delta(rec.updates[c], lv) is not ONE:
                continue
            init = rec.inits[c]
            if op == "<" and not neg:
                d = tm.sub(a, lv)
                if not self._uses_serial(d, rec.serial) and not self._uses_serial(b, rec.serial):
                    return tm.sub(tm.sub(b, d), init)
            if op == "<" and neg:          # not (b' < v)  ->  v <= bound
                d = tm.sub(b, lv)
                if not self._uses_serial(d, rec.serial) and not self._uses_serial(a, rec.serial):
                    return tm.add(tm.sub(tm.sub(a, d), init), ONE)
            if op == "==" and neg:
                for x, y in ((a, b), (b, a)):
                    d = tm.sub(x, lv)
                    if not self._uses_serial(d, rec.serial) and not self._uses_serial(y, rec.serial):
                        return tm.sub(tm.sub(y, d), init)
        return None

    def _has(self, body, kinds):
        stack = list(body)
        while stack:
            x = stack.pop()
            if isinstance(x, kinds):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.For, ast.While)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def open_id(self, st, coll):
        k = sum(1 for l, _ in st.loops if l[1] is coll)
        return tm.loop_id(coll, k)

    def lv(self, serial, c):
        return mk("lv", serial, c)

    def run_loop(self, st, L, body, node=None, is_while=False):
        """Summarises a loop with identity L; body(state) -> state after one round."""
        serial = self.new_serial()
        entry = st
        marks = (len(self.exits), len(self.effects), len(self.unknown_log))
        cands: dict = {}          # ('e', fid, name) | ('m', loc) -> lv term
        closed: dict = {}
        post: dict = {}
        s = None
        for it in range(12):
            del self.exits[marks[0]:]
            del self.effects[marks[1]:]
            del self.unknown_log[marks[2]:]
            s = entry.copy()
            s.loops = s.loops + ((L, serial),)
            for c, lv in cands.items():
                self._set(s, c, closed.get(c, lv))
            start = s.copy()
            s = body(s)
            final = self._loop_final(s, marks[0], serial)
            changed = self._diff(start, final, L, serial) - set(cands)
            if changed:
                for c in changed:
                    lv = self.lv(serial, c[2] if c[0] == "e" else c[1])
                    if c[0] == "e" and any(o is not c and o[0] == "e" and o[2] == c[2] for o in list(cands) + list(changed)):
                        lv = self.lv(serial, mk("n", c[1], c[2]))
                    init = self._get(entry, c)
                    self.set_type(lv, self.type_of(init) if init is not UNDEF else None)
                    cands[c] = lv
                closed = {}
                post = {}
                continue
            new = False
            if not is_while:
                for c, lv in cands.items():
                    if c in closed:
                        continue
                    r = self._closed(entry, final, c, lv, L, serial, cands, closed)
                    if r is not None:
                        closed[c], post[c] = r
                        new = new or closed[c] is not lv
            if not new:
                break
        else:
            raise AnalysisError(f"loop does not stabilise at {self.where(node)}")
        return self._close_loop(entry, s, L, serial, cands, closed, post, marks, node)

    def _loop_final(self, s, mark, serial):
        """State at the end of a round on the paths that continue looping."""
        return s

    def _get(self, st, c):
        if c[0] == "e":
            return st.envs.get(c[1], {}).get(c[2], UNDEF)
        v = st.mem.get(c[1])
        return self.default_mem(c[1]) if v is None else v

    def _set(self, st, c, v):
        if c[0] == "e":
            if c[1] in st.envs:
                st.envs[c[1]][c[2]] = v
        else:
            st.mem[c[1]] = v

    def _diff(self, a, b, L, serial):
        out = set()
        if b.dead:
            return out
        for fid, env in b.envs.items():
            ea = a.envs.get(fid)
            if ea is None:
                continue
            for n, v in env.items():
                if n.startswith("__") and n != "__ret__":
                    continue
                if n == "__ret__":
                    continue
                if ea.get(n, UNDEF) is not v and n in ea:
                    out.add(("e", fid, n))
        for loc, v in b.mem.items():
            if tm.uses_loop(loc, L) or tm.contains(loc, lambda x: x[0] == "ver" and type(x[1]) is int and x[1] > serial):
                continue                  # known only within this round
            va = a.mem.get(loc)
            if va is None:
                va = self.default_mem(loc)
            if va is not v and va is not UNDEF:
                out.add(("m", loc))
        return out

    def _uses_serial(self, t, serial):
        return tm.contains(t, lambda x: x[0] == "lv" and x[1] == serial)

    def _delta(self, v, lv):
        """v as lv + delta through conditionals, or None."""
        if v is lv:
            return ZERO
        if v[0] == "phi":
            a, b = self._delta(v[2], lv), self._delta(v[3], lv)
            if a is None or b is None or tm.contains(v[1], lambda x: x is lv):
                return None
            return tm.phi(v[1], a, b)
        if v[0] == "sum":
            k = dict(v[1]).get(lv)
            if k == 1 and type(k) is int:
                d = tm.sub(v, lv)
                if not tm.contains(d, lambda x: x is lv):
                    return d
            mine = [x for x, _ in v[1] if tm.contains(x, lambda y: y is lv)]
            if k is None and len(mine) == 1 and mine[0][0] == "phi" and dict(v[1])[mine[0]] == 1:
                d = self._delta(mine[0], lv)
                return None if d is None else tm.add(d, tm.sub(v, mine[0]))
        return None

    def _closed(self, entry, s, c, lv, L, serial, cands, closed):
        if s.dead:
            return None
        init = self._get(entry, c)
        v = self._get(s, c)
        if c[0] == "m" and c[1][0] == "contents":
            return None
        if init in (TRUE, FALSE) and tm.is_boolish(v) and self._unchanged(entry, s, v, lv, init):
            return init, init
        d = self._delta(v, lv)
        if d is not None:
            if d is ZERO:
                return init, init
            if self._uses_serial(d, serial):
                d = self._filled(entry, [s], d, L, serial)
                if self._uses_serial(d, serial):
                    return None
                return lv, tm.add(init, tm.red("sum", L[1], tm.abstract(d, L)))
            ab = tm.abstract(d, L)
            return tm.add(init, tm.psum(L, ab)), tm.add(init, tm.red("sum", L[1], ab))
        if v[0] == "or" and lv in v[1]:
            rest = tm.disj([x for x in v[1] if x is not lv])
            if not self._uses_serial(rest, serial) and tm.is_boolish(init):
                return lv, tm.disj([init, tm.red("any", L[1], tm.abstract(rest, L))])
        if v[0] == "and" and lv in v[1]:
            rest = tm.conj([x for x in v[1] if x is not lv])
            if not self._uses_serial(rest, serial) and tm.is_boolish(init):
                return lv, tm.conj([init, tm.red("all", L[1], tm.abstract(rest, L))])
        if v[0] == "cat" and v[1][0] is lv:
            rest = tm.cat(list(v[1][1:]))
            if not self._uses_serial(rest, serial):
                return lv, tm.cat([init, mk("red", "cat", L[1], tm.abstract(rest, L))])
        if v[0] == "elem" and v[1] is L and init[0] == "item" and init[1] is L[1] and init[2] is const(-1):
            return mk("item", L[1], tm.sub(mk("idx", L), ONE)), mk("item", L[1], const(-1))   # the element before, the last one at first
        if v[0] == "elem" and v[1] is L and not self._uses_serial(init, serial):
            first, end = tm.cmp("==", mk("idx", L), tm.ZERO), mk("item", L[1], const(-1))
            return tm.phi(first, init, mk("item", L[1], tm.sub(mk("idx", L), ONE))), tm.phi(tm.cmp("<", tm.ZERO, tm.length(L[1])), end, init)
        last = self._last(v, lv)
        if last is not None and not self._uses_serial(last[0], serial) and not self._uses_serial(last[1], serial):
            g, x = last
            r = mk("last", L[1], tm.abstract(g, L), tm.abstract(x, L), init)
            self.set_type(r, self.type_of(x))
            if g is TRUE and tm.is_num(init) and self.type_of(x) == ("int",) and not tm.contains(x, lambda y: y[0] in ("elem", "key", "idx") and y[1] is L):
                return tm.phi(tm.cmp("==", mk("idx", L), tm.ZERO), init, x), r   # the same from the second round on
            return lv, r
        return None

    def _filled(self, entry, states, t, L, serial):
        """t with the contents of containers that this loop alone fills described by what it puts in them."""
        found = {}
        tm.contains(t, lambda x: found.setdefault(x, None) and False if x[0] == "flux" and x[2][0] == "lv" and x[2][1] == serial else False)
        for x in found:
            o = x[1]
            if o[0] != "obj" or entry.ents.get(o) or self._get(entry, ("m", mk("len", o))) is not ZERO:
                continue
            logs = {id(e): e for s in states for e in s.ents.get(o, ())}
            if not logs or any(e.kind not in ("add", "app") for e in logs.values()):
                continue
            parts = []
            for e in logs.values():
                g = tm.subst(e.guard, {x: mk("itself")})
                before = {y for y, _ in entry.guards}
                g = tm.conj([y for y in tm.conj_list(g) if y[0] != "prefix" and y not in before])
                parts.append(mk("put", tuple(l[1] for l, _ in e.loops), g, e.val, any(y[0] == "prefix" for y in tm.conj_list(e.guard))))
            if any(self._uses_serial(y, serial) for y in parts):
                continue
            found[x] = mk("filled", *sorted(parts, key=repr))
        return tm.subst(t, {x: v for x, v in found.items() if v is not None})

    def _settled(self, g, v):
        """Boolean v where condition g holds."""
        if v[0] in ("or", "and", "not", "red", "cmp") and tm.is_boolish(v):
            try:
                r = canon.Canon([g]).bool(v)
            except canon.TooBig:
                return v
            if r in (TRUE, FALSE):
                return r
        return v

    def _unchanged(self, entry, s, v, lv, init):
        """A flag that has its initial value whenever a round completes."""
        try:
            facts = [tm.subst(g, {lv: init}) for g, _ in s.guards[len(entry.guards):]]
            return canon.Canon(facts).bool(tm.subst(v, {lv: init})) is init
        except canon.TooBig:
            return False

    def _last(self, v, lv):
        """(condition under which a round assigns a new value, that value)."""
        if v is lv:
            return FALSE, None
        if v[0] == "phi":
            a, b = self._last(v[2], lv), self._last(v[3], lv)
            if a is None or b is None:
                return None
            if a[1] is None:
                return tm.conj([tm.neg(v[1]), b[0]]), b[1]
            if b[1] is None:
                return tm.conj([v[1], a[0]]), a[1]
            return tm.disj([tm.conj([v[1], a[0]]), tm.conj([tm.neg(v[1]), b[0]])]), tm.phi(v[1], a[1], b[1])
        if v[0] == "last":
            a = self._last(v[4], lv)
            if a is None or a[1] is not None or any(tm.contains(x, lambda y: y is lv) for x in v[1:4]):
                return None
            return tm.red("any", v[1], v[2]), mk("last", v[1], v[2], v[3], mk("never"))
        if tm.contains(v, lambda x: x is lv):
            return None
        return TRUE, v

    def _close_loop(self, entry, s, L, serial, cands, closed, post, marks, node):
        coll = L[1]
        out = entry.copy()
        exits = self.exits[marks[0]:]
        n0 = len(entry.guards)
        updates = {c: (self._get(s, c) if not s.dead else None) for c in cands}
        inits = {c: self._get(entry, c) for c in cands}
        rec = LoopRec(L, serial, self.where(node), self.fname(), updates, inits, list(exits), entry, s)
        self.loop_recs[serial] = rec
        self.last_rec = rec
        early = [e for e in exits if e.kind in ("break", "return") and e.guards is not None]
        src = s if not s.dead else None
        # container logs: everything recorded in the final round stays, tagged with the loop
        for st2 in [src] + [e.state for e in exits]:
            if st2 is None:
                continue
            for o, log in st2.ents.items():
                old = out.ents.get(o, ())
                if o in out.ents and log is old:
                    continue
                if len(log) >= len(old):
                    seen = set(map(id, old))
                    out.ents[o] = old + tuple(e for e in log if id(e) not in seen)
        if src is not None:
            for fid, env in src.envs.items():
                if fid not in out.envs:
                    out.envs[fid] = env
                    continue
                for nme, v in env.items():
                    if nme not in out.envs[fid] and nme != "__ret__":
                        o = mk("out", serial, nme)
                        self.set_type(o, self.type_of(v))
                        out.envs[fid][nme] = o
            for loc, v in src.mem.items():
                if loc not in out.mem or tm.uses_loop(loc, L):
                    if not (early and tm.uses_loop(loc, L)):
                        out.mem[loc] = v
        for c, lv in cands.items():
            if c in post and not early:
                self._set(out, c, post[c])
            elif c[0] == "m" and c[1][0] == "contents":
                self._set(out, c, mk("ver", self.new_serial()))
            else:
                o = mk("out", serial, lv[2])
                self.set_type(o, self.type_of(lv))
                f = self._first_form(c, lv, s, early, coll, L, n0, entry) if early else None
                self._set(out, c, f if f is not None else o)
        # facts that hold after every completed round
        if src is not None:
            for g, k in src.guards[n0:]:
                if k == "check" and not self._uses_serial(g, serial):
                    out.guard(tm.red("all", coll, tm.abstract(g, L)), "check")
        if early:
            self._mark_prefix(out, entry, mk("prefix", L, serial), serial, marks)
        # exits leave the loop
        conv = []
        any_exit = []
        out_of = [tm.conj([x for x, k in e.guards[n0:] if k != "check"]) for e in exits]
        if any(self._uses_serial(g, serial) for g in out_of):
            out_of = [self._filled(entry, [x for x in [src] + [e.state for e in exits] if x is not None], g, L, serial) for g in out_of]
        union = self._leaving(exits, out_of, L, serial, coll)
        rival = self._rivals(exits, union, entry)
        merged = False
        for e, g in zip(exits, out_of):
            if union is not None and rival is None and e.kind in ("break", "return"):
                # several ways out with one result
                if merged:
                    continue
                merged = True
                c = tm.red("any", coll, union)
            elif self._uses_serial(g, serial):
                c = mk("exit", serial, len(conv))
            elif rival is not None and e.kind in ("break", "return"):
                # which way out is taken depends on the first element that takes any
                c = tm.conj([tm.red("any", coll, rival), self._at_first(coll, rival, tm.abstract(g, L))])
            else:
                c = tm.red("any", coll, tm.abstract(g, L))
            if coll[0] == "while" and e.kind in ("break", "wexit"):
                c = TRUE
            es = out.copy()
            ab = union if union is not None and e.kind in ("break", "return") else tm.abstract(g, L)
            for fid, env in e.state.envs.items():
                if fid not in es.envs:
                    es.envs[fid] = env
                    continue
                for nme, v in env.items():
                    old = entry.envs.get(fid, {}).get(nme, UNDEF)
                    if v is not old or nme == "__ret__":
                        v = self._settled(g, v)
                        if tm.contains(v, lambda x: x is L) or self._uses_serial(v, serial):
                            f = mk("first", coll, ab, tm.abstract(v, L))
                            self.set_type(f, self.type_of(v))
                            es.envs[fid][nme] = f
                        else:
                            es.envs[fid][nme] = v
            for loc, v in e.state.mem.items():
                old = entry.mem.get(loc)
                if v is (self.default_mem(loc) if old is None else old) or tm.uses_loop(loc, L) or self._uses_serial(loc, serial):
                    continue
                if loc[0] == "contents":
                    es.mem[loc] = mk("ver", self.new_serial())
                elif tm.contains(v, lambda x: x is L) or self._uses_serial(v, serial):
                    f = mk("first", coll, ab, tm.abstract(v, L))
                    self.set_type(f, self.type_of(v))
                    es.mem[loc] = f
                else:
                    es.mem[loc] = v
            es.guards = entry.guards
            es.guard(c)
            conv.append(Exit(e.kind, e.target, es.guards, es, e.exc))
            if e.kind not in ("raise", "wexit"):
                any_exit.append(c)
        self.exits[marks[0]:] = conv
        for c in any_exit:
            if coll[0] != "while":
                out.guard(tm.neg(c))
        if s.dead and coll[0] != "while":
            # a round never completes normally
            if any_exit and all(c is TRUE for c in any_exit):
                out.dead = s.dead
            else:
                out.guard(tm.neg(tm.cmp("<", ZERO, tm.length(coll))), "check" if s.dead == "raise" else "branch")
        if coll[0] == "while":
            rets = [e for e in conv if e.kind != "break"]
            out.guards = entry.guards
        out.loops = entry.loops
        return out

    def _leaving(self, exits, gs, L, serial, coll):
        """Condition of leaving the loop, if it is left in several ways."""
        mine = [g for e, g in zip(exits, gs) if e.kind in ("break", "return")]
        if coll[0] == "while" or len(mine) < 2 or any(self._uses_serial(g, serial) for g in mine):
            return None
        return tm.abstract(tm.disj(mine), L)

    def _at_first(self, coll, rival, g):
        """Condition g at the first element that satisfies rival."""
        try:
            h = canon.Canon([rival]).bool(g)
            if not tm.uses_bv(h, 0):
                return tm.shift_bv(h, -1)
        except canon.TooBig:
            pass
        return mk("first", coll, rival, g)

    def _rivals(self, exits, union, entry):
        """The condition of leaving the loop, if the ways differ in their result."""
        if union is None:
            return None

        def key(e):
            out = []
            for fid, env in e.state.envs.items():
                old = entry.envs.get(fid, {})
                out += [(fid, n, id(v)) for n, v in env.items() if n == "__ret__" or e.kind == "break" and fid in entry.envs and n in old and v is not old[n]]
            return e.kind, id(e.target), tuple(sorted(out))
        return union if len({key(e) for e in exits if e.kind in ("break", "return")}) > 1 else None

    def _first_form(self, c, lv, s, early, coll, L, n0, entry):
        """Value of a location that is only changed on the way out of the loop (search loops)."""
        init = self._get(entry, c)
        if not s.dead and self._get(s, c) is not lv:
            v = self._get(s, c)
            if init in (TRUE, FALSE) and tm.is_boolish(v) and self._unchanged(entry, s, v, lv, init):
                return init
            return None
        return init

    def _mark_prefix(self, out, entry, pfx, serial, marks):
        for o, log in list(out.ents.items()):
            new = tuple(e.with_guard(tm.conj([e.guard, pfx])) if any(sr == serial for _, sr in e.loops)
                        and pfx not in tm.conj_list(e.guard) else e for e in log)
            if any(a is not b for a, b in zip(new, log)):
                out.ents[o] = new
        for e in self.effects[marks[1]:]:
            if e.kind not in ("raise", "assert"):
                e.guards = e.guards + ((pfx, "prefix"),)

    # ------------------------------------------------------------------ iteration
    def auto_dict(self, st, b):
        """A sub-dictionary of a nested autovivifying dictionary."""
        return b[0] == "item" and self.auto_child(b) and self.type_of(b) and self.type_of(b)[0] == "dict"

    def iterate(self, st, it, body, node=None):
        """Runs body(state, elem, key, idx) for every element of it."""
        it = self.strip_iter(st, it)
        k = it[0]
        if k == "tuple":
            return self._unrolled(st, list(it[1]), body)
        if k == "c" and it[1] in ("str", "tuple"):
            return self._unrolled(st, [const(x) for x in it[2]], body)
        if k == "range":
            return self._iter_range(st, it, body, node)
        if k == "obj":
            return self._iter_obj(st, it, body, node)
        if k == "J":
            return self.j_iterate(st, it, "keys", body, node)
        if k == "red" and it[1] in ("list", "flat") and tm.contains(it, lambda x: x[0] == "J"):
            return self.j_list(st, it, body, node)
        if k in ("vals", "items", "keys") and it[1][0] == "J":
            return self.j_iterate(st, it[1], k, body, node)
        if k in ("vals", "items", "keys") and (it[1][0] == "obj" or self.auto_dict(st, it[1])):
            return self._iter_dict(st, it[1], k, body, node)
        if self.auto_dict(st, it):
            return self._iter_dict(st, it, "keys", body, node)
        if k == "enumerate":
            def eb(s, e, key, idx):
                return body(s, tm.tup([tm.add(it[2], idx), e]), key, idx)
            return self.iterate(st, it[1], eb, node)
        if k == "zip":
            return self._iter_zip(st, it, body, node)
        if k == "rev":
            inner = it[1]
            if inner[0] == "tuple":
                return self._unrolled(st, list(reversed(inner[1])), body)
            return self._iter_coll(st, mk("rev", inner), body, node)
        if k == "phi":
            a, b = it[2], it[3]
            return self.branch(st, it[1], lambda s: self.iterate(s, a, body, node),
                               lambda s: self.iterate(s, b, body, node))
        if k == "sorted" and self.info(it[1]) is None:
            return self._iter_coll(st, it, body, node)
        if k == "call" and it[1] == "chain" and all(True for _ in it[2]):
            for part in it[2]:
                st = self.iterate(st, part, body, node)
            return st
        return self._iter_coll(st, it, body, node)

    def strip_iter(self, st, it):
        while True:
            k = it[0]
            if k == "listof":
                it = it[1]
            elif k == "call" and it[1] in ("iter", "tqdm") and it[2]:
                it = it[2][0]
            elif k == "call" and it[1] in ("prange", "numba.prange"):
                it = self.mk_range([*it[2]])
            elif k == "call" and it[1] in ("np.arange", "numpy.arange"):
                it = self.mk_range([*it[2]])
            else:
                return it

    def _unrolled(self, st, elems, body):
        """Concrete sequence: rounds are executed one after another; break exits are merged by the caller."""
        acc_exits = []
        for i, e in enumerate(elems):
            if st.dead:
                break
            st = body(st, e, const(i), const(i))
        if st.dead == "break":
            pass
        return st

    def _iter_range(self, st, it, body, node):
        lo, hi, step = it[1], it[2], it[3]
        if all(tm.is_int(x) for x in (lo, hi, step)) and step is not ZERO:
            r = range(lo[2], hi[2], step[2])
            if len(r) <= 64:
                return self._unrolled(st, [const(x) for x in r], body)
        if step is ONE:
            n = tm.sub(hi, lo)
            o = self.len_reg.get(n)
            if o is not None and self.listlike(st, o) and self.length(st, o) is n:
                ents, ren = self.entries(st, o)
                return self._iter_entries(st, ents, ren, 0, lambda s, e, m: body(
                    s, tm.add(lo, self._pos(e, m)), self._pos(e, m), self._pos(e, m)), node)
            coll = self.count_coll(n)
            L = self.open_id(st, coll)
            idx = mk("idx", L)
            e = tm.add(lo, idx)
            return self.run_loop(st, L, lambda s: body(s, e, idx, idx), node)
        coll = mk("range", lo, hi, step)
        L = self.open_id(st, coll)
        idx = mk("idx", L)
        if tm.is_int(step):
            e = tm.add(lo, tm.scale(idx, step[2]))
        else:
            e = mk("elem", L)
        return self.run_loop(st, L, lambda s: body(s, e, idx, idx), node)

    def listlike(self, st, o):
        inf = self.info(o)
        return inf is not None and inf.kind == "list" and not self.in_flux(st, o) and \
            all(e.kind == "app" and e.pos is not None for e in self.log(st, o))

    def count_coll(self, n):
        """The collection standing for n rounds: X itself when n is len(X)."""
        if n[0] == "len":
            return self.parallel.get(n[1], n[1])
        return mk("range", ZERO, n, ONE)

    def _iter_coll(self, st, coll, body, node):
        mode = "values"
        if coll[0] in ("vals", "items", "keys"):
            mode, coll = {"vals": "values", "items": "items", "keys": "keys"}[coll[0]], coll[1]
            is_dict = True
        else:
            t = self.type_of(coll)
            is_dict = bool(t and t[0] == "dict")
            if is_dict:
                mode = "keys"
        ver = st.mem.get(mk("contents", coll))
        if ver is not None and ver[0] != "ver0" and self.log(st, coll):
            coll2 = mk("mutated", coll, ver)
            self.set_type(coll2, self.type_of(coll))
            self.unknown(st, "iteration over a modified collection")
            coll = coll2
        if coll[0] == "red" and coll[1] in ("list",):
            # list described by a reduction: iterate the underlying collection
            L = self.open_id(st, coll[2])
            elem, key, idx = self.loop_terms(L)
            val = tm.instantiate(coll[3], elem, key, idx, loop=L)

            def rb(s):
                if val[0] == "phi" and val[3] is SKIP:
                    return self.branch(s, val[1], lambda x: body(x, val[2], key, idx), lambda x: x)
                return body(s, val, key, idx)
            return self.run_loop(st, L, rb, node)
        par = self.parallel.get(coll)
        if par is not None:
            L = self.open_id(st, par)
            idx = mk("idx", L)
            return self.run_loop(st, L, lambda s: body(s, mk("item", coll, idx), idx, idx), node)
        w = self.row_width(coll)
        if w is not None:
            return self._unrolled(st, [tm.mkitem(coll[1] if coll[0] == "slice" else coll, const(i)) for i in w], body)
        L = self.open_id(st, coll)
        elem, key, idx = self.loop_terms(L)
        if is_dict:
            item = {"values": elem, "keys": key, "items": tm.tup([key, elem])}[mode]
        else:
            item = elem
        return self.run_loop(st, L, lambda s: body(s, item, key, idx), node)

    def row_width(self, coll):
        """Column numbers when coll is a row (or constant slice of a row) of an array of known width."""
        lo, hi = 0, None
        if coll[0] == "slice":
            if not (tm.is_int(coll[2]) and coll[2][2] >= 0 and coll[4] in (NONE, ONE)):
                return None
            lo = coll[2][2]
            if coll[3] is not NONE:
                if not (tm.is_int(coll[3]) and coll[3][2] >= 0):
                    return None
                hi = coll[3][2]
            coll = coll[1]
        a = coll[1][1] if coll[0] == "elem" else (coll[1] if coll[0] == "item" else None)
        n = self.width.get(a) if a is not None else None
        if n is None and a is not None and a[0] == "attr" and a[2] in ("pts", "tri") and (self.type_of(a[1]) or (0,))[0] == "cls":
            n = 3
        if n is None:
            return None
        return range(lo, n if hi is None else min(hi, n))

    def loop_terms(self, L):
        coll = L[1]
        idx = mk("idx", L)
        if coll[0] == "range":
            return tm.add(coll[1], idx) if coll[3] is ONE else mk("elem", L), idx, idx
        elem = mk("elem", L)
        if self.is_child_map(coll):
            key = mk("attr", elem, "name")
        else:
            t = self.type_of(coll)
            key = mk("key", L) if t and t[0] == "dict" else idx
        return elem, key, idx

    def _iter_zip(self, st, it, body, node):
        parts = [self.strip_iter(st, x) for x in it[1]]
        if all(p[0] == "tuple" for p in parts):
            return self._unrolled(st, [tm.tup(x) for x in zip(*[p[1] for p in parts])], body)
        # iterate the first, index the others by position
        first = parts[0]

        def zb(s, e, key, idx):
            vals = [e] + [self.read_item(s, p, idx) for p in parts[1:]]
            return body(s, tm.tup(vals), key, idx)
        return self.iterate(st, first, zb, node)

    def _iter_obj(self, st, o, body, node):
        inf = self.info(o)
        if inf.kind == "dict":
            return self._iter_dict(st, o, "keys", body, node)
        if inf.kind == "set":
            return self._iter_dict(st, o, "keys", body, node)
        if inf.kind == "arr":
            v = self.val(st, o)
            return self._iter_coll(st, v, body, node)
        if inf.kind == "inst":
            return self._iter_coll(st, o, body, node)
        if self.in_flux(st, o):
            return self._iter_coll(st, mk("flux", o, st.mem[mk("contents", o)]), body, node)
        ents, ren = self.entries(st, o)
        if any(e.kind not in ("app",) for e in ents):
            v = self.val(st, o)
            return self._iter_coll(st, v if v is not o else mk("listof", o), body, node)
        return self._iter_entries(st, ents, ren, 0, lambda s, e, m: body(
            s, tm.subst(e.val, m) if m else e.val, self._pos(e, m), self._pos(e, m)), node)

    def _pos(self, e, m):
        if e.pos is None:
            return mk("opq", "pos")
        return tm.subst(e.pos, m) if m else e.pos

    def reopen(self, st, L, m):
        coll = tm.subst(L[1], m) if m else L[1]
        return self.open_id(st, coll)

    def _iter_entries(self, st, ents, m, depth, fn, node):
        i = 0
        while i < len(ents):
            if st.dead:
                return st
            e = ents[i]
            if len(e.loops) > depth:
                L0, sr = e.loops[depth]
                j = i
                while j < len(ents) and len(ents[j].loops) > depth and ents[j].loops[depth][1] == sr:
                    j += 1
                group = ents[i:j]
                L = self.reopen(st, L0, m)
                m2 = dict(m)
                if L is not L0:
                    m2[L0] = L
                st = self.run_loop(st, L, lambda s: self._iter_entries(s, group, m2, depth + 1, fn, node), node)
                i = j
            else:
                g = tm.subst(e.guard, m) if m else e.guard
                g = self.implied(st, g)
                if g is TRUE:
                    st = fn(st, e, m)
                elif g is not FALSE:
                    st = self.branch(st, g, lambda s: fn(s, e, m), lambda s: s)
                i += 1
        return st

    def dict_groups(self, st, o):
        """Distinct keys of a dict or set in order: [(loops, presence condition, key, entry)], renaming."""
        ents, ren = self.entries(st, o)
        keep = []
        seen = {}
        for e in ents:
            if e.kind not in ("set", "add", "app"):
                return None, ren
            key = e.key if e.kind == "set" else e.val
            loops = [l for l in e.loops]
            # the key determines a prefix of the loops; the remaining ones only decide presence
            dep = [i for i, (l, _) in enumerate(loops) if tm.uses_loop(key, l)]
            n = (max(dep) + 1) if dep else 0
            g = e.guard
            for l, _ in reversed(loops[n:]):
                g = tm.red("any", l[1], tm.abstract(g, l))
            ident = (key, tuple(l for l, _ in loops[:n]))
            if ident in seen:
                idx = seen[ident]
                old = keep[idx]
                keep[idx] = (old[0], tm.disj([old[1], g]), key, e)
                continue
            seen[ident] = len(keep)
            if n and not self.injective(key, [l for l, _ in loops[:n]]):
                g = tm.conj([g, mk("dedupe", key)])
            keep.append((tuple(loops[:n]), g, key, e))
        return keep, ren

    def _iter_dict(self, st, o, mode, body, node):
        """Keys of an allocated dict or set, each key once."""
        inf = self.info(o)
        if self.in_flux(st, o):
            return self._iter_coll(st, mk("flux", o, st.mem[mk("contents", o)]), body, node)
        keep, ren = self.dict_groups(st, o)
        if keep is None:
            return self._iter_coll(st, mk("listof", o), body, node)
        es = [Entry(l, g, k, e.val, "app", e.where, None) for l, g, k, e in keep]

        def fn(s, e, m):
            key = tm.subst(e.key, m) if m else e.key
            if mode == "keys":
                item = key
            else:
                v = self.read_item(s, o, key)
                item = v if mode == "vals" else tm.tup([key, v])
            return body(s, item, key, mk("opq", "dict position"))
        return self._iter_entries(st, es, ren, 0, fn, node)

    def injective(self, key, loops):
        """Distinct rounds of the loop nest give distinct keys."""
        if key[0] == "tuple":
            return any(self.injective(k, loops) for k in key[1]) or \
                all(any(self.injective(k, [l]) for k in key[1]) for l in loops)
        if key[0] == "cat":
            parts = key[1]
            # names never contain the separator, so a joined path is injective if its components are
            comps = [p for p in parts if not is_const(p)]
            return all(any(self.injective(p, [l]) for p in comps) for l in loops) and \
                all(is_const(p) for p in parts[1::2]) if len(parts) > 1 else False
        if len(loops) == 1:
            l = loops[0]
            if key in (mk("idx", l), mk("key", l)):
                return True
            e = mk("elem", l)
            if key[0] == "attr" and key[1] is e and (key[2] == "uid" or (key[2] == "name" and self.is_child_map(l[1]))):
                return True
            if key is e and l[1][0] in ("keys", "range"):
                return True
            if key is e and self.type_of(l[1]) and self.type_of(l[1])[0] == "set":
                return True
            if key[0] == "sum" and len(key[1]) == 1 and abs(key[1][0][1]) >= 1:
                return self.injective(key[1][0][0], loops)
        # uid of the innermost element
        if key[0] == "attr" and key[2] == "uid" and key[1] is mk("elem", loops[-1]):
            return True
        # running counter: one per innermost round
        return self.is_counter(key, loops)

    def is_counter(self, key, loops):
        exp = ZERO
        inner = ONE
        for l in reversed(loops):
            exp = tm.add(exp, tm.psum(l, tm.abstract(inner, l)))
            inner = tm.red("sum", l[1], tm.abstract(inner, l))
        d = tm.sub(key, exp)
        return not any(tm.uses_loop(d, l) for l in loops)
