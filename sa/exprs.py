"""Expressions, attributes, containers and calls of the dataflow analysis."""
from __future__ import annotations

import ast

from . import terms as tm
from . import typesys as ty
from .loader import AnalysisError, Class, Func, dotted, walk_own
from .models import Models
from .state import SKIP, UNDEF, Entry, State
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T, const, is_const, mk

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
          ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
          ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
PRAGMATIC_LOG = {"logger", "logging", "print"}


class Exprs(Models):
    # ------------------------------------------------------------------ evaluation
    def eval(self, st, n) -> T:
        self.steps += 1
        prev = self.cur_node
        self.cur_node = n
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            r = self.unknown(st, f"expression {type(n).__name__}")
        else:
            r = m(st, n)
        self.cur_node = prev
        return r

    def e_Constant(self, st, n):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def e_Name(self, st, n):
        return self.name(st, n.id)

    def name(self, st, name):
        fid = st.fid
        seen = 0
        while fid is not None and fid in st.envs and seen < 10:
            v = st.envs[fid].get(name)
            if v is not None:
                return v
            fid = self.clo_of.get(fid)
            seen += 1
        fr = self.frames[-1]
        r = self.prog.lookup(fr.func.module, name)
        if r is None:
            return mk("ext", "builtins." + name)
        return self.entity(st, r, name)

    def entity(self, st, r, name):
        if r is None:
            return mk("ext", "?." + name)
        k = r[0]
        if k == "func":
            return self.fn_term(r[1], None)
        if k == "class":
            return mk("cls", r[1].qualname)
        if k == "module":
            return mk("mod", r[1])
        if k == "ext":
            return mk("ext", self.ext_name(r[1]))
        if k == "const":
            return self.module_const(st, r[1], r[2], r[3])
        return mk("opq", name)

    EXT_ALIAS = {"numpy": "np"}

    def ext_name(self, d):
        parts = d.split(".")
        parts[0] = self.EXT_ALIAS.get(parts[0], parts[0])
        return ".".join(parts)

    def module_const(self, st, m, expr, name):
        key = (m.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        mutable = isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or \
            (isinstance(expr, ast.Call) and (dotted(expr.func) or "").split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary"))
        g = mk("glob", m.name, name)
        if mutable:
            if isinstance(expr, (ast.Dict, ast.DictComp)) or (isinstance(expr, ast.Call)):
                self.set_type(g, ("dict", None, None))
            self.globals_cache[key] = g
            return g
        self.globals_cache[key] = g
        fake = Func("<module>", m.name + ".<module>", m, ast.parse("def f(): pass").body[0])
        s = State()
        s.fid = -1
        s.envs[-1] = {}
        self.push_frame(fake, -1)
        mark = len(self.effects)
        try:
            v = self.eval(s, expr)
        finally:
            self.frames.pop()
        del self.effects[mark:]
        if v[0] == "obj":
            v = self.val(s, v)
            if v[0] == "obj":
                v = g
        self.globals_cache[key] = v
        return v

    def e_Tuple(self, st, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.seq_display(st, n, "list")
        return tm.tup([self.eval(st, e) for e in n.elts])

    def e_List(self, st, n):
        return self.seq_display(st, n, "list")

    def e_Set(self, st, n):
        return self.seq_display(st, n, "set")

    def seq_display(self, st, n, kind):
        o = self.alloc(st, kind)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                self.list_extend(st, o, v)
            else:
                v = self.eval(st, e)
                if kind == "list":
                    self.append(st, o, v)
                else:
                    self.set_add(st, o, v)
        return o

    def e_Dict(self, st, n):
        o = self.alloc(st, "dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(st, v)
                self.method(st, o, "update", [src], {})
            else:
                kk = self.eval(st, k)
                self.write_item(st, o, kk, self.eval(st, v))
        return o

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.eval(st, v))
        return tm.cat(parts) if parts else const("")

    def e_FormattedValue(self, st, n):
        v = self.val(st, self.eval(st, n.value))
        spec = ""
        if n.format_spec is not None:
            s = self.eval(st, n.format_spec)
            spec = s[2] if tm.is_str(s) else "?"
        if n.conversion not in (-1, None):
            spec = "!" + chr(n.conversion) + spec
        return self.to_str(v, spec)

    def to_str(self, v, spec=""):
        if tm.is_str(v) and not spec:
            return v
        if is_const(v) and not spec and v[1] in ("int", "str"):
            return const(str(v[2]))
        if not spec and self.type_of(v) == ty.STR:
            return v if v[0] in ("cat", "str") else mk("cat", (v,))
        return mk("str", v, spec)

    def e_Attribute(self, st, n):
        b = self.eval(st, n.value)
        return self.read_attr(st, b, n.attr)

    def e_Subscript(self, st, n):
        b = self.eval(st, n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(st, n.slice.lower) if n.slice.lower else NONE
            hi = self.eval(st, n.slice.upper) if n.slice.upper else NONE
            sp = self.eval(st, n.slice.step) if n.slice.step else NONE
            return self.read_slice(st, b, lo, hi, sp)
        return self.read_item(st, b, self.eval_index(st, n.slice))

    def eval_index(self, st, n):
        if isinstance(n, ast.Slice):
            lo = self.eval(st, n.lower) if n.lower else NONE
            hi = self.eval(st, n.upper) if n.upper else NONE
            sp = self.eval(st, n.step) if n.step else NONE
            return mk("slc", lo, hi, sp)
        if isinstance(n, ast.Tuple):
            return tm.tup([self.eval_index(st, e) for e in n.elts])
        v = self.eval(st, n)
        return self.val(st, v) if v[0] == "obj" else v

    def e_Slice(self, st, n):
        return self.eval_index(st, n)

    def e_Starred(self, st, n):
        return self.eval(st, n.value)

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        b = self.eval(st, n.right)
        return self.binop(st, n.op, a, b)

    def binop(self, st, op, a, b):
        o = BINOPS.get(type(op), "?")
        ia, ib = self.info(a), self.info(b)
        if o == "+" and ((ia and ia.kind == "list") or (ib and ib.kind == "list")):
            r = self.alloc(st, "list")
            self.list_extend(st, r, a)
            self.list_extend(st, r, b)
            return r
        if o == "+" and a[0] == "tuple" and b[0] == "tuple":
            return tm.tup(a[1] + b[1])
        if o in ("-", "&", "|") and ((ia and ia.kind == "set") or (ib and ib.kind == "set")):
            return mk("op", {"-": "setminus", "&": "inter", "|": "union"}[o], self.val(st, a), self.val(st, b))
        if o == "*" and ((ia and ia.kind == "list") or (ib and ib.kind == "list")):
            return mk("op", "rep", self.val(st, a), self.val(st, b))
        a, b = self.val(st, a), self.val(st, b)
        if a[0] == "ext" and a[1].startswith("np.") and False:
            return a
        # conditional values distribute only when one side is a conditional of constants
        if o == "+" and (self.type_of(a) == ty.STR or self.type_of(b) == ty.STR):
            return tm.cat([a, b])
        if o == "%" and tm.is_str(a):
            return mk("str", tm.tup([a, b]), "%")
        if o == "/" and self.is_pathlike(a):
            return mk("call", "path", (a, b), ())
        if o in ("==",):
            return tm.cmp("==", a, b)
        return tm.binop(o, a, b)

    def is_pathlike(self, t):
        return t[0] == "call" and t[1] in ("pathlib.Path", "path")

    def e_UnaryOp(self, st, n):
        v = (self.eval_bool if isinstance(n.op, ast.Not) else self.eval)(st, n.operand)
        if isinstance(n.op, ast.Not):
            return tm.neg(self.truth(st, v))
        v = self.val(st, v)
        if isinstance(n.op, ast.USub):
            return tm.scale(v, -1)
        if isinstance(n.op, ast.Invert):
            return mk("call", "invert", (v,), ()) if not tm.is_boolish(v) else tm.neg(v)
        return v

    def e_BoolOp(self, st, n, asbool=False):
        is_and = isinstance(n.op, ast.And)
        ev = self.eval_bool if asbool else self.eval
        acc = ev(st, n.values[0])
        for v in n.values[1:]:
            if st.dead:
                return acc
            c = self.fold(st, self.truth(st, acc))
            if c is TRUE:
                if not is_and:
                    return acc
                acc = ev(st, v)
                continue
            if c is FALSE:
                if is_and:
                    return acc
                acc = ev(st, v)
                continue
            g = c if is_and else tm.neg(c)
            a = st.copy().guard(g)
            r = ev(a, v)
            b = st.copy().guard(tm.neg(g))
            if not a.dead:
                st.assign(self.join(g, a, b))
            else:
                st.assign(b)
            rb = self.truth(st, r)
            if tm.is_boolish(c) and tm.is_boolish(rb) and (asbool or rb is r and c is self.fold(st, acc)):
                acc = tm.conj([c, rb]) if is_and else tm.disj([c, rb])
            else:
                acc = tm.phi(c, r, acc) if is_and else tm.phi(c, acc, r)
        return acc

    def eval_bool(self, st, n):
        """Evaluates an expression of which only the truth value matters."""
        if isinstance(n, ast.BoolOp):
            return self.e_BoolOp(st, n, True)
        return self.eval(st, n)

    def e_IfExp(self, st, n):
        c = self.cond(st, n.test)
        if c is TRUE:
            return self.eval(st, n.body)
        if c is FALSE:
            return self.eval(st, n.orelse)
        a = st.copy().guard(c)
        va = self.eval(a, n.body)
        b = st.copy().guard(tm.neg(c))
        vb = self.eval(b, n.orelse)
        if a.dead:
            st.assign(b)
            return vb
        if b.dead:
            st.assign(a)
            return va
        st.assign(self.join(c, a, b))
        return tm.phi(c, va, vb)

    def e_Compare(self, st, n):
        left = self.eval(st, n.left)
        acc = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(st, r)
            acc = tm.conj([acc, self.compare(st, CMPOPS[type(op)], left, right)])
            left = right
        return acc

    def compare(self, st, op, a, b):
        if op in ("in", "not in"):
            r = self.contains(st, a, b)
            return tm.neg(r) if op == "not in" else r
        if op in ("is", "is not") and (a is NONE or b is NONE):
            o = b if a is NONE else a
            r = self.is_none(st, o)
            return tm.neg(r) if op == "is not" else r
        if op in ("is", "is not"):
            r = tm.cmp("is", a, b)
            ta, tb = self.type_of(a), self.type_of(b)
            if ta and tb and ta[0] == tb[0] == "cls" and not (self.prog.is_subclass(ta[1], tb[1]) or self.prog.is_subclass(tb[1], ta[1])) \
                    and (self.is_none(st, a) is FALSE or self.is_none(st, b) is FALSE):
                r = FALSE
            return tm.neg(r) if op == "is not" else r
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                inf = self.info(x)
                if inf is not None and inf.kind == "inst":
                    f = self.prog.method(inf.cls, "__eq__")
                    if f is not None:
                        r = self.truth(st, self.call_func(st, f, [y], {}, x))
                        return tm.neg(r) if op == "!=" else r
                tt = self.type_of(x)
                if tt and tt[0] == "cls" and x[0] not in ("obj",):
                    f = self.prog.method(tt[1], "__eq__")
                    if f is not None:
                        r = mk("eqobj", *sorted([a, b], key=tm.tkey)) if a is not b else TRUE
                        return tm.neg(r) if op == "!=" else r
        return tm.cmp(op, self.val(st, a), self.val(st, b))

    def is_none(self, st, o):
        if o[0] == "phi":
            return tm.phi(o[1], self.is_none(st, o[2]), self.is_none(st, o[3]))
        if o[0] in ("elem", "key", "idx", "len", "sum", "vals", "keys", "items"):
            # elements of typed containers are objects
            t = self.type_of(o)
            if o[0] != "elem" or (t and t[0] == "cls"):
                return FALSE
        if o[0] == "attr" and o[2] in ("name", "uid", "path", "pts", "tri", "vn") or self.is_child_map(o):
            return FALSE
        if o[0] == "first":
            return tm.cmp("is", o, NONE)
        if o[0] == "item":
            own = self.owner_of(o)
            if own is not None:
                return FALSE
        if self.owner_of(o) is not None:
            return FALSE
        if o in self.nonnull:
            return FALSE
        return tm.cmp("is", o, NONE)

    def cond(self, st, n):
        v = self.eval_bool(st, n)
        if st.dead:
            return FALSE
        return self.fold(st, self.truth(st, v))

    def truth(self, st, v):
        if is_const(v):
            return const(bool(v[2]))
        if v[0] == "obj":
            inf = self.info(v)
            if inf.kind in ("list", "dict", "set"):
                return tm.cmp("<", ZERO, self.length(st, v))
            if inf.kind == "inst":
                f = self.prog.method(inf.cls, "__bool__") or self.prog.method(inf.cls, "__len__")
                return TRUE if f is None else self.call_func(st, f, [], {}, v)
            return v
        if v[0] == "tuple":
            return const(len(v[1]) > 0)
        if v[0] == "phi":
            a, b = self.truth(st, v[2]), self.truth(st, v[3])
            return tm.phi(v[1], a, b)
        if v[0] in ("fn", "cls", "ext", "mod", "bound"):
            return TRUE
        t = self.type_of(v)
        if v[0] in ("cmp", "not", "and", "or"):
            return v
        if t and t[0] in ("list", "dict", "set", "str", "tuple"):
            return tm.cmp("<", ZERO, self.length(st, v))
        if t and t[0] == "cls":
            return tm.neg(self.is_none(st, v))
        if v[0] == "len" or t == ty.INT:
            return tm.neg(tm.cmp("==", v, ZERO))
        return v

    def e_Lambda(self, st, n):
        fr = self.frames[-1]
        f = Func("<lambda>", f"{fr.func.qualname}.<lambda>", fr.func.module, n, None, [], fr.func)
        fr.has_closures = True
        return self.fn_term(f, fr.fid)

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_Await(self, st, n):
        return self.eval(st, n.value)

    def e_Yield(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        g = self.frames[-1].gen
        if g is not None:
            self.append(st, g, v)
        return NONE

    def e_YieldFrom(self, st, n):
        v = self.eval(st, n.value)
        g = self.frames[-1].gen
        if g is not None:
            self.list_extend(st, g, v)
        return NONE

    # comprehensions
    def e_ListComp(self, st, n):
        o = self.alloc(st, "list")
        self.comp(st, n.generators, lambda s: self.append(s, o, self.eval(s, n.elt)), n)
        return o

    def e_GeneratorExp(self, st, n):
        return self.e_ListComp(st, n)

    def e_SetComp(self, st, n):
        o = self.alloc(st, "set")
        self.comp(st, n.generators, lambda s: self.set_add(s, o, self.eval(s, n.elt)), n)
        return o

    def e_DictComp(self, st, n):
        o = self.alloc(st, "dict")

        def leaf(s):
            k = self.eval(s, n.key)
            self.write_item(s, o, k, self.eval(s, n.value))
        self.comp(st, n.generators, leaf, n)
        return o

    def comp(self, st, gens, leaf, node):
        saved = dict(st.env)
        fid = st.fid

        def go(s, i):
            if i == len(gens):
                leaf(s)
                return s
            g = gens[i]
            it = self.eval(s, g.iter)

            def body(s2, elem, key, idx):
                self.assign(s2, g.target, elem)
                return filt(s2, 0)

            def filt(s2, j):
                if j == len(g.ifs):
                    return go(s2, i + 1)
                c = self.cond(s2, g.ifs[j])
                if c is TRUE:
                    return filt(s2, j + 1)
                if c is FALSE:
                    return s2
                return self.branch(s2, c, lambda x: filt(x, j + 1), lambda x: x)
            return self.iterate(s, it, body, node)
        s = go(st.copy(), 0)
        names = {x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for nme in names:
            if nme in saved:
                s.envs[fid][nme] = saved[nme]
            else:
                s.envs[fid].pop(nme, None)
        st.assign(s)

    # ------------------------------------------------------------------ assignment targets
    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            fid = st.fid
            # nonlocal variables live in the closure's frame
            fr = self.frames[-1]
            nl = self.nonlocals(fr.func)
            if t.id in nl:
                f2 = self.clo_of.get(fid)
                while f2 is not None and f2 in st.envs and t.id not in st.envs[f2]:
                    f2 = self.clo_of.get(f2)
                if f2 is not None and f2 in st.envs:
                    fid = f2
            st.envs[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = v
            if vv[0] == "obj" and self.info(vv).kind == "list":
                r = self.val(st, vv)
                vv = r if r[0] == "tuple" else vv
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for j, e in enumerate(t.elts[:i]):
                    self.assign(st, e, self.read_item(st, vv, const(j)))
                self.assign(st, t.elts[i].value, self.read_slice(st, vv, const(i), const(-after) if after else NONE, NONE))
                for j, e in enumerate(t.elts[i + 1:]):
                    self.assign(st, e, self.read_item(st, vv, const(j - after)))
                return
            for j, e in enumerate(t.elts):
                self.assign(st, e, self.read_item(st, vv, const(j)))
        elif isinstance(t, ast.Attribute):
            b = self.eval(st, t.value)
            self.write_attr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(st, t.value)
            i = self.eval_index(st, t.slice)
            self.cur_node = t
            self.write_item(st, b, i, v)
            # storing into a computed value gives it an identity
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def nonlocals(self, f):
        r = getattr(f, "_nl", None)
        if r is None:
            r = set()
            if not isinstance(f.node, ast.Lambda):
                for n in walk_own(f.node):
                    if isinstance(n, ast.Nonlocal):
                        r |= set(n.names)
            f._nl = r
        return r

    # ------------------------------------------------------------------ attributes
    def read_attr(self, st, b, name):
        k = b[0]
        if k == "phi":
            outs = []
            for x in (b[2], b[3]):
                outs.append(None if x in (NONE, UNDEF) else x)
            if outs[0] is None and outs[1] is not None:
                return self.read_attr(st, outs[1], name)
            if outs[1] is None and outs[0] is not None:
                return self.read_attr(st, outs[0], name)
            if outs[0] is not None:
                return tm.phi(b[1], self.read_attr(st, b[2], name), self.read_attr(st, b[3], name))
            return mk("attr", b, name)
        if k == "mod":
            return self.entity(st, self.prog.lookup_in(b[1], name), name)
        if k == "ext":
            d = b[1] + "." + name
            return mk("ext", d)
        if k == "cls":
            c = self.prog.classes[b[1]]
            f = self.prog.method(c, name)
            if f is not None:
                if f.is_classmethod:
                    return mk("bound", self.fn_term(f), b)
                return self.fn_term(f)
            cv = self.prog.class_var(c, name)
            if cv:
                return self.class_const(st, cv, name)
            if name == "__name__":
                return const(c.name)
            return mk("attr", b, name)
        if k == "super":
            c = self.prog.classes[b[1]]
            for kc in self.prog.mro(c)[1:]:
                if name in kc.methods:
                    return mk("bound", self.fn_term(kc.methods[name]), b[2])
            return mk("meth", b, name)
        t = self.type_of(b)
        if t and t[0] == "cls":
            c = t[1]
            loc = self.attr_loc(b, name)
            v = self.read_mem(st, b, loc)
            if v is not None:
                return v
            f = self.prog.method(c, name)
            if f is not None:
                if f.is_property:
                    return self.call_func(st, f, [], {}, b)
                if f.is_static:
                    return self.fn_term(f)
                return mk("bound", self.fn_term(f), b)
            if name in self.parent_names:
                own = self.owner_of(b)
                if own is not None:
                    return own
            if name == "name":
                if b[0] == "item" and self.is_child_map(b[1]):
                    return b[2]
            cv = self.prog.class_var(c, name)
            if cv and name not in c.attr_ann and b[0] != "obj":
                return self.class_const(st, cv, name)
            if cv and b[0] == "obj":
                return self.class_const(st, cv, name)
            if name == "__class__":
                return mk("cls", c.qualname)
            return mk("attr", b, name)
        if name == "T" and k != "obj":
            return mk("attr", self.val(st, b), "T")
        if self.is_method_name(st, b, name, t):
            return mk("meth", b, name)
        loc = mk("attr", b, name)
        v = st.mem.get(loc)
        if v is not None:
            return v
        if name in self.parent_names:
            own = self.owner_of(b)
            if own is not None:
                return own
        if "." + name in self.hooks:
            return mk("meth", b, name)
        if k == "obj":
            b = self.val(st, b)
            if name == "shape":
                return self.shape(st, b)
            if name == "size":
                return tm.length(b)
        return mk("attr", b, name)

    def shape(self, st, v):
        if v[0] == "call" and v[1] in ("np.zeros", "np.ones", "np.empty", "np.full") and v[2]:
            s = v[2][0]
            return s if s[0] == "tuple" else tm.tup([s])
        return mk("attr", v, "shape")

    def class_const(self, st, cv, name):
        expr, kc = cv
        return self.module_const(st, kc.module, expr, kc.name + "." + name)

    def attr_loc(self, b, name):
        if b[0] == "obj":
            return mk("attr", self.home(b), name)
        return mk("attr", b, name)

    def home(self, o):
        """The object family as it was allocated."""
        inf = self.objs[o[1]]
        return mk("obj", o[1], tuple(l for l, _ in inf.loops))

    def inst_map(self, o):
        inf = self.objs[o[1]]
        m = {}
        for (l, _), i in zip(inf.loops, o[2]):
            if l is not i:
                m[l] = i
        return m

    def read_mem(self, st, b, loc):
        v = st.mem.get(loc)
        if v is None or v is UNDEF:
            return None
        if b[0] == "obj":
            m = self.inst_map(b)
            if m:
                v = tm.subst(v, m)
        return v

    def write_attr(self, st, b, name, v):
        if b[0] == "phi":
            def w(x):
                def f(s):
                    if x not in (NONE, UNDEF):
                        self.write_attr(s, x, name, v)
                    return s
                return f
            st.assign(self.branch(st, b[1], w(b[2]), w(b[3])))
            return
        t = self.type_of(b)
        if t and t[0] == "cls":
            f = self.prog.setter(t[1], name)
            if f is not None:
                self.call_func(st, f, [v], {}, b)
                return
        loc = self.attr_loc(b, name)
        if b[0] == "obj":
            m = {y: x for x, y in self.inst_map(b).items()}
            if m:
                v = tm.subst(v, m)
        self.effect(st, "setattr", b, name, v)
        st.mem[loc] = v

    # ------------------------------------------------------------------ container logs
    def base_key(self, b):
        return self.home(b) if b[0] == "obj" else b

    def own_loops(self, b):
        if b[0] == "obj":
            return [l for l, _ in self.objs[b[1]].loops]
        return tm.loops_of(b)

    def log(self, st, b):
        return st.ents.get(self.base_key(b), ())

    def entries(self, st, b):
        """Entries of container b with the loops that are not part of b itself; renaming to apply."""
        bk = self.base_key(b)
        log = st.ents.get(bk)
        ren = {}
        if b[0] == "obj":
            ren = self.inst_map(b)
            own = set(self.own_loops(b))
        else:
            own = set(tm.loops_of(b))
            if log is None:
                m = {}
                for l in tm.loops_of(b):
                    if l[2] > 0:
                        m[l] = mk("L", l[1], 0)
                b0 = tm.subst(b, m) if m else b
                if b0 is not b and b0 in st.ents:
                    log = st.ents[b0]
                    ren = {y: x for x, y in m.items()}
                    own = set(tm.loops_of(b0))
        out = []
        for e in log or ():
            loops = tuple(x for x in e.loops if x[0] not in own)
            out.append(Entry(loops, e.guard, e.key, e.val, e.kind, e.where, e.pos))
        return out, ren

    def in_flux(self, st, b):
        v = st.mem.get(mk("contents", self.base_key(b)))
        return v is not None and v[0] == "lv"

    def touch(self, st, b):
        st.mem[mk("contents", self.base_key(b))] = mk("ver", self.new_serial())

    def add_entry(self, st, b, kind, key, val, pos=None):
        bk = self.base_key(b)
        if b[0] == "obj":
            m = {y: x for x, y in self.inst_map(b).items()}
            ag = set(g for g, _ in self.objs[b[1]].guards)
        else:
            m, ag = {}, set()
        g = tm.conj([x for x, k in st.guards if k in ("branch", "loop") and x not in ag])
        loops = st.loops
        if m:
            g = tm.subst(g, m)
            key = tm.subst(key, m) if key is not None else None
            val = tm.subst(val, m) if val is not None else None
            pos = tm.subst(pos, m) if pos is not None else None
            loops = tuple((m.get(l, l), s) for l, s in loops)
        e = Entry(loops, g, key, val, kind, self.where(), pos)
        st.ents[bk] = st.ents.get(bk, ()) + (e,)
        self.touch(st, b)
        return e

    def append(self, st, b, v):
        if b[0] == "phi":
            def w(x):
                def f(s):
                    if x not in (NONE, UNDEF):
                        self.append(s, x, v)
                    return s
                return f
            st.assign(self.branch(st, b[1], w(b[2]), w(b[3])))
            return
        pos = self.length(st, b)
        self.effect(st, "append", b, v)
        self.add_entry(st, b, "app", None, v, pos)
        st.mem[self.len_loc(b)] = tm.add(pos, ONE)

    def len_loc(self, b):
        return mk("len", self.base_key(b))

    def length(self, st, b):
        if b[0] == "phi":
            return tm.phi(b[1], self.length(st, b[2]), self.length(st, b[3]))
        if b[0] in ("vals", "keys", "items", "enumerate", "listof", "rev"):
            return self.length(st, b[1])
        if b[0] == "zip":
            return self.length(st, b[1][0])
        if b[0] == "range":
            return tm.length(b)
        v = st.mem.get(self.len_loc(b))
        if v is not None:
            if b[0] == "obj":
                m = self.inst_map(b)
                if m:
                    v = tm.subst(v, m)
            return v
        if b[0] == "obj":
            inf = self.info(b)
            if inf.kind == "arr" and inf.init is not None:
                s = self.shape(st, inf.init)
                if s[0] == "tuple":
                    return s[1][0]
                return tm.length(inf.init)
            if inf.kind == "inst":
                f = self.prog.method(inf.cls, "__len__")
                if f is not None:
                    return self.call_func(st, f, [], {}, b)
        return tm.length(self.val(st, b))

    def list_extend(self, st, o, src):
        if src[0] == "phi":
            st.assign(self.branch(st, src[1], lambda s: (self.list_extend(s, o, src[2]), s)[1],
                                  lambda s: (self.list_extend(s, o, src[3]), s)[1]))
            return
        inf = self.info(o)

        def body(s, e, key, idx):
            if inf is not None and inf.kind == "set":
                self.set_add(s, o, e)
            else:
                self.append(s, o, e)
            return s
        st.assign(self.iterate(st.copy(), src, body))

    def set_add(self, st, o, v):
        self.effect(st, "add", o, v)
        self.add_entry(st, o, "add", v, v)
        st.mem[self.len_loc(o)] = mk("len", mk("setver", self.new_serial()))

    def write_item(self, st, b, i, v):
        if b[0] == "phi":
            def w(x):
                def f(s):
                    if x not in (NONE, UNDEF):
                        self.write_item(s, x, i, v)
                    return s
                return f
            st.assign(self.branch(st, b[1], w(b[2]), w(b[3])))
            return
        inf = self.info(b)
        t = self.type_of(b)
        if inf is not None and inf.kind == "inst" or (inf is None and t and t[0] == "cls"):
            f = self.prog.method((inf.cls if inf else t[1]), "__setitem__")
            if f is not None:
                self.call_func(st, f, [i, v], {}, b)
                return
        if inf is None and b[0] in ("sum", "mul", "op", "call", "mcall") and not self.is_location(b):
            o = self.alloc(st, "arr", init=b)
            for env in st.envs.values():
                for n, x in list(env.items()):
                    if x is b:
                        env[n] = o
            b, inf = o, self.info(o)
        # row of an array: a[i][j] = v is a[i, j] = v
        root, path = self.root_path(b, i)
        if root is not b:
            b, i = root, path
            inf = self.info(b)
        self.effect(st, "store", b, i, self.val(st, v) if self.is_array(b) else v)
        if self.is_array(b):
            v = self.val(st, v)
            if i[0] == "slc":
                self.slice_store(st, b, i, v)
                return
            self.add_entry(st, b, "set", i, v)
            return
        is_dict = (inf is not None and inf.kind == "dict") or (t and t[0] == "dict")
        if is_dict and v[0] == "obj" and self.info(v).kind in ("list", "dict", "set") and not self.log(st, v):
            # get-or-create: storing a fresh empty container when the key is missing
            for g in st.facts():
                if g[0] == "not" and g[1][0] == "cmp" and g[1][1] == "in" and g[1][2] is i \
                        and g[1][3] in (mk("flux", self.base_key(b), st.mem.get(mk("contents", self.base_key(b)), NONE)), b):
                    child = mk("item", b, i)
                    self.types[child] = self.type_of(v)
                    self.add_touch(st, b, i, child)
                    return
        old_len = None
        if is_dict:
            old_len = self.length(st, b)
            present = self.contains(st, i, b)
        self.add_entry(st, b, "set", i, v)
        if is_dict:
            if present is FALSE:
                st.mem[self.len_loc(b)] = tm.add(old_len, ONE)
            elif present is not TRUE:
                if st.loops and self.injective(i, [l for l, _ in st.loops if l not in self.own_loops(b)]) and \
                        all(e.loops and e.loops[-1][1] == st.loops[-1][1] for e in self.log(st, b)):
                    st.mem[self.len_loc(b)] = tm.add(old_len, ONE)
                else:
                    st.mem[self.len_loc(b)] = mk("len", mk("dictver", self.new_serial()))

    def is_location(self, t):
        return t[0] in ("p", "attr", "item", "elem", "glob", "slice")

    def root_path(self, b, i):
        path = list(i[1]) if i[0] == "tuple" else [i]
        root = b
        while root[0] == "item" and self.is_array(root[1]):
            path = ([root[2]] if root[2][0] != "tuple" else list(root[2][1])) + path
            root = root[1]
        if root is b:
            return b, i
        return root, tm.tup(path)

    def slice_store(self, st, b, i, v):
        lo, hi, sp = i[1], i[2], i[3]
        if lo is NONE and hi is NONE:
            self.add_entry(st, b, "fill", i, v)
            return
        lo = ZERO if lo is NONE else lo
        hi = self.length(st, b) if hi is NONE else hi
        n = tm.sub(hi, lo)
        if sp not in (NONE, ONE):
            self.add_entry(st, b, "opaque", i, v)
            return
        coll = self.count_coll(n)
        L = self.open_id(st, coll)
        idx = mk("idx", L)

        def body(s):
            self.add_entry(s, b, "set", tm.add(lo, idx), self.row(s, v, idx))
            return s
        st.assign(self.run_loop(st.copy(), L, body))

    def rank(self, v):
        """Number of dimensions of an array, where its construction shows it."""
        if v[0] == "phi":
            return self.rank(v[2]) or self.rank(v[3])
        if v[0] == "call" and v[1] in ("np.vstack", "np.stack", "np.row_stack"):
            return 2
        if v[0] in ("sum", "mul"):
            ranks = [self.rank(x[0] if v[0] == "sum" else x) for x in v[1]]
            return 2 if 2 in ranks else None
        return None

    def row(self, st, v, idx):
        """Row idx of an array-valued term (element-wise arithmetic distributes)."""
        if v[0] == "sum":
            return tm.add(*[tm.scale(self.row(st, x, idx), c) for x, c in v[1]], const(v[2]))
        if v[0] == "mul":
            r = ONE
            for x in v[1]:
                r = tm.mul(r, self.row(st, x, idx))
            return r
        if v[0] == "op":
            return tm.binop(v[1], self.row(st, v[2], idx), self.row(st, v[3], idx))
        if v[0] == "phi":
            return tm.phi(v[1], self.row(st, v[2], idx), self.row(st, v[3], idx))
        if self.is_array(v) or v[0] in ("obj", "red", "tuple") or (self.type_of(v) or (None,))[0] in ("list",):
            return self.read_item(st, v, idx)
        return v

    def add_touch(self, st, b, key, child):
        for e in self.log(st, b):
            if e.key is key and e.val is child and e.loops == st.loops:
                return
        self.add_entry(st, b, "set", key, child)

    def del_item(self, st, b, i):
        self.effect(st, "delitem", b, i)
        self.add_entry(st, b, "del", i, None)
        st.mem[self.len_loc(b)] = mk("len", mk("dictver", self.new_serial()))

    # ------------------------------------------------------------------ reads
    def read_item(self, st, b, i):
        k = b[0]
        if k == "phi":
            if b[2] in (NONE, UNDEF):
                return self.read_item(st, b[3], i)
            if b[3] in (NONE, UNDEF):
                return self.read_item(st, b[2], i)
            return tm.phi(b[1], self.read_item(st, b[2], i), self.read_item(st, b[3], i))
        if i[0] == "slc":
            return self.read_slice(st, b, i[1], i[2], i[3])
        if k == "tuple":
            if tm.is_int(i) and -len(b[1]) <= i[2] < len(b[1]):
                return b[1][i[2]]
            return mk("item", b, i)
        if k == "c":
            return tm.mkitem(b, i)
        if k in ("cls", "ext"):
            return b
        if k == "J":
            return self.j_get(st, b, i)
        if k in ("listof", "vals") and k != "obj":
            if k == "vals" and i[0] == "idx" and i[1][1] is b[1]:
                return mk("elem", i[1])
            if k == "listof":
                return self.read_item(st, b[1], i)
        inf = self.info(b)
        t = self.type_of(b)
        if (inf is not None and inf.kind == "inst") or (inf is None and t and t[0] == "cls"):
            c = inf.cls if inf else t[1]
            f = self.prog.method(c, "__getitem__")
            if f is not None:
                return self.call_func(st, f, [i], {}, b)
        if inf is not None:
            if inf.kind in ("list", "gen"):
                return self.list_get(st, b, i)
            if inf.kind == "dict":
                return self.dict_get(st, b, i)
            if inf.kind == "arr":
                if not self.log(st, b):
                    return self.read_item(st, inf.init, i) if inf.init is not None else mk("item", b, i)
                return self.dict_get(st, b, i)
            return mk("item", b, i)
        if self.log(st, b) or self.in_flux(st, b):
            return self.dict_get(st, b, i)
        auto = self.auto_child(b)
        if auto:
            child = mk("item", b, i)
            self.types.setdefault(child, ("dict", None, None))
            self.add_touch(st, b, i, child)
            return child
        return self.sym_item(st, b, i)

    def auto_child(self, b):
        """Sub-containers of autovivifying dicts autovivify too."""
        while b[0] == "item":
            b = b[1]
        inf = self.info(b)
        return inf is not None and inf.auto == "recursive"

    def sym_item(self, st, b, i):
        if i[0] in ("idx", "key") and i[1][1] is b:
            return mk("elem", i[1])
        if b[0] == "vals" and i[0] == "idx" and i[1][1] is b[1]:
            return mk("elem", i[1])
        if i[0] == "attr" and i[2] == "name" and i[1][0] == "elem" and i[1][1][1] is b:
            return i[1]
        if b[0] == "red" and b[1] == "list" and i[0] == "idx" and i[1][1] is b[2]:
            L = i[1]
            e, key, idx = self.loop_terms(L)
            v = tm.instantiate(b[3], e, key, idx, loop=L)
            if not (v[0] == "phi" and v[3] is SKIP):
                return v
        if i[0] == "tuple" and len(i[1]) > 1 and self.is_array(b) and all(x[0] != "slc" for x in i[1]):
            r = b
            for x in i[1]:
                r = self.read_item(st, r, x)
            return r
        if i[0] == "idx" and self.is_array(b) and b[0] in ("sum", "mul"):
            parts = [x for x, _ in b[1]] if b[0] == "sum" else b[1]
            ranks = [self.rank(x) for x in parts]
            if 2 in ranks and set(ranks) != {2}:
                return tm.mkitem(b, i)          # an operand that may be a row added to every row
            return self.row(st, b, i)
        return tm.mkitem(b, i)

    def list_get(self, st, b, i):
        if self.in_flux(st, b):
            return mk("item", mk("flux", self.base_key(b), st.mem[mk("contents", self.base_key(b))]), i)
        ents, ren = self.entries(st, b)
        n = self.length(st, b)
        if tm.is_int(i) and i[2] < 0:
            i = tm.add(n, i)
        for e in ents:
            if e.kind != "app":
                return tm.mkitem(self.val(st, b), i)
        for e in ents:
            pos = self._pos(e, ren)
            open_ = {l for l, _ in st.loops}
            if pos is i and all(tm.subst(l, ren) in open_ for l, _ in e.loops):
                g = self.implied(st, tm.subst(e.guard, ren))
                if g is TRUE:
                    return tm.subst(e.val, ren)
        v = self.val(st, b)
        return self.sym_item(st, v, i) if v is not b else mk("item", b, i)

    def dict_get(self, st, b, i):
        bk = self.base_key(b)
        ents, ren = self.entries(st, b)
        open_ = {l for l, _ in st.loops}
        serials = {s for _, s in st.loops}
        acc = []
        flux = self.in_flux(st, b)
        cur = st.loops[-1][1] if st.loops else None
        for e in reversed(ents):
            key = tm.subst(e.key, ren) if (ren and e.key is not None) else e.key
            if e.kind == "fill":
                v = self.row(st, tm.subst(e.val, ren) if ren else e.val, i)
                g = self.implied(st, tm.subst(e.guard, ren) if ren else e.guard)
                closed = [l for l, _ in e.loops if tm.subst(l, ren) not in open_]
                if g is TRUE and not closed:
                    return self._phis(acc, v)
                acc.append((g, v))
                continue
            if e.kind in ("set", "del") and key is i:
                val = NONE if e.kind == "del" else (tm.subst(e.val, ren) if ren else e.val)
                need = [l for l, _ in e.loops if tm.subst(l, ren) not in open_]
                if not need:
                    g = self.implied(st, tm.subst(e.guard, ren) if ren else e.guard)
                    if g is TRUE:
                        return self._phis(acc, val)
                    if g is FALSE:
                        continue
                    acc.append((g, val))
                    continue
                if not any(tm.uses_loop(val, l) for l in need) or True:
                    # stored in a loop on which neither key nor (for containers) value depends
                    if not any(tm.uses_loop(val, l) for l in need):
                        return self._phis(acc, val)
            if e.kind in ("set", "del") and self.keys_differ(st, key, i):
                continue
            if e.kind == "set" and len(e.loops) == 1 and e.guard is TRUE and not flux:
                # written for every position of a finished loop: take the round that wrote position i
                L0 = e.loops[0][0]
                if L0 not in open_ and not ren:
                    d = tm.sub(key, mk("idx", L0))
                    if not tm.uses_loop(d, L0):
                        j = tm.sub(i, d)
                        val = tm.subst(e.val, {mk("elem", L0): self.sym_item(st, L0[1], j), mk("idx", L0): j})
                        if not tm.uses_loop(val, L0):
                            return self._phis(acc, val)
            if e.kind in ("set", "del", "opaque", "clear"):
                inf = self.info(b)
                if inf is not None and not flux and inf.kind == "dict" and not inf.auto and \
                        all(x.kind == "set" and x.val[0] != "obj" for x in ents) and not any(sr in serials for x in ents for _, sr in x.loops):
                    return self._phis(acc, mk("item", self.val(st, b), i))
                self.unknown(st, f"read of {tm.show(i)} among stores at {tm.show(key) if key is not None else '?'}")
                return self._phis(acc, mk("item", mk("st", bk, st.mem.get(mk("contents", bk), NONE)), i))
        inf = self.info(b)
        if flux and (self.auto_child(b) or (inf is not None and inf.auto in ("list", "set", "dict", "recursive"))):
            if inf is not None and inf.auto is not None:
                return self._phis(acc, self.autoviv(st, b, i, inf))
            flux = False
        if flux:
            base = mk("flux", bk, st.mem[mk("contents", bk)])
            r = mk("item", base, i)
            if self.type_of(b):
                self.types.setdefault(r, self.elem_type(self.type_of(b)) or self.item_types.get(bk))
            return self._phis(acc, r)
        inf = self.info(b)
        if inf is not None and inf.kind == "dict":
            if inf.auto is not None:
                return self._phis(acc, self.autoviv(st, b, i, inf))
            if not ents:
                self.effect(st, "missing", b, i)
            return self._phis(acc, mk("item", b, i))
        if inf is not None and inf.kind == "arr":
            return self._phis(acc, self.row(st, inf.init, i) if inf.init is not None else mk("item", b, i))
        if self.auto_child(b):
            child = mk("item", b, i)
            self.types.setdefault(child, ("dict", None, None))
            self.add_touch(st, b, i, child)
            return self._phis(acc, child)
        return self._phis(acc, self.sym_item(st, b, i))

    def _phis(self, acc, v):
        for g, x in reversed(acc):
            v = tm.phi(g, x, v)
        return v

    def autoviv(self, st, b, i, inf):
        child = mk("item", b, i)
        if inf.auto == "recursive":
            self.types.setdefault(child, ("dict", None, None))
        else:
            self.types.setdefault(child, {"list": ("list", None), "set": ("set", None), "dict": ("dict", None, None),
                                          "int": ty.INT}.get(inf.auto))
        if inf.auto == "int":
            return ZERO
        self.add_touch(st, b, i, child)
        return child

    def keys_differ(self, st, a, b):
        if a is b:
            return False
        if a is None or b is None:
            return False
        if is_const(a) and is_const(b):
            return a[2] != b[2]
        if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
            return any(self.keys_differ(st, x, y) for x, y in zip(a[1], b[1]))
        d = tm.sub(a, b) if a[0] in ("sum", "idx", "len", "psum") or b[0] in ("sum", "idx", "len", "psum") else None
        if d is not None and tm.is_num(d) and d[2] != 0:
            return True
        c = tm.cmp("==", a, b)
        return tm.neg(c) in st.facts()

    def read_slice(self, st, b, lo, hi, sp):
        inf = self.info(b)
        if b[0] == "tuple" and all(x is NONE or tm.is_int(x) for x in (lo, hi, sp)):
            f = lambda x: None if x is NONE else x[2]
            return tm.tup(b[1][f(lo):f(hi):f(sp)])
        if b[0] == "c" and b[1] == "str" and all(x is NONE or tm.is_int(x) for x in (lo, hi, sp)):
            f = lambda x: None if x is NONE else x[2]
            return const(b[2][f(lo):f(hi):f(sp)])
        v = self.val(st, b)
        if v[0] == "tuple" and v is not b:
            return self.read_slice(st, v, lo, hi, sp)
        if lo in (NONE, ZERO) and hi is NONE and sp in (NONE, ONE):
            if inf is not None and inf.kind == "list":
                r = self.alloc(st, "list")
                self.list_extend(st, r, b)
                return r
            return v
        return mk("slice", v, ZERO if lo is NONE else lo, hi, sp)

    def contains(self, st, a, b):
        """a in b"""
        b = self.strip_iter(st, b)
        if b[0] == "keys":
            b = b[1]
        if b[0] == "phi":
            return tm.phi(b[1], self.contains(st, a, b[2]), self.contains(st, a, b[3]))
        if b[0] == "J":
            r = self.j_has(st, b, a)
            return r if r is not None else tm.cmp("in", a, b)
        if b[0] == "tuple":
            return tm.disj([self.compare(st, "==", a, x) for x in b[1]])
        inf = self.info(b)
        if inf is not None and inf.kind == "inst":
            f = self.prog.method(inf.cls, "__contains__")
            if f is not None:
                return self.truth(st, self.call_func(st, f, [a], {}, b))
        if inf is not None and inf.kind in ("list", "dict", "set"):
            if self.in_flux(st, b):
                ents, ren = self.entries(st, b)
                for e in reversed(ents):
                    k = e.key if e.kind == "set" else e.val
                    if k is a and st.loops and e.loops and e.loops[-1][1] == st.loops[-1][1] and \
                            self.implied(st, e.guard) is TRUE:
                        return TRUE
                return tm.cmp("in", a, mk("flux", self.base_key(b), st.mem[mk("contents", self.base_key(b))]))
            ents, ren = self.entries(st, b)
            if not ents:
                return FALSE
            open_ = {l for l, _ in st.loops}
            parts = []
            for e in ents:
                if e.kind not in ("app", "set", "add"):
                    return tm.cmp("in", a, self.val(st, b))
                k = e.key if e.kind == "set" else e.val
                k = tm.subst(k, ren) if ren else k
                g = tm.subst(e.guard, ren) if ren else e.guard
                loops = [tm.subst(l, ren) if ren else l for l, _ in e.loops]
                if k is a and all(l in open_ for l in loops):
                    parts.append(self.implied(st, g))
                    continue
                if is_const(a) and is_const(k):
                    if a[2] != k[2]:
                        continue
                    parts.append(g)
                    continue
                body = tm.conj([g, self.compare(st, "==", a, k)])
                ok = True
                for l in reversed(loops):
                    if tm.uses_loop(a, l):
                        ok = False
                        break
                    body = tm.red("any", l[1], tm.abstract(body, l))
                if not ok:
                    return tm.cmp("in", a, self.val(st, b))
                parts.append(body)
            return tm.disj(parts)
        if b[0] == "vals":
            pass
        if self.log(st, b):
            ents, ren = self.entries(st, b)
            for e in reversed(ents):
                if e.kind in ("set", "add") and (e.key if e.kind == "set" else e.val) is a and self.implied(st, e.guard) is TRUE \
                        and not [l for l, _ in e.loops if l not in {x for x, _ in st.loops}]:
                    return TRUE
            return tm.cmp("in", self.val(st, a), mk("st", self.base_key(b), st.mem.get(mk("contents", self.base_key(b)), NONE)))
        # membership of an element's own name in its owner's children
        if a[0] == "attr" and a[2] == "name" and a[1][0] == "elem" and a[1][1][1] is b:
            return TRUE
        if tm.is_str(a) and tm.is_str(b):
            return const(a[2] in b[2])
        return tm.cmp("in", self.val(st, a), self.val(st, b))

    # ------------------------------------------------------------------ reification
    def val(self, st, v, depth=0):
        """Value of a container as an immutable term (for comparison and uninterpreted calls)."""
        if v[0] == "tuple":
            return tm.tup([self.val(st, x, depth + 1) for x in v[1]])
        if v[0] != "obj" or depth > 12:
            return v
        inf = self.objs[v[1]]
        if inf.kind == "inst":
            return v
        if self.in_flux(st, v):
            return mk("flux", self.base_key(v), st.mem[mk("contents", self.base_key(v))])
        ents, ren = self.entries(st, v)
        if inf.kind == "arr":
            if not ents:
                return inf.init if inf.init is not None else v
            return mk("arrv", inf.init or NONE, tuple(self.val_entry(st, e, ren, depth) for e in ents))
        if any(e.kind not in ("app", "set", "add") for e in ents):
            return mk("opq", "mutated container", v)
        if inf.kind == "list":
            if all(not e.loops and self.implied(st, e.guard) is TRUE for e in ents):
                return tm.tup([self.val(st, tm.subst(e.val, ren) if ren else e.val, depth + 1) for e in ents])
            parts = self.val_group(st, ents, ren, 0, depth)
            if len(parts) == 1:
                return parts[0]
            return mk("concat", tuple(parts))
        if inf.kind == "set":
            if not ents:
                return mk("setof", ())
            return mk("setof", tuple(sorted({self.val_entry(st, e, ren, depth) for e in ents}, key=tm.tkey)))
        if inf.kind == "dict":
            return mk("dictof", tuple(self.val_entry(st, e, ren, depth) for e in ents))
        return v

    def val_entry(self, st, e, ren, depth):
        f = lambda x: x if not ren else tm.subst(x, ren)
        val = self.val(st, f(e.val), depth + 1) if e.val is not None else NONE
        key = f(e.key) if e.key is not None else NONE
        body = tm.tup([key, val]) if e.kind != "add" else val
        g = self.implied(st, f(e.guard))
        if g is not TRUE:
            body = tm.phi(g, body, SKIP)
        for l, _ in reversed(e.loops):
            l = f(l)
            body = mk("red", "list", l[1], tm.abstract(body, l))
        return body

    def val_group(self, st, ents, ren, d, depth, vf=None):
        parts = []
        i = 0
        f = lambda x: x if not ren else tm.subst(x, ren)
        while i < len(ents):
            e = ents[i]
            if len(e.loops) > d:
                L0, sr = e.loops[d]
                j = i
                while j < len(ents) and len(ents[j].loops) > d and ents[j].loops[d][1] == sr:
                    j += 1
                L = f(L0)
                inner = self.val_group(st, ents[i:j], ren, d + 1, depth, vf)
                nested = any(len(x.loops) > d + 1 for x in ents[i:j]) or len(inner) > 1 or \
                    (inner[0][0] == "tuple" and len(inner[0][1]) > 1)
                if nested:
                    body = inner[0] if len(inner) == 1 else mk("concat", tuple(inner))
                    parts.append(mk("red", "flat", L[1], tm.abstract(body, L)))
                else:
                    b = inner[0]
                    parts.append(mk("red", "list", L[1], tm.abstract(b[1][0] if b[0] == "tuple" and b[1] else b, L)))
                i = j
            else:
                v = (vf or self.val)(st, f(e.val), depth + 1)
                g = self.implied(st, f(e.guard))
                parts.append(tm.tup([tm.phi(g, v, SKIP)]))
                i += 1
        merged = []
        for p in parts:
            if merged and p[0] == "tuple" and merged[-1][0] == "tuple":
                merged[-1] = tm.tup(merged[-1][1] + p[1])
            else:
                merged.append(p)
        return merged

    # ------------------------------------------------------------------ calls
    def e_Call(self, st, n):
        d = dotted(n.func) or ""
        root = d.split(".")[0]
        if root in PRAGMATIC_LOG and root not in st.env:
            r = self.prog.lookup(self.frames[-1].func.module, root)
            if root == "print" or r is None or r[0] != "func":
                return NONE
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            c = fr.func.cls
            selfname = (fr.func.node.args.posonlyargs + fr.func.node.args.args)[0].arg
            return mk("super", c.qualname, st.env[selfname])
        f = self.eval(st, n.func)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                vv = self.val(st, v)
                if vv[0] == "tuple":
                    args.extend([self.read_item(st, v, const(i)) for i in range(len(vv[1]))])
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(st, a))
            if st.dead:
                return UNDEF
        for k in n.keywords:
            v = self.eval(st, k.value)
            if st.dead:
                return UNDEF
            if k.arg is None:
                vv = self.val(st, v)
                if vv[0] == "dictof" and all(e[0] == "tuple" and tm.is_str(e[1][0]) for e in vv[1]):
                    for e in vv[1]:
                        kw[e[1][0][2]] = self.read_item(st, v, e[1][0])
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.cur_node = n
        self.call_sites += 1
        return self.apply(st, f, args, kw)

    def apply(self, st, f, args, kw):
        k = f[0]
        if k == "fn":
            func, clo = self.fns[f[1]]
            if func.cls is not None and not func.is_static and args and not func.is_classmethod:
                return self.call_func(st, func, args[1:], kw, args[0], clo)
            return self.call_func(st, func, args, kw, None, clo)
        if k == "bound":
            func, clo = self.fns[f[1][1]]
            return self.call_func(st, func, args, kw, f[2], clo)
        if k == "cls":
            return self.instantiate(st, self.prog.classes[f[1]], args, kw)
        if k == "meth":
            return self.method(st, f[1], f[2], args, kw)
        if k == "ext":
            return self.ext_call(st, f[1], args, kw)
        if k == "partial":
            return self.apply(st, f[1], list(f[2]) + args, {**dict(f[3]), **kw})
        if k == "phi":
            a = st.copy().guard(f[1])
            va = self.apply(a, f[2], args, kw)
            b = st.copy().guard(tm.neg(f[1]))
            vb = self.apply(b, f[3], args, kw)
            st.assign(self.join(f[1], a, b))
            return tm.phi(f[1], va, vb)
        if k == "attr":
            return self.method(st, f[1], f[2], args, kw)
        t = self.type_of(f)
        if t and t[0] == "cls":
            m = self.prog.method(t[1], "__call__")
            if m is not None:
                return self.call_func(st, m, args, kw, f)
        self.unknown(st, f"call of {tm.show(f)}")
        return mk("call", "apply", (f,) + tuple(self.val(st, a) for a in args),
                  tuple(sorted((n, self.val(st, v)) for n, v in kw.items())))

    def bind(self, st, f: Func, args, kw, selfv):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        if selfv is not None and not f.is_static:
            vals = [selfv] + vals
        star = [i for i, v in enumerate(vals) if v[0] == "star"]
        if star and not (a.vararg and star[0] >= len(params)):
            base = vals[star[0]][1]
            rest = vals[:star[0]]
            j = 0
            while len(rest) < len(params):
                rest.append(self.read_item(st, base, const(j)))
                j += 1
            vals = rest
        for p, v in zip(params, vals):
            env[p] = v
        extra = vals[len(params):]
        if a.vararg:
            if len(extra) == 1 and extra[0][0] == "star" and extra[0][1][0] in ("p", "attr"):
                env[a.vararg.arg] = extra[0][1]
            elif any(v[0] == "star" for v in extra):
                o = self.alloc(st, "list")
                for v in extra:
                    if v[0] == "star":
                        self.list_extend(st, o, v[1])
                    else:
                        self.append(st, o, v)
                env[a.vararg.arg] = o
            else:
                env[a.vararg.arg] = tm.tup(extra)
        elif extra and not star:
            self.effect(st, "arity", f.qualname)
        known = set(params) | {p.arg for p in a.kwonlyargs}
        rest = {}
        for n, v in kw.items():
            if n in known:
                env[n] = v
            else:
                rest[n] = v
        if a.kwarg and set(rest) == {"**"}:
            env[a.kwarg.arg] = rest["**"]
        elif a.kwarg:
            o = self.alloc(st, "dict")
            for n, v in rest.items():
                self.write_item(st, o, const(n), v)
            env[a.kwarg.arg] = o
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p, d in defaults.items():
            if p not in env:
                env[p] = ("default", d)
        return env

    def push_frame(self, f, fid):
        from .interp import Frame
        fr = Frame(f, fid)
        self.frames.append(fr)
        return fr

    def is_opaque(self, f):
        if f.qualname in self.opaque_names or f.name in self.opaque_names:
            return True
        if self.inline_pred is not None and not self.inline_pred(f):
            return True
        return False

    def call_func(self, st, f: Func, args, kw, selfv=None, clo=None):
        self.seen_funcs.add(f.qualname)
        if f.is_classmethod and selfv is None and f.cls is not None:
            selfv = mk("cls", f.cls.qualname)
        env = self.bind(st, f, args, kw, selfv)
        fid = self.new_serial()
        saved = st.fid
        recursive = sum(1 for fr in self.frames if fr.func is f)
        if recursive >= 3 or len(self.frames) > 60:
            return self.opaque_result(st, f, env)
        st.envs[fid] = {}
        fr = self.push_frame(f, fid)
        self.clo_of[fid] = clo
        for p, v in env.items():
            if isinstance(v, T):
                st.envs[fid][p] = v
        st.fid = fid
        for p, v in env.items():
            if not isinstance(v, T):
                st.envs[fid][p] = self.eval(st, v[1])
        self.annotate_params(f, st.envs[fid])
        if self.is_opaque(f):
            e = dict(st.envs[fid])
            self.frames.pop()
            st.fid = saved
            del st.envs[fid]
            return self.opaque_result(st, f, e)
        hook = self.hooks.get(f.qualname) or self.hooks.get(f.name)
        if hook is not None:
            e = dict(st.envs[fid])
            r = hook(self, st, f, e)
            if r is not None:
                self.frames.pop()
                st.fid = saved
                del st.envs[fid]
                return r
        node = f.node
        g0 = st.guards
        mark = len(self.exits)
        loops, self.loop_ctxs = self.loop_ctxs, []
        if isinstance(node, ast.Lambda):
            v = self.eval(st, node.body)
            s = st
            s.envs[fid]["__ret__"] = v
        else:
            if f.is_generator:
                fr.gen = self.alloc(st, "list")
            s = self.exec_block(st.copy(), node.body)
            if not s.dead:
                s.envs[fid]["__ret__"] = fr.gen if fr.gen is not None else NONE
            s = self.merge(s, "return", fr, mark, g0)
        self.loop_ctxs = loops
        self.frames.pop()
        if s.dead:
            # every path raises (or leaves an enclosing loop)
            st.assign(s)
            st.fid = saved
            st.dead = s.dead if s.dead in ("raise",) else "raise"
            return UNDEF
        v = s.envs[fid].pop("__ret__", NONE)
        s.fid = saved
        if not fr.has_closures:
            s.envs.pop(fid, None)
        # conditions on values local to the call survive only as checks or as branch facts
        s.guards = tuple((g, k) for i, (g, k) in enumerate(s.guards) if i < len(g0) or k == "check" or k == "branch")
        st.assign(s)
        rt = ty.parse(self.prog, f.module, getattr(node, "returns", None), f.cls)
        if rt is not None and v[0] not in ("c", "obj", "tuple") and self.type_of(v) is None:
            self.set_type(v, rt)
        return v

    def annotate_params(self, f, env):
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(p.arg)
            if isinstance(v, T) and v[0] not in ("c", "obj", "tuple") and self.type_of(v) is None:
                t = self.param_types.get((f.qualname, p.arg)) or ty.parse(self.prog, f.module, p.annotation, f.cls)
                self.set_type(v, t)

    def opaque_result(self, st, f, env):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + \
            [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        vals = []
        for n in names:
            v = env.get(n)
            if v is None:
                v = UNDEF
            elif not isinstance(v, T):
                v = self.eval_in(st, f, v[1])
            vals.append(self.val(st, v))
        r = mk("call", f.qualname, tuple(vals), ())
        self.effect(st, "call", f.qualname, r, tuple(env.get(n, UNDEF) if isinstance(env.get(n, UNDEF), T) else UNDEF for n in names), tuple(names))
        rt = ty.parse(self.prog, f.module, getattr(f.node, "returns", None), f.cls)
        self.set_type(r, rt)
        return r

    def eval_in(self, st, f, expr):
        fid = self.new_serial()
        saved = st.fid
        st.envs[fid] = {}
        st.fid = fid
        self.push_frame(f, fid)
        v = self.eval(st, expr)
        self.frames.pop()
        st.fid = saved
        del st.envs[fid]
        return v

    def instantiate(self, st, c: Class, args, kw):
        if any(b.split(".")[-1] in ("Exception", "ValueError", "RuntimeError", "KeyError") for b in c.bases):
            return mk("opq", "exception")
        hook = self.hooks.get(c.qualname) or self.hooks.get(c.name)
        if hook is not None:
            r = hook(self, st, c, (args, kw))
            if r is not None:
                return r
        o = self.alloc(st, "inst", cls=c)
        self.effect(st, "new", o, c.qualname)
        f = self.prog.method(c, "__init__")
        if f is not None:
            self.call_func(st, f, args, kw, o)
        elif any("dataclass" in (dotted(d) or "") for d in c.node.decorator_list):
            names = list(c.attr_ann)
            for n, v in zip(names, args):
                st.mem[self.attr_loc(o, n)] = v
            for n, v in kw.items():
                st.mem[self.attr_loc(o, n)] = v
        return o
