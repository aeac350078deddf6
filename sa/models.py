"""Transfer functions for built-ins, string/list/dict methods and numpy."""
from __future__ import annotations

from . import terms as tm
from . import typesys as ty
from .state import SKIP, UNDEF, Entry
from .terms import FALSE, NONE, ONE, TRUE, ZERO, T, const, is_const, mk

LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "index", "count", "copy", "clear"}
DICT_METHODS = {"keys", "values", "items", "get", "pop", "update", "setdefault", "copy", "clear", "popitem"}
SET_METHODS = {"add", "discard", "remove", "union", "difference", "intersection", "update", "issubset", "issuperset",
               "copy", "pop", "clear", "isdisjoint"}
STR_METHODS = {"split", "join", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "lower", "upper",
               "format", "encode", "decode", "rsplit", "splitlines", "find", "isdigit", "partition", "rpartition", "zfill",
               "title", "isalnum", "rfind", "index", "count", "casefold", "removeprefix", "removesuffix"}
ARR_METHODS = {"copy", "tolist", "flatten", "reshape", "astype", "all", "any", "sum", "mean", "min", "max", "dot",
               "argmin", "argmax", "item", "ravel", "transpose", "cumsum", "fill", "sort", "nonzero", "round", "view",
               "argsort", "std", "prod", "squeeze", "tobytes", "itemset", "put", "resize", "clip", "repeat", "swapaxes"}
OTHER_METHODS = {"exists", "mkdir", "is_dir", "is_file", "glob", "iterdir", "write", "read", "readlines", "readline", "close",
                 "match", "fullmatch", "search", "group", "groups", "sub", "findall", "save", "load", "touch", "unlink", "seek",
                 "compile", "finditer", "rmdir", "stem", "open", "read_text", "write_text", "writelines", "add_mesh", "show",
                 "__init__", "hexdigest", "digest", "as_posix", "rglob", "resolve", "absolute"}
ALL_METHODS = LIST_METHODS | DICT_METHODS | SET_METHODS | STR_METHODS | ARR_METHODS | OTHER_METHODS
NP_ALLOC = {"np.zeros", "np.ones", "np.empty", "np.full", "np.array", "np.zeros_like", "np.ones_like", "np.empty_like",
            "np.full_like", "np.copy"}

NEVER = mk("never")


class Models:
    def is_method_name(self, st, b, name, t):
        if b[0] == "obj":
            k = self.info(b).kind
            return name in {"list": LIST_METHODS, "dict": DICT_METHODS, "set": SET_METHODS, "arr": ARR_METHODS}.get(k, ())
        if t == ty.STR:
            return name in STR_METHODS
        if t == ty.ARR:
            return name in ARR_METHODS
        if t and t[0] == "dict":
            return name in DICT_METHODS
        if t and t[0] in ("list", "tuple"):
            return name in LIST_METHODS
        if t and t[0] == "set":
            return name in SET_METHODS
        return name in ALL_METHODS

    # ------------------------------------------------------------------ types of opaque calls
    def call_type(self, t):
        n = t[1]
        if n.startswith("np.") or n.startswith("numpy."):
            last = n.split(".")[-1]
            if last in ("dot", "max", "min", "sum", "isclose", "allclose", "abs", "sqrt", "floor", "any", "all", "sign", "exp", "mean"):
                return None
            return ty.ARR
        return {"str": ty.STR, "int": ty.INT, "float": ty.FLOAT, "abs": ty.FLOAT}.get(n)

    def mcall_type(self, t):
        bt = self.type_of(t[1])
        if t[2] in ("copy", "astype", "reshape", "flatten", "ravel", "round", "transpose", "clip") and bt == ty.ARR:
            return ty.ARR
        if t[2] in ("copy",):
            return bt
        if t[2] in ("strip", "lower", "upper", "replace", "join", "format", "lstrip", "rstrip"):
            return ty.STR
        if t[2] == "split":
            return ("list", ty.STR)
        if t[2] == "get" and bt and bt[0] == "dict":
            return bt[2]
        return None

    def mk_range(self, args):
        if len(args) == 1:
            return mk("range", ZERO, args[0], ONE)
        if len(args) == 2:
            return mk("range", args[0], args[1], ONE)
        return mk("range", *args[:3])

    # ------------------------------------------------------------------ built-in and external functions
    def ext_call(self, st, name, args, kw):
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is not None:
                return m(st, args, kw)
            if name[9:].endswith(("Error", "Exception", "Warning")):
                return mk("opq", "exception")
            name = name[9:]
        hook = self.hooks.get(name)
        if hook is not None:
            r = hook(self, st, name, (args, kw))
            if r is not None:
                return r
        m = getattr(self, "f_" + name.replace(".", "_"), None)
        if m is not None:
            return m(st, args, kw)
        if name in NP_ALLOC:
            r = self.np_alloc_term(st, name, args, kw)
            return self.alloc(st, "arr", init=r)
        return self.opaque_call(st, name, args, kw)

    def opaque_call(self, st, name, args, kw):
        vals = tuple(self.val(st, a) for a in args)
        kws = tuple(sorted((n, self.val(st, v)) for n, v in kw.items()))
        r = mk("call", name, vals, kws)
        self.effect(st, "ext", name, r, tuple(args), tuple(sorted(kw.items())))
        return r

    def np_alloc_term(self, st, name, args, kw):
        vals = [self.val(st, a) for a in args]
        kws = {n: self.val(st, v) for n, v in kw.items()}
        if name in ("np.array", "np.copy") and vals:
            x = vals[0]
            if name == "np.array" and len(vals) > 1:
                kws["dtype"] = vals[1]
            dt = kws.get("dtype")
            if x[0] == "mcall" and x[2] == "tolist" and self.type_of(x[1]) == ty.ARR:
                # numbers survive the conversion to a list; dtype must be the array's own
                if dt is not None and self.same_dtype(x[1], dt):
                    return x[1]
            if self.type_of(x) == ty.ARR and (dt is None or self.same_dtype(x, dt)):
                return x
            return mk("call", "np.array", (x,), tuple(sorted(kws.items())))
        if name in ("np.zeros", "np.ones", "np.empty") and len(vals) > 1:
            kws["dtype"] = vals[1]
            vals = vals[:1]
        if name == "np.full" and len(vals) > 2:
            kws["dtype"] = vals[2]
            vals = vals[:2]
        if name in ("np.zeros", "np.ones", "np.empty", "np.full"):
            if "shape" in kws:
                vals.insert(0, kws.pop("shape"))
            if "fill_value" in kws:
                vals.append(kws.pop("fill_value"))
        return mk("call", name, tuple(vals), tuple(sorted(kws.items())))

    POINTLIKE = {"pts", "vn", "position", "velocity", "vertices", "points"}

    def same_dtype(self, x, dt):
        """dt is the element type of array x (floating coordinates / integer indices)."""
        d = dt[1] if dt[0] == "ext" else None
        is_float = d in ("np.float64", "builtins.float", "np.double")
        is_int = d in ("np.int32", "np.int64", "builtins.int", "np.intp")
        base = x
        while base[0] in ("slice", "item", "mcall"):
            base = base[1]
        if base[0] == "attr" and base[2] in ("tri", "faces"):
            return is_int
        if base[0] == "attr" and base[2] in self.POINTLIKE:
            return is_float
        if base[0] == "p" and (self.ptype_name.get(base) or "") == "IndexType":
            return is_int
        return is_float

    def b_len(self, st, args, kw):
        n = self.length(st, args[0])
        if args[0][0] == "obj" and n[0] not in ("c", "len"):
            self.len_reg[n] = args[0]
        return n

    def b_range(self, st, args, kw):
        return self.mk_range([self.val(st, a) for a in args])

    def f_numba_prange(self, st, args, kw):
        return self.mk_range([self.val(st, a) for a in args])

    def b_enumerate(self, st, args, kw):
        start = kw.get("start", args[1] if len(args) > 1 else ZERO)
        return mk("enumerate", args[0], start)

    def b_zip(self, st, args, kw):
        return mk("zip", tuple(args))

    def b_reversed(self, st, args, kw):
        a = args[0]
        v = self.val(st, a)
        return mk("rev", v if v[0] == "tuple" else a)

    def b_iter(self, st, args, kw):
        return args[0]

    def b_list(self, st, args, kw):
        return self.to_seq(st, args, "list")

    def b_tuple(self, st, args, kw):
        return self.to_seq(st, args, "tuple")

    def to_seq(self, st, args, kind):
        if not args:
            return self.alloc(st, "list") if kind == "list" else tm.tup([])
        a = args[0]
        if a[0] == "tuple" and kind == "tuple":
            return a
        if a[0] in ("vals", "keys", "items") and a[1][0] != "obj":
            if kind == "tuple":
                return a
        inf = self.info(a)
        if inf is None and kind == "tuple" and a[0] in ("p", "attr", "item", "elem", "call", "mcall", "sorted", "red", "concat", "setof"):
            return a
        if inf is not None and inf.kind in ("list",) and kind == "tuple":
            v = self.val(st, a)
            if v[0] == "tuple":
                return tm.tup([self.read_item(st, a, const(i)) for i in range(len(v[1]))])
            return a
        o = self.alloc(st, "list")
        self.list_extend(st, o, a)
        return o

    def b_set(self, st, args, kw):
        o = self.alloc(st, "set")
        if args:
            a = args[0]
            if self.info(a) is None and a[0] not in ("tuple", "phi", "vals", "keys", "range", "zip", "enumerate"):
                return mk("call", "set", (a,), ())
            self.list_extend(st, o, a)
        return o

    b_frozenset = b_set

    def b_dict(self, st, args, kw):
        o = self.alloc(st, "dict")
        if args:
            self.method(st, o, "update", [args[0]], {})
        for n, v in kw.items():
            self.write_item(st, o, const(n), v)
        return o

    def f_collections_defaultdict(self, st, args, kw):
        auto = "none"
        if args:
            a = args[0]
            if a[0] == "ext" and a[1] in ("builtins.list", "builtins.set", "builtins.dict", "builtins.int"):
                auto = a[1].split(".")[1]
            elif a[0] == "fn":
                f = self.fns[a[1]][0]
                auto = "recursive" if any(fr.func.node is f.node for fr in self.frames) or self.makes_defaultdict(f) else "opaque"
        return self.alloc(st, "dict", auto=auto)

    def makes_defaultdict(self, f):
        import ast
        return any(isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "defaultdict"
                   for n in ast.walk(f.node))

    def b_sorted(self, st, args, kw):
        v = self.val(st, args[0])
        key = kw.get("key", NONE)
        if v[0] == "tuple" and all(is_const(x) for x in v[1]) and not kw:
            try:
                return tm.tup([const(x) for x in sorted(y[2] for y in v[1])])
            except TypeError:
                pass
        r = mk("sorted", args[0] if args[0][0] == "obj" and False else v, key, kw.get("reverse", FALSE))
        self.set_type(r, ("list", self.elem_type(self.type_of(args[0]))))
        return r

    def b_min(self, st, args, kw):
        return self.minmax(st, "min", args, kw)

    def b_max(self, st, args, kw):
        return self.minmax(st, "max", args, kw)

    def minmax(self, st, op, args, kw):
        vals = [self.val(st, a) for a in args]
        if all(tm.is_num(v) for v in vals) and len(vals) > 1:
            return const((min if op == "min" else max)(v[2] for v in vals))
        return mk("call", op, tuple(vals) if len(vals) == 1 else tuple(sorted(vals, key=tm.tkey)),
                  tuple(sorted((k, v) for k, v in kw.items())))

    def b_sum(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        fid = st.fid
        name = "acc%d" % self.new_serial()
        st.env[name] = start

        def body(s, e, key, idx):
            s.envs[fid][name] = tm.add(s.envs[fid][name], self.val(s, e))
            return s
        s = self.iterate_named(st, args[0], body, name)
        st.assign(s)
        return st.envs[fid].pop(name)

    def iterate_named(self, st, it, body, name):
        # accumulator names must take part in the loop-carried comparison
        return self.iterate(st.copy(), it, body)

    def b_any(self, st, args, kw):
        return self.quant(st, args[0], "any")

    def b_all(self, st, args, kw):
        return self.quant(st, args[0], "all")

    def quant(self, st, it, op):
        if self.info(it) is None and self.is_array(it):
            return mk("call", op, (self.val(st, it),), ())
        fid = st.fid
        name = "acc%d" % self.new_serial()
        st.env[name] = FALSE if op == "any" else TRUE

        def body(s, e, key, idx):
            t = self.truth(s, e)
            cur = s.envs[fid][name]
            s.envs[fid][name] = tm.disj([cur, t]) if op == "any" else tm.conj([cur, t])
            return s
        s = self.iterate(st.copy(), it, body)
        st.assign(s)
        return st.envs[fid].pop(name)

    def b_isinstance(self, st, args, kw):
        x, c = args
        cs = c[1] if c[0] == "tuple" else (c,)
        t = self.type_of(x)
        out = []
        for k in cs:
            if k[0] == "cls" and t and t[0] == "cls":
                out.append(const(self.prog.is_subclass(t[1], self.prog.classes[k[1]])))
            elif k[0] == "cls" and t and t[0] != "cls":
                out.append(FALSE)
            elif k[0] == "ext" and k[1].startswith("builtins.") and t:
                out.append(const(t[0] == k[1][9:]))
            else:
                out.append(mk("call", "isinstance", (self.val(st, x), k), ()))
        return tm.disj(out)

    def b_str(self, st, args, kw):
        if not args:
            return const("")
        return self.to_str(self.val(st, args[0]))

    def b_int(self, st, args, kw):
        v = self.val(st, args[0]) if args else ZERO
        if tm.is_num(v) and v[2] != "nan":
            return const(int(v[2]))
        if self.type_of(v) == ty.INT:
            return v
        return mk("call", "int", (v,), ())

    def b_float(self, st, args, kw):
        v = self.val(st, args[0]) if args else ZERO
        if tm.is_num(v) and v[2] != "nan":
            return const(float(v[2]))
        return mk("call", "float", (v,), ())

    def b_bool(self, st, args, kw):
        return self.truth(st, args[0])

    def b_abs(self, st, args, kw):
        v = self.val(st, args[0])
        if tm.is_num(v):
            return const(abs(v[2]))
        return mk("call", "abs", (v,), ())

    def b_id(self, st, args, kw):
        return mk("call", "id", (args[0],), ())

    def b_map(self, st, args, kw):
        o = self.alloc(st, "list")

        def body(s, e, key, idx):
            self.append(s, o, self.apply(s, args[0], [e], {}))
            return s
        st.assign(self.iterate(st.copy(), args[1], body))
        return o

    def b_filter(self, st, args, kw):
        o = self.alloc(st, "list")

        def body(s, e, key, idx):
            c = self.truth(s, self.apply(s, args[0], [e], {})) if args[0] is not NONE else self.truth(s, e)
            return self.branch(s, c, lambda x: (self.append(x, o, e), x)[1], lambda x: x) if not is_const(c) else \
                ((self.append(s, o, e), s)[1] if c is TRUE else s)
        st.assign(self.iterate(st.copy(), args[1], body))
        return o

    def b_getattr(self, st, args, kw):
        if len(args) >= 2 and tm.is_str(args[1]):
            return self.read_attr(st, args[0], args[1][2])
        return self.unknown(st, "getattr")

    def b_hasattr(self, st, args, kw):
        return mk("call", "hasattr", tuple(args), ())

    def b_setattr(self, st, args, kw):
        if tm.is_str(args[1]):
            self.write_attr(st, args[0], args[1][2], args[2])
        return NONE

    def b_callable(self, st, args, kw):
        if args[0][0] in ("attr", "p", "elem", "item", "call", "mcall", "phi"):
            return mk("call", "callable", (args[0],), ())
        return const(args[0][0] in ("fn", "bound", "cls", "ext", "meth"))

    def b_type(self, st, args, kw):
        t = self.type_of(args[0])
        if t and t[0] == "cls":
            return mk("cls", t[1].qualname)
        return mk("call", "type", (args[0],), ())

    def b_object(self, st, args, kw):
        return mk("opq", "object", self.new_serial())

    def b_next(self, st, args, kw):
        a = args[0]
        v = self.val(st, a)
        if v[0] == "tuple" and v[1]:
            return v[1][0]
        from .interp import LoopCtx
        ctx = LoopCtx(node=None)
        fid = st.fid
        name = "acc%d" % self.new_serial()
        st.env[name] = args[1] if len(args) > 1 else NEVER
        mark, g0 = len(self.exits), st.guards

        def body(s, e, key, idx):
            s.envs[fid][name] = e
            self.loop_ctxs.append(ctx)
            s = self.loop_exit(s, "break")
            self.loop_ctxs.pop()
            return s
        s = self.merge(self.iterate(st, a, body), "break", ctx, mark, g0)
        st.assign(s)
        r = st.envs[fid].pop(name)
        if r[0] == "phi" and NEVER in (r[2], r[3]):
            r = r[3] if r[2] is NEVER else r[2]
        return r

    def b_round(self, st, args, kw):
        return mk("call", "round", tuple(self.val(st, x) for x in args), ())

    def f_functools_partial(self, st, args, kw):
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))

    def f_copy_copy(self, st, args, kw):
        return self.method(st, args[0], "copy", [], {})

    def f_itertools_chain(self, st, args, kw):
        o = self.alloc(st, "list")
        for a in args:
            self.list_extend(st, o, a)
        return o

    def f_itertools_chain_from_iterable(self, st, args, kw):
        o = self.alloc(st, "list")

        def body(s, e, key, idx):
            self.list_extend(s, o, e)
            return s
        st.assign(self.iterate(st.copy(), args[0], body))
        return o

    def f_itertools_product(self, st, args, kw):
        v = [self.val(st, a) for a in args]
        rep = kw.get("repeat")
        if rep is not None and tm.is_int(rep):
            v = v * rep[2]
        out = []
        for x in v:
            if x[0] == "range" and all(tm.is_int(y) for y in x[1:4]):
                x = tm.tup([const(i) for i in range(x[1][2], x[2][2], x[3][2])])
            out.append(x)
        if all(x[0] == "tuple" for x in out):
            import itertools
            return tm.tup([tm.tup(c) for c in itertools.product(*[x[1] for x in out])])
        o = self.alloc(st, "list")

        def go(s, i, acc):
            if i == len(args):
                self.append(s, o, tm.tup(acc))
                return s
            return self.iterate(s, args[i] if i < len(args) else args[0], lambda s2, e, k, x: go(s2, i + 1, acc + [e]))
        st.assign(go(st.copy(), 0, []))
        return o

    def f_np_float64(self, st, args, kw):
        return self.val(st, args[0]) if args else ZERO

    def f_np_int32(self, st, args, kw):
        return self.b_int(st, args, kw)

    f_np_int64 = f_np_int32

    # ------------------------------------------------------------------ methods of built-in types
    def method(self, st, b, name, args, kw):
        if b[0] == "phi" and b[2] not in (NONE, UNDEF) and b[3] not in (NONE, UNDEF):
            s1 = st.copy().guard(b[1])
            v1 = self.call_method_on(s1, b[2], name, list(args), dict(kw))
            s2 = st.copy().guard(tm.neg(b[1]))
            v2 = self.call_method_on(s2, b[3], name, list(args), dict(kw))
            st.assign(self.join(b[1], s1, s2))
            return tm.phi(b[1], v1, v2)
        hook = self.hooks.get("." + name)
        if hook is not None:
            r = hook(self, st, b, (args, kw))
            if r is not None:
                return r
        inf = self.info(b)
        t = self.type_of(b)
        kind = inf.kind if inf else (t[0] if t else None)
        if kind == "tuple" or kind == "gen":
            kind = "list"
        m = getattr(self, f"m_{kind}_{name}", None) if kind else None
        if name in ("any", "all") and m is None and tm.is_boolish(b):
            m = self.m_arr_any if name == "any" else self.m_arr_all
        if m is None and kind is None:
            for kd in ("str", "list", "dict", "set", "arr"):
                if name in {"str": STR_METHODS, "list": LIST_METHODS, "dict": DICT_METHODS, "set": SET_METHODS, "arr": ARR_METHODS}[kd]:
                    owners = [k for k, ms in (("str", STR_METHODS), ("list", LIST_METHODS), ("dict", DICT_METHODS),
                                              ("set", SET_METHODS), ("arr", ARR_METHODS)) if name in ms]
                    if len(owners) == 1 or name in ("copy",):
                        m = getattr(self, f"m_{kd}_{name}", None)
                    break
        if m is not None:
            r = m(st, b, args, kw)
            if r is not NotImplemented:
                return r
        vals = tuple(self.val(st, a) for a in args)
        kws = tuple(sorted((n, self.val(st, v)) for n, v in kw.items()))
        bb = self.val(st, b) if b[0] in ("obj", "tuple") else b
        r = mk("mcall", bb, name, vals, kws)
        self.effect(st, "mcall", bb, name, r, tuple(args))
        return r

    def m_arr_any(self, st, b, args, kw, op="any"):
        """any/all over the elements; arrays made from a list on the spot are taken element by element."""
        if args or kw:
            return NotImplemented
        x = self.val(st, b)
        if x[0] == "call" and x[1] in ("np.array", "np.asarray") and x[2][0][0] == "tuple":
            out = []
            for y in x[2][0][1]:
                g = TRUE
                while y[0] == "phi" and SKIP in (y[2], y[3]):
                    g, y = (tm.conj([g, y[1]]), y[2]) if y[3] is SKIP else (tm.conj([g, tm.neg(y[1])]), y[3])
                if y[0] in ("tuple", "red", "cat", "phi"):
                    break
                y = self.truth(st, y)
                out.append(tm.conj([g, y]) if op == "any" else tm.disj([tm.neg(g), y]))
            else:
                return tm.disj(out) if op == "any" else tm.conj(out)
        if x[0] == "not":
            return tm.neg(mk("call", "all" if op == "any" else "any", (x[1],), ()))
        return mk("call", op, (x,), ())

    def m_arr_all(self, st, b, args, kw):
        return self.m_arr_any(st, b, args, kw, "all")

    def f_np_any(self, st, args, kw):
        r = self.m_arr_any(st, args[0], args[1:], kw)
        return self.opaque_call(st, "np.any", args, kw) if r is NotImplemented else r

    def f_np_all(self, st, args, kw):
        r = self.m_arr_any(st, args[0], args[1:], kw, "all")
        return self.opaque_call(st, "np.all", args, kw) if r is NotImplemented else r

    def call_method_on(self, st, b, name, args, kw):
        f = self.read_attr(st, b, name)
        return self.apply(st, f, args, kw)

    # lists
    def m_list_append(self, st, b, args, kw):
        self.append(st, b, args[0])
        return NONE

    def m_list_extend(self, st, b, args, kw):
        self.list_extend(st, b, args[0])
        return NONE

    def m_list_copy(self, st, b, args, kw):
        return self.b_list(st, [b], {})

    def m_list_index(self, st, b, args, kw):
        return mk("mcall", self.val(st, b), "index", tuple(self.val(st, a) for a in args), ())

    def _list_opaque(self, st, b, name, args):
        self.effect(st, "mutate", b, name, tuple(args))
        v = self.val(st, b)
        self.add_entry(st, b, "opaque", args[0] if args else NONE, args[-1] if args else NONE)
        st.mem[self.len_loc(b)] = mk("len", mk("listver", self.new_serial()))
        return mk("mcall", v, name, tuple(self.val(st, a) for a in args), ())

    def m_list_insert(self, st, b, args, kw):
        self._list_opaque(st, b, "insert", args)
        return NONE

    def m_list_pop(self, st, b, args, kw):
        if self.info(b) is not None and not st.loops and not args:
            log = self.log(st, b)
            if log and all(e.kind == "app" and not e.loops for e in log) and not self.in_flux(st, b):
                v = log[-1].val
                st.ents[self.base_key(b)] = log[:-1]
                st.mem[self.len_loc(b)] = tm.sub(self.length(st, b), ONE)
                self.touch(st, b)
                return v
        return self._list_opaque(st, b, "pop", args)

    def m_list_remove(self, st, b, args, kw):
        self._list_opaque(st, b, "remove", args)
        return NONE

    def m_list_sort(self, st, b, args, kw):
        self._list_opaque(st, b, "sort", args)
        return NONE

    def m_list_reverse(self, st, b, args, kw):
        self._list_opaque(st, b, "reverse", args)
        return NONE

    def m_list_clear(self, st, b, args, kw):
        return self.clear(st, b)

    def clear(self, st, b):
        self.effect(st, "mutate", b, "clear", ())
        if self.info(b) is not None and not self.in_flux(st, b) and st.loops == self.objs[b[1]].loops:
            st.ents[self.base_key(b)] = ()
        else:
            self.add_entry(st, b, "clear", None, None)
        st.mem[self.len_loc(b)] = ZERO
        self.touch(st, b)
        return NONE

    # dicts
    def m_dict_keys(self, st, b, args, kw):
        return mk("keys", b)

    def m_dict_values(self, st, b, args, kw):
        return mk("vals", b)

    def m_dict_items(self, st, b, args, kw):
        return mk("items", b)

    def m_dict_get(self, st, b, args, kw):
        d = args[1] if len(args) > 1 else NONE
        c = self.contains(st, args[0], b)
        if c is FALSE:
            return d
        return tm.phi(c, self.read_item(st, b, args[0]), d)

    def m_dict_copy(self, st, b, args, kw):
        if self.info(b) is None:
            o = self.alloc(st, "dict", init=b)
            self.list_dict_update(st, o, b)
            return o
        o = self.alloc(st, "dict", auto=self.info(b).auto)
        self.list_dict_update(st, o, b)
        return o

    def list_dict_update(self, st, o, src):
        def body(s, e, key, idx):
            k = self.read_item(s, e, ZERO)
            self.write_item(s, o, k, self.read_item(s, e, ONE))
            return s
        inf = self.info(src)
        t = self.type_of(src)
        if (inf is not None and inf.kind == "dict") or (t and t[0] == "dict"):
            it = mk("items", src)
        else:
            it = src
        st.assign(self.iterate(st.copy(), it, body))

    def m_dict_update(self, st, b, args, kw):
        if args:
            self.list_dict_update(st, b, args[0])
        for n, v in kw.items():
            self.write_item(st, b, const(n), v)
        return NONE

    def m_dict_clear(self, st, b, args, kw):
        return self.clear(st, b)

    def m_dict_pop(self, st, b, args, kw):
        v = self.read_item(st, b, args[0])
        self.del_item(st, b, args[0])
        if len(args) > 1:
            return tm.phi(mk("cmp", "in", args[0], b), v, args[1])
        return v

    def m_dict_setdefault(self, st, b, args, kw):
        key = args[0]
        d = args[1] if len(args) > 1 else NONE
        c = self.contains(st, key, b)
        if c is TRUE:
            return self.read_item(st, b, key)
        if d[0] == "obj" and self.info(d).kind in ("list", "dict", "set") and not self.log(st, d) and (c is not FALSE or st.loops):
            child = mk("item", b, key)
            self.types[child] = self.type_of(d)
            self.add_touch(st, b, key, child)
            return child
        if c is FALSE:
            self.write_item(st, b, key, d)
            return d
        v = self.read_item(st, b, key)
        s1 = st.copy().guard(tm.neg(c))
        self.write_item(s1, b, key, d)
        st.assign(self.join(c, st.copy().guard(c), s1))
        return tm.phi(c, v, d)

    # sets
    def m_set_add(self, st, b, args, kw):
        self.set_add(st, b, args[0])
        return NONE

    def m_set_update(self, st, b, args, kw):
        for a in args:
            self.list_extend(st, b, a)
        return NONE

    def m_set_copy(self, st, b, args, kw):
        return self.b_set(st, [b], {})

    def m_set_union(self, st, b, args, kw):
        o = self.b_set(st, [b], {})
        if self.info(o) is None:
            return NotImplemented
        for a in args:
            self.list_extend(st, o, a)
        return o

    def _set_mut(self, st, b, name, args):
        self.effect(st, "mutate", b, name, tuple(args))
        self.add_entry(st, b, "del", args[0] if args else NONE, None)
        return NONE

    def m_set_discard(self, st, b, args, kw):
        log = self.log(st, b)
        v = self.val(st, args[0])
        if b[0] == "obj" and all(e.kind == "add" for e in log) and not self.in_flux(st, b) and len(self.objs[b[1]].loops) == len(st.loops) \
                and all(g in [x for x, _ in self.objs[b[1]].guards] for g, k in st.guards if k in ("branch", "loop")):
            m = {y: x for x, y in self.inst_map(b).items()}
            v = tm.subst(v, m) if m else v
            st.ents[self.base_key(b)] = tuple(e.with_guard(tm.conj([e.guard, tm.neg(tm.cmp("==", e.val, v))])) for e in log)
            self.touch(st, b)
            st.mem[self.len_loc(b)] = mk("len", mk("setver", self.new_serial()))
            return NONE
        return self._set_mut(st, b, "discard", args)

    def m_set_remove(self, st, b, args, kw):
        return self._set_mut(st, b, "remove", args)

    # strings
    def m_str_join(self, st, b, args, kw):
        v = self.val(st, args[0])
        if v[0] == "tuple":
            parts = []
            for i, x in enumerate(v[1]):
                if i:
                    parts.append(b)
                parts.append(x)
            return tm.cat(parts)
        return mk("mcall", b, "join", (v,), ())

    def m_str_split(self, st, b, args, kw):
        sep = self.val(st, args[0]) if args else kw.get("sep", NONE)
        if tm.is_str(b) and tm.is_str(sep):
            o = self.alloc(st, "list")
            for x in b[2].split(sep[2]):
                self.append(st, o, const(x))
            return o
        if b[0] == "cat" and tm.is_str(sep) and len(args) == 1 and all(self.sep_free(p, sep[2]) for p in b[1] if not is_const(p)):
            words = [[]]
            for p in b[1]:
                if is_const(p):
                    chunks = p[2].split(sep[2])
                    if chunks[0]:
                        words[-1].append(const(chunks[0]))
                    for c in chunks[1:]:
                        words.append([const(c)] if c else [])
                else:
                    words[-1].append(p)
            return tm.tup([w[0] if len(w) == 1 else (tm.cat(w) if w else const("")) for w in words])
        if tm.is_str(sep) and len(args) == 1 and self.sep_free(b, sep[2]):
            return tm.tup([b])
        r = mk("mcall", b, "split", tuple(self.val(st, a) for a in args), ())
        self.set_type(r, ("list", ty.STR))
        return r

    def sep_free(self, p, sep):
        """Names of objects never contain the path separator (validated on construction)."""
        return p[0] == "attr" and p[2] == "name" and sep == "/" \
            or p[0] == "key" and p[1][1][0] == "attr" and p[1][1][2] in self.child_attr.values() or p in self.sepfree

    def m_str_format(self, st, b, args, kw):
        return mk("mcall", b, "format", tuple(self.val(st, a) for a in args), tuple(sorted((k, self.val(st, v)) for k, v in kw.items())))

    # arrays
    def m_arr_copy(self, st, b, args, kw):
        return self.alloc(st, "arr", init=self.val(st, b))

    def m_arr_tolist(self, st, b, args, kw):
        return mk("mcall", self.val(st, b), "tolist", (), ())

    def m_arr_flatten(self, st, b, args, kw):
        order = args[0] if args else kw.get("order", const("C"))
        v = mk("mcall", self.val(st, b), "flatten", () if order == const("C") else (order,), ())
        return v

    m_arr_ravel = m_arr_flatten

    def m_arr_reshape(self, st, b, args, kw):
        v = self.val(st, b)
        shp = args[0] if len(args) == 1 and args[0][0] == "tuple" else tm.tup(args)
        shp = self.val(st, shp)
        # flattening and restoring rows of three is the identity on (n, 3) arrays
        if shp is tm.tup([const(-1), const(3)]):
            x = v
            if x[0] == "mcall" and x[2] == "flatten" and self.type_of(x[1]) == ty.ARR:
                return self.alloc(st, "arr", init=x[1])
        return mk("mcall", v, "reshape", (shp,), ())

    def m_arr_astype(self, st, b, args, kw):
        v = self.val(st, b)
        dt = args[0] if args else kw.get("dtype")
        if dt is not None and self.type_of(v) == ty.ARR and v[0] in ("attr", "p") and self.same_dtype(v, dt):
            return self.alloc(st, "arr", init=v)
        return mk("mcall", v, "astype", (dt,), ())

    def m_arr_fill(self, st, b, args, kw):
        self.effect(st, "store", b, mk("slc", NONE, NONE, NONE), self.val(st, args[0]))
        self.add_entry(st, b, "fill", mk("slc", NONE, NONE, NONE), self.val(st, args[0]))
        return NONE

    def m_arr_sort(self, st, b, args, kw):
        self.effect(st, "mutate", b, "sort", ())
        self.add_entry(st, b, "opaque", NONE, NONE)
        return NONE
