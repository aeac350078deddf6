"""Interned terms: the value domain of the abstract interpreter.

A term describes where a value comes from (provenance), never a run-time value.
Kinds (first component):
  c        constant            (c, type name, value)
  p        symbolic parameter  (p, name)
  glob     module level mutable(glob, module, name)
  attr     attribute           (attr, base, name)
  item     subscript           (item, base, index)
  slice    slice               (slice, base, lo, hi, step)
  L        loop identity       (L, collection, k)  k-th nested loop over that collection
  elem/key/idx                 (elem, L)   element / key / position of the current round of loop L
  psum     prefix sum          (psum, L, body)  sum of body over earlier rounds of L (body abstracted)
  red      reduction           (red, op, coll, body) over all rounds of a collection (body abstracted)
  bv       bound variable      (bv, depth, 'elem'|'key'|'idx')
  lv/out   loop-carried value at the start of a round / after the loop
  sum, mul, op, cat, cmp, not, and, or, phi
  call, mcall                  uninterpreted function / method
  tuple    immutable tuple
  obj      allocated container or instance (obj, id)
  fn, cls, mod, ext, bound     program entities
  opq      unknown
"""
from __future__ import annotations

_INTERN: dict = {}


class T(tuple):
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def mk(*args) -> T:
    key = tuple(args)
    t = _INTERN.get(key)
    if t is None:
        t = T(args)
        _INTERN[key] = t
    return t


def const(v) -> T:
    try:
        hash(v)
    except TypeError:
        return mk("opq", "unhashable-const")
    if isinstance(v, float) and v != v:
        return mk("c", "float", "nan")
    return mk("c", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t[0] == "c"


def cval(t):
    return t[2]


def is_num(t):
    return t[0] == "c" and t[1] in ("int", "float")


def is_int(t):
    return t[0] == "c" and t[1] == "int"


def is_str(t):
    return t[0] == "c" and t[1] == "str"


# ------------------------------------------------------------------ ordering / printing
_KEYS: dict = {}
_SHOW: dict = {}


def show(t, depth=12) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    r = _SHOW.get(t)
    if r is not None:
        return r
    if depth <= 0:
        return "..."
    k = t[0]
    d = depth - 1
    s = lambda x: show(x, d)
    if k == "c":
        r = repr(t[2])
    elif k == "p":
        r = t[1]
    elif k == "glob":
        r = f"{t[1]}.{t[2]}"
    elif k == "attr":
        r = f"{s(t[1])}.{t[2]}"
    elif k == "item":
        r = f"{s(t[1])}[{s(t[2])}]"
    elif k == "slice":
        f = lambda x: "" if x is NONE else s(x)
        if len(t) == 4:
            return ":".join("" if x is NONE else s(x) for x in t[1:])
        r = f"{s(t[1])}[{f(t[2])}:{f(t[3])}" + (f":{f(t[4])}" if t[4] is not NONE else "") + "]"
    elif k in ("elem", "key", "idx"):
        r = f"{k}{s(t[1])}"
    elif k == "psum":
        r = f"presum{s(t[1])}({s(t[2])})"
    elif k == "red":
        r = f"{t[1]}[{s(t[2])}]({s(t[3])})"
    elif k == "bv":
        r = f"${t[1]}{t[2]}"
    elif k in ("lv", "out"):
        r = f"{k}#{t[1]}.{s(t[2]) if isinstance(t[2], T) else t[2]}"
    elif k == "sum":
        parts = []
        for x, c in t[1]:
            parts.append(s(x) if c == 1 else f"{c}*{s(x)}")
        if t[2] != 0 or not parts:
            parts.append(str(t[2]))
        r = "(" + " + ".join(parts) + ")"
    elif k == "mul":
        r = "(" + "*".join(s(x) for x in t[1]) + ")"
    elif k == "op":
        r = f"({s(t[2])} {t[1]} {s(t[3])})"
    elif k == "cat":
        r = "cat(" + ", ".join(s(x) for x in t[1]) + ")"
    elif k == "str":
        r = f"str({s(t[1])}{':' + t[2] if t[2] else ''})"
    elif k == "cmp":
        r = f"({s(t[2])} {t[1]} {s(t[3])})"
    elif k == "not":
        r = f"not {s(t[1])}"
    elif k in ("and", "or"):
        r = "(" + f" {k} ".join(s(x) for x in t[1]) + ")"
    elif k == "phi":
        r = f"({s(t[2])} if {s(t[1])} else {s(t[3])})"
    elif k == "call":
        r = f"{t[1]}({', '.join([s(x) for x in t[2]] + [f'{n}={s(v)}' for n, v in t[3]])})"
    elif k == "mcall":
        r = f"{s(t[1])}.{t[2]}({', '.join([s(x) for x in t[3]] + [f'{n}={s(v)}' for n, v in t[4]])})"
    elif k == "tuple":
        r = "(" + ", ".join(s(x) for x in t[1]) + ")"
    elif k == "obj":
        r = f"obj{t[1]}" + ("@" + ",".join(s(x) for x in t[2]) if t[2] else "")
    elif k == "L":
        r = f"<{s(t[1])}{'~' + str(t[2]) if t[2] else ''}>"
    elif k == "len":
        r = f"len({s(t[1])})"
    else:
        r = k + "(" + ", ".join(show(x, d) if isinstance(x, T) else str(x) for x in t[1:]) + ")"
    if depth == 12:
        _SHOW[t] = r
    return r


def tkey(t):
    """Deterministic structural key (independent of interning order)."""
    r = _KEYS.get(t)
    if r is None:
        import hashlib

        def enc(x):
            if isinstance(x, T):
                return tkey(x)
            if isinstance(x, tuple):
                return "(" + ",".join(enc(y) for y in x) + ")"
            return f"{type(x).__name__}:{x!r}"
        raw = "|".join(enc(x) for x in t)
        r = t[0] + hashlib.md5(raw.encode()).hexdigest()
        _KEYS[t] = r
    return r


# ------------------------------------------------------------------ constructors
def attr(b, n):
    if n == "shape":
        return mk("attr", b, n)
    return mk("attr", b, n)


def length(x):
    if x[0] == "tuple":
        sk = mk("skip")
        if any(y[0] == "phi" and sk in (y[2], y[3]) for y in x[1]):
            return add(*[phi(y[1], ZERO if y[2] is sk else ONE, ZERO if y[3] is sk else ONE)
                         if y[0] == "phi" and sk in (y[2], y[3]) else ONE for y in x[1]])
        return const(len(x[1]))
    if x[0] == "range" and x[3] is ONE:
        return sub(x[2], x[1])
    if x[0] == "c" and x[1] in ("str", "tuple"):
        return const(len(x[2]))
    if x[0] == "red" and x[1] == "list":
        sk = mk("skip")
        if not (x[3][0] == "phi" and sk in (x[3][2], x[3][3])):
            return length(x[2])
        return red("sum", x[2], phi(x[3][1], ZERO if x[3][2] is sk else ONE, ZERO if x[3][3] is sk else ONE))
    if x[0] == "red" and x[1] == "flat":
        return red("sum", x[2], length(x[3]))
    if x[0] == "concat":
        return add(*[length(y) for y in x[1]])
    if x[0] in ("vals", "keys", "items", "listof", "rev"):
        return length(x[1])
    return mk("len", x)


def add(*ts):
    """Linear normal form."""
    acc: dict = {}
    c = 0
    for t in ts:
        for x, k in lin(t):
            if x is None:
                c = c + k
            else:
                acc[x] = acc.get(x, 0) + k
    items = [(x, k) for x, k in acc.items() if k != 0]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1 and type(items[0][1]) is int:
        return items[0][0]
    items.sort(key=lambda xk: tkey(xk[0]))
    return mk("sum", tuple(items), c)


def lin(t):
    if t[0] == "sum":
        out = [(x, k) for x, k in t[1]]
        if t[2] != 0:
            out.append((None, t[2]))
        return out
    if is_num(t) or (is_const(t) and t[1] == "bool"):
        return [(None, t[2])] if t[2] != "nan" else [(t, 1)]
    return [(t, 1)]


def scale(t, k):
    if k == 1 and type(k) is int:
        return t
    if k == 0:
        return const(0)
    parts = [(x, c * k) for x, c in lin(t)]
    c = sum(v for x, v in parts if x is None)
    items = [(x, v) for x, v in parts if x is not None]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda xk: tkey(xk[0]))
    return mk("sum", tuple(items), c)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if is_num(a) and a[2] != "nan":
        return scale(b, a[2])
    if is_num(b) and b[2] != "nan":
        return scale(a, b[2])
    # pull numeric coefficients out of single-term sums
    ka = kb = 1
    if a[0] == "sum" and len(a[1]) == 1 and a[2] == 0:
        (a, ka), = a[1]
    if b[0] == "sum" and len(b[1]) == 1 and b[2] == 0:
        (b, kb), = b[1]
    fa = list(a[1]) if a[0] == "mul" else [a]
    fb = list(b[1]) if b[0] == "mul" else [b]
    fs = sorted(fa + fb, key=tkey)
    m = mk("mul", tuple(fs))
    return scale(m, ka * kb)


def div(a, b):
    if is_num(b) and b[2] not in (0, "nan"):
        if is_num(a) and a[2] != "nan":
            return const(a[2] / b[2])
        return scale(a, 1 / b[2])
    return mk("op", "/", a, b)


def binop(op, a, b):
    if is_const(a) and is_const(b) and "nan" not in (a[2], b[2]):
        try:
            va, vb = a[2], b[2]
            if op == "+":
                return const(va + vb)
            if op == "-":
                return const(va - vb)
            if op == "*":
                return const(va * vb)
            if op == "/":
                return const(va / vb)
            if op == "//":
                return const(va // vb)
            if op == "%":
                return const(va % vb)
            if op == "**":
                if abs(vb) < 64:
                    return const(va ** vb)
            if op == "&":
                return const(va & vb)
            if op == "|":
                return const(va | vb)
        except Exception:
            pass
    if op == "+":
        if is_strlike(a) or is_strlike(b):
            return cat([a, b])
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "**" and b is const(2):
        return mul(a, a)
    return mk("op", op, a, b)


def is_strlike(t):
    return t[0] in ("cat", "str") or is_str(t)


def cat(parts):
    out = []
    for p in parts:
        if p[0] == "cat":
            out.extend(p[1])
        elif is_str(p) and p[2] == "":
            continue
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and is_str(p) and is_str(merged[-1]):
            merged[-1] = const(merged[-1][2] + p[2])
        else:
            merged.append(p)
    if not merged:
        return const("")
    if len(merged) == 1 and is_strlike(merged[0]):
        return merged[0]
    return mk("cat", tuple(merged))


_CMP_FOLD = {
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b,
    "in": lambda a, b: a in b,
}


def cmp(op, a, b):
    """Canonical comparison: <, <=, ==, is, in and their negations."""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return neg(cmp("<", a, b))
    if op == "<=":
        return neg(cmp("<", b, a))
    if op == "!=":
        return neg(cmp("==", a, b))
    if op == "is not":
        return neg(cmp("is", a, b))
    if op == "not in":
        return neg(cmp("in", a, b))
    if op == "==":
        for n, x in ((a, b), (b, a)):
            # as many elements satisfy the condition as there are elements
            if n[0] == "len" and x[0] == "red" and x[1] == "sum" and x[2] is n[1] and x[3][0] == "phi" and x[3][2] is ONE and x[3][3] is ZERO:
                return red("all", x[2], x[3][1])
    if op in ("is", "==") and (b is TRUE or a is TRUE):
        o = a if b is TRUE else b
        if is_boolish(o):
            return o
    if op in ("is", "==") and (b is FALSE or a is FALSE):
        o = a if b is FALSE else b
        if is_boolish(o):
            return neg(o)
    if is_const(a) and is_const(b) and "nan" not in (a[2], b[2]):
        if op == "is":
            return const(a is b)
        try:
            return const(bool(_CMP_FOLD[op](a[2], b[2])))
        except Exception:
            pass
    if op in ("==", "is") and a is b:
        return TRUE
    if op == "is" and (a is NONE or b is NONE):
        o = b if a is NONE else a
        if o[0] in ("obj", "tuple", "cat", "fn", "cls", "sum", "mul", "str") or (is_const(o) and o is not NONE):
            return FALSE
    if op == "==" and (a is NONE or b is NONE):
        return cmp("is", a, b)
    # emptiness of a length
    if op == "==" and (a is ZERO or b is ZERO):
        o = b if a is ZERO else a
        if o[0] == "len":
            return neg(mk("cmp", "<", ZERO, o))
    if op == "<" and a[0] == "len" and is_int(b):
        # lengths are whole numbers
        return neg(mk("cmp", "<", const(b[2] - 1), a))
    if op == "==" and tkey(a) > tkey(b):
        a, b = b, a
    return mk("cmp", op, a, b)


def is_boolish(t):
    return t[0] in ("cmp", "not", "and", "or") or t in (TRUE, FALSE) or \
        (t[0] == "red" and t[1] in ("any", "all")) or (t[0] == "call" and t[1] in ("bool", "isinstance")) or \
        (t[0] == "phi" and is_boolish(t[2]) and is_boolish(t[3])) or t[0] in ("p", "attr", "item", "call", "mcall", "lv")


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t[0] == "not":
        return t[1]
    if t[0] == "and":
        return disj([neg(x) for x in t[1]])
    if t[0] == "or":
        return conj([neg(x) for x in t[1]])
    if t[0] == "phi" and is_boolish(t[2]) and is_boolish(t[3]):
        return phi(t[1], neg(t[2]), neg(t[3]))
    if is_const(t):
        return const(not t[2])
    return mk("not", t)


def conj(ts):
    out = []
    for t in ts:
        for x in (t[1] if t[0] == "and" else (t,)):
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            if x not in out:
                out.append(x)
    for x in out:
        if neg_raw(x) in out:
            return FALSE
    anys = {}
    for x in out:
        if x[0] == "not" and x[1][0] == "red" and x[1][1] == "any":
            anys.setdefault(x[1][2], []).append(x)
    for c, xs in anys.items():
        if len(xs) > 1:
            return conj([x for x in out if x not in xs] + [neg(red("any", c, disj([x[1][3] for x in xs])))])
    # absorption: x and (y or not x)  ->  x and y ; x and (x or y) -> x
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x[0] == "or":
                lits = x[1]
                if any(l in out for l in lits):
                    out.pop(i)
                    changed = True
                    break
                keep = [l for l in lits if neg_raw(l) not in out]
                if len(keep) != len(lits):
                    out[i:i + 1] = [y for y in ([disj(keep)]) if y not in out]
                    if FALSE in out:
                        return FALSE
                    changed = True
                    break
    if any(x[0] == "and" for x in out):
        return conj(out)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=tkey)))


def disj(ts):
    out = []
    for t in ts:
        for x in (t[1] if t[0] == "or" else (t,)):
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            if x not in out:
                out.append(x)
    for x in out:
        if neg_raw(x) in out:
            return TRUE
    # exists P or exists Q -> exists (P or Q)
    anys = {}
    for x in out:
        if x[0] == "red" and x[1] == "any":
            anys.setdefault(x[2], []).append(x)
    for c, xs in anys.items():
        if len(xs) > 1:
            return disj([x for x in out if x not in xs] + [red("any", c, disj([x[3] for x in xs]))])
    # x or (y and not x) -> x or y ; x or (x and y) -> x
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x[0] == "and":
                lits = x[1]
                if any(l in out for l in lits):
                    out.pop(i)
                    changed = True
                    break
                keep = [l for l in lits if neg_raw(l) not in out]
                if len(keep) != len(lits):
                    out[i:i + 1] = [y for y in ([conj(keep)]) if y not in out]
                    if TRUE in out:
                        return TRUE
                    changed = True
                    break
    # (x and y) or (x and not y) -> x
    for i, x in enumerate(out):
        for j in range(i + 1, len(out)):
            y = out[j]
            if x[0] == "and" and y[0] == "and":
                sx, sy = set(x[1]), set(y[1])
                dx, dy = sx - sy, sy - sx
                if len(dx) == 1 and len(dy) == 1 and neg_raw(next(iter(dx))) is next(iter(dy)):
                    rest = [o for k, o in enumerate(out) if k not in (i, j)]
                    return disj(rest + [conj(list(sx & sy))])
    if any(x[0] == "or" for x in out):
        return disj(out)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=tkey)))


def neg_raw(t):
    return t[1] if t[0] == "not" else mk("not", t)


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_const(c):
        return a if c[2] else b
    if c[0] == "not":
        c, a, b = c[1], b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a is TRUE and is_boolish(b):
        return disj([c, b])
    if b is FALSE and is_boolish(a):
        return conj([c, a])
    if a is FALSE and is_boolish(b):
        return conj([neg(c), b])
    if b is TRUE and is_boolish(a):
        return disj([neg(c), a])
    return mk("phi", c, a, b)


def call(name, args=(), kw=()):
    return mk("call", name, tuple(args), tuple(sorted(kw)))


def mcall(base, name, args=(), kw=()):
    return mk("mcall", base, name, tuple(args), tuple(sorted(kw)))


def vdot(a, b):
    """Inner product of two vectors."""
    return mk("call", "vdot", tuple(sorted((a, b), key=tkey)), ())


def tup(ts):
    return mk("tuple", tuple(ts))


# ------------------------------------------------------------------ traversal
def children(t):
    for x in t[1:]:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _children_tuple(x)


def _children_tuple(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _children_tuple(y)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(t, f):
    """Rebuilds t with f applied to its direct sub-terms, through the smart constructors."""
    k = t[0]
    if k in ("c", "p", "glob", "bv", "fn", "cls", "mod", "ext", "opq"):
        return t
    if k == "psum":
        return psum(f(t[1]), f(t[2]))
    if k == "red":
        return red(t[1], f(t[2]), f(t[3]))
    if k == "sum":
        parts = [scale(f(x), c) for x, c in t[1]]
        return add(*parts, const(t[2]))
    if k == "mul":
        fs = [f(x) for x in t[1]]
        r = fs[0]
        for x in fs[1:]:
            r = mul(r, x)
        return r
    if k == "op":
        return binop(t[1], f(t[2]), f(t[3]))
    if k == "cat":
        return cat([f(x) for x in t[1]])
    if k == "cmp":
        return cmp(t[1], f(t[2]), f(t[3]))
    if k == "not":
        return neg(f(t[1]))
    if k == "and":
        return conj([f(x) for x in t[1]])
    if k == "or":
        return disj([f(x) for x in t[1]])
    if k == "phi":
        return phi(f(t[1]), f(t[2]), f(t[3]))
    if k == "call" and t[1] == "vdot":
        return vdot(f(t[2][0]), f(t[2][1]))
    if k == "mix":
        c, a, b = f(t[1]), f(t[2]), f(t[3])
        return a if c is TRUE or a is b else b if c is FALSE else mk("mix", c, a, b)
    if k == "len":
        return length(f(t[1]))
    if k == "item":
        return mkitem(f(t[1]), f(t[2]))
    return mk(*_map_args(t, f))


def _map_args(t, f):
    out = [t[0]]
    for x in t[1:]:
        out.append(_map_any(x, f))
    return out


def _map_any(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_any(y, f) for y in x)
    return x


def mkitem(b, i):
    if b[0] == "tuple" and is_int(i) and -len(b[1]) <= i[2] < len(b[1]):
        return b[1][i[2]]
    if b[0] == "phi" and (b[2][0] == "tuple" or b[3][0] == "tuple"):
        return phi(b[1], mkitem(b[2], i), mkitem(b[3], i))
    if b[0] == "attr" and b[2] == "shape" and i is ZERO:
        return length(b[1])
    if b[0] == "c" and b[1] in ("str", "tuple") and is_int(i):
        try:
            return const(b[2][i[2]])
        except Exception:
            pass
    return mk("item", b, i)


def subst(t, mapping, memo=None):
    """Replaces sub-terms (by identity) using mapping: dict term->term."""
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: subst(x, mapping, memo))
    memo[t] = r
    return r


def expand(t, memo=None):
    """Multiplies sums out."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = rebuild(t, lambda x: expand(x, memo))
    if r[0] == "mul":
        acc = [ONE]
        for f in r[1]:
            acc = [scale(mul(a, x if x is not None else ONE), k) for a in acc for x, k in lin(f)]
            if len(acc) > 64:
                acc = None
                break
        if acc:
            r = add(*acc)
    elif r[0] == "op" and r[1] == "/" and r[2][0] == "sum":
        r = add(*[scale(div(x if x is not None else ONE, r[3]), k) for x, k in lin(r[2])])
    elif r[0] == "sum" and any(x[0] == "mul" for x, _ in r[1]):
        r = add(*[scale(expand(x, memo), k) for x, k in r[1]], const(r[2]))
    memo[t] = r
    return r


def abstract(t, L, depth=0):
    """Abstracts loop L's element/key/position into a bound variable."""
    memo = {}

    def go(x, d):
        if x[0] in ("elem", "key", "idx") and x[1] is L:
            return mk("bv", d, x[0])
        m = memo.get((x, d))
        if m is not None:
            return m
        if x[0] == "red":
            r = mk("red", x[1], go(x[2], d), go(x[3], d + 1))
        elif x[0] == "psum":
            r = mk("psum", mk("bv", d, "L") if x[1] is L else go(x[1], d), go(x[2], d + 1))
        elif x[0] in ("first", "last"):
            r = mk(x[0], go(x[1], d), go(x[2], d + 1), go(x[3], d + 1), *[go(y, d) for y in x[4:]])
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[(x, d)] = r
        return r
    return go(t, depth)


def instantiate(body, elem, key=None, idx=None, depth=0, loop=None):
    """Replaces bound variable `depth` by the given terms."""
    memo = {}

    def go(x, d):
        if x[0] == "bv" and x[1] == d:
            r = {"elem": elem, "key": key, "idx": idx, "L": loop}.get(x[2])
            return r if r is not None else x
        m = memo.get((x, d))
        if m is not None:
            return m
        if x[0] == "red":
            r = mk("red", x[1], go(x[2], d), go(x[3], d + 1))
        elif x[0] == "psum":
            r = mk("psum", go(x[1], d), go(x[2], d + 1))
        elif x[0] in ("first", "last"):
            r = mk(x[0], go(x[1], d), go(x[2], d + 1), go(x[3], d + 1), *[go(y, d) for y in x[4:]])
        else:
            r = rebuild(x, lambda y: go(y, d))
        memo[(x, d)] = r
        return r
    return go(body, depth)


NAME_KEYED = {"zones", "solids", "walls", "polygons"}     # dictionaries keyed by the name of their values


def red(op, coll, body):
    """Reduction over a collection; constants summed become multiples of the length."""
    if op == "sum" and not contains(body, lambda x: x[0] == "bv" and x[1] == 0):
        # no dependence on the element (approximate test: nested binders handled conservatively)
        if is_num(body):
            return scale(length(coll), body[2])
    if op == "sum" and body[0] == "sum":
        return add(*[scale(red("sum", coll, x), c) for x, c in body[1]], scale(length(coll), body[2]))
    if op == "any" and body is FALSE:
        return FALSE
    if op == "any" and body[0] in ("and", "cmp"):
        # exists j: P(j) and j == t  ->  P(t)
        lits = conj_list(body)
        bi = mk("bv", 0, "idx")
        for l in lits:
            if l[0] == "cmp" and l[1] == "==" and bi in (l[2], l[3]):
                t = l[3] if l[2] is bi else l[2]
                rest = conj([x for x in lits if x is not l])
                nested = contains(rest, lambda x: x[0] in ("red", "psum", "first", "last")) and contains(t, lambda x: x[0] == "bv")
                if not uses_bv(t, 0) and not nested:
                    c1 = shift_bv(coll, 1)
                    e = add(c1[1], t) if coll[0] == "range" and coll[3] is ONE else mk_elem_at(c1, t)
                    return shift_bv(instantiate(rest, e, t, t), -1)
    if op == "any" and body[0] == "cmp" and body[1] == "==" and coll[0] == "attr" and coll[2] in NAME_KEYED:
        # exists child: child.name == t  ->  t in children
        bn = mk("attr", mk("bv", 0, "elem"), "name")
        if bn in (body[2], body[3]):
            t = body[3] if body[2] is bn else body[2]
            if not uses_bv(t, 0):
                return cmp("in", shift_bv(t, -1), coll)
    if op == "any" and body is TRUE:
        return cmp("<", ZERO, length(coll))
    if op == "all" and body is FALSE:
        return neg(cmp("<", ZERO, length(coll)))
    if op == "all":
        return neg(red("any", coll, neg(body)))
    if op == "all" and body is TRUE:
        return TRUE
    if op == "sum" and body is ZERO:
        return ZERO
    return mk("red", op, coll, body)


def mk_elem_at(coll, t):
    if t[0] == "idx" and t[1][1] is coll:
        return mk("elem", t[1])
    return mkitem(coll, t)


def uses_bv(t, depth):
    """Does t mention the bound variable with this depth?"""
    def go(x, d):
        if x[0] == "bv":
            return x[1] == d
        if x[0] == "red":
            return go(x[2], d) or go(x[3], d + 1)
        if x[0] == "psum":
            return go(x[1], d) or go(x[2], d + 1)
        if x[0] in ("first", "last"):
            return go(x[1], d) or go(x[2], d + 1) or go(x[3], d + 1) or any(go(y, d) for y in x[4:])
        return any(go(y, d) for y in children(x))
    return go(t, depth)


def shift_bv(t, by, cut=0):
    """Renumbers the free bound variables of t."""
    def go(x, d):
        if x[0] == "bv":
            return mk("bv", x[1] + by, x[2]) if x[1] >= d else x
        if x[0] == "red":
            return mk("red", x[1], go(x[2], d), go(x[3], d + 1))
        if x[0] == "psum":
            return mk("psum", go(x[1], d), go(x[2], d + 1))
        if x[0] in ("first", "last"):
            return mk(x[0], go(x[1], d), go(x[2], d + 1), go(x[3], d + 1), *[go(y, d) for y in x[4:]])
        if not contains(x, lambda y: y[0] == "bv"):
            return x
        return rebuild(x, lambda y: go(y, d))
    return go(t, cut)


def psum(L, body):
    """Sum of body over the rounds of L before the current one."""
    if is_num(body):
        return scale(mk("idx", L), body[2])
    if body[0] == "sum":
        return add(*[scale(psum(L, x), c) for x, c in body[1]], scale(mk("idx", L), body[2]))
    if fixed(body):
        return mul(mk("idx", L), body)
    return mk("psum", L, body)


def fixed(t):
    """Sizes and settings of parameters: the same in every round of a loop."""
    if t[0] in ("p", "c"):
        return True
    if t[0] == "len":
        return t[1][0] == "p" or t[1][0] == "attr" and fixed(t[1])
    if t[0] == "item":
        return t[1][0] == "attr" and t[1][2] == "shape" and fixed(t[1]) and t[2][0] == "c"
    return t[0] == "attr" and t[1][0] == "p"


def loop_id(coll, k=0):
    return mk("L", coll, k)


def uses_loop(t, L):
    return contains(t, lambda x: x is L)


def loops_of(t):
    return [x for x in subterms(t) if x[0] == "L"]


def conj_list(t):
    return list(t[1]) if t[0] == "and" else ([] if t is TRUE else [t])


def disj_list(t):
    return list(t[1]) if t[0] == "or" else ([] if t is FALSE else [t])
