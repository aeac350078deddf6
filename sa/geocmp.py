"""Comparison of a geometry function with its definition.

Both are summarised by the kernel analysis into cases (conditions, result).  The conditions are
reduced to signs of normal forms, and for every combination of signs that is possible both
results have to have the same normal form.
"""
from __future__ import annotations

import itertools

from . import terms as tm
from .algebra import Algebra, Op, Rat, Space, Tup, Unknown, Vec, p_const
from .kernel import Kernel
from .terms import FALSE, TRUE, ZERO, mk
from .totals import resolve

POSITIVE = ("np.arccos", "math.acos", "np.exp", "len")


class TooMany(Exception):
    pass


def settled(K, st, v, depth=0):
    """The value with arrays in place of references to them."""
    if depth > 6:
        return v
    sub = {}
    for x in tm.subterms(v):
        if x[0] == "ref":
            r = K.roots.get(x[1]) if isinstance(K.roots, dict) else K.roots[x[1]]
            a = st.arr.get(r)
            if a is not None:
                a = settled(K, st, a, depth + 1)
                sub[x] = a if not x[2] else mk("sel", a, x[2])
    return tm.subst(v, sub) if sub else v


class Side:
    """The cases of one function."""

    def __init__(self, prog, f, types, rename=None, opaque=(), ignore_asserts=True):
        K = self.K = Kernel(prog, opaque=list(opaque))
        self.out, rets = K.run(f, types)
        asserted = {e.val for e in K.events if e.kind == "assert"} if ignore_asserts else set()
        self.cases = []
        for st, v in rets:
            v = resolve(K, settled(K, st, v))
            gs = [resolve(K, settled(K, st, g)) for g in st.guards if g not in asserted]
            self.cases.append(([ren(g, rename) for g in gs], ren(v, rename)))


def ren(t, names):
    if not names:
        return t
    sub = {}
    for x in tm.subterms(t):
        if x[0] == "base" and x[1] in names and x[2] == "":
            sub[x] = mk("base", names[x[1]], "")
        elif x[0] == "p" and x[1] in names:
            sub[x] = mk("p", names[x[1]])
    return tm.subst(t, sub) if sub else t


def spread(t):
    """Minimum, maximum and clipping of two numbers as choices."""
    for _ in range(20):
        x = next((x for x in tm.subterms(t) if x[0] == "call" and (x[1] in ("min", "max") and len(x[2]) == 2 or x[1] == "np.clip" and len(x[2]) == 3)), None)
        if x is None:
            return t
        if x[1] == "np.clip":
            a, lo, hi = x[2]
            v = tm.phi(tm.cmp("<", a, lo), lo, tm.phi(tm.cmp("<", hi, a), hi, a))
        else:
            a, b = sorted(x[2], key=tm.tkey)
            c = tm.cmp("<", a, b)
            v = tm.phi(c, a, b) if x[1] == "min" else tm.phi(c, b, a)
        t = tm.subst(t, {x: v})
    return t


class Compare:
    def __init__(self, kinds, eps=(), tolerances=True, table=None, exact=False):
        self.exact = exact       # whether quantities that are exactly zero are looked at too
        self.space = Space(eps=eps)
        self.A = Algebra(self.space, kinds, table=table)
        self.tol = tolerances
        self.close = {}          # key -> (parameter, constant) when they are close
        self.atoms = {}          # key -> (kind, Rat or None)
        self.memo = {}
        self.withphi = {}
        self.conds = {}
        self.bool_memo = {}

    # ---- conditions
    def boolean(self, c):
        """Nested ("and"/"or"/"not"/atom key/bool) of a condition."""
        if c in self.bool_memo:
            return self.bool_memo[c]
        self.bool_memo[c] = out = self._boolean(c)
        return out

    def _boolean(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        k = c[0]
        if k == "not":
            return ("not", self.boolean(c[1]))
        if k in ("and", "or"):
            return (k,) + tuple(self.boolean(x) for x in self.A.parts(c))
        if k == "phi":
            a = self.boolean(c[1])
            return ("or", ("and", a, self.boolean(c[2])), ("and", ("not", a), self.boolean(c[3])))
        if k == "cmp" and c[1] in ("<", "<=", ">", ">="):
            a, b = (c[2], c[3]) if c[1] in ("<", "<=") else (c[3], c[2])
            parts = self.componentwise(a, b)
            if parts is None:
                return ("lazy", c)
            if len(parts) > 1:
                raise Unknown("comparison of vectors used as a condition")
            return self.less(parts[0], c[1] in ("<=", ">="))
        if k == "mcall" and c[2] in ("any", "all") and not c[3] or k == "call" and c[1] in ("np.any", "np.all", "any", "all") and len(c[2]) == 1:
            inner = c[1] if k == "mcall" else c[2][0]
            name = (c[2] if k == "mcall" else c[1]).split(".")[-1]
            if inner[0] == "cmp" and inner[1] in ("<", "<=", ">", ">="):
                a, b = (inner[2], inner[3]) if inner[1] in ("<", "<=") else (inner[3], inner[2])
                parts = self.componentwise(a, b)
                if parts is not None:
                    return ("or" if name == "any" else "and",) + tuple(self.less(d, inner[1] in ("<=", ">=")) for d in parts)
            if inner[0] == "call" and inner[1] in ("np.isnan", "np.isfinite", "np.isinf") and len(inner[2]) == 1:
                v = self.A.conv(inner[2][0])
                if isinstance(v, Vec):
                    return ("or" if name == "any" else "and",) + tuple(self.boolean(mk("call", inner[1], (mk("sel", inner[2][0], (tm.const(i),)),), ())) for i in range(3))
            if inner[0] == "call" and inner[1] == "np.isclose" and name == "all":
                return self.boolean(mk("call", "np.allclose", inner[2], inner[3]))
        if k == "call" and c[1] == "bool" and len(c[2]) == 1:
            return self.boolean(c[2][0])
        if k == "call" and c[1] in ("np.isclose", "np.allclose", "math.isclose"):
            d = self.A.plus(self.A.conv(c[2][0]), self.A.conv(c[2][1]), -1)
            tol = tuple(sorted((n, tm.show(v)) for n, v in c[3])) if self.tol and len(c) > 3 else ()
            if isinstance(d, Op):
                return self.atom(("close", d.key, tol), None)
            if isinstance(d, Rat) and not d.n or isinstance(d, Vec) and not any(x.n for x in d.c):
                return True
            key = ("close", self.A.sign(d), tol)
            for x, y in ((c[2][0], c[2][1]), (c[2][1], c[2][0])):
                if x[0] == "base" and x[2] == "" and not tm.contains(y, lambda z: z[0] in ("base", "p", "head")):
                    self.close[key] = (x, y)
            return self.atom(key, None)
        v = self.A.conv(c)
        if isinstance(v, Op):
            return self.atom(("op", v.key), None)
        return self.atom(("truth", self.A.key(v)), None)

    def componentwise(self, a, b):
        x, y = self.A.conv(a), self.A.conv(b)
        d = self.A.plus(x, y, -1)
        if isinstance(d, Rat):
            return [d]
        if isinstance(d, Vec):
            return d.c
        if isinstance(d, Op):
            return None
        raise Unknown("comparison")

    def less(self, d, weak=False):
        """The condition d < 0 (or d <= 0)."""
        s = self.space
        if self.whole(d):
            one = Rat(p_const(1))
            if weak:
                return self.less(s.add(d, one, -1))
            if max(d.n.items())[1] < 0:
                return ("not", self.less(s.add(s.neg(d), one, -1)))
        if weak:
            return ("not", self.less(s.neg(d)))
        if not d.n:
            return False
        n = d.n
        if d.d != p_const(1):
            n = n if self.positive(d.d) else s.mul_p(d.n, d.d)
        n = strip(n)
        if set(n) == {()}:
            return n[()] < 0
        if self.never(n):
            return False
        return self.atom(("<0", tuple(sorted(n.items()))), Rat(n))

    def whole(self, d):
        """A count compared with whole numbers, for which below and at most differ."""
        def count(k):
            if isinstance(k, tuple) and k[:1] == ("op",) and len(k) == 2:
                k = k[1]
            return isinstance(k, tuple) and bool(k) and (k[0] in ("len", "ix") or k[0] == "sel" and isinstance(k[1], tuple) and k[1][:1] == ("attr",) and k[1][-1] == "shape")
        return (d.d == p_const(1) and bool(set(d.n) - {()}) and all(c.denominator == 1 for c in d.n.values())
                and all(count(self.space.keys[g]) for m in d.n for g, _ in m))

    def positive(self, p):
        """A polynomial that is evidently not negative: even powers and roots with positive weights, or a full square norm."""
        s = self.space
        if all(c > 0 and all(e % 2 == 0 or g in s.square and g not in s.signed for g, e in m) for m, c in p.items()):
            return True
        return self.squares(p)

    def squares(self, p):
        """A sum of squares of differences, recognised by completing squares variable by variable."""
        p = dict(p)
        for _ in range(40):
            if not p:
                return True
            if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items()):
                return True
            gens = sorted({g for m in p for g, _ in m})
            for g in gens:
                sq = p.get(((g, 2),))
                if not sq:
                    continue
                if sq < 0 or any(e > 2 for m in p for h, e in m if h == g):
                    return False
                # p = sq*(g + L)^2 + rest, with 2*sq*L the coefficient of g
                lin = {}
                for m, c in p.items():
                    d = dict(m)
                    if d.get(g) == 1:
                        d.pop(g)
                        lin[tuple(sorted(d.items()))] = c / (2 * sq)
                    elif d.get(g) == 2 and len(d) > 1:
                        return False
                if not lin:
                    p.pop(((g, 2),))
                    break
                full = dict(lin)
                full[((g, 1),)] = full.get(((g, 1),), 0) + 1
                full = {m: c for m, c in full.items() if c}
                sqr = self.space.mul_p(full, full)
                from .algebra import p_add
                p = p_add(p, {m: c * sq for m, c in sqr.items()}, -1)
                break
            else:
                return False
        return False

    def never(self, n):
        """Sums of quantities that cannot be negative are not below zero."""
        s = self.space

        def pos(g):
            k = s.keys[g]
            return g in s.square and g not in s.signed or isinstance(k, tuple) and len(k) > 1 and (k[0] == "op" and isinstance(k[1], tuple) and len(k[1]) > 1 and k[1][0] == "f" and k[1][1] in POSITIVE)
        return all(c > 0 and all(e % 2 == 0 or pos(g) for g, e in m) for m, c in n.items())

    def atom(self, key, d):
        self.atoms.setdefault(key, d)
        return key

    def evaluate(self, b, env):
        if isinstance(b, bool):
            return b
        if b[0] == "not":
            return not self.evaluate(b[1], env)
        if b[0] in ("and", "or"):
            return self.decided(b[1:], env, b[0] == "or")
        if b[0] == "lazy":
            return self.truth(b[1], env)
        if b not in env:
            raise KeyError(b)
        return env[b]

    def decided(self, bs, env, stop):
        """Whether one of the conditions has the value `stop` (else the opposite); asks for a sign only when none of the others settles it."""
        missing = None
        for x in bs:
            try:
                if (self.truth if isinstance(x, tm.T) else self.evaluate)(x, env) == stop:
                    return stop
            except KeyError as e:
                missing = missing or e
        if missing:
            raise missing
        return not stop

    def truth(self, t, env):
        """Whether a condition holds; choices inside it are made only where they matter."""
        if not self.choices(t):
            return self.evaluate(self.boolean(t), env)
        if t[0] == "not":
            return not self.truth(t[1], env)
        if t[0] in ("and", "or"):
            return self.decided(t[1], env, t[0] == "or")
        if t[0] == "phi":
            return self.truth(t[2] if self.truth(t[1], env) else t[3], env)
        return self.evaluate(self.boolean(self.choose(t, env)), env)

    # ---- results under one combination of signs
    def choose(self, t, env):
        """The term with every choice made."""
        memo = {}

        def go(t):
            if not self.choices(t):
                return t
            if t not in memo:
                if t[0] == "phi":
                    memo[t] = go(t[2] if self.truth(t[1], env) else t[3])
                else:
                    memo[t] = tm.rebuild(t, go)
            return memo[t]
        return go(t)

    def choices(self, t):
        """Whether the term contains choices."""
        if t not in self.withphi:
            self.withphi[t] = t[0] == "phi" or any(self.choices(x) for x in tm.children(t))
        return self.withphi[t]

    def collect(self, t, bound=()):
        for x in tm.subterms(t):
            if x[0] == "phi":
                self.boolean(x[1])

    def value(self, t, env):
        t = self.choose(t, env)
        # what is close to a constant is read as that constant
        sub = {x: y for k, (x, y) in self.close.items() if env.get(k)}
        if sub:
            t = tm.subst(t, sub)
        if t not in self.memo:
            self.memo[t] = self.A.conv(t)
        return self.memo[t]

    def sums(self, d1, d2, opposite=True):
        """Signs of d1 + w*d2 for positive w, as far as they are evident."""
        out = set()
        for m in d1.n:
            if m not in d2.n:
                continue
            w = -d1.n[m] / d2.n[m]
            if w <= 0:
                continue
            p = {}
            for x in set(d1.n) | set(d2.n):
                c = d1.n.get(x, 0) + w * d2.n.get(x, 0)
                if c:
                    p[x] = c
            if not p:
                out |= {1} if self.exact and opposite else {-1, 1}
            elif self.never(p):
                out.add(1)
            elif self.never({x: -c for x, c in p.items()}):
                out.add(-1)
        return out

    def run(self, got, exp):
        """Yields (combination, got, expected) for each possible combination of signs; values are None when the function refuses."""
        sides = []
        for side in (got, exp):
            cases = []
            for gs, v in side:
                v = spread(v)
                gs = [spread(g) for g in gs]
                cases.append((gs, v))
                for g in gs:
                    self.collect(g)
                    self.boolean(g)
                self.collect(v)
            sides.append(cases)
        done = set()
        work = [{}]
        n = 0
        while work:
            env = work.pop()
            try:
                res = []
                for cases in reversed(sides):
                    hit = None
                    for gs, v in cases:
                        if all(self.truth(g, env) for g in gs):
                            hit = self.value(v, env)
                            break
                    res.append(hit)
            except KeyError as e:
                k = e.args[0]
                for b in (False, True):
                    new = dict(env)
                    new[k] = b
                    if self.consistent(new, k):
                        work.append(new)
                n += 1
                if n > 3000:
                    raise TooMany()
                continue
            yield env, res[1], res[0]

    def consistent(self, env, k):
        """No two signs that contradict each other; cases where something is exactly zero are left out."""
        d = self.atoms.get(k)
        if d is None:
            return True
        for k2, v2 in env.items():
            d2 = self.atoms.get(k2)
            if k2 == k or d2 is None:
                continue
            c = self.sums(d, d2)
            if 1 in c and env[k] and v2 or -1 in c and not env[k] and not v2:
                return False
            c = self.sums(d, Rat({m: -x for m, x in d2.n.items()}), False)
            # d - w*d2
            if 1 in c and env[k] and not v2 or -1 in c and not env[k] and v2:
                return False
        return True


def strip(p):
    """Divides by the positive content."""
    from .algebra import content
    c = content(p)
    return {m: v / c for m, v in p.items()} if c else p


def absorbed(space, v):
    """Whatever is computed from a value that is not a number is none either."""
    if isinstance(v, (Tup, Vec)):
        xs = [absorbed(space, x) for x in (v.xs if isinstance(v, Tup) else v.c)]
        none = space.var(("op", ("c", "nan")))
        if len(xs) == 3 and all(isinstance(x, Rat) and space.eq(x, none) for x in xs):
            return none
        return Tup(xs) if isinstance(v, Tup) else Vec(xs, v.row)
    if isinstance(v, Op) and "nan'" in repr(v.key):
        return space.var(("op", ("c", "nan")))
    if isinstance(v, Rat):
        for p in (v.n, v.d):
            for m in p:
                for g, _ in m:
                    if "nan'" in repr(space.keys[g]):
                        return space.var(("op", ("c", "nan")))
    return v


def opaque_names(space, *values):
    """Names of what the normal forms do not look into, anywhere inside them."""
    out, seen = set(), set()

    def gens(r):
        for p in (r.n, r.d):
            for m in p:
                for g, _ in m:
                    if g not in seen:
                        seen.add(g)
                        walk(space.keys[g])

    def number(i):
        if isinstance(i, int) and not isinstance(i, bool) and i < len(space.rats) and ("rat", i) not in seen:
            seen.add(("rat", i))
            gens(space.rats[i])

    def walk(k):
        if not isinstance(k, tuple) or not k or k in seen:
            return
        seen.add(k)
        if k[0] == "f" and len(k) > 1 and isinstance(k[1], str):
            out.add(k[1])
        if isinstance(k[0], str) and len(k) > 1 and (k[0] in ("m", "phi", "one", "total") or k[0] == "attr" and k[-1] != "shape"):
            out.add(k[0])
        if k[0] == "r" and len(k) == 2:
            number(k[1])
        elif k[0] in ("v", "pm", "phi", "min", "max", "least", "greatest"):
            for x in k[1:]:
                number(x)
                for y in x if isinstance(x, tuple) else ():
                    number(y)
        elif k[0] in ("root", "total") and len(k) > 1:
            for x in k[1] if isinstance(k[1], tuple) else ():
                for y in (x[0] if k[0] == "root" else (x,)):
                    g = y[0] if isinstance(y, tuple) and y else None
                    if isinstance(g, int) and g not in seen and g < len(space.keys):
                        seen.add(g)
                        walk(space.keys[g])
            number(k[1])
        for x in k:
            walk(x)
    for v in values:
        for r in rats(v):
            gens(r)
        if isinstance(v, Op):
            walk(v.key)
        elif isinstance(v, tuple):
            walk(v)
    return out


def rats(v):
    if isinstance(v, Rat):
        yield v
    elif isinstance(v, Vec):
        yield from v.c
    elif isinstance(v, Tup):
        for x in v.xs:
            yield from rats(x)


def answer(cases):
    """Cases of a function with a yes/no result, with the result as a choice between 1 and 0."""
    return [(gs, tm.phi(v, tm.ONE, ZERO)) for gs, v in cases]


def compare(prog, rep, rule, inst, f, spec, kinds, types, opaque=(), eps=(), tolerances=True, table=None, truth=False, symmetric=None):
    """Obligation that f gives what the definition gives, for all inputs."""
    from .loader import AnalysisError
    want = [a.arg for a in spec.node.args.args]
    have = [a.arg for a in f.node.args.args]
    if len(have) < len(want):
        raise AnalysisError(f"{f.qualname}: expected {len(want)} parameters")
    names = dict(zip(have, want))
    tf = {h: types[w] for h, w in names.items() if w in types}
    if hasattr(rep, "funcs"):
        rep.funcs.add(f.qualname)
    try:
        a = Side(prog, f, tf, names, opaque)
        b = Side(prog, spec, types, None, opaque)
        rep.use(a.K)
        if symmetric:
            for x in (a, b):
                x.cases = [(tuple(sorted_args(g, symmetric) for g in gs), sorted_args(v, symmetric)) for gs, v in x.cases]
        if truth:
            a.cases, b.cases = answer(a.cases), answer(b.cases)
        C = Compare(kinds, eps, tolerances, table, exact=truth)
        n, unclear = 0, None
        for env, x, y in C.run(a.cases, b.cases):
            n += 1
            if x is None and y is None:
                continue
            if x is None or y is None:
                rep.ob(rule, inst, False, f.where(), "gives a result where the definition has none" if y is None else "gives no result where the definition has one")
                return
            if isinstance(x, Tup) and isinstance(y, Vec):
                x = C.A.as_vec(x)
            if isinstance(y, Tup) and isinstance(x, Vec):
                y = C.A.as_vec(y)
            x, y = absorbed(C.space, x), absorbed(C.space, y)
            if C.A.same(x, y):
                continue
            known = opaque_names(C.space, y, *atoms_of(C, b.cases))
            new = opaque_names(C.space, x) - known
            odd = [k for k in env if C.atoms.get(k) is None and k not in atoms_of(C, b.cases) and (k[0] not in ("close", "op") or opaque_names(C.space, k) - known)]
            ok = None if new or odd or type(x) is not type(y) else False
            if ok is False or unclear is None:
                unclear = f"the result differs from the definition{' when ' + when(C, env) if env else ''}" + (f" ({', '.join(sorted(map(str, new)))})" if new else "")
            if ok is False:
                rep.ob(rule, inst, ok, f.where(), unclear)
                return
        if unclear:
            rep.ob(rule, inst, None, f.where(), unclear)
            return
        rep.ob(rule, inst, True, f.where())
        rep.count("sign_combinations", n)
    except (Unknown, TooMany, KeyError, RecursionError) as e:
        rep.ob(rule, inst, None, f.where(), f"not understood: {type(e).__name__} {e}"[:150])


def sorted_args(t, symmetric):
    """Calls whose result does not depend on the order of some arguments, with these in one order."""
    if not isinstance(t, tm.T):
        return t
    r = tm.rebuild(t, lambda x: sorted_args(x, symmetric))
    if r[0] == "call" and r[1] in symmetric:
        at = [i for i in symmetric[r[1]] if i < len(r[2])]
        xs = list(r[2])
        for i, x in zip(at, sorted((xs[i] for i in at), key=tm.tkey)):
            xs[i] = x
        r = mk("call", r[1], tuple(xs), *r[3:])
    return r


def atoms_of(C, cases):
    out = set()

    def walk(b):
        if isinstance(b, tuple):
            if b and b[0] in ("and", "or", "not"):
                for x in b[1:]:
                    walk(x)
            else:
                out.add(b)
    for gs, v in cases:
        for g in gs:
            walk(C.boolean(spread(g)))
        for x in tm.subterms(spread(v)):
            if x[0] == "phi":
                walk(C.boolean(x[1]))
    return out


def when(C, env):
    return ", ".join(("" if v else "not ") + str(k[0]) for k, v in env.items())[:80]


ROUND = mk("ix", ("round", 0))


def rows_of(prog, f, types, names, opaque):
    """Assignments to elements of the array that f returns, in order: (first, number, value in round ROUND)."""
    K = Kernel(prog, opaque=list(opaque))
    out, rets = K.run(f, types)
    if len(rets) != 1:
        raise Unknown("several ways to return")
    st, v = rets[0]
    if v[0] != "ref" or v[2]:
        raise Unknown("not an array of its own")
    root = K.roots[v[1]]
    if root.shape is None:
        raise Unknown("size of the array")
    size = ren(root.shape[1][0] if root.shape[0] == "tuple" else root.shape, names)
    rows = []
    for e in K.events:
        if e.kind != "store" or e.root is not root:
            continue
        if e.guards or len(e.idx) != 1:
            raise Unknown("conditional assignment")
        recs = [r for r in K.loop_recs for l in e.loops if r.key == l]
        if len(recs) != len(e.loops) or len(recs) > 1 or any(r.breaks or r.index is None for r in recs):
            raise Unknown("loop")
        sub = {r.index: ROUND for r in recs}
        val = ren(tm.subst(settled(K, st, e.val), sub), names)
        idx = ren(tm.subst(e.idx[0], sub), names)
        if idx[0] == "c" and idx[2] < 0:
            idx = tm.add(size, idx)
        count = ren(recs[0].count, names) if recs else tm.const(1)
        first = tm.sub(idx, ROUND) if recs else idx
        if tm.contains(first, lambda x: x is ROUND):
            raise Unknown("elements not assigned in order")
        rows.append((first, count, val))
    return rows, K, size


def at_least(a, b):
    """Whether a >= b for counts a and b: True, False or unknown."""
    d = tm.sub(a, b)
    if d[0] == "c":
        return d[2] >= 0
    if d[0] in ("p", "len"):
        return True
    if d[0] == "sum" and all(w > 0 for _, w in d[1]) and d[2] >= 0:
        return True
    if d[0] == "sum" and all(w < 0 for _, w in d[1]) and d[2] < 0:
        return False
    return None


def compare_rows(prog, rep, rule, inst, f, spec, kinds, types, opaque=(), eps=()):
    """Obligation that f fills the array it returns as the definition does."""
    want = [a.arg for a in spec.node.args.args]
    names = dict(zip([a.arg for a in f.node.args.args], want))
    rep.funcs.add(f.qualname)
    C = Compare(kinds, eps)
    fix = lambda x, y: C.A.as_vec(x) if isinstance(x, Tup) and isinstance(y, (Vec, Tup)) and len(x.xs) == 3 else x
    try:
        a, K, sa = rows_of(prog, f, {h: types[w] for h, w in names.items() if w in types}, names, opaque)
        rep.use(K)
        b, _, sb = rows_of(prog, spec, types, None, opaque)
        if not C.A.same(C.A.conv(sa), C.A.conv(sb)):
            rep.ob(rule, inst, False, f.where(), "the array has another size than in the definition")
            return
        for first, count, val in b:
            end = tm.add(first, count)
            hits = []
            for n, (f2, c2, v2) in enumerate(a):
                inside = [at_least(first, f2), at_least(tm.add(f2, c2), end)]
                apart = at_least(first, tm.add(f2, c2)) is True or at_least(f2, end) is True
                if inside == [True, True]:
                    hits = [(f2, v2)]
                elif not apart:
                    if None in inside:
                        raise Unknown("overlap of assignments")
                    hits.append(None)
            if not hits or hits[0] is None:
                rep.ob(rule, inst, False, f.where(), f"elements from {tm.show(first)} on are not all assigned")
                return
            if len(hits) > 1:
                raise Unknown("overlap of assignments")
            x = C.A.conv(tm.subst(hits[0][1], {ROUND: tm.sub(tm.add(first, ROUND) if count is not tm.const(1) else first, hits[0][0])}))
            y = C.A.conv(val)
            if not C.A.same(fix(x, y), fix(y, x)):
                new = opaque_names(C.space, x) - opaque_names(C.space, y)
                rep.ob(rule, inst, None if new else False, f.where(), f"elements from {tm.show(first)} on differ from the definition")
                return
        rep.ob(rule, inst, True, f.where())
        rep.count("array_elements", len(a))
    except (Unknown, KeyError, TypeError) as e:
        rep.ob(rule, inst, None, f.where(), f"not understood: {type(e).__name__} {e}"[:150])
