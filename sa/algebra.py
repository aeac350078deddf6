"""Exact algebra of three-dimensional vectors over the terms of the kernel analysis.

A term is put into a normal form: quotients of polynomials with rational coefficients over the
coordinates of points and over uninterpreted values.  Square roots are kept as generators with
their square known.  Two terms with the same normal form have the same value for all inputs, up
to rounding.  Nothing is evaluated: coordinates stay symbols.

`Algebra(moved=True)` reads every point as that point plus the same unknown vector T.
"""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .terms import ONE, ZERO, mk

AX = (0, 1, 2)


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- polynomials: {((gen, exp), ...): coefficient}
def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def m_mul(a, b):
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, {(): Fraction(1)} if d is None else d


class Vec:
    __slots__ = ("c", "row")

    def __init__(self, c, row=None):
        self.c, self.row = list(c), row


class Op:
    """An uninterpreted value (truth value, index, array) known by its key only."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Tup:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = list(xs)


class Space:
    """Generators shared by the normal forms that are to be compared."""

    def __init__(self, eps=()):
        self.keys = []
        self.index = {}
        self.square = {}         # generator of a root -> polynomial
        self.angles = {}         # generator of a sine or cosine -> (name, angle)
        self.signed = set()      # generators with a known square that may be negative
        self.rats = []
        self.eps = set(eps)      # constants that stand for zero

    def gen(self, key):
        if key not in self.index:
            self.index[key] = len(self.keys)
            self.keys.append(key)
        return self.index[key]

    def var(self, key):
        return Rat({((self.gen(key), 1),): Fraction(1)})

    # arithmetic
    def mul_p(self, a, b):
        if len(a) * len(b) > 60000:
            raise Unknown("polynomial too large")
        out = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = m_mul(ma, mb)
                v = out.get(m, 0) + ca * cb
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return self.reduce(out)

    def reduce(self, p):
        """Squares of roots are replaced by what is under the root."""
        while True:
            hit = next(((m, g, e) for m in p for g, e in m if e >= 2 and self.sq(g) is not None), None)
            if hit is None:
                return p
            g = hit[1]
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(g, 0)
                if e < 2:
                    out = p_add(out, {m: c})
                    continue
                d[g] = e % 2
                if not d[g]:
                    d.pop(g)
                rest = {tuple(sorted(d.items())): c}
                sq = self.square[g]
                for _ in range(e // 2):
                    rest = self.mul_p(rest, sq)
                out = p_add(out, rest)
            p = out

    def add(self, a, b, s=1):
        if a.d == b.d:
            return Rat(p_add(a.n, b.n, s), a.d)
        return self.norm(Rat(p_add(self.mul_p(a.n, b.d), self.mul_p(b.n, a.d), s), self.mul_p(a.d, b.d)))

    def mul(self, a, b):
        return self.norm(Rat(self.mul_p(a.n, b.n), self.mul_p(a.d, b.d)))

    def div(self, a, b):
        if not b.n:
            raise Unknown("division by zero")
        return self.norm(Rat(self.mul_p(a.n, b.d), self.mul_p(a.d, b.n)))

    def norm(self, r):
        """Cancels common monomials and makes the leading coefficient of the divisor one."""
        if not r.n:
            return Rat({})
        gs = None
        for p in (r.n, r.d):
            for m in p:
                d = dict(m)
                gs = d if gs is None else {g: min(e, d[g]) for g, e in gs.items() if g in d}
                if not gs:
                    break
        n, d = r.n, r.d
        if gs:
            def cut(m):
                x = dict(m)
                for g, e in gs.items():
                    x[g] -= e
                return tuple(sorted((g, e) for g, e in x.items() if e))
            n, d = {cut(m): c for m, c in n.items()}, {cut(m): c for m, c in d.items()}
        lead = d[min(d)]
        if lead != 1:
            n, d = {m: c / lead for m, c in n.items()}, {m: c / lead for m, c in d.items()}
        return Rat(n, d)

    def neg(self, a):
        return Rat({m: -c for m, c in a.n.items()}, a.d)

    def eq(self, a, b):
        if a.n == b.n and a.d == b.d:
            return True
        return not p_add(self.mul_p(a.n, b.d), self.mul_p(b.n, a.d), -1)

    def rid(self, a):
        """Number of a quotient, the same for equal ones."""
        for i, b in enumerate(self.rats):
            if self.eq(a, b):
                return i
        self.rats.append(a)
        return len(self.rats) - 1

    def nonneg(self, p):
        """Is the polynomial a positive constant times roots?"""
        return len(p) == 1 and all(c > 0 and all(g in self.square and g not in self.signed or e % 2 == 0 for g, e in m) for m, c in p.items())

    def sqrt(self, a):
        if not a.n:
            return a
        if self.nonneg(a.d):
            # sqrt(n/d) = sqrt(n*d)/d
            n, d = self.mul_p(a.n, a.d), Rat(a.d)
        else:
            n, d = self.mul_p(a.n, a.d), self.sqrt(Rat(self.mul_p(a.d, a.d)))
        c = content(n)
        prim = {m: v / c for m, v in n.items()}
        out = self.root_const(c)
        if prim != {(): Fraction(1)}:
            key = ("root", tuple(sorted(prim.items())))
            g = self.gen(key)
            self.square[g] = prim
            out = self.mul(out, Rat({((g, 1),): Fraction(1)}))
        return self.div(out, d)

    def mag(self, a):
        """Absolute value."""
        n = self.sqrt(Rat(self.mul_p(a.n, a.n)))
        d = Rat(a.d) if self.nonneg(a.d) else self.sqrt(Rat(self.mul_p(a.d, a.d)))
        return self.div(n, d)

    def trig(self, name, a):
        """Sine or cosine; squares are written with the doubled angle."""
        zero = not a.n
        if zero:
            return Rat({}) if name == "sin" else Rat(p_const(1))
        if a.n[min(a.n)] < 0:
            r = self.trig(name, self.neg(a))
            return r if name == "cos" else self.neg(r)
        g = self.gen((name, self.rid(a)))
        self.angles[g] = (name, a)
        return Rat({((g, 1),): Fraction(1)})

    def sq(self, g):
        """What the square of a generator is, if known."""
        if g in self.angles and g not in self.square:
            name, a = self.angles[g]
            half = Rat(p_const(Fraction(1, 2)))
            two = self.trig("cos", self.mul(Rat(p_const(2)), a))
            self.signed.add(g)
            self.square[g] = self.add(half, self.mul(half, two), -1 if name == "sin" else 1).n
        return self.square.get(g)

    def root_const(self, c):
        num, den = isqrt(c.numerator), isqrt(c.denominator)
        if num is not None and den is not None:
            return Rat(p_const(Fraction(num, den)))
        g = self.gen(("root", (((), c),)))
        self.square[g] = p_const(c)
        return Rat({((g, 1),): Fraction(1)})


def isqrt(n):
    from math import isqrt as q
    if n < 0:
        return None
    r = q(n)
    return r if r * r == n else None


def content(p):
    from math import gcd
    num = den = 0
    for c in p.values():
        num = gcd(num, abs(c.numerator))
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


CAST = {"float", "np.float64", "np.array", "np.asarray", "np.ascontiguousarray", "bool", "np.copy", "np.float32", "np.round", "np.around", "round", "int"}
CLOSE = {"np.allclose", "np.isclose"}


class Algebra:
    """Reads terms.  kinds: name of a parameter -> "pt", "vec", "unit", "pts", "rows", "mat", "num"."""

    def __init__(self, space, kinds, moved=False, table=None, weights=None, K=None):
        self.s, self.kinds, self.moved, self.table, self.weights, self.K = space, kinds, moved, table or {}, weights or {}, K
        self.memo = {}

    def T(self, k):
        return self.s.var(("T", k))

    def lift(self, v):
        """The value moved by T."""
        if isinstance(v, Vec):
            return Vec([self.s.add(c, self.T(k)) for k, c in enumerate(v.c)], v.row)
        if isinstance(v, Tup):
            return Tup([self.lift(x) for x in v.xs])
        raise Unknown("not a point")

    def num(self, t):
        v = self.conv(t)
        if isinstance(v, Op):
            return self.s.var(("op", v.key))
        if not isinstance(v, Rat):
            raise Unknown("not a number")
        return v

    def conv(self, t):
        if t not in self.memo:
            self.memo[t] = self._conv(t)
        return self.memo[t]

    def key(self, v):
        if isinstance(v, Rat):
            return ("r", self.s.rid(v))
        if isinstance(v, Vec):
            return ("v", v.row) + tuple(self.s.rid(c) for c in v.c)
        if isinstance(v, Tup):
            return ("t",) + tuple(self.key(x) for x in v.xs)
        return v.key

    def vec(self, key, weight=0, row=None):
        v = Vec([self.s.var((key, k)) for k in AX], row)
        return self.lift(v) if weight and self.moved else v

    def same(self, a, b):
        if isinstance(a, Tup) and len(a.xs) == 3 and not isinstance(b, Op):
            a = self.vectors(a)
        if isinstance(b, Tup) and len(b.xs) == 3 and not isinstance(a, Op):
            b = self.vectors(b)
        if type(a) is not type(b):
            return False
        if isinstance(a, Rat):
            return self.s.eq(a, b)
        if isinstance(a, Vec):
            return all(self.s.eq(x, y) for x, y in zip(a.c, b.c))
        if isinstance(a, Tup):
            return len(a.xs) == len(b.xs) and all(self.same(x, y) for x, y in zip(a.xs, b.xs))
        return a.key == b.key

    # ------------------------------------------------------------
    def _conv(self, t):
        s = self.s
        k = t[0]
        if k == "c":
            if isinstance(t[2], bool) or not isinstance(t[2], (int, float)):
                return Op(("c", repr(t[2])))
            if t[2] != t[2] or t[2] in (float("inf"), float("-inf")):
                return Op(("c", repr(t[2])))
            if t[2] in s.eps:
                return Rat({})
            q = Fraction(t[2])
            r = q.limit_denominator(4096)
            return Rat(p_const(r if abs(float(r) - t[2]) < 1e-15 * max(1, abs(t[2])) else q))
        if k == "p":
            kind = self.kinds.get(t[1], "num")
            if kind in ("pt", "vec"):
                return self.vec(("p", t[1]), kind == "pt")
            return s.var(("p", t[1]))
        if k == "base":
            return self.base(t)
        if k == "head":
            w = self.weights.get(t)
            if w is None:
                return s.var(("head",) + tuple(t[1:]))
            return self.vec(("head",) + tuple(t[1:]), w) if w in (0, 1) else s.var(("head",) + tuple(t[1:]))
        if k == "ix":
            return s.var(("ix",) + tuple(t[1:]))
        if k == "sum":
            out = None
            for x, w in t[1]:
                out = self.plus(out, self.times(Rat(p_const(Fraction(w).limit_denominator(10 ** 6) if isinstance(w, float) else Fraction(w))), self.conv(x)))
            c = self.conv(tm.const(t[2])) if t[2] else None
            return self.plus(out, c) if c is not None else out
        if k == "mul":
            out = None
            for x in t[1] if isinstance(t[1], tuple) and not isinstance(t[1], tm.T) else t[1:]:
                v = self.conv(x)
                out = v if out is None else self.times(out, v)
            return out
        if k == "op":
            return self.op(t)
        if k == "tuple":
            xs = [self.conv(x) for x in t[1]]
            return Tup(xs)
        if k == "sel":
            return self.sel(t)
        if k == "cmp":
            a, b = self.conv(t[2]), self.conv(t[3])
            if isinstance(a, (Rat, Vec)) and isinstance(b, (Rat, Vec)):
                d = self.plus(a, b, -1)
                if t[1] in ("==", "!=", "is"):
                    return Op((t[1], self.sign(d)))
                return Op((t[1], self.key(d)))
            return Op((t[1], self.key(a), self.key(b)))
        if k == "not":
            return Op(("not", self.key(self.conv(t[1]))))
        if k in ("and", "or"):
            return Op((k, tuple(sorted((self.key(self.conv(x)) for x in self.parts(t)), key=repr))))
        if k == "phi":
            return self.phi(t)
        if k in ("call", "mcall"):
            return self.call(t)
        if k == "fill":
            v = self.conv(t[1])
            return Vec([v] * 3) if isinstance(v, Rat) else Op(("fill", self.key(v)))
        if k == "total":
            return self.total(t)
        if k == "upd":
            return self.upd(t)
        if k == "attr" and t[2] == "T":
            m = self.as_mat(self.conv(t[1]))
            if self.is_mat(m):
                return self.transposed(m)
            if isinstance(m, Vec) and m.row is not None:
                return Vec(m.c, m.row[1] if isinstance(m.row, tuple) and m.row[0] == "T" else ("T", m.row))
        if k == "attr":
            return Op(("attr", self.shape(t[1]), t[2])) if t[2] == "shape" else Op(("attr", self.key(self.conv(t[1])), t[2]))
        if k in ("ext", "glob", "fn", "cls", "str"):
            return Op(("sym",) + tuple(map(str, t)))
        if k == "slice":
            return Op(("slice",) + tuple(self.key(self.conv(x)) for x in t[1:]))
        if k == "ref" and self.K is not None:
            raise Unknown("reference")
        if k == "len" or k == "length":
            return Op(("len", self.shape(t[1])))
        if k == "elem":
            return Op(("elem", self.key(self.conv(t[1])) if isinstance(t[1], tm.T) else repr(t[1])))
        raise Unknown(f"term {k}")

    def parts(self, t):
        return t[1] if isinstance(t[1], tuple) and not isinstance(t[1], tm.T) else t[1:]

    def shape(self, t):
        """Name of an array as far as its size is concerned."""
        return ("shape", tm.show(t))

    def base(self, t):
        name, key = t[1], t[2]
        if key == "":
            kind = self.kinds.get(name)
            if kind in ("pt", "vec"):
                return self.vec(("p", name), kind == "pt")
            if kind == "unit":
                return self.unit(("p", name))
            if kind == "mat":
                return Tup([self.vec(("p", name, k)) for k in AX])
            if kind in ("pts", "rows"):
                return self.vec(("row", name), kind == "pts", name)
            return Op(("base", name))
        w = self.weights.get(t)
        if w is None:
            return Op(("base",) + tuple(t[1:]))
        if w[0] == "vec":
            return self.vec(("base",) + tuple(t[1:]), w[1])
        return self.vec(("row", "base") + tuple(t[1:]), w[1], tm.show(t))

    def unit(self, key):
        """A vector of length one."""
        s = self.s
        v = self.vec(key)
        g = s.gen((key, 0))
        s.signed.add(g)
        one = Rat(p_const(1))
        s.square[g] = s.add(s.add(one, s.mul(v.c[1], v.c[1]), -1), s.mul(v.c[2], v.c[2]), -1).n
        return v

    def plus(self, a, b, sign=1):
        s = self.s
        a, b = self.as_mat(a), self.as_mat(b)
        if a is None:
            return b if sign == 1 else self.times(Rat(p_const(-1)), b)
        if isinstance(a, Rat) and isinstance(b, Rat):
            return s.add(a, b, sign)
        if isinstance(a, Op):
            a = s.var(("op", a.key)) if isinstance(b, Rat) else self.opvec(a)
            return self.plus(a, b, sign)
        if isinstance(b, Op):
            b = s.var(("op", b.key)) if isinstance(a, Rat) else self.opvec(b)
            return self.plus(a, b, sign)
        if self.is_mat(a) and self.is_mat(b):
            return Tup([self.plus(x, y, sign) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, Tup) and len(a.xs) == 3 and not self.is_mat(a):
            return self.plus(Vec([self.scalar(x) for x in a.xs]), b, sign)
        if isinstance(b, Tup) and len(b.xs) == 3 and not self.is_mat(b):
            return self.plus(a, Vec([self.scalar(x) for x in b.xs]), sign)
        if isinstance(a, Tup) or isinstance(b, Tup):
            raise Unknown("sum of tuples")
        x = a.c if isinstance(a, Vec) else [a] * 3
        y = b.c if isinstance(b, Vec) else [b] * 3
        return Vec([s.add(p, q, sign) for p, q in zip(x, y)], getattr(a, "row", None) or getattr(b, "row", None))

    def is_mat(self, v):
        return isinstance(v, Tup) and len(v.xs) == 3 and all(isinstance(x, Vec) and x.row is None for x in v.xs)

    def as_mat(self, v):
        """A 3x3 matrix written as rows."""
        if isinstance(v, Tup) and len(v.xs) == 3 and all(isinstance(x, (Tup, Vec)) for x in v.xs):
            return Tup([self.as_vec(x) for x in v.xs])
        return v

    def vectors(self, v):
        """Three numbers as one vector, three rows of numbers as a matrix."""
        if all(isinstance(x, Rat) for x in v.xs):
            return self.as_vec(v)
        return Tup([self.vectors(x) if isinstance(x, Tup) and len(x.xs) == 3 else x for x in v.xs])

    def transposed(self, v):
        return Tup([Vec([r.c[k] for r in v.xs]) for k in AX])

    def opvec(self, o):
        return Vec([self.s.var(("op", o.key, k)) for k in AX])

    def scalar(self, v):
        if isinstance(v, Op):
            return self.s.var(("op", v.key))
        if isinstance(v, Rat):
            return v
        raise Unknown("not a number")

    def times(self, a, b):
        s = self.s
        a, b = self.as_mat(a), self.as_mat(b)
        if isinstance(a, Op):
            a = s.var(("op", a.key))
        if isinstance(b, Op):
            b = s.var(("op", b.key))
        if self.is_mat(a) and isinstance(b, Rat):
            return Tup([self.times(x, b) for x in a.xs])
        if self.is_mat(b) and isinstance(a, Rat):
            return Tup([self.times(a, x) for x in b.xs])
        if isinstance(a, Tup) and len(a.xs) == 3 and not self.is_mat(a):
            a = self.vectors(a)
        if isinstance(b, Tup) and len(b.xs) == 3 and not self.is_mat(b):
            b = self.vectors(b)
        if isinstance(a, Tup) or isinstance(b, Tup):
            raise Unknown("product of tuples")
        if isinstance(a, Rat) and isinstance(b, Rat):
            return s.mul(a, b)
        x = a.c if isinstance(a, Vec) else [a] * 3
        y = b.c if isinstance(b, Vec) else [b] * 3
        return Vec([s.mul(p, q) for p, q in zip(x, y)], getattr(a, "row", None) or getattr(b, "row", None))

    def over(self, a, b):
        s = self.s
        a, b = self.as_mat(a), self.as_mat(b)
        if isinstance(a, Op):
            a = s.var(("op", a.key))
        if isinstance(b, Op):
            b = s.var(("op", b.key))
        if self.is_mat(a) and isinstance(b, Rat):
            return Tup([self.over(x, b) for x in a.xs])
        if isinstance(a, Tup) and len(a.xs) == 3 and not self.is_mat(a):
            a = self.vectors(a)
        if isinstance(b, Tup) and len(b.xs) == 3 and not self.is_mat(b):
            b = self.vectors(b)
        if isinstance(a, Tup) or isinstance(b, Tup):
            raise Unknown("quotient of tuples")
        if isinstance(a, Rat) and isinstance(b, Rat):
            return s.div(a, b)
        x = a.c if isinstance(a, Vec) else [a] * 3
        y = b.c if isinstance(b, Vec) else [b] * 3
        return Vec([s.div(p, q) for p, q in zip(x, y)], getattr(a, "row", None) or getattr(b, "row", None))

    def op(self, t):
        o, a, b = t[1], self.conv(t[2]), self.conv(t[3])
        if o == "/":
            return self.over(a, b)
        if o == "*":
            return self.times(a, b)
        if o in ("+", "-"):
            return self.plus(a, b, 1 if o == "+" else -1)
        if o == "**":
            if isinstance(b, Rat) and b.d == {(): 1} and set(b.n) == {()} and b.n[()].denominator == 1 and 0 < b.n[()] < 9:
                out = a
                for _ in range(int(b.n[()]) - 1):
                    out = self.times(out, a)
                return out
            if isinstance(a, Rat) and isinstance(b, Rat) and b.n == {(): Fraction(1, 2)}:
                return self.s.sqrt(a)
        if o == "@":
            return self.matmul(a, b)
        return Op((o, self.key(a), self.key(b)))

    # ------------------------------------------------------------ vectors
    def as_vec(self, v):
        if isinstance(v, Tup) and len(v.xs) == 3 and all(isinstance(x, (Rat, Op)) for x in v.xs):
            return Vec([self.scalar(x) for x in v.xs])
        if isinstance(v, Op):
            return self.opvec(v)
        if isinstance(v, Rat) and not v.n:
            return Vec([v] * 3)
        if not isinstance(v, Vec):
            raise Unknown("not a vector")
        return v

    def dot(self, a, b):
        a, b = self.as_vec(a), self.as_vec(b)
        out = Rat({})
        for x, y in zip(a.c, b.c):
            out = self.s.add(out, self.s.mul(x, y))
        return out

    def cross(self, a, b):
        s = self.s
        a, b = self.as_vec(a), self.as_vec(b)
        return Vec([s.add(s.mul(a.c[(k + 1) % 3], b.c[(k + 2) % 3]), s.mul(a.c[(k + 2) % 3], b.c[(k + 1) % 3]), -1) for k in AX])

    def matmul(self, a, b):
        a, b = self.as_mat(a), self.as_mat(b)
        if self.is_mat(a) and self.is_mat(b):
            cols = self.transposed(b)
            return Tup([Vec([self.dot(r, c) for c in cols.xs]) for r in a.xs])
        if self.is_mat(a) and isinstance(b, Vec):
            if b.row is not None and not (isinstance(b.row, tuple) and b.row[0] == "T"):
                raise Unknown("product with rows")
            return Vec([self.dot(r, b) for r in a.xs], b.row)
        if isinstance(a, Vec) and self.is_mat(b):
            if isinstance(a.row, tuple) and a.row[0] == "T":
                raise Unknown("product of columns")
            return Vec([self.dot(Vec(a.c), c) for c in self.transposed(b).xs], a.row)
        if isinstance(a, Vec) and isinstance(b, Op):
            # rows times a constant matrix
            return Vec([self.lin(a, b, k) for k in AX], a.row)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.dot(a, b)
        return Op(("@", self.key(a), self.key(b)))

    def lin(self, v, m, k):
        out = Rat({})
        for j in AX:
            out = self.s.add(out, self.s.mul(v.c[j], self.s.var(("entry", m.key, j, k))))
        return out

    def sel(self, t):
        b, idx = t[1], t[2]
        if b[0] == "base":
            kind = self.kinds.get(b[1]) if b[2] == "" else None
            w = self.weights.get(b)
            if kind in ("pts", "rows") or w and w[0] == "rows":
                move = kind == "pts" or bool(w and w[1])
                name = ("sel",) + tuple(b[1:])
                if idx[0][0] == "slice" and all(x[0] == "c" and x[2] is None for x in idx[0][1:]):
                    v = self.base(b)
                else:
                    v = self.vec(name + (self.ikey(idx[0]),), move, self.ikey(idx[0]) if idx[0][0] == "slice" else None)
                return self.pick(v, idx[1:])
        v = self.conv(b)
        return self.pick(v, idx)

    def ikey(self, i):
        if i[0] == "slice":
            return tm.show(i)
        return self.key(self.conv(i))

    def pick(self, v, idx):
        for n, i in enumerate(idx):
            if i[0] == "slice":
                if all(x[0] == "c" and x[2] is None for x in i[1:]) or isinstance(v, Vec):
                    continue
                return Op(("sel", self.key(v), tuple(tm.show(x) for x in idx[n:])))
            c = i[2] if i[0] == "c" and isinstance(i[2], int) else None
            if isinstance(v, Vec) and c is not None and -3 <= c < 3 and (v.row is None or n > 0 or True):
                v = v.c[c % 3]
            elif isinstance(v, Tup) and c is not None and -len(v.xs) <= c < len(v.xs):
                v = v.xs[c]
            elif isinstance(v, Tup) and c is None:
                v = self.anyof(v.xs, i)
            elif isinstance(v, Vec):
                v = self.anyof(v.c, i)
            else:
                v = Op(("sel", self.key(v), tuple(self.ikey(x) for x in idx[n:])))
                break
        return v

    def anyof(self, xs, i):
        """One of several values: the common shift is taken out."""
        if all(isinstance(x, Vec) for x in xs):
            xs2, moved = self.unmoved(xs)
            v = self.vec(("one", self.key(Tup(xs2)), self.key(self.conv(i))))
            return self.lift(v) if moved else v
        if all(isinstance(x, Tup) for x in xs) and len({len(x.xs) for x in xs}) == 1:
            return Tup([self.anyof([x.xs[k] for x in xs], i) for k in range(len(xs[0].xs))])
        return Op(("one", tuple(self.key(x) for x in xs), self.key(self.conv(i))))

    def unmoved(self, xs):
        """Takes T out of vectors that all contain it once."""
        s = self.s
        out = []
        for v in xs:
            w = Vec([s.add(c, self.T(k), -1) for k, c in enumerate(v.c)], v.row)
            if not all(self.has_T(c) for c in v.c) or any(self.has_T(c) for c in w.c):
                return xs, False
            out.append(w)
        return out, True

    def has_T(self, r):
        gs = {self.s.index.get(("T", k)) for k in AX}
        r = self.s.norm(r)
        return any(g in gs for p in (r.n, r.d) for m in p for g, _ in m)

    def phi(self, t):
        c = self.conv(t[1])
        a, b = self.conv(t[2]), self.conv(t[3])
        if type(a) is type(b) and self.same(a, b):
            return a
        if isinstance(a, Rat) and isinstance(b, Op):
            b = self.s.var(("op", b.key))
        if isinstance(b, Rat) and isinstance(a, Op):
            a = self.s.var(("op", a.key))
        if isinstance(a, Vec) and isinstance(b, Vec):
            (x, y), moved = self.unmoved([a, b])
            v = Vec([self.choice(c, p, q) for p, q in zip(x.c, y.c)], a.row or b.row)
            return self.lift(v) if moved else v
        if isinstance(a, Rat) and isinstance(b, Rat):
            return self.choice(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
            raise Unknown("choice of tuples")
        return Op(("phi", c.key if isinstance(c, Op) else self.key(c), self.key(a), self.key(b)))

    def choice(self, c, a, b):
        s = self.s
        if s.eq(a, b):
            return a
        return s.var(("phi", self.key(c), s.rid(a), s.rid(b)))

    def upd(self, t):
        """An array with one element set."""
        b, idx, v = t[1], t[2], t[3]
        x = self.conv(b)
        if isinstance(x, Vec) and x.row is None and len(idx) == 1 and idx[0][0] == "c" and isinstance(idx[0][2], int):
            out = Vec(x.c)
            out.c[idx[0][2] % 3] = self.num(v)
            return out
        raise Unknown("array update")

    def sign(self, d):
        """Key of a difference regardless of its sign."""
        if isinstance(d, Rat):
            a, b = self.s.rid(d), self.s.rid(self.s.neg(d))
            return ("pm", min(a, b))
        a = tuple(self.s.rid(c) for c in d.c)
        b = tuple(self.s.rid(self.s.neg(c)) for c in d.c)
        return ("pm", min(a, b))

    # ------------------------------------------------------------ totals and extremes
    def total(self, t):
        from .totals import BOUND
        body, n = self.conv(t[1]), self.key(self.conv(t[2])) if t[2][0] != "attr" else ("n", tm.show(t[2]))
        n = ("n", tm.show(t[2]))
        if isinstance(body, Op):
            return self.s.var(("total", body.key, n))
        if isinstance(body, Vec):
            return Vec([self.tot(c, n, BOUND) for c in body.c])
        return self.tot(body, n, BOUND)

    def tot(self, r, n, bound):
        """Splits each product into the part that varies with the round and the rest."""
        s = self.s
        g0 = s.gen(("ix",) + tuple(bound[1:]))
        if any(self.varies(g, g0) for m in r.d for g, _ in m):
            return s.var(("total", s.rid(r), n))
        out = Rat({})
        for m, c in r.n.items():
            dep = tuple((g, e) for g, e in m if self.varies(g, g0))
            ind = tuple((g, e) for g, e in m if not self.varies(g, g0))
            x = s.var(("total", dep, n)) if dep else s.var(("count", n))
            out = s.add(out, s.mul(x, Rat({ind: c})))
        return s.div(out, Rat(r.d))

    def varies(self, g, g0):
        if g == g0:
            return True
        return self.mentions(self.s.keys[g], g0, set())

    def mentions(self, key, g0, seen):
        if isinstance(key, tuple):
            if len(key) == 2 and key[0] == "r" and isinstance(key[1], int) and key[1] < len(self.s.rats):
                return self.rat_mentions(key[1], g0, seen)
            if key and key[0] == "v":
                return any(self.rat_mentions(i, g0, seen) for i in key[2:] if isinstance(i, int)) or False
            if key and key[0] == "phi" and len(key) == 4 and isinstance(key[2], int):
                return self.mentions(key[1], g0, seen) or self.rat_mentions(key[2], g0, seen) or self.rat_mentions(key[3], g0, seen)
            if key and key[0] == "pm":
                return any(self.rat_mentions(i, g0, seen) for i in (key[1] if isinstance(key[1], tuple) else (key[1],)))
            if key and key[0] == "root":
                return any(self.varies(g, g0) for m, _ in key[1] for g, _ in m)
            return any(self.mentions(k, g0, seen) for k in key if isinstance(k, tuple))
        return False

    def rat_mentions(self, i, g0, seen):
        if i in seen:
            return False
        seen.add(i)
        r = self.s.rats[i]
        return any(self.varies(g, g0) for p in (r.n, r.d) for m in p for g, _ in m)

    def extreme(self, name, xs):
        """min/max/mean of values: a common shift is taken out."""
        s = self.s
        rats = [self.scalar(x) for x in xs]
        shift = None
        if self.moved:
            for k in AX:
                low = [s.add(r, self.T(k), -1) for r in rats]
                if all(self.has_T(r) for r in rats) and not any(self.has_T(r) for r in low):
                    rats, shift = low, self.T(k)
                    break
        v = s.var((name, tuple(sorted(s.rid(r) for r in rats))))
        return s.add(v, shift) if shift is not None else v

    # ------------------------------------------------------------ calls
    def call(self, t):
        s = self.s
        if t[0] == "mcall":
            obj, name, args, kw = t[1], t[2], t[3], t[4]
            full = name
        else:
            obj, name, args, kw = None, t[1], t[2], t[3] if len(t) > 3 else ()
            full = name
        if full in self.table:
            return self.known(full, args, kw)
        if obj is not None:
            if name in ("copy", "astype", "ravel", "flatten", "item", "reshape"):
                return self.conv(obj)
            if name == "dot" and len(args) == 1:
                o = self.conv(obj)
                return self.product(o, args[0])
            if name in ("any", "all", "min", "max", "sum", "mean"):
                return self.reduced(name, self.conv(obj), kw, args)
            o = self.conv(obj)
            return Op(("m", name, self.key(o), tuple(self.key(self.conv(a)) for a in args)))
        short = name.split(".")[-1]
        if name in CAST and args:
            return self.cast(name, args)
        if name == "vdot" or name in ("np.dot", "np.vdot", "np.inner") and len(args) == 2:
            a, b = self.as_mat(self.conv(args[0])), self.as_mat(self.conv(args[1]))
            if self.is_mat(a) or self.is_mat(b):
                return self.matmul(a, b)
            if isinstance(a, Vec) and isinstance(b, Op) or isinstance(a, Op) and isinstance(b, Vec):
                return self.product(a, args[1]) if name != "vdot" else self.dot(a, b)
            return self.dot(a, b)
        if name == "np.cross" and len(args) == 2:
            return self.cross(self.conv(args[0]), self.conv(args[1]))
        if name == "np.linalg.norm" and len(args) == 1 and not kw:
            v = self.as_vec(self.conv(args[0]))
            return s.sqrt(self.dot(v, v))
        if name in ("np.sqrt", "math.sqrt") and len(args) == 1:
            return s.sqrt(self.num(args[0]))
        if name in ("abs", "np.abs", "np.absolute", "np.fabs") and len(args) == 1:
            v = self.conv(args[0])
            if isinstance(v, Vec):
                return Vec([s.mag(c) for c in v.c], v.row)
            return s.mag(self.scalar(v))
        if name in CLOSE and len(args) >= 2:
            d = self.plus(self.conv(args[0]), self.conv(args[1]), -1)
            if isinstance(d, Op):
                return Op(("close", d.key))
            return Op(("close", self.sign(d)))
        if name in ("min", "max") and len(args) > 1:
            return self.extreme(name, [self.conv(a) for a in args])
        if name in ("np.minimum", "np.maximum") and len(args) == 2:
            a, b = self.as_vec(self.conv(args[0])), self.as_vec(self.conv(args[1]))
            return Vec([self.extreme(short[:3], [x, y]) for x, y in zip(a.c, b.c)])
        if name in ("np.min", "np.max", "np.amin", "np.amax", "np.sum", "np.mean", "np.any", "np.all", "min", "max", "sum", "any", "all") and args:
            return self.reduced(short.replace("amin", "min").replace("amax", "max"), self.conv(args[0]), kw, args[1:])
        if name in ("np.vstack", "np.stack", "np.array", "np.row_stack", "np.concatenate") and len(args) == 1:
            return self.conv(args[0])
        if name in ("least", "greatest"):
            return s.var((name, self.key(self.conv(args[0])), tm.show(args[1])))
        if name in ("np.eye", "np.identity") and args and args[0][0] == "c" and args[0][2] == 3:
            one = Rat(p_const(1))
            return Tup([Vec([one if j == k else Rat({}) for j in AX]) for k in AX])
        if name in ("np.sin", "np.cos", "math.sin", "math.cos") and len(args) == 1:
            return s.trig(short, self.num(args[0]))
        if name in ("np.transpose",) and len(args) == 1:
            m = self.as_mat(self.conv(args[0]))
            if self.is_mat(m):
                return self.transposed(m)
        if name == "np.outer" and len(args) == 2:
            a, b = self.as_vec(self.conv(args[0])), self.as_vec(self.conv(args[1]))
            return Tup([Vec([s.mul(x, y) for y in b.c]) for x in a.c])
        if name == "np.negative":
            return self.times(Rat(p_const(-1)), self.conv(args[0]))
        return Op(("f", name, tuple(self.key(self.conv(a)) for a in args), tuple((n, self.key(self.conv(v))) for n, v in kw)))

    def cast(self, name, args):
        v = self.conv(args[0])
        if isinstance(v, Tup) and len(v.xs) == 3 and name.startswith("np."):
            if all(isinstance(x, Rat) for x in v.xs):
                return Vec(v.xs)
            if all(isinstance(x, Tup) and len(x.xs) == 3 and all(isinstance(y, Rat) for y in x.xs) for x in v.xs):
                return Tup([Vec(x.xs) for x in v.xs])
        return v

    def product(self, a, b):
        """Rows times a matrix."""
        m = self.as_mat(self.conv(b))
        if self.is_mat(m) or self.is_mat(a):
            return self.matmul(a, m)
        if isinstance(a, Vec) and isinstance(m, Vec) and m.row is None:
            return self.dot(a, m)
        if isinstance(a, Vec):
            return Vec([self.lin(a, Op(self.key(m)), k) for k in AX], a.row)
        return Op(("@", self.key(a), self.key(m)))

    def reduced(self, name, v, kw, args):
        """Reduction of an array: over its rows, or over everything."""
        kw = dict(kw)
        axis = kw.get("axis", args[0] if args else None)
        if isinstance(v, Tup) and all(isinstance(x, Vec) for x in v.xs):
            xs, moved = self.unmoved(v.xs)
            if name in ("min", "max", "mean") and axis is not None:
                out = Vec([self.s.var((name, tuple(sorted(self.s.rid(x.c[k]) for x in xs)))) for k in AX])
                return self.lift(out) if moved else out
        if isinstance(v, Rat) and name in ("min", "max", "mean"):
            return self.extreme((name, "rows"), [v])
        if isinstance(v, Vec) and name in ("min", "max", "mean"):
            if v.row is not None and axis is not None:
                return Vec([self.extreme((name, "rows"), [c]) for c in v.c])
            if v.row is None:
                return self.extreme(name, v.c)
        if isinstance(v, Vec) and name == "sum" and v.row is None:
            out = Rat({})
            for c in v.c:
                out = self.s.add(out, c)
            return out
        return Op((name, self.key(v), repr(axis)))

    def known(self, name, args, kw):
        """A function whose own behaviour under a translation is established separately."""
        names, kinds, result = self.table[name]
        vals = {}
        for n, a in list(zip(names, args)) + [(n, v) for n, v in kw]:
            vals[n] = self.conv(a)
        pts = [n for n in vals if kinds.get(n) in ("pt", "pts", "bbox")]
        moved = False
        if self.moved and pts:
            try:
                low = {}
                for n in pts:
                    v = vals[n]
                    xs = v.xs if isinstance(v, Tup) else [v]
                    ys, ok = self.unmoved(xs) if all(isinstance(x, Vec) for x in xs) else (xs, False)
                    if not ok:
                        raise Unknown("")
                    low[n] = Tup(ys) if isinstance(v, Tup) else ys[0]
                moved = True
                vals.update(low)
            except Unknown:
                pass
        key = ("f", name, tuple((n, self.key(v)) for n, v in sorted(vals.items())))
        return self.result(key, result, moved)

    def result(self, key, result, moved):
        if isinstance(result, tuple):
            return Tup([self.result(key + (k,), r, moved) for k, r in enumerate(result)])
        if result in ("pt", "pts"):
            v = Vec([self.s.var((key, k)) for k in AX], key if result == "pts" else None)
            return self.lift(v) if moved else v
        if result == "vec":
            return Vec([self.s.var((key, k)) for k in AX])
        if result == "mat":
            return Tup([Vec([self.s.var((key, j, k)) for k in AX]) for j in AX])
        if result == "num":
            return self.s.var(key)
        return Op(key)
