"""Canonical form of terms with conditionals: ordered decision diagrams over atomic conditions.

Two terms that differ only in the propositional structure of their conditions, in where a conditional sits, or in the
order of tests get the same canonical form.
"""
from __future__ import annotations

from . import terms as tm
from .terms import FALSE, TRUE, T, is_const, mk

LIMIT = 4000
BOOL = ("and", "or", "not")
NOLIFT = {"red", "psum", "first", "last", "phi", "ite", "L", "rec", "node", "dictof", "obj", "fn", "and", "or", "not"}


class TooBig(Exception):
    pass


class Canon:
    def __init__(self, facts=()):
        self.memo = {}
        self.ite_memo = {}
        self.nodes = 0
        self.true = set()
        self.false = set()
        for f in facts:
            self.assume(f)

    def assume(self, f):
        d = Canon().bool(f)
        while d[0] == "ite":
            if d[3] is FALSE:
                self.true.add(d[1])
                d = d[2]
            elif d[2] is FALSE:
                self.false.add(d[1])
                d = d[3]
            else:
                break

    # a decision node is mk("ite", atom, hi, lo); leaves are any other terms
    def node(self, a, hi, lo):
        if hi is lo:
            return hi
        if a[0] == "cmp" and a[1] == "<":
            if hi is a[2] and lo is a[3]:
                return pair("min", hi, lo)
            if hi is a[3] and lo is a[2]:
                return pair("max", hi, lo)
        self.nodes += 1
        if self.nodes > LIMIT:
            raise TooBig
        return mk("ite", a, hi, lo)

    def ite(self, c, a, b):
        """c, a, b are diagrams; c has boolean leaves."""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if a is TRUE and b is FALSE and self.is_bool(c):
            return c
        k = (c, a, b)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        if len(self.ite_memo) > 20 * LIMIT:
            raise TooBig
        if c[0] != "ite":
            if is_const(c):
                return a if c[2] else b
            c2 = self.atom(c)
            if c2[0] != "ite":
                return a if c2 is TRUE else b
            c = c2
        tops = [x[1] for x in (c, a, b) if x[0] == "ite"]
        v = min(tops, key=tm.tkey)
        hi = self.ite(self.cof(c, v, True), self.cof(a, v, True), self.cof(b, v, True))
        lo = self.ite(self.cof(c, v, False), self.cof(a, v, False), self.cof(b, v, False))
        r = self.node(v, hi, lo)
        self.ite_memo[k] = r
        return r

    def is_bool(self, d):
        if d[0] == "ite":
            return True
        return d in (TRUE, FALSE)

    def cof(self, d, v, val):
        if d[0] == "ite":
            if d[1] is v:
                return d[2] if val else d[3]
            if val and exclusive(d[1], v):
                return self.cof(d[3], v, val)
        return d

    def atom(self, a):
        if a in (TRUE, FALSE):
            return a
        if a in self.true:
            return TRUE
        if a in self.false:
            return FALSE
        if is_const(a):
            return TRUE if a[2] else FALSE
        return self.node(a, TRUE, FALSE)

    def bool(self, t):
        """Diagram with boolean leaves for a condition."""
        if t in (TRUE, FALSE):
            return t
        k = t[0]
        if k == "not":
            d = self.bool(t[1])
            return self.ite(d, FALSE, TRUE)
        if k == "and":
            r = TRUE
            for x in t[1]:
                r = self.ite(self.bool(x), r, FALSE)
            return r
        if k == "or":
            r = FALSE
            for x in t[1]:
                r = self.ite(self.bool(x), TRUE, r)
            return r
        if k == "phi":
            return self.ite(self.bool(t[1]), self.bool(t[2]), self.bool(t[3]))
        d = self.term(t)
        return self.to_bool(d)

    def to_bool(self, d):
        if d[0] == "ite":
            return self.ite(self.node(d[1], TRUE, FALSE), self.to_bool(d[2]), self.to_bool(d[3]))
        return self.atom(d)

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._term(t)
            self.memo[t] = r
        return r

    def _term(self, t):
        k = t[0]
        if k in BOOL:
            return self.bool(t)
        if k == "phi":
            return self.ite(self.bool(t[1]), self.term(t[2]), self.term(t[3]))
        if k == "ite":
            return t
        if k in ("c", "p", "glob", "bv", "fn", "cls", "mod", "ext", "opq"):
            return t
        if k == "red":
            coll = self.flat(self.term(t[2]))
            body = Canon()
            b = body.flat(body.term(t[3]) if t[1] not in ("any", "all") else body.bool(t[3]))
            r = tm.mk("red", t[1], coll, b) if t[1] != "any" or b not in (TRUE, FALSE) else tm.red(t[1], coll, b)
            if t[1] == "any":
                return self.to_bool(r)
            return r
        if k == "cat" and len(t[1]) == 1:
            return self.term(t[1][0])
        if k == "sorted" and t[1][0] == "red" and t[1][1] == "list" and t[1][3] == tm.mk("bv", 0, "elem"):
            return self.term(tm.mk("sorted", t[1][2], *t[2:]))
        if k in NOLIFT or k == "obj":
            return tm.rebuild(t, lambda x: self.flat(self.term(x)))
        if k == "mcall" and t[2] in ("min", "max", "sum", "mean", "prod") and len(t[3]) < 2:
            return self.term(tm.call("np." + t[2], (t[1],), t[4] if not t[3] else t[4] + (("axis", t[3][0]),)))
        if k == "call" and t[1] in ("np.amin", "np.amax"):
            return self.term(tm.call("np." + t[1][4:], t[2], t[3]))
        if k == "call" and t[1] in ("min", "max", "np.minimum", "np.maximum") and len(t[2]) == 2 and not t[3]:
            a, b = (self.term(x) for x in t[2])
            if a[0] != "ite" and b[0] != "ite":
                return pair(t[1][-3:] if t[1] in ("min", "max") else t[1][3:6], a, b)
        kids = []

        def collect(x):
            kids.append(x)
            return x
        tm.rebuild(t, collect)
        ds = {x: self.term(x) for x in kids}
        if all(d[0] != "ite" for d in ds.values()):
            r = tm.rebuild(t, lambda x: ds.get(x, x))
            return self.to_bool(r) if r[0] == "cmp" else (r if r[0] not in BOOL + ("phi",) else self._term(r))
        # conditionals inside: distribute over them
        conds = [d for d in ds.values() if d[0] == "ite"]
        if sum(count(d) for d in conds) > 60:
            r = tm.rebuild(t, lambda x: self.flat(ds.get(x, x)))
            return self.to_bool(r) if r[0] == "cmp" else r
        return self.lift(t, ds)

    def lift(self, t, ds):
        tops = [d[1] for d in ds.values() if d[0] == "ite"]
        if not tops:
            r = tm.rebuild(t, lambda x: ds.get(x, x))
            if r[0] in BOOL or r[0] == "phi" or r in (TRUE, FALSE):
                return self.bool(r) if r[0] != "phi" else self._term(r)
            return self.to_bool(r) if r[0] == "cmp" else r
        v = min(tops, key=tm.tkey)
        hi = self.lift(t, {x: self.cof(d, v, True) for x, d in ds.items()})
        lo = self.lift(t, {x: self.cof(d, v, False) for x, d in ds.items()})
        return self.ite(self.node(v, TRUE, FALSE), hi, lo)

    def flat(self, d):
        """Diagrams as plain terms (still canonical)."""
        return d


def pair(op, a, b):
    if op == "max" and tm.scale(a, -1) is b:
        return tm.call("abs", (max(a, b, key=lambda x: (len(tm.tkey(x)) * -1, tm.tkey(x))),))
    return tm.call(op, tuple(sorted((a, b), key=tm.tkey)))


def exclusive(a, b):
    """Both cannot hold: equalities of one term with different constants, opposite strict orders."""
    if a[0] == "cmp" and b[0] == "cmp" and a[1] == "<" and b[1] == "<" and a[2] is b[3] and a[3] is b[2]:
        return True
    if a[0] == "cmp" and b[0] == "cmp" and a[1] == "==" and b[1] == "==":
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            for u, w in ((b[2], b[3]), (b[3], b[2])):
                if y is w and is_const(x) and is_const(u) and x is not u and x[2] != u[2]:
                    return True
    return False


def count(d):
    seen = set()

    def go(x):
        if x[0] == "ite" and x not in seen:
            seen.add(x)
            go(x[2])
            go(x[3])
    go(d)
    return len(seen)


def canon(t, facts=()):
    if not isinstance(t, T):
        return t
    try:
        return Canon(facts).term(t)
    except TooBig:
        return t


DEAD = mk("dead")


def equal(a, b, fa=(), fb=()):
    """Same value wherever the facts of both sides hold."""
    if a is b:
        return True
    try:
        k = Canon(list(fa) + list(fb))
        x, y = k.term(a), k.term(b)
        if x is y:
            return True
        f = TRUE
        for g in list(fa) + list(fb):
            f = k.ite(k.bool(g), f, FALSE)
        return f is not FALSE and k.ite(f, x, DEAD) is k.ite(f, y, DEAD)
    except TooBig:
        return False
