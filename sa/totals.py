"""Totals accumulated by counting loops, as closed terms.

A variable or array that every round of a loop changes to `itself + d`, with d free of other
values the loop changes, ends as its value before the loop plus the total of d over the rounds.
"""
from __future__ import annotations

from . import terms as tm
from .terms import ONE, ZERO, mk

BOUND = mk("ix", ("total",))


def total(ix, body, count):
    """Total of body over the rounds, split into its summands."""
    body = wrapped(by_position(tm.subst(body, {ix: BOUND}), count), count)
    for end in (last_round, first_round):
        x = end(body, count)
        if x is not None:
            return tm.add(x[0], total(BOUND, x[1], tm.sub(count, ONE)))
    if body[0] == "sum":
        out = tm.mul(count, tm.const(body[2])) if body[2] else ZERO
        for x, w in body[1]:
            out = tm.add(out, tm.mul(tm.const(w), one(x, count)))
        return out
    return one(body, count)


def by_position(body, n):
    """The element of the round as the element at its position."""
    sub = {}
    for x in tm.subterms(body):
        if x[0] == "sel" and x[1][0] == "elem" and mk("len", x[1][1]) is n:
            sub[x] = mk("sel", x[1][1], (BOUND,) + tuple(x[2]))
        elif x[0] == "elem" and isinstance(x[1], tm.T) and mk("len", x[1]) is n:
            sub.setdefault(x, mk("sel", x[1], (BOUND,)))
    return tm.subst(body, sub) if sub else body


def wrapped(body, n):
    """Neighbours taken modulo the number of rounds, as a choice at the first or last round."""
    sub = {}
    for x in tm.subterms(body):
        if x[0] == "op" and x[1] == "%" and x[3] is n:
            d = tm.sub(x[2], BOUND)
            if d is ONE:
                sub[x] = tm.phi(tm.cmp("<", x[2], n), x[2], ZERO)
            elif d is tm.const(-1) or tm.sub(d, n) is tm.const(-1):
                sub[x] = tm.phi(tm.cmp("==", BOUND, ZERO), tm.sub(n, ONE), tm.sub(BOUND, ONE))
    return tm.subst(body, sub) if sub else body


def integer(t):
    return t[2] if t[0] == "c" and t[1] == "int" else None


def distinguished(body, at):
    """{condition: (truth in the round `at`, truth in all others)} of conditions that single out that round.

    `at` is the first round (zero) or the last one; the others lie above or below it.
    """
    out = {}
    for x in tm.subterms(body):
        if x[0] != "cmp" or x[1] not in ("==", "<", "<=") or not tm.contains(x, lambda y: y is BOUND):
            continue
        d = tm.sub(x[2], x[3])
        up = integer(tm.sub(d, tm.sub(BOUND, at)))
        down = integer(tm.add(d, tm.sub(BOUND, at)))
        if up is None and down is None:
            continue
        k = up if up is not None else down
        far = 1 if (up is not None) == (at is ZERO) else -1      # others: d >= k + 1, or d <= k - 1
        rest = {"==": False if (far > 0 and k >= 0 or far < 0 and k <= 0) else None,
                "<": (False if k + 1 >= 0 else None) if far > 0 else (True if k - 1 < 0 else None),
                "<=": (False if k + 1 > 0 else None) if far > 0 else (True if k - 1 <= 0 else None)}[x[1]]
        here = {"==": k == 0, "<": k < 0, "<=": k <= 0}[x[1]]
        if rest is not None:
            out[x] = (here, rest)
    return out


def single(body, conds, which):
    return tm.subst(body, {c: tm.TRUE if v[which] else tm.FALSE for c, v in conds.items()})


def from_end(t):
    """Elements counted back from the end of their array have a negative index."""
    sub = {}
    for x in tm.subterms(t):
        if x[0] == "sel" and x[2]:
            for n in (mk("sel", mk("attr", x[1], "shape"), (ZERO,)), mk("len", x[1])):
                k = integer(tm.sub(x[2][0], n)) if isinstance(x[2][0], tm.T) else None
                if k is not None and k < 0:
                    sub[x] = mk("sel", x[1], (tm.const(k),) + tuple(x[2][1:]))
    return tm.subst(t, sub) if sub else t


def last_round(body, n):
    conds = distinguished(body, tm.sub(n, ONE))
    if not any(a != b for a, b in conds.values()):
        return None
    return from_end(tm.subst(single(body, conds, 0), {BOUND: tm.sub(n, ONE)})), single(body, conds, 1)


def first_round(body, n):
    conds = distinguished(body, ZERO)
    before = any(x[0] == "sel" and x[2] and isinstance(x[2][0], tm.T) and tm.sub(x[2][0], BOUND) is tm.const(-1) for x in tm.subterms(body))
    if not before and not any(a != b for a, b in conds.values()):
        return None
    return from_end(tm.subst(single(body, conds, 0), {BOUND: ZERO})), tm.subst(single(body, conds, 1), {BOUND: tm.add(BOUND, ONE)})


def one(body, count):
    if not tm.contains(body, lambda x: x is BOUND):
        return tm.mul(body, count)
    return mk("total", body, count)


def resolve(K, t, depth=0):
    """Replaces accumulated values in a term by totals."""
    if depth > 6:
        return t
    sub = {}
    for x in tm.subterms(t):
        if x[0] == "base" and isinstance(x[2], tuple) and x[2] and x[2][-1] == "post":
            v = after(K, x, depth)
        elif x[0] == "head" and isinstance(x[1], tuple) and x[1] and x[1][-1] == "post":
            v = after_var(K, x, depth)
        elif x[0] == "mcall" and x[2] == "sum" and not x[3] and not x[4]:
            v = summed(K, x[1], depth)
        elif x[0] == "call" and x[1] in ("np.sum", "sum", "np.average", "np.dot") and x[2]:
            v = called(K, x, depth)
        elif x[0] == "sel" and x[1][0] == "span" and len(x[2]) == 1 and x[2][0][0] != "slice":
            i = x[2][0]
            i = tm.add(x[1][4], i) if (integer(i) or 0) < 0 else i
            v = resolve(K, tm.subst(x[1][3], {x[1][2]: i}), depth + 1)
        else:
            continue
        if v is not None:
            sub[x] = v
    return tm.subst(t, sub) if sub else t


def called(K, x, depth):
    kw = dict(x[3]) if len(x) > 3 else {}
    if x[1] in ("np.sum", "sum") and len(x[2]) == 1 and set(kw) <= {"axis"} and kw.get("axis", ZERO) is ZERO:
        return summed(K, x[2][0], depth)
    if x[1] == "np.average" and len(x[2]) == 1 and set(kw) == {"axis", "weights"} and kw["axis"] is ZERO:
        w, v = rowwise(kw["weights"]), rowwise(x[2][0])
        if w and v and w[2] is v[2]:
            return tm.binop("/", total(BOUND, resolve(K, tm.mul(w[1], v[1]), depth + 1), w[2]), total(BOUND, resolve(K, w[1], depth + 1), w[2]))
    if x[1] == "np.dot" and len(x[2]) == 2 and not kw:
        w, v = rowwise(x[2][0]), rowwise(x[2][1])
        if w and v and w[2] is v[2]:
            return total(BOUND, resolve(K, tm.mul(w[1], v[1]), depth + 1), w[2])
    return None


def rowwise(x):
    """(index, element, count) of an array filled by a counting loop."""
    if x[0] == "span" and x[1][0] == "fill":
        return BOUND, tm.subst(x[3], {x[2]: BOUND}), x[4]
    if x[0] == "gen":
        return BOUND, tm.subst(x[2], {x[1]: BOUND}), x[3]
    return None


def summed(K, x, depth):
    if x[0] == "span" and x[1][0] == "fill" and x[1][1] is ZERO:
        return total(x[2], resolve(K, x[3], depth + 1), x[4])
    if x[0] == "gen":
        return total(x[1], resolve(K, x[2], depth + 1), x[3])
    return None


def clean(K, rec, d):
    """d varies with the round number only."""
    key = rec.key
    return not tm.contains(d, lambda x: x[0] in ("base", "head") and (x[2] if x[0] == "base" else x[1]) == key)


def after(K, x, depth):
    for rec in K.loop_recs:
        if tuple(rec.key) + ("post",) != tuple(x[2]) or rec.index is None or rec.end is None or rec.end.dead or rec.breaks:
            continue
        for r, v in rec.end.arr.items():
            if r.name == x[1] and r in rec.entry.arr:
                d = tm.sub(v, mk("base", x[1], rec.key))
                if clean(K, rec, d):
                    e = rec.entry.arr[r]
                    e = ZERO if e[0] == "fill" and e[1] is ZERO else e
                    return tm.add(resolve(K, e, depth + 1), total(rec.index, resolve(K, d, depth + 1), rec.count))
    return None


def after_var(K, x, depth):
    for rec in K.loop_recs:
        if tuple(rec.key) + ("post",) != tuple(x[1]) or rec.index is None or rec.end is None or rec.end.dead or rec.breaks:
            continue
        for k, v in rec.end.env.items():
            if k[1] == x[2] and k in rec.entry.env:
                if v[0] == "ref" and not v[2]:
                    v = rec.end.arr.get(K.roots[v[1]], v)
                h = mk("head", rec.key, x[2])
                low = extreme(v, h)
                if low is not None and clean(K, rec, low[1]) and infinite(rec.entry.env[k], low[0]):
                    return mk("call", low[0], (by_position(tm.subst(resolve(K, low[1], depth + 1), {rec.index: BOUND}), rec.count), rec.count), ())
                d = tm.sub(v, h)
                if clean(K, rec, d):
                    return tm.add(resolve(K, rec.entry.env[k], depth + 1), total(rec.index, resolve(K, d, depth + 1), rec.count))
    return None


def extreme(v, h):
    """("least"/"greatest", x) when v is the smaller or larger of h and x."""
    if v[0] == "phi" and v[1][0] == "cmp" and v[1][1] in ("<", "<="):
        a, b = v[1][2], v[1][3]
        if v[2] is a and v[3] is b and h in (a, b):
            return "least", (b if a is h else a)
        if v[2] is b and v[3] is a and h in (a, b):
            return "greatest", (b if a is h else a)
    if v[0] == "phi" and v[1][0] == "not":
        return extreme(tm.phi(v[1][1], v[3], v[2]), h) if v[1][1][0] != "not" else None
    if v[0] == "call" and v[1] in ("min", "max", "np.minimum", "np.maximum") and len(v[2]) == 2 and h in v[2]:
        a, b = v[2]
        return "least" if "min" in v[1] else "greatest", (b if a is h else a)
    return None


def infinite(t, kind):
    s = tm.show(t).replace(" ", "")
    return s in (("ext(np.inf)", "inf", "float('inf')", "ext(math.inf)") if kind == "least" else ("-1*ext(np.inf)", "(-1*ext(np.inf))", "-inf"))
