"""What a routine puts into a dictionary of collections: (key, value, condition, loops) of every entry it adds."""
from __future__ import annotations

from . import terms as tm
from .terms import TRUE, T, mk


def conjuncts(c):
    return list(c[1]) if c[0] == "and" else ([] if c is TRUE else [c])


class Link:
    def __init__(self, key, val, conds, loops, where, kind):
        self.key, self.val, self.conds, self.loops, self.where, self.kind = key, val, conds, loops, where, kind

    def __repr__(self):
        return f"{tm.show(self.key)[:80]} -> {tm.show(self.val)[:80]} if {[tm.show(c)[:100] for c in self.conds]} {self.where}"


def holder(c):
    """The dictionary a nested collection was read from, and its key."""
    if isinstance(c, T) and c[0] == "item":
        b = c[1]
        while isinstance(b, T) and b[0] in ("st", "flux"):
            b = b[1]
        return b, c[2]
    return None, None


def later(s, e, I):
    """Whether e happens after s: the condition of s then is part of what e saw."""
    return I.effects.index(s) < I.effects.index(e)


def atoms(c, out=None):
    """Atomic conditions of a propositional formula."""
    out = [] if out is None else out
    if c[0] in ("and", "or"):
        for x in c[1]:
            atoms(x, out)
    elif c[0] == "not":
        atoms(c[1], out)
    elif c[0] == "phi":
        for x in c[1:4]:
            atoms(x, out)
    elif not tm.is_const(c) and c not in out:
        out.append(c)
    return out


def value(c, env):
    """Truth of a formula for an assignment of its atoms."""
    if c[0] == "and":
        return all(value(x, env) for x in c[1])
    if c[0] == "or":
        return any(value(x, env) for x in c[1])
    if c[0] == "not":
        return not value(c[1], env)
    if c[0] == "phi":
        return value(c[2] if value(c[1], env) else c[3], env)
    if tm.is_const(c):
        return bool(tm.cval(c))
    return env[c]


def assignments(xs, fixed):
    import itertools
    free = [x for x in xs if x not in fixed]
    for bits in itertools.product((False, True), repeat=len(free)):
        env = dict(fixed)
        env.update(zip(free, bits))
        yield env


def links(I, d):
    """Entries added to the collections held in dictionary d; None for additions whose key is not known."""
    home = {}                    # fresh collection -> keys it was stored under
    for e in I.effects:
        if e.kind == "store" and e.args[0] is d and isinstance(e.args[2], T) and e.args[2][0] == "obj":
            home.setdefault(e.args[2], []).append((e.args[1], e))
    out, stores = [], []
    for e in I.effects:
        if e.kind in ("append", "add"):
            c, v = e.args[0], e.args[1]
            b, k = holder(c)
            if b is d:
                out.append(Link(k, v, conjuncts(e.cond()), e.loops, e.where, e.kind))
            elif c in home:
                for k, s in home[c]:
                    cs = conjuncts(tm.conj([e.cond(), s.cond()])) if not later(s, e, I) else conjuncts(e.cond())
                    out.append(Link(k, v, cs, e.loops, e.where, e.kind))
        elif e.kind == "store" and e.args[0] is d:
            stores.append(Link(e.args[1], e.args[2], conjuncts(e.cond()), e.loops, e.where, "store"))
        elif e.kind in ("mutate", "delitem") and (e.args[0] is d or holder(e.args[0])[0] is d or e.args[0] in home):
            out.append(None)
    return out, stores
