"""Row-wise normal form of arrays: which value is stored at which position."""
from __future__ import annotations

from . import terms as tm
from .state import SKIP
from .terms import ZERO, mk


def rows(I, st, v):
    """(number of rows, set of (loops -> position, value) terms) or None when not understood."""
    if v[0] == "obj":
        inf = I.info(v)
        if inf.kind == "arr":
            ents, ren = I.entries(st, v)
            if not ents and inf.init is not None:
                return rows(I, st, inf.init)
            n = I.length(st, v)
            out = []
            for e in ents:
                if e.kind == "fill":
                    continue
                out.append(I.val_entry(st, e, ren, 0))
            if any(e.kind not in ("set",) for e in ents):
                return None
            return n, frozenset(out)
        v = I.val(st, v)
    if v[0] == "call" and v[1] in ("np.vstack", "np.concatenate", "np.hstack") and len(v[2]) == 1:
        return seq_rows(I, st, v[2][0])
    if v[0] == "call" and v[1] == "np.array" and v[2]:
        x = v[2][0]
        if x[0] == "red" and x[1] in ("list", "flat") or x[0] in ("concat", "tuple"):
            return list_rows(I, st, x)
        return rows(I, st, x)
    if v[0] == "red" and v[1] in ("list", "flat"):
        return list_rows(I, st, v)
    return None


def seq_rows(I, st, seq):
    """Concatenation of the arrays in seq."""
    if seq[0] == "red" and seq[1] in ("list", "flat"):
        out = []

        def go(t, loops, off):
            if t[0] == "red" and t[1] == "flat" or (t[0] == "red" and t[1] == "list"):
                coll = t[2]
                k = sum(1 for l in loops if l[1] is coll)
                L = tm.loop_id(coll, k)
                e, key, idx = I.loop_terms(L)
                body = tm.instantiate(t[3], e, key, idx, loop=L)
                n = total(body) if t[1] == "flat" else length_of(body)
                off2 = tm.add(off, tm.psum(L, tm.abstract(n, L)))
                if t[1] == "flat":
                    go(body, loops + [L], off2)
                else:
                    leaf(body, loops + [L], off2)
            else:
                out.append(None)

        def length_of(x):
            if x[0] == "phi" and x[3] is SKIP:
                return tm.phi(x[1], length_of(x[2]), ZERO)
            return tm.length(x)

        def total(t):
            if t[0] == "red" and t[1] == "list":
                coll = t[2]
                L = tm.loop_id(coll, 0)
                e, key, idx = I.loop_terms(L)
                return tm.red("sum", coll, tm.abstract(length_of(tm.instantiate(t[3], e, key, idx, loop=L)), L))
            if t[0] == "red" and t[1] == "flat":
                coll = t[2]
                L = tm.loop_id(coll, 0)
                e, key, idx = I.loop_terms(L)
                return tm.red("sum", coll, tm.abstract(total(tm.instantiate(t[3], e, key, idx, loop=L)), L))
            return tm.length(t)

        def leaf(x, loops, off):
            g = None
            if x[0] == "phi" and x[3] is SKIP:
                g, x = x[1], x[2]
            L = tm.loop_id(base_coll(x), sum(1 for l in loops if l[1] is base_coll(x)))
            idx = mk("idx", L)
            body = tm.tup([tm.add(off, idx), I.row(st, x, idx)])
            if g is not None:
                body = tm.phi(g, body, SKIP)
            for l in reversed(loops + [L]):
                body = mk("red", "list", l[1], tm.abstract(body, l))
            out.append(body)

        go(seq, [], ZERO)
        if None in out:
            return None
        return total(seq), frozenset(out)
    return None


def base_coll(x):
    """The array whose rows an element-wise expression follows."""
    n = tm.length(x)
    if n[0] == "len":
        y = n[1]
        if y[0] == "sum":
            for t, _ in y[1]:
                if t[0] in ("attr", "item", "elem", "mcall"):
                    return t
        return y
    return x


def list_rows(I, st, v):
    """Array built from a list of rows."""
    if v[0] == "red" and v[1] in ("list", "flat"):
        out = []

        def go(t, loops, off):
            coll = t[2]
            k = sum(1 for l in loops if l[1] is coll)
            L = tm.loop_id(coll, k)
            e, key, idx = I.loop_terms(L)
            body = tm.instantiate(t[3], e, key, idx, loop=L)
            if t[1] == "flat":
                n = tm.length(body)
                o2 = tm.add(off, tm.psum(L, tm.abstract(n, L)))
                if body[0] == "red":
                    go(body, loops + [L], o2)
                else:
                    out.append(None)
            else:
                if body[0] == "phi" and body[3] is SKIP:
                    out.append(None)
                    return
                b = tm.tup([tm.add(off, idx), body])
                for l in reversed(loops + [L]):
                    b = mk("red", "list", l[1], tm.abstract(b, l))
                out.append(b)
        go(v, [], ZERO)
        if None in out:
            return None
        return tm.length(v), frozenset(out)
    return None
