"""Helpers to compare what a function computes with what a specification function computes.

Both are put through the same dataflow analysis; their results are compared as normal forms.
"""
from __future__ import annotations

from . import terms as tm
from .interp import Interp
from .rows import rows
from .state import SKIP
from .terms import NONE, TRUE, const, mk


def polygon_hook(I, st, c, a):
    """Polygon(...) as an uninterpreted record of its constructor arguments."""
    args, kw = a
    f = I.prog.method(c, "__init__")
    names = [p.arg for p in f.node.args.args][1:]
    vals = dict(zip(names, args))
    vals.update(kw)
    t = mk("rec", "Polygon", tuple((n, I.val(st, vals[n]) if n in vals else NONE) for n in ("pts", "name", "uid", "tri")),
           tuple(l for l, _ in st.loops))
    I.types[t] = ("cls", c)
    I.nonnull.add(t)
    for n, v in vals.items():
        if v is not NONE:
            st.mem[mk("attr", t, n)] = v
    I.effect(st, "new", t, c.qualname)
    return t


def tree(I, st, o, attrs=("name", "uid"), depth=0):
    """Immutable description of an object tree: chosen attributes and children in order."""
    if depth > 8:
        return o
    t = I.type_of(o)
    c = t[1].name if t and t[0] == "cls" else None
    if o[0] == "rec":
        return mk("rec", o[1], o[2], ())
    ca = I.child_attr.get(c)
    if ca is None:
        return I.val(st, o)
    fields = tuple((a, I.val(st, I.read_attr(st, o, a))) for a in attrs)
    kids = I.read_attr(st, o, ca)
    if kids[0] != "obj":
        return mk("node", c, fields, (kids,))
    if I.in_flux(st, kids):
        return mk("node", c, fields, (mk("flux", kids),))
    ents, ren = I.entries(st, kids)
    out = []
    f = lambda x: tm.subst(x, ren) if ren else x
    for e in ents:
        if e.kind != "set":
            out.append(mk("opq", e.kind, e.where))
            continue
        body = tree(I, st, f(e.val), attrs, depth + 1)
        g = I.implied(st, f(e.guard))
        if g is not TRUE:
            body = tm.phi(g, body, SKIP)
        for l, _ in reversed(e.loops):
            l = f(l)
            body = mk("red", "list", l[1], tm.abstract(body, l))
        out.append(body)
    return mk("node", c, fields, tuple(out))


def unskip(t):
    if t[0] == "phi" and t[3] is SKIP:
        return t[1], t[2]
    return TRUE, t


def compare(rep, rule, got, exp, where, facts=((), ()), at=""):
    """Compares two descriptions of object trees part by part."""
    from . import canon
    from .core import differs, shape_differs
    if got is exp or canon.equal(got, exp, *facts):
        return rep.ob(rule, at or "tree", True, where)
    at = at and at + " > "
    if got[0] == exp[0] == "rec" and got[1] == exp[1]:
        for (n, a), (_, b) in zip(got[2], exp[2]):
            rep.same(rule, f"{at}{got[1]}.{n}", a, b, where, facts)
        return
    if got[0] == exp[0] == "node" and got[1] == exp[1] and not shape_differs(mk("node", got[1], (), got[3]), mk("node", exp[1], (), exp[3])):
        for (n, a), (_, b) in zip(got[2], exp[2]):
            rep.same(rule, f"{at}{got[1]}.{n}", a, b, where, facts)
        if len(got[3]) == len(exp[3]):
            for a, b in zip(got[3], exp[3]):
                if a[0] == b[0] == "red" and a[1] == b[1] == "list":
                    same = a[2] is b[2]
                    if not same:
                        order = lambda t: tm.contains(t, lambda x: x[0] in ("sorted", "rev", "setof"))
                        rep.ob(rule, f"{at}{got[1]} children", False if order(a[2]) and not order(b[2]) else differs(a[2], b[2]), where,
                               f"children made from {tm.show(a[2])}; required: {tm.show(b[2])}")
                        continue
                    (ga, na), (gb, nb) = unskip(a[3]), unskip(b[3])
                    if ga is not gb:
                        rep.same(rule, f"{at}{got[1]} children present", ga, gb, where, facts)
                    compare(rep, rule, na, nb, where, facts, f"{at}{got[1]} children")
                elif a is not b:
                    rep.ob(rule, f"{at}{got[1]} children", differs(a, b), where, f"expected {tm.show(b)}; found {tm.show(a)}")
            return
    rep.ob(rule, (at or "tree"), differs(got, exp), where, f"expected {tm.show(exp)}; found {tm.show(got)}")


def branches(st):
    return [g for g, k in st.guards if k == "branch"]


def raises(I):
    return [(e.args[0], e.cond(), e.where) for e in I.effects if e.kind == "raise"]


def equal(prog, rep, rule, inst, f, sf, make, opaque=(), hooks=None, inline=None, guards=True, post=None, prep=None, at=None):
    """f and the specification sf must compute the same value for the arguments make(I) -> (self or None, args).

    Checks and errors must be the same too when guards is set (asserts of the implementation are allowed on top).
    """
    def run(fn, spec):
        I = Interp(prog, opaque=opaque, inline=inline)
        I.hooks.update(hooks or {})
        if prep:
            prep(I)
        st = I.start()
        selfv, args = make(I)
        if spec:
            v = I.run(st, fn, ([selfv] if selfv is not None else []) + list(args))
        else:
            v = I.run(st, fn, list(args), {}, selfv)
        return I, st, v
    I, st, v = run(f, False)
    rep.use(I)
    J, sj, e = run(sf, True)
    w = at or f.where()
    if st.dead or sj.dead:
        rep.ob(rule, inst, bool(st.dead) == bool(sj.dead), w, "never returns" if st.dead else "returns where an error is required")
        return I, st, v, J, sj, e
    got, exp = I.val(st, v), J.val(sj, e)
    if post:
        got, exp = post(I, st, got), post(J, sj, exp)
    rep.same(rule, inst, got, exp, w, (st.facts(), sj.facts()))
    if guards:
        a = {(n, c) for n, c, _ in raises(I)}
        b = {(n, c) for n, c, _ in raises(J)}
        ca, cb = tm.disj([c for _, c in a]), tm.disj([c for _, c in b])
        from . import canon
        if canon.equal(ca, cb):
            rep.ob(rule + "-errors", inst, True, w)
        else:
            from .core import differs
            rep.ob(rule + "-errors", inst, differs(ca, cb), w, f"raises when {tm.show(ca)}; required: {tm.show(cb)}")
        br, be = tm.conj(branches(st)), tm.conj(branches(sj))
        if br is not TRUE and not canon.equal(br, be) and not canon.equal(br, tm.neg(ca)):
            from .core import differs
            rep.ob(rule + "-always", inst, differs(br, be), w, f"answers only when {tm.show(br)}")
    return I, st, v, J, sj, e
