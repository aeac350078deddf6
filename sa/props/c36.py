"""C36: the parts of a slice are named and ordered by the points given."""
from __future__ import annotations

import itertools

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..loader import AnalysisError
from ..spec import equal, polygon_hook
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk

EXPLANATION = (
    "The slicing function is analysed by value-provenance dataflow up to the two point arrays it cuts the polygon into; new polygons are recorded with the points, name and normal they are made with. "
    "What comes back is a decision table over 'the given point lies in this part'. Every row of the table is looked up, for each way of giving points: a row that is not refused must return the two different parts, "
    "the first under the first name and containing the first point if one was given, the second likewise, both with the normal of the original; a row in which every given point lies in exactly one part must not be refused. "
    "The position of a cutting point relative to the polygon is compared with a specification function.")
TECHNIQUE = "value-provenance dataflow, decision table over membership atoms, normal-form comparison with a specification function"
NOTE = "Holds for all polygons, cuts, points and two different valid names; which points the two parts consist of is numerical and not claimed."
MIN_OBLIGATIONS = 28

G = "building3d.geom."
SL = G + "polygon.slice."
SPEC = '''
import numpy as np
from building3d.geom.polygon.ispointinside import is_point_inside
from building3d.geom.polygon.distance import distance_point_to_edge
from building3d.geom.points import points_equal
from building3d.geom.polygon.slice.constants import EDGE, EXTERIOR, INTERIOR, VERTEX, INVALID_INDEX
def locate(ptest, pts, tri, edges):
    if not is_point_inside(ptest, pts, tri):
        return (EXTERIOR, INVALID_INDEX)
    for i in range(len(pts)):
        if points_equal(ptest, pts[i]):
            return (VERTEX, i)
    for i in range(len(edges)):
        if np.isclose(distance_point_to_edge(ptest, edges[i][0], edges[i][1]), 0):
            return (EDGE, i)
    return (INTERIOR, INVALID_INDEX)
'''
GIVEN = (("no points", ()), ("first point", (1,)), ("second point", (2,)), ("both points", (1, 2)))


def check(prog, rep):
    table(prog, rep)
    located(prog, rep)


def located(prog, rep):
    S = prog.spec(SPEC)
    f = prog.func(SL + "locate_slicing_points.locate_point_on_polygon")
    opq = [prog.func(G + q).qualname for q in ("polygon.ispointinside.is_point_inside", "points.points_equal", "polygon.distance.distance_point_to_edge")]
    equal(prog, rep, "located", f.qualname, f, S["locate"], lambda I: (None, [I.param(n, ("arr",)) for n in ("ptest", "pts", "tri", "edges")]), opaque=opq)


def table(prog, rep):
    f = prog.func(SL + "slice_polygon")
    pc = prog.cls(G + "polygon.Polygon")
    inside = prog.method(pc, "is_point_inside").qualname
    cut = prog.func(SL + "get_point_arrays.get_point_arrays").qualname
    opq = [prog.func(o).qualname for o in (G + "points.are_points_coplanar", SL + "add_intersection_points.add_intersection_points", SL + "remove_redundant_points.remove_redundant_points", "building3d.random.random_id")]
    rows = 0
    for what, has in GIVEN:
        I = Interp(prog, opaque=opq + [cut, inside])
        I.hooks[pc.qualname] = polygon_hook
        st = I.start()

        def arg(n, t):
            v = I.param(n, t)
            I.nonnull.add(v)
            return v
        poly = I.obj_param("poly", pc)
        names = {k: arg(f"name{k}", ("str",)) for k in (1, 2)}
        pts = {k: arg(f"pt{k}", ("arr",)) if k in has else NONE for k in (1, 2)}
        v = I.run(st, f, [poly, arg("slicing_pts", ("arr",)), pts[1], names[1], pts[2], names[2]])
        rep.use(I)
        res = []
        for i in (0, 1):
            it = I.read_item(st, v, const(i))
            res.append({a: tidy(I.val(st, I.read_attr(st, it, a))) for a in ("pts", "name", "vn")})
        facts = [tidy(x) for x in st.facts()]
        rows += decide(I, rep, f, what, has, poly, names, pts, res, facts, cut, inside)
    rep.count("table_rows", rows)


def tidy(t):
    """A value is always close to itself; tuples are equal item by item."""
    while True:
        sub = {x: TRUE for x in tm.subterms(t) if x[0] == "call" and x[1] in ("np.allclose", "np.isclose", "np.array_equal") and len(x[2]) >= 2 and x[2][0] is x[2][1]}
        sub.update((x, tm.conj([tm.cmp("==", a, b) for a, b in zip(x[2][1], x[3][1])])) for x in tm.subterms(t)
                   if x[0] == "cmp" and x[1] == "==" and x[2][0] == x[3][0] == "tuple" and len(x[2][1]) == len(x[3][1]))
        if not sub:
            return t
        t = tm.subst(t, sub)


def leaves(t):
    if t[0] == "phi":
        yield from leaves(t[2])
        yield from leaves(t[3])
    else:
        yield t


def decide(I, rep, f, what, has, poly, names, pts, res, facts, cut, inside):
    every = facts + [x for r in res for x in r.values()]
    cuts = {x for t in every for x in tm.subterms(t) if x[0] == "call" and x[1] == cut}
    if len(cuts) != 1:
        rep.ob("cut-once", what, None, f.where(), f"{len(cuts)} different cuts of the polygon into points")
        return 0
    c = next(iter(cuts))
    rep.ob("cuts-this-polygon", what, c[2][:2] == (mk("attr", poly, "pts"), mk("attr", poly, "tri")), f.where(), f"the parts are cut out of {tm.show(c)[:120]}")
    part = {mk("item", c, const(i)): i for i in (0, 1)}
    # questions asked: does point k lie in part i (edges counted or not)
    atoms = {}
    for t in every:
        for x in tm.subterms(t):
            if x[0] == "call" and x[1] == inside:
                where = {part[y] for y in tm.subterms(x[2][0]) if y in part}
                who = [k for k in (1, 2) if pts[k] is not NONE and x[2][1] is pts[k]]
                if len(where) == 1 and who and x[2][2] in (TRUE, FALSE):
                    atoms[x] = (who[0], where.pop(), x[2][2] is TRUE)
    base = [(k, i) for k in has for i in (0, 1)]
    strict = sorted({(k, i) for k, i, w in atoms.values() if not w})
    same = tm.cmp("==", names[1], names[2])
    vn = mk("attr", poly, "vn")
    close = {y for t in every for x in tm.subterms(t) if x[0] == "call" and x[1] == "np.allclose" and len(x[2]) > 1 for y in ((x[2][0], x[2][1]), (x[2][1], x[2][0]))}
    n = 0
    for vals in itertools.product((True, False), repeat=len(base) + len(strict)):
        lies = dict(zip(base, vals))
        deep = dict(zip(strict, vals[len(base):]))
        if any(deep[x] and not lies[x] for x in deep):
            continue
        sub = {x: const((lies if w else deep)[k, i]) for x, (k, i, w) in atoms.items()}

        def at(t):
            t = tidy(tm.subst(t, sub))
            return tm.subst(t, {same: FALSE})
        row = what + "".join(f", point {k} {'in' if lies[k, i] else 'not in'} part {i + 1}" for k, i in base) + "".join(f" {'inside' if deep[k, i] else 'on the edge'}" for k, i in strict if lies[k, i])
        n += 1
        got = [at(x) for x in facts]
        if any(x is FALSE for x in got):
            # refused: fine unless every given point lies in exactly one part, different parts for different points
            clear = all(lies[k, 0] != lies[k, 1] for k in has) and (len(has) < 2 or lies[1, 0] != lies[2, 0])
            rep.ob("answers-clear-points", row, not clear, f.where(), "refused although the points tell the parts apart")
            continue
        open_ = [x for x in got if not tm.contains(x, lambda y: y is const("/")) and tm.contains(x, lambda y: y in names.values() or y[0] == "call" and y[1] == inside)]
        out = [{a: at(x) for a, x in r.items()} for r in res]
        bad, which = [], []
        for k, r in ((1, out[0]), (2, out[1])):
            nth = "first" if k == 1 else "second"
            # a part turned round is still that part
            of = {frozenset(part[y] for y in tm.subterms(x) if y in part) for x in leaves(r["pts"])} - {frozenset()}
            which.append(min(of) if len(of) == 1 and len(min(of)) == 1 else None)
            if which[-1] is None:
                bad.append((f"the {nth} polygon consists of {tm.show(r['pts'])[:80]}", vague(r["pts"]) or bool(of)))
            elif k in has and not lies[k, min(which[-1])]:
                bad.append((f"the {nth} polygon does not contain the {nth} point", False))
            for x in leaves(r["name"]):
                if x is not names[k]:
                    bad.append((f"the {nth} polygon is called {tm.show(x)[:60]}", vague(x) and x[0] != "attr"))
            # a normal of its own is fine once compared with that of the polygon
            bad += [(f"the {nth} polygon has the normal {tm.show(x)[:60]}", bool(close)) for x in leaves(r["vn"]) if x is not vn and (x, vn) not in close]
        if not bad and which[0] == which[1]:
            bad.append(("both polygons are the same part", False))
        bad.sort(key=lambda x: x[1])
        rep.ob("parts-as-asked", row, True if not bad else (None if bad[0][1] or open_ else False), f.where(), bad[0][0] if bad else "")
    return n
