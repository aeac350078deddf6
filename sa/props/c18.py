"""C18: a polygon's derived data always match its points."""
from __future__ import annotations

import ast

from .. import terms as tm
from ..core import vague
from ..kernel import Kernel
from ..loader import AnalysisError, dotted
from ..modref import ModRef
from ..scan import all_nodes, callers, functions
from ..spec import equal
from ..terms import NONE, ONE, ZERO, const, mk

EXPLANATION = (
    "The fields of a new and of a flipped polygon, and the answers of its queries, are compared as normal forms with specification functions for every combination of given and missing optional arguments. A who-writes rule over the "
    "whole library, based on syntax and on interprocedural effect summaries, shows that the points and derived fields are set by the construction only, and that arrays handed to a new polygon are not changed afterwards by the function "
    "that made them. The triangulation is checked by provenance: returned points and triangles belong to the same run, and every triangle holds the numbers of three consecutive remaining points in order.")
TECHNIQUE = "normal-form comparison with specification functions, who-writes rule, provenance of triangle indices"
NOTE = "Holds for all polygons and later operations; whether ear clipping finds ears for every shape is numerical and not claimed."
MIN_OBLIGATIONS = 25

G = "building3d.geom."
P = G + "polygon."
FIELDS = ("pts", "tri", "vn", "ctr", "area", "plane_coefficients")
SPEC = '''
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.area import polygon_area
from building3d.geom.polygon.centroid import polygon_centroid
from building3d.geom.polygon.plane import plane_coefficients
from building3d.geom.polygon.crossing import are_polygons_crossing
from building3d.geom.polygon.facing import are_polygons_facing
from building3d.geom.polygon.touching import are_polygons_touching
from building3d.geom.polygon.ispointinside import is_point_inside, is_point_inside_margin
from building3d.geom.triangles import triangulate, triangle_centroid
from building3d.geom.vectors import normal
from building3d.geom.bboxes import bounding_box

def plain(pts, name):
    p = Polygon(pts, name)
    return fields(p)
def plain_spec(pts, name):
    vn = normal(pts[-1], pts[0], pts[1])
    q, t = triangulate(pts, vn)
    return (q, t, vn, polygon_centroid(q, t), polygon_area(q, vn), plane_coefficients(q), name)
def with_tri(pts, name, tri):
    p = Polygon(pts, name, tri=tri)
    return fields(p)
def with_tri_spec(pts, name, tri):
    vn = normal(pts[tri[0, 0]], pts[tri[0, 1]], pts[tri[0, 2]])
    return (pts, tri, vn, polygon_centroid(pts, tri), polygon_area(pts, vn), plane_coefficients(pts), name)
def with_vn(pts, name, vn):
    p = Polygon(pts, name, vn=vn)
    return fields(p)
def with_vn_spec(pts, name, vn):
    q, t = triangulate(pts, vn)
    return (q, t, vn, polygon_centroid(q, t), polygon_area(q, vn), plane_coefficients(q), name)
def with_both(pts, name, tri, vn):
    p = Polygon(pts, name, tri=tri, vn=vn)
    return fields(p)
def with_both_spec(pts, name, tri, vn):
    return (pts, tri, vn, polygon_centroid(pts, tri), polygon_area(pts, vn), plane_coefficients(pts), name)
def fields(p):
    return (p.pts, p.tri, p.vn, p.ctr, p.area, p.plane_coefficients, p.name)
def flipped(p, name):
    return fields(p.flip(name))
def flipped_spec(p, name):
    return fields(Polygon(p.pts[::-1], name, vn=-p.vn))
def mesh(p):
    return (p.pts, p.tri)
def bbox(p):
    return bounding_box(p.pts)
def children(p):
    return p.pts
def interior(p):
    return triangle_centroid(p.pts[p.tri[0, 0]], p.pts[p.tri[0, 1]], p.pts[p.tri[0, 2]])
def inside(p, pt, boundary_in):
    return is_point_inside(pt, p.pts, p.tri, boundary_in)
def contains(p, o, margin):
    return all(is_point_inside_margin(x, margin, p.pts, p.tri) for x in o.pts)
def facing(p, o):
    return are_polygons_facing(p.pts, p.vn, o.pts, o.vn)
def crossing(p, o):
    return are_polygons_crossing(p.pts, p.tri, o.pts, o.tri)
def touching(p, o):
    return are_polygons_touching(p.pts, p.tri, o.pts, o.tri)
'''


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def check(prog, rep):
    construction(prog, rep)
    written(prog, rep)
    kept_arrays(prog, rep)
    triangulation(prog, rep)


def construction(prog, rep):
    S = prog.spec(SPEC)
    opq = [prog.func(q).qualname for q in (P + "area.polygon_area", P + "centroid.polygon_centroid", P + "plane.plane_coefficients", P + "crossing.are_polygons_crossing",
                                           P + "facing.are_polygons_facing", P + "touching.are_polygons_touching", P + "ispointinside.is_point_inside",
                                           P + "ispointinside.is_point_inside_margin", G + "triangles.triangulate", G + "triangles.triangle_centroid", G + "vectors.normal",
                                           G + "bboxes.bounding_box", G + "points.are_points_coplanar", G + "paths.validate_name.validate_name", "building3d.random.random_id")]
    val = prog.func(G + "paths.validate_name.validate_name").qualname

    def valid(I, st, fn, env):
        return env[fn.node.args.args[0].arg]
    hooks = {val: valid}

    def arr(I, n):
        v = I.param(n, ("arr",))
        I.nonnull.add(v)
        return v

    def text(I, n):
        v = I.param(n, ("str",))
        I.nonnull.add(v)
        return v

    c = prog.cls(G + "polygon.Polygon")
    made, flip = prog.method(c, "__init__"), prog.method(c, "flip")
    if flip is None:
        raise AnalysisError("anchor not found: Polygon.flip")

    def eq(rule, inst, f, sf, make, at=None):
        return equal(prog, rep, rule, inst, f, sf, make, opaque=[q for q in opq if q != val], hooks=hooks, guards=False, at=at)
    for n, args in (("plain", ()), ("with_tri", ("tri",)), ("with_vn", ("vn",)), ("with_both", ("tri", "vn"))):
        eq("fields-from-points", f"Polygon {n}".replace("_", " "), S[n], S[n + "_spec"], lambda I, a=args: (None, [arr(I, "pts"), text(I, "name")] + [arr(I, x) for x in a]), made.where())
    poly = lambda I, n="self": I.obj_param(n, I.class_named("Polygon"))
    eq("flipped", "Polygon.flip", S["flipped"], S["flipped_spec"], lambda I: (None, [poly(I), text(I, "new_name")]), flip.where())

    def method(name, sf, make):
        f = prog.method(c, name)
        if f is None:
            raise AnalysisError(f"anchor not found: Polygon.{name}")
        eq("query-own-data", f"Polygon.{name}", f, S[sf], make)
    one = lambda I: (poly(I), [])
    two = lambda I: (poly(I), [poly(I, "other")])

    def point(I):
        b = I.param("boundary_in", ("bool",))
        return poly(I), [arr(I, "pt"), b]

    def margin(I):
        return poly(I), [poly(I, "other"), I.param("margin", ("float",))]
    method("get_mesh", "mesh", one)
    method("bbox", "bbox", one)
    method("children", "children", one)
    method("get_some_interior_point", "interior", one)
    method("is_point_inside", "inside", point)
    method("contains_polygon", "contains", margin)
    method("is_facing_polygon", "facing", two)
    method("is_crossing_polygon", "crossing", two)
    method("is_touching_polygon", "touching", two)


# ---------------------------------------------------------------- who writes
def written(prog, rep):
    c = prog.cls(G + "polygon.Polygon")
    init = prog.method(c, "__init__")
    own = {init.qualname}
    # helpers that only the construction uses
    grown = True
    while grown:
        grown = False
        for f in functions(prog):
            if f.cls is c and f.qualname not in own and not f.is_property:
                cs = [g.qualname for g, _ in callers(prog, f.name)]
                if cs and all(x in own for x in cs):
                    own.add(f.qualname)
                    grown = True
    n = 0
    for f in functions(prog):
        if f.qualname.startswith("building3d._to_be_ported"):
            continue
        for node, field in stores(f):
            n += 1
            rep.ob("set-by-construction", f"{f.where(node)} {field}", f.qualname in own or foreign(prog, f, node, c), f.where(node), f"{f.qualname} changes the {field} of an object outside its construction")
    rep.count("writes_of_polygon_fields", n)
    mr = ModRef(prog).solve()
    for q, s in mr.sum.items():
        bad = [(where, what, label) for (t, label), (where, what) in s.mods.items() if (label[:-2] if label.endswith("[]") else label) in FIELDS and q not in own]
        bad = [b for b in bad if not (label_only_setattr(b[2]) and not polygon_like(prog, mr.funcs[q], c))]
        rep.ob("never-changed", q, not bad, bad[0][0] if bad else "", "; ".join(f"{b[1]} ({b[2]})" for b in bad[:2])) if bad else None
    rep.ob("never-changed", "all functions", True, init.where(), "")
    by_name = {}
    for q in mr.sum:
        by_name.setdefault(q.split(".")[-1], []).append(q)
    n = 0
    for f in functions(prog):
        if f.qualname.startswith("building3d._to_be_ported"):
            continue
        field = fields_of(f)
        for call in all_nodes(f):
            if not isinstance(call, ast.Call):
                continue
            given = [(i, field(a)) for i, a in enumerate(call.args)]
            for i, name in given:
                if name is None:
                    continue
                n += 1
                d = (dotted(call.func) or "").split(".")[-1]
                for q in by_name.get(d, ()):
                    g = mr.funcs[q]
                    k = i + (1 if g.cls is not None and isinstance(call.func, ast.Attribute) else 0)
                    bad = [w for (t, label), w in mr.sum[q].mods.items() if t == ("P", k) and label in ("[]", "")]
                    if bad and f.qualname not in own:
                        rep.ob("never-changed", f"{f.where(call)} {name}", False, f.where(call), f"{f.qualname} passes the {name} of an object to {q}, which {bad[0][1]} ({bad[0][0]})")
    rep.count("fields_passed_on", n)
    rep.count("functions_summarised", len(mr.sum))


def label_only_setattr(label):
    return not label.endswith("[]")


def polygon_like(prog, f, c):
    return f.cls is None or f.cls is c


def fields_of(f):
    """Which field of an object, if any, an expression denotes or is a part of."""
    alias = {}
    for n in all_nodes(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) and n.value.attr in FIELDS:
            alias[n.targets[0].id] = n.value.attr

    def field(e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Attribute) and e.attr in FIELDS:
            return e.attr
        if isinstance(e, ast.Name) and e.id in alias:
            return alias[e.id]
        return None
    field.alias = alias
    return field


def stores(f):
    """Writes to a field called like a polygon's data, and to what is in it."""
    field = fields_of(f)
    alias = field.alias
    for n in all_nodes(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in FIELDS:
            yield n, n.attr
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and field(n.value):
            yield n, field(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in alias:
            yield n, alias[n.target.id]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("fill", "sort", "resize", "put", "itemset", "partition", "append", "pop", "clear", "extend", "insert", "reverse") and field(n.func.value):
            yield n, field(n.func.value)
        elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value in FIELDS:
            yield n, n.args[1].value


def foreign(prog, f, node, c):
    """The field belongs to an object of another class: its own method sets its own attribute."""
    e = node
    while isinstance(e, ast.Subscript):
        e = e.value
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None and f.cls is not c


# ---------------------------------------------------------------- arrays given to a polygon
def kept_arrays(prog, rep):
    """An array handed to a new polygon is not changed afterwards by the function that made it."""
    n = 0
    for f in functions(prog):
        if f.qualname.startswith("building3d._to_be_ported"):
            continue
        made = [x for x in all_nodes(f) if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "Polygon" and x.args + x.keywords]
        for call in made:
            arg = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "pts"), None)
            while isinstance(arg, ast.Subscript):
                arg = arg.value
            n += 1
            bad = None
            if isinstance(arg, ast.Name):
                for m in all_nodes(f):
                    if changes(m, arg.id) and reaches(f, call, m, arg.id):
                        bad = m
            rep.ob("array-kept", f"{f.where(call)}", bad is None, f.where(bad) if bad is not None else f.where(call), f"the array given to a polygon at {f.where(call)} is changed afterwards")
    if n < 4:
        raise AnalysisError("places that make polygons were not found")


def changes(m, name):
    base = None
    if isinstance(m, ast.Subscript) and isinstance(m.ctx, ast.Store):
        base = m.value
    elif isinstance(m, ast.AugAssign):
        base = m.target
    elif isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ("fill", "sort", "resize", "put", "itemset", "partition"):
        base = m.func.value
    while isinstance(base, ast.Subscript):
        base = base.value
    return isinstance(base, ast.Name) and base.id == name


def reaches(f, call, m, name):
    """Can the change m follow the call without the name having been bound anew?"""
    parent = {}
    for st in f.node.body:
        for x in ast.walk(st):
            for y in ast.iter_child_nodes(x):
                parent[y] = x
    binds = []
    for x in all_nodes(f):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) and not isinstance(parent.get(x), ast.AugAssign):
            binds.append(x)
    later = (m.lineno, m.col_offset) > (call.lineno, call.col_offset)

    def ups(x):
        out = []
        while x in parent:
            x = parent[x]
            out.append(x)
        return out
    loops = [x for x in ups(call) if isinstance(x, (ast.For, ast.While)) and x in ups(m)]
    if later:
        same = [b for b in binds if (call.lineno, call.col_offset) < (b.lineno, b.col_offset) < (m.lineno, m.col_offset)]
        return not same
    if not loops:
        return False
    inner = loops[0]
    return not [b for b in binds if inner in ups(b) and (b.lineno, b.col_offset) < (m.lineno, m.col_offset)]


# ---------------------------------------------------------------- triangulation
def triangulation(prog, rep):
    f = prog.func(G + "triangles.triangulate")
    opq = [prog.func(G + "triangles." + x).qualname for x in ("is_corner_convex", "is_point_inside")]
    K = Kernel(prog, opaque=opq)
    names = [p.arg for p in f.node.args.args]
    out, rets = K.run(f, {names[0]: ("arr", 2)})
    rep.use(K)
    pts = mk("base", names[0], "")
    n_own = 0
    tri_roots = set()
    for st, v in rets:
        if v[0] == "call" and v[1] == f.qualname:
            a = v[2][0] if v[2] else NONE
            ok = a is pts or a[0] == "sel" and a[1] is pts and a[2] == (mk("slice", NONE, NONE, const(-1)),) or a[0] == "call" and a[1] in ("np.flip", "np.roll", "np.flipud") and a[2] and a[2][0] is pts
            rep.ob("same-triangulation", "retry", verdict(ok, a), f.where(), f"the triangulation is tried again with {tm.show(a)[:60]}, not with the given points")
            rep.ob("same-triangulation", "retry keeps the normal", verdict(len(v[2]) > 1 and v[2][1] is mk("p", names[1]), *v[2][1:2]), f.where(), "the triangulation is tried again with another normal")
            continue
        if v[0] != "tuple" or len(v[1]) != 2:
            rep.ob("same-triangulation", "result", None, f.where(), f"returns {tm.show(v)[:60]}")
            continue
        a, b = v[1]
        if b[0] == "sel" and b[1][0] == "call" and b[1][1] == f.qualname:
            other = not (a[0] == "sel" and a[1] is b[1] and a[2] == (ZERO,))
            rep.ob("same-triangulation", "points and triangles", not other, f.where(), f"the triangles of a repeated triangulation are returned with {tm.show(a)[:60]}")
            n_own += 1
            continue
        a = st.arr.get(K.roots[a[1]]) if a[0] == "ref" and not a[2] else a
        rep.ob("same-triangulation", "points", verdict(a is pts, a), f.where(), f"the points returned with the triangles are {tm.show(a)[:60]}, not the ones triangulated")
        b0 = b
        while b[0] == "call" and b[1] in ("np.array", "np.asarray") and b[2]:
            b = b[2][0]
        if b[0] == "ref":
            c = st.arr.get(K.roots[b[1]])
            while c is not None and c[0] == "call" and c[1] in ("np.array", "np.asarray") and c[2]:
                c = c[2][0]
            b = c if c is not None else b
        names_in = {x[1] for x in tm.subterms(b) if x[0] == "base"}
        roots = [r for r in K.roots.values() if r.name in names_in and r.kind == "list"]
        rep.ob("same-triangulation", "triangles", True if len(roots) == 1 else None, f.where(), f"the triangles returned are {tm.show(b0)[:60]}")
        tri_roots |= set(roots)
        n_own += 1
    if not n_own:
        raise AnalysisError("triangulation does not return points and triangles")
    apps = [e for e in K.events if e.kind == "mutate" and e.root in tri_roots]
    rep.ob("triangle-indices", "added", True if apps else None, f.where(), "no triangle is added")
    for e in apps:
        t = e.val[1][0] if e.val[0] == "tuple" and len(e.val[1]) == 1 else None
        if e.fn != "append" or t is None or t[0] != "tuple" or len(t[1]) != 3:
            rep.ob("triangle-indices", e.where, None, e.where, f"{e.fn} {tm.show(e.val)[:60]}")
            continue
        owner, slots = None, []
        for x in t[1]:
            if x[0] == "sel" and x[1][0] == "base" and len(x[2]) == 2 and x[2][1] is ZERO:
                owner = x[1] if owner in (None, x[1]) else False
                slots.append(x[2][0])
        ok = bool(owner) and len(slots) == 3
        rep.ob("triangle-indices", e.where, verdict(ok, t), e.where, f"a triangle holds {tm.show(t)[:100]}, not the numbers of three remaining points")
        if not ok:
            continue
        # numbers of the points in the given array
        start = [r.entry.arr.get(q) for r in K.loop_recs for q in K.roots.values() if q.name == owner[1] and q in r.entry.arr]
        good = [s for s in start if s[0] == "gen" and s[2][0] == "tuple" and len(s[2][1]) >= 1 and s[2][1][0] is s[1] and s[3] in (tm.length(pts), mk("sel", mk("attr", pts, "shape"), (ZERO,)))]
        rep.ob("triangle-indices", "numbered from the array", bool(good) or (None if any(vague(s) for s in start) or not start else False), f.where(), "the remaining points are not numbered as in the given array")
        # three neighbours in order, the middle one is removed
        size = tm.length(owner)
        pops = [p for p in K.events if p.kind == "mutate" and p.root is not None and p.root.name == owner[1] and p.fn in ("pop", "del") and p.loops == e.loops]
        rep.ob("ear-removed", "one point", True if len(pops) == 1 else (None if pops else False), e.where, "the point of the ear is not removed once")
        for p in pops:
            at = p.val[1][0] if p.val[0] == "tuple" and p.val[1] else const(-1)
            same = [K.same(s, at) for s in slots]
            rep.ob("ear-removed", "of the triangle", verdict(any(same), at), p.where, f"the removed point {tm.show(at)[:60]} is not one of the triangle")
            if any(same):
                i = same.index(True)
                nxt, prv = slots[(i + 1) % 3], slots[(i + 2) % 3]
                okn = any(K.same(nxt, y) for y in (tm.phi(tm.cmp("<", at, tm.sub(size, ONE)), tm.add(at, ONE), ZERO), tm.binop("%", tm.add(at, ONE), size)))
                okp = any(K.same(prv, y) for y in (tm.phi(tm.cmp("<", ZERO, at), tm.sub(at, ONE), tm.sub(size, ONE)), tm.binop("%", tm.sub(at, ONE), size), tm.sub(at, ONE)))
                rep.ob("neighbours-in-order", "next", verdict(okn, nxt), e.where, f"after the removed point the triangle goes to position {tm.show(nxt)[:80]}, not to the next one")
                rep.ob("neighbours-in-order", "previous", verdict(okp, prv), e.where, f"before the removed point the triangle comes from position {tm.show(prv)[:80]}, not from the previous one")
            g = [x for x in e.guards if x not in p.guards] + [x for x in p.guards if x not in e.guards]
            rep.ob("ear-removed", "together", verdict(not g, *g), p.where, "a point is removed without its triangle or a triangle kept without removing its point")
