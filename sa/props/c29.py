"""C29: yes/no answers about geometry follow their stated criterion."""
from __future__ import annotations

from .. import terms as tm
from ..geocmp import compare, sorted_args
from ..interp import Interp
from ..spec import equal
from ..terms import mk

EXPLANATION = "Every yes/no function of the geometry package (point in polygon, triangle, box and on outline; coplanar; facing, touching, crossing; segment through polygon; polygon in cube; visibility; polygon methods) is summarised by dataflow, loops becoming exists/for-all statements over their collections and greedy matching a description of what is matched, and compared as a normal form with the criterion written down for it; small predicates are compared in exact vector algebra for every combination of signs of their conditions, zero included."
TECHNIQUE = "dataflow summaries compared with the stated criteria"
NOTE = "Criteria hold for all inputs in exact arithmetic, with the comparison functions and tolerances as given; that a criterion is geometrically right for near-degenerate shapes is not claimed, nor are collinearity and the list of a polygon's edges looked into."
MIN_OBLIGATIONS = 55

G = "building3d.geom."
SPEC = '''
import numpy as np
from building3d.config import GEOM_ATOL
from building3d.config import GEOM_RTOL
from building3d.geom.bboxes import bounding_box, is_point_inside_bbox, cube_edges, cube_polygons
from building3d.geom.bboxes import are_bboxes_overlapping as boxes_overlap
from building3d.geom.points import are_points_coplanar, is_point_on_segment, points_equal, new_point_between_2_points, is_valid_pt
from building3d.geom.points.distance import distance_point_to_edge
from building3d.geom.points.intersections import line_segment_intersection, line_intersection
from building3d.geom.points.visibility import are_points_visible
from building3d.geom.polygon.edges import polygon_edges
from building3d.geom.polygon.area import polygon_area
from building3d.geom.polygon.ispointinside import is_point_inside, is_point_at_boundary
from building3d.geom.polygon.touching import check_poly_a_against_b
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon
from building3d.geom.triangles import is_point_inside as in_triangle
from building3d.geom.types import INVALID_PT
from building3d.geom.points import are_points_collinear
from building3d.geom.vectors import normal as normal_of
from building3d.geom.polygon.ispointinside import is_point_inside_margin
from building3d.geom.polygon.facing import are_polygons_facing
from building3d.geom.polygon.crossing import are_polygons_crossing
from building3d.geom.polygon.touching import are_polygons_touching

def at_boundary(ptest, pts, atol):
    return any(is_point_on_segment(ptest, e[0], e[1], atol=atol) for e in polygon_edges(pts))

def margin(ptest, margin, pts, tri):
    return is_point_inside(ptest, pts, tri) and not any(distance_point_to_edge(ptest, e[0], e[1]) < margin for e in polygon_edges(pts))

def in_array(ptest, arr):
    return any(points_equal(ptest, p) for p in arr)

def same_points(pts1, pts2):
    n = 0
    taken = set()
    for i in range(pts1.shape[0]):
        for j in range(pts2.shape[0]):
            if j not in taken and points_equal(pts1[i], pts2[j]):
                n += 1
                taken.add(j)
                break
    return n == len(pts1) and len(pts1) == len(pts2)

def touching(pts1, tri1, pts2, tri2):
    if not boxes_overlap(bounding_box(pts1), bounding_box(pts2)):
        return False
    if same_points(pts1, pts2):
        return False
    a = check_poly_a_against_b(pts1, tri1, pts2)
    b = check_poly_a_against_b(pts2, tri2, pts1)
    return (a[0] or b[0]) and not (a[1] or b[1])

def against(pts_a, tri_a, pts_b):
    inside = False
    for i in range(len(pts_b)):
        if is_point_inside(pts_b[i], pts_a, tri_a, boundary_in=False):
            inside = True
        if any(is_point_inside(new_point_between_2_points(pts_b[i - 1], pts_b[i], rel_d=t), pts_a, tri_a, boundary_in=False) for t in np.linspace(0, 1, 5)):
            inside = True
    return any(is_point_at_boundary(p, pts_a) for p in pts_b), inside

def crossing(pts1, tri1, pts2, tri2):
    if not boxes_overlap(bounding_box(pts1), bounding_box(pts2)):
        return False
    if not are_points_coplanar(np.vstack((pts1, pts2))):
        return False
    for a in polygon_edges(pts1):
        for b in polygon_edges(pts2):
            if points_equal(a[0], b[0]) or points_equal(a[0], b[1]) or points_equal(a[1], b[1]) or points_equal(a[1], b[0]):
                continue
            x = line_segment_intersection(a[0], a[1], b[0], b[1])
            if np.isnan(x).any():
                continue
            if np.isclose(distance_point_to_edge(x, a[0], a[1]), 0) or np.isclose(distance_point_to_edge(x, b[0], b[1]), 0):
                if any(is_point_inside(new_point_between_2_points(a[0], a[1], rel_d=t), pts2, tri2, boundary_in=False)
                       or is_point_inside(new_point_between_2_points(b[0], b[1], rel_d=t), pts1, tri1, boundary_in=False) for t in np.linspace(0, 1, 10)):
                    return True
            else:
                return True
    return False

def segment_inter(pa1, pb1, pa2, pb2):
    c = line_intersection(pa1, pb1 - pa1, pa2, pb2 - pa2)
    if c is INVALID_PT:
        return INVALID_PT
    if is_point_on_segment(c, pa1, pb1) and is_point_on_segment(c, pa2, pb2):
        return c
    return INVALID_PT

def facing(pts1, vn1, pts2, vn2):
    if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
        return False
    if not boxes_overlap(bounding_box(pts1), bounding_box(pts2)):
        return False
    return same_points(pts1, pts2) and np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2))

def coplanar(pts, atol):
    if len(pts) <= 3 or are_points_collinear(pts, atol=atol):
        return True
    for i in range(len(pts) - 2):
        n = normal_of(pts[i], pts[i + 1], pts[i + 2])
        if not np.isnan(n).any():
            break
    else:
        return True
    for p in pts:
        if not np.abs(np.dot(n, p) - np.dot(n, pts[0])) < atol:
            return False
    return True

def in_polygon(self, pt, boundary_in):
    return is_point_inside(pt, self.pts, self.tri, boundary_in)

def contains(self, other, margin):
    return all(is_point_inside_margin(p, margin, self.pts, self.tri) for p in other.pts)

def faces(self, other):
    return are_polygons_facing(self.pts, self.vn, other.pts, other.vn)

def crosses(self, other):
    return are_polygons_crossing(self.pts, self.tri, other.pts, other.tri)

def touches(self, other):
    return are_polygons_touching(self.pts, self.tri, other.pts, other.tri)

def cube(pts, tri, lo, hi, eps):
    if any(lo[0] - eps <= p[0] <= hi[0] + eps and lo[1] - eps <= p[1] <= hi[1] + eps and lo[2] - eps <= p[2] <= hi[2] + eps for p in pts):
        return True
    for t in tri:
        for j in range(3):
            for face in cube_polygons(lo, hi):
                if is_line_segment_crossing_polygon(pts[t[j]], pts[t[(j + 1) % 3]], face, np.array([[0, 1, 2], [0, 2, 3]])):
                    return True
    return any(is_line_segment_crossing_polygon(e[0], e[1], pts, tri, 1e-10) for e in cube_edges(lo, hi))

def visible(pt0, pt1, *block):
    for edges in block:
        for e in edges:
            if points_equal(e[0], pt0) or points_equal(e[0], pt1) or points_equal(e[1], pt0) or points_equal(e[1], pt1):
                continue
            if is_valid_pt(line_segment_intersection(pt0, pt1, e[0], e[1])):
                return 0
    return 1

def inside(ptest, pts, tri, boundary_in, atol):
    if not is_point_inside_bbox(ptest, pts, atol=1e-2):
        return False
    stacked = np.zeros((pts.shape[0] + 1, 3))
    stacked[:-1] = pts
    stacked[-1] = ptest
    if not are_points_coplanar(stacked, atol=atol):
        return False
    if not any(in_triangle(ptest, pts[t[0]], pts[t[1]], pts[t[2]]) for t in tri):
        return False
    return boundary_in or not is_point_at_boundary(ptest, pts, atol=atol)
'''
LEAF = '''
import numpy as np
from building3d.config import GEOM_RTOL, POINT_NUM_DEC
from building3d.geom.bboxes import bounding_box, is_point_inside_bbox
from building3d.geom.points import are_points_collinear
from building3d.geom.triangles import is_point_on_same_side
from building3d.geom.vectors import normal as normal_of
from building3d.geom.polygon.ispointinside import is_point_inside as inside

def equal_points(a, b, atol):
    return np.allclose(a, b, atol=atol)

def valid(p):
    return not np.isnan(p).any()

def in_box(p, pts, atol):
    b = bounding_box(pts)
    return not (p < b[0] - atol).any() and not (p > b[1] + atol).any()

def overlap(a, b):
    return not (a[1] < b[0]).any() and not (a[0] > b[1]).any()

def on_segment(p, a, b, atol):
    if np.allclose(p, a, atol=atol) or np.allclose(p, b, atol=atol):
        return True
    if not np.allclose(np.cross(p - a, b - a), np.zeros(3), atol=atol):
        return False
    return -atol <= np.dot(p - a, b - a) <= np.dot(b - a, b - a) + atol

def same_side(a, b, p, ref, atol):
    vt = np.cross(b - a, p - a)
    vr = np.cross(b - a, ref - a)
    if np.linalg.norm(vr) < atol:
        raise ValueError
    if np.linalg.norm(vt) < atol:
        return False
    return np.isclose(vt / np.linalg.norm(vt), vr / np.linalg.norm(vr), atol=atol).all()

def in_triangle(p, a, b, c, atol):
    if not is_point_inside_bbox(p, np.vstack((a, b, c)), atol=1e-2):
        return False
    if np.allclose(p, a, atol=atol) or np.allclose(p, b, atol=atol) or np.allclose(p, c, atol=atol):
        return True
    r = np.round(p, POINT_NUM_DEC)
    for x, y in ((a, b), (b, c), (c, a)):
        if are_points_collinear(np.vstack((x, y, p)), atol=atol):
            s, t = np.round(x, POINT_NUM_DEC), np.round(y, POINT_NUM_DEC)
            for k in range(3):
                if r[k] > max(s[k], t[k]) + atol or r[k] < min(s[k], t[k]) - atol:
                    return False
            return True
    return is_point_on_same_side(a, b, p, c, atol=atol) and is_point_on_same_side(b, c, p, a, atol=atol) and is_point_on_same_side(c, a, p, b, atol=atol)

def convex(a, b, c, vn, atol):
    n = np.cross(b - a, c - b)
    if np.linalg.norm(n) < atol:
        return False
    return np.allclose(n / np.linalg.norm(n), vn, rtol=GEOM_RTOL)

def through(a, b, pts, tri, eps):
    n = normal_of(pts[-1], pts[0], pts[1])
    x = np.dot(n, b - a)
    if abs(x) < eps:
        return False
    s = np.dot(n, pts[0] - a) / x
    if s < 0 or s > 1:
        return False
    return inside(a + s * (b - a), pts, tri, boundary_in=True)
'''
SMALL = (
    ("points.points_equal", "equal_points", "pt pt num", {}),
    ("points.is_valid_pt", "valid", "pt", {}),
    ("bboxes.is_point_inside_bbox", "in_box", "pt rows num", {}),
    ("bboxes.are_bboxes_overlapping", "overlap", "rows rows", {}),
    ("polygon.touching.are_bboxes_overlapping", "overlap", "rows rows", {}),
    ("points.is_point_on_segment", "on_segment", "pt pt pt num", {}),
    ("triangles.is_point_on_same_side", "same_side", "pt pt pt pt num", {}),
    ("triangles.is_point_inside", "in_triangle", "pt pt pt pt num", {"bboxes.is_point_inside_bbox": "op", "points.are_points_collinear": "op", "triangles.is_point_on_same_side": "op"}),
    ("triangles.is_corner_convex", "convex", "pt pt pt unit num", {}),
    ("polygon.crossing.is_line_segment_crossing_polygon", "through", "pt pt rows ints num", {"vectors.normal": "vec", "polygon.ispointinside.is_point_inside": "op"}),
)
TYPES = {"pt": ("arr", 1), "vec": ("arr", 1), "unit": ("arr", 1), "rows": ("arr", 2), "ints": ("arr", 2)}
CASES = (
    ("polygon.ispointinside.is_point_at_boundary", "at_boundary"),
    ("polygon.ispointinside.is_point_inside_margin", "margin"),
    ("points.is_point_in_array", "in_array"),
    ("polygon.touching.are_polygons_touching", "touching"),
    ("polygon.touching.are_all_points_same", "same_points"),
    ("polygon.touching.check_poly_a_against_b", "against"),
    ("polygon.crossing.are_polygons_crossing", "crossing"),
    ("points.intersections.line_segment_intersection", "segment_inter"),
    ("polygon.facing.are_polygons_facing", "facing"),
    ("polygon.crossing.is_polygon_crossing_cube", "cube"),
    ("points.visibility.are_points_visible", "visible"),
    ("polygon.ispointinside.is_point_inside", "inside"),
)
LEAVES = ["bboxes.bounding_box", "bboxes.is_point_inside_bbox", "bboxes.are_bboxes_overlapping", "bboxes.cube_edges", "bboxes.cube_polygons",
          "polygon.touching.are_bboxes_overlapping", "points.are_points_coplanar", "points.is_point_on_segment", "points.points_equal", "points.new_point_between_2_points",
          "points.is_valid_pt", "points.distance.distance_point_to_edge", "points.intersections.line_segment_intersection", "points.intersections.line_intersection",
          "polygon.edges.polygon_edges", "polygon.area.polygon_area", "polygon.ispointinside.is_point_inside", "polygon.ispointinside.is_point_at_boundary",
          "polygon.touching.check_poly_a_against_b", "polygon.crossing.is_line_segment_crossing_polygon", "triangles.is_point_inside"]


# arguments whose order does not matter
SYMMETRIC = {G + "points.points_equal": (0, 1), G + "points.is_point_on_segment": (1, 2), G + "points.distance.distance_point_to_edge": (1, 2),
             G + "triangles.is_point_on_same_side": (0, 1), G + "bboxes.are_bboxes_overlapping": (0, 1), "np.isclose": (0, 1), "np.allclose": (0, 1)}


def part(t):
    """A point given as an array with one row, or the array itself."""
    if t[0] == "tuple" and len(t[1]) == 1:
        return t[1][0]
    if t[0] == "item" and t[2][0] == "tuple" and t[2][1][0] is tm.NONE and all(x[0] == "slc" for x in t[2][1][1:]):
        return t[1]
    if t[0] == "mcall" and t[2] == "reshape" or t[0] == "call" and t[1] in ("np.atleast_2d", "np.reshape", "np.expand_dims"):
        return t[1] if t[0] == "mcall" else t[2][0]
    return t


def stacked(t):
    """The points of an array put together from an array and a point, or from several arrays."""
    if t[0] == "call" and t[1] in ("np.vstack", "np.concatenate", "np.row_stack") and t[2][0][0] == "tuple":
        return [part(x) for x in t[2][0][1]]
    if t[0] == "call" and t[1] == "np.append" and len(t[2]) == 2 and dict(t[3]).get("axis") is tm.ZERO:
        return [part(x) for x in t[2]]
    if t[0] != "arrv" or t[1][0] != "call" or t[1][1] not in ("np.zeros", "np.empty", "np.full") or t[1][2][0][0] != "tuple":
        return None
    size = t[1][2][0][1][0]
    whole, single = [], []
    for w in t[2]:
        if w[0] == "tuple":
            single.append(w[1])
            continue
        if w[0] != "red" or w[1] != "list" or w[3][0] != "tuple":
            return None
        at, val = w[3][1]
        bi = mk("bv", 0, "idx")
        off = tm.sub(at, bi)
        coll = w[2]
        if coll[0] == "range" and val[0] == "item" and val[2] is bi and coll[1] is tm.ZERO and coll[3] is tm.ONE and (coll[2] is tm.const(-1) or coll[2] is tm.length(val[1])):
            coll = val[1]
        elif val is not mk("bv", 0, "elem"):
            return None
        whole.append((coll, off))
    if len(whole) != 1 or len(single) != 1 or tm.sub(size, tm.length(whole[0][0])) is not tm.ONE:
        return None
    (coll, off), (at, val) = whole[0], single[0]
    n = tm.length(coll)
    if off is tm.ZERO and at in (n, tm.const(-1)) or off is tm.ONE and at in (tm.ZERO, tm.neg(n)):
        return [coll, val]
    return None


METHODS = (("is_point_inside", "in_polygon"), ("contains_polygon", "contains"), ("is_facing_polygon", "faces"), ("is_crossing_polygon", "crosses"), ("is_touching_polygon", "touches"))
# what is assumed where the caller says nothing
DEFAULTS = {
    "points.points_equal": {"atol": "GEOM_ATOL"},
    "points.are_points_coplanar": {"atol": "GEOM_ATOL"},
    "points.are_points_collinear": {"atol": "GEOM_ATOL"},
    "points.is_point_on_segment": {"atol": "GEOM_ATOL"},
    "bboxes.is_point_inside_bbox": {"atol": "GEOM_ATOL"},
    "triangles.is_point_on_same_side": {"atol": "GEOM_ATOL"},
    "triangles.is_point_inside": {"atol": "GEOM_ATOL"},
    "triangles.is_corner_convex": {"atol": "GEOM_ATOL"},
    "polygon.ispointinside.is_point_at_boundary": {"atol": "GEOM_ATOL"},
    "polygon.ispointinside.is_point_inside": {"boundary_in": True, "atol": "GEOM_ATOL"},
    "polygon.ispointinside.is_point_inside_projection": {"fwd_only": True, "atol": "GEOM_ATOL"},
    "polygon.Polygon.is_point_inside": {"boundary_in": True},
    "polygon.Polygon.contains_polygon": {"margin": "GEOM_ATOL"},
}


def defaults(prog, rep):
    for q, want in DEFAULTS.items():
        f = prog.func(G + q)
        params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        need = [a for a in params if a not in want]
        mod, name = f.module.name, f.name
        call = f"{need[0]}.{name}({', '.join(need[1:])})" if f.cls else f"{name}({', '.join(need)})"
        src = f"from building3d.config import GEOM_ATOL\n" + ("" if f.cls else f"from {mod} import {name}\n") + \
            f"def probe({', '.join(need)}):\n    return {call}\ndef tolerance():\n    return GEOM_ATOL\n"
        S = prog.spec(src)
        I = Interp(prog, opaque=[f.qualname])
        st = I.start()
        args = [I.obj_param(n, prog.cls(G + "polygon.Polygon")) if f.cls and n in ("self", "other") else I.param(n) for n in need]
        v = I.val(st, I.run(st, S["probe"], args))
        tol = I.val(st, I.run(st, S["tolerance"], []))
        given = dict(zip(params, v[2])) if v[0] == "call" else {}
        given.update(dict(v[3]) if v[0] == "call" else {})
        for n, x in want.items():
            exp = tm.const(x) if isinstance(x, bool) else tol
            got = given.get(n)
            rep.ob("default", f"{q} {n}", None if got is None else got is exp, f.where(),
                   f"{n} is {tm.show(got) if got is not None else 'not given'} unless stated; required: {tm.show(exp)}")


def search(I, t):
    """Loops that look for the first i whose value passes a test, written as such."""
    sub = {}
    for k, r in I.loop_recs.items():
        if r.L[1][0] != "while":
            continue
        ups = {c: u for c, u in r.updates.items() if c[0] == "e" and u is not None}
        ix = [c for c, u in ups.items() if u is tm.add(I.lv(k, c[2]), tm.ONE) and r.inits[c] is tm.ZERO]
        val = [c for c in ups if c not in ix]
        outs = [e for e in r.exits if e.kind == "wexit"]
        ends = [(j, e) for j, e in enumerate(r.exits) if e.kind == "return"]
        if len(ix) != 1 or len(val) != 1 or len(outs) != 1 or len(ends) != 1 or len(r.exits) != 2:
            continue
        i, v = I.lv(k, ix[0][2]), I.lv(k, val[0][2])
        test, stop = outs[0].guards[-1][0], ends[0][1].guards[-1][0]
        if tm.contains(test, lambda x: x is i) or stop[0] != "not" or stop[1][0] != "cmp" or stop[1][1] != "<":
            continue
        room = tm.sub(stop[1][3], tm.sub(stop[1][2], i))          # i < room
        bi = mk("bv", 0, "idx")
        if tm.contains(room, lambda x: x is i) or tm.contains(ups[val[0]], lambda x: x is v):
            continue
        coll = mk("range", tm.ZERO, room, tm.ONE)
        new = tm.subst(ups[val[0]], {i: bi})
        good = tm.subst(test, {v: new})
        sub[mk("out", k, val[0][2])] = mk("first", coll, good, new)
        sub[mk("exit", k, ends[0][0])] = tm.neg(tm.red("any", coll, good))
    return tm.subst(t, sub) if sub else t


def plane(t):
    """Products with a sum spread out, one name for absolute values, whole-array tests as tests of every row."""
    memo = {}

    def go(t):
        if not isinstance(t, tm.T):
            return t
        if t in memo:
            return memo[t]
        r = tm.rebuild(t, go)
        if r[0] == "op" and r[1] == "@":
            r = mk("call", "np.dot", (r[2], r[3]), ())
        if r[0] == "call" and r[1] == "np.abs":
            r = mk("call", "abs", r[2], r[3])
        if r[0] == "phi" and r[3] is tm.NONE and r[2][0] == "first":
            r = r[2]
        if r[0] == "cmp" and r[1] == "is" and tm.NONE in (r[2], r[3]) and "first" in (r[2][0], r[3][0]):
            r = tm.FALSE
        if r[0] == "call" and r[1] == "all" and r[2][0][0] == "cmp":
            pts = [x for x in tm.subterms(r[2][0]) if x is mk("p", "pts")]
            rows = tm.subst(r[2][0], {mk("item", mk("p", "pts"), tm.ZERO): mk("opq0"), mk("len", mk("p", "pts")): mk("opq1")})
            one = tm.contains(rows, lambda x: x[0] == "first")
            if pts:
                keep = [x for x in tm.subterms(rows) if x[0] == "first"]
                rows = tm.subst(rows, {x: mk("keep", n) for n, x in enumerate(keep)})
                rows = tm.subst(rows, {mk("p", "pts"): mk("bv", 0, "elem")})
                rows = tm.subst(rows, {mk("keep", n): x for n, x in enumerate(keep)})
                rows = tm.subst(rows, {mk("opq0"): mk("item", mk("p", "pts"), tm.ZERO), mk("opq1"): mk("len", mk("p", "pts"))})
                r = go(tm.red("all", mk("p", "pts"), rows))
        if r[0] == "call" and r[1] == "np.dot" and len(r[2]) == 2:
            a, b = sorted(r[2], key=lambda x: (x[0] == "sum", tm.tkey(x)))
            if b[0] == "sum" and not b[2]:
                r = tm.add(*[tm.scale(go(mk("call", "np.dot", (a, x), ())), w) for x, w in b[1]])
            else:
                r = mk("call", "np.dot", (a, b), ())
        memo[t] = r
        return r
    return go(t)


def cubes(prog, rep):
    """Edges and faces of a cube between two corners."""
    lo, hi = mk("p", "lo"), mk("p", "hi")
    for q, rule in (("bboxes.cube_edges", "edges"), ("bboxes.cube_polygons", "faces")):
        f = prog.func(G + q)
        I = Interp(prog)
        st = I.start()
        v = I.val(st, I.run(st, f, [I.param("lo", ("arr",)), I.param("hi", ("arr",))]))
        rep.use(I)
        while v[0] == "call" and v[1] in ("np.array", "np.asarray", "np.stack", "np.vstack"):
            v = v[2][0]

        def corner(t):
            while t[0] == "call" and t[1] in ("np.array", "np.asarray"):
                t = t[2][0]
            if t[0] != "tuple" or len(t[1]) != 3:
                return None
            out = []
            for k, x in enumerate(t[1]):
                if x[0] != "item" or x[1] not in (lo, hi) or not tm.is_int(x[2]):
                    return None
                out.append(("hi" if x[1] is hi else "lo", x[2][2] % 3 == k))
            return tuple((s if own else "other axis") for s, own in out)
        parts = []
        for e in v[1] if v[0] == "tuple" else ():
            while e[0] == "call" and e[1] in ("np.array", "np.asarray", "np.vstack", "np.stack"):
                e = e[2][0]
            parts.append(tuple(corner(c) for c in e[1]) if e[0] == "tuple" else (None,))
        if not parts or any(c is None for p in parts for c in p):
            rep.ob(rule, q, None, f.where(), "corners not understood")
            continue
        step = lambda a, b: sum(x != y for x, y in zip(a, b))
        if rule == "edges":
            ok = len(parts) == 12 == len({frozenset(p) for p in parts}) and all(len(p) == 2 and step(*p) == 1 for p in parts)
        else:
            ok = len(parts) == 6 == len({frozenset(p) for p in parts}) and all(len(set(p)) == 4 == len(p) and all(step(p[k], p[k - 1]) == 1 for k in range(4))
                                                                             and any(len({c[a] for c in p}) == 1 for a in range(3)) for p in parts)
        ok = ok and not any("other axis" in c for p in parts for c in p)
        rep.ob(rule, q, ok, f.where(), f"not the {'12 edges' if rule == 'edges' else '6 faces, each as a closed outline,'} of the cube")


def normal(prog):
    """Different ways to write the same question brought to one form."""
    coplanar, overlap = G + "points.are_points_coplanar", G + "bboxes.are_bboxes_overlapping"
    memo = {}

    def go(t):
        if not isinstance(t, tm.T):
            return t
        if t in memo:
            return memo[t]
        r = tm.rebuild(t, go)
        if r[0] == "call":
            if r[1] in ("np.array", "np.zeros", "np.full", "np.linspace", "np.empty") and any(k == "dtype" for k, _ in r[3]):
                r = mk("call", r[1], r[2], tuple(x for x in r[3] if x[0] != "dtype"))
            if r[1] == G + "polygon.touching.are_bboxes_overlapping":
                r = mk("call", overlap, r[2], r[3])
            if r[1] == coplanar:
                xs = stacked(r[2][0])
                if xs is not None:
                    r = mk("call", coplanar, (mk("points", *sorted(xs, key=tm.tkey)),) + r[2][1:], r[3])
                elif r[2][0][0] in ("arrv", "call"):
                    r = mk("call", coplanar, (mk("opq", r[2][0]),) + r[2][1:], r[3])
        if r[0] == "call" and r[1] in SYMMETRIC:
            r = sorted_args(r, SYMMETRIC)
        memo[t] = r
        return r
    return lambda I, st, t: go(t)


def check(prog, rep):
    S = prog.spec(SPEC)
    for q, s in CASES:
        f, d = prog.func(G + q), S[s]
        names = [a.arg for a in d.node.args.args]
        types = {n: ("arr",) for n in ("pts", "ptest", "pts_a", "pts_b", "tri_a", "pts1", "pts2", "tri", "tri1", "tri2", "arr", "pt0", "pt1", "pa1", "pb1", "pa2", "pb2", "vn1", "vn2")}
        opq = [G + x for x in LEAVES if G + x != f.qualname]
        equal(prog, rep, "criterion", q, f, d, lambda I: (None, [I.param(n, types.get(n)) for n in names] + ([mk("star", I.param("block", ("arr",)))] if d.node.args.vararg else [])), opaque=opq, post=normal(prog))
    P = prog.cls(G + "polygon.Polygon")
    n = normal(prog)
    opq = [G + x for x in LEAVES + ["points.are_points_collinear", "vectors.normal"]]
    f = prog.func(G + "points.are_points_coplanar")
    equal(prog, rep, "criterion", "points.are_points_coplanar", f, S["coplanar"], lambda I: (None, [I.param("pts", ("arr",)), I.param("atol")]),
          opaque=[x for x in opq if x != f.qualname], post=lambda I, st, t: plane(search(I, n(I, st, t))))
    more = [G + "polygon." + x for x in ("ispointinside.is_point_inside_margin", "facing.are_polygons_facing", "crossing.are_polygons_crossing", "touching.are_polygons_touching")]
    for m, s in METHODS:
        f = prog.func(G + "polygon.Polygon." + m)
        names = [a.arg for a in S[s].node.args.args][1:]
        equal(prog, rep, "criterion", f"Polygon.{m}", f, S[s],
              lambda I: (I.obj_param("self", P), [I.obj_param(x, P) if x == "other" else I.param(x) for x in names]), opaque=opq + more)
    defaults(prog, rep)
    cubes(prog, rep)
    L = prog.spec(LEAF)
    for q, s, kinds, leaves in SMALL:
        f, d = prog.func(G + q), L[s]
        ks = dict(zip([a.arg for a in d.node.args.args], kinds.split()))
        table = {G + x: ([a.arg for a in prog.func(G + x).node.args.args], {}, r) for x, r in leaves.items()}
        compare(prog, rep, "leaf", q, f, d, ks, {n: TYPES[k] for n, k in ks.items() if k in TYPES}, opaque=list(table), table=table, truth=True, symmetric=SYMMETRIC)
