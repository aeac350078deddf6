"""C20: whole-object queries consult every part."""
from __future__ import annotations

from .. import terms as tm
from ..interp import Interp
from ..loader import AnalysisError
from ..spec import equal
from ..terms import mk

EXPLANATION = (
    "Dataflow over the volume, bounding box, point-in-solid, adjacency and location queries, compared as normal forms with "
    "specification functions: sums and quantifiers must range over all children at every level without further conditions; an early "
    "exit is accepted only where it leaves the quantified value unchanged.")
MIN_OBLIGATIONS = 20
SPEC = '''
import numpy as np
from building3d.geom.bboxes import bounding_box
from building3d.geom.polygon.ispointinside import is_point_inside_projection
from building3d.geom.polygon.crossing import are_polygons_crossing
from building3d.geom.polygon.facing import are_polygons_facing
from building3d.geom.tetrahedrons import tetrahedron_volume
from building3d.geom.points import new_point
from building3d.geom.types import FLOAT
from building3d.geom.solid import Solid
from building3d.geom.building.find_location import find_location

def polys(s):
    return [p for w in s.walls.values() for p in w.polygons.values()]
def building_volume(b):
    return sum(z.volume() for z in b.zones.values())
def zone_volume(z):
    return sum(s.volume for s in z.solids.values())
def bbox(s):
    pts, _ = s.get_mesh()
    return bounding_box(pts)
def at_boundary(s, pt):
    return any(p.is_point_inside(pt) for p in polys(s))
def adjacent(s, o):
    return any(are_polygons_crossing(p.pts, p.tri, q.pts, q.tri) or are_polygons_facing(p.pts, p.vn, q.pts, q.vn)
               for p in polys(s) for q in polys(o))
def interface(s, o):
    return any(are_polygons_facing(p.pts, p.vn, q.pts, q.vn) for p in polys(s) for q in polys(o))
def solid_volume(s):
    total = 0.0
    o = new_point(0.0, 0.0, 0.0)
    for p in polys(s):
        for t in p.tri:
            a, b, c = p.pts[t[0]], p.pts[t[1]], p.pts[t[2]]
            side = np.dot(p.vn, a - o)
            if side == 0.0:
                side = np.dot(p.vn, b - o)
            v = tetrahedron_volume(o, a, b, c)
            if side > 0:
                total += v
            else:
                total -= v
    return abs(float(total))
def inside(s, pt):
    lo, hi = s.bbox()
    if pt[0] > hi[0] or pt[1] > hi[1] or pt[2] > hi[2] or pt[0] < lo[0] or pt[1] < lo[1] or pt[2] < lo[2]:
        return False
    vec = np.array([0.739, 0.239, 0.113])
    vec /= np.linalg.norm(vec)
    n = sum(1 for p in polys(s) if is_point_inside_projection(pt, vec, p.pts, p.tri))
    return n % 2 == 1 or s.is_point_at_boundary(pt)
def location(p, b):
    for z in b.zones.values():
        for s in z.solids.values():
            if s.is_point_inside(p):
                return s.path
    raise RuntimeError("not found")
def look_in(p, b, first):
    return find_location(p, b, *first)
def look_in_spec(p, b, first):
    for path in first:
        s = b.get(path)
        if not isinstance(s, Solid):
            raise TypeError("not a solid")
        if s.is_point_inside(p):
            return path
    for z in b.zones.values():
        for s in z.solids.values():
            if s.is_point_inside(p):
                return s.path
    raise RuntimeError("not found")
def bounds(pts):
    return (np.array([np.min(pts[:, 0]), np.min(pts[:, 1]), np.min(pts[:, 2])], dtype=FLOAT),
            np.array([np.max(pts[:, 0]), np.max(pts[:, 1]), np.max(pts[:, 2])], dtype=FLOAT))
'''
G = "building3d.geom."


def m(prog, cname, name):
    f = prog.method(prog.cls(f"{G}{cname.lower()}.{cname}"), name)
    if f is None:
        raise AnalysisError(f"anchor not found: {cname}.{name}")
    return f


def obj(I, name, cname):
    return I.obj_param(name, I.class_named(cname))


def pt(I):
    p = I.param("pt", ("arr",))
    I.nonnull.add(p)
    I.width[p] = 3
    return p


def check(prog, rep):
    S = prog.spec(SPEC)
    names = {f: m(prog, c, n).qualname for f, c, n in (
        ("zvol", "Zone", "volume"), ("svol", "Solid", "volume"), ("bmesh", "Building", "get_mesh"), ("smesh", "Solid", "get_mesh"),
        ("pin", "Polygon", "is_point_inside"), ("sin", "Solid", "is_point_inside"), ("sbnd", "Solid", "is_point_at_boundary"),
        ("sbb", "Solid", "bbox"))}
    ext = [prog.func(G + q).qualname for q in ("bboxes.bounding_box", "polygon.ispointinside.is_point_inside_projection",
                                                "polygon.crossing.are_polygons_crossing", "polygon.facing.are_polygons_facing",
                                                "tetrahedrons.tetrahedron_volume")]

    def eq(rule, cname, meth, sf, opq, make):
        f = m(prog, cname, meth)
        return equal(prog, rep, rule, f"{cname}.{meth}", f, S[sf], make, opaque=[names[o] for o in opq] + ext)
    one = lambda c: (lambda I: (obj(I, "self", c), []))
    point = lambda I: (obj(I, "self", "Solid"), [pt(I)])
    two = lambda I: (obj(I, "self", "Solid"), [obj(I, "other", "Solid")])
    eq("volume-sum", "Building", "volume", "building_volume", ["zvol"], one("Building"))
    eq("volume-sum", "Zone", "volume", "zone_volume", ["svol"], one("Zone"))
    eq("volume-solid", "Solid", "volume", "solid_volume", [], one("Solid"))
    eq("bbox-all", "Building", "bbox", "bbox", ["bmesh"], one("Building"))
    eq("bbox-all", "Solid", "bbox", "bbox", ["smesh"], one("Solid"))
    eq("boundary", "Solid", "is_point_at_boundary", "at_boundary", ["pin"], point)
    eq("inside", "Solid", "is_point_inside", "inside", ["sbnd", "sbb", "pin"], point)
    eq("adjacent", "Solid", "is_adjacent_to_solid", "adjacent", [], two)
    eq("interface", "Solid", "has_correct_interface", "interface", [], two)
    f = prog.func(G + "building.find_location.find_location")
    I, st, v, J, sj, e = equal(prog, rep, "location", f.qualname, f, S["location"],
                               lambda I: (None, [pt(I), obj(I, "building", "Building")]), opaque=[names["sin"]])
    bget = m(prog, "Building", "get")

    def get(I, st, fn, env):
        path = env[fn.node.args.args[1].arg]
        if path[0] == "cat":
            return None
        r = tm.call(bget.qualname, (env["self"], path))
        I.set_type(r, ("cls", I.class_named("Solid")))
        I.nonnull.add(r)
        return r

    def hinted(I):
        first = I.param("first", ("tuple", None))
        return None, [pt(I), obj(I, "building", "Building"), first]
    equal(prog, rep, "location-hints", f.qualname, S["look_in"], S["look_in_spec"], hinted, opaque=[names["sin"]], hooks={bget.qualname: get})
    f = prog.func(G + "bboxes.bounding_box")
    equal(prog, rep, "bounding-box", f.qualname, f, S["bounds"], lambda I: (None, [I.param("pts", ("arr",))]))
