"""C27: measures and constructions follow their geometric definitions."""
from __future__ import annotations

from .. import terms as tm
from ..geocmp import compare, compare_rows
from ..loader import AnalysisError

EXPLANATION = (
    "Each measure or construction is summarised into cases by the kernel dataflow analysis (value numbering, loop totals in closed form) and compared with a definition written independently in the check. Both are put into exact normal forms: "
    "quotients of polynomials over the coordinates, square roots as generators with known squares, sines and cosines with doubled-angle rules, unit vectors as a side relation. For every combination of signs of the conditions that is possible the two normal forms have to be equal.")
TECHNIQUE = "dataflow summaries compared with definitions by exact polynomial normal forms"
NOTE = "Holds for all inputs in exact arithmetic; rounding is not claimed and the small constant added under square roots counts as zero."
MIN_OBLIGATIONS = 18

G = "building3d.geom."
SPEC = '''
import numpy as np
from building3d.config import GEOM_ATOL
from building3d.geom.vectors import normal as normal_of
from building3d.geom.vectors import angle as angle_of
from building3d.geom.rotation import rotation_matrix as matrix_of
from building3d.geom.polygon.edges import polygon_edges as edges_of
from building3d.geom.points.distance import distance_point_to_edge as to_edge
from building3d.geom.polygon.ispointinside import is_point_inside_ortho_projection as over
from building3d.geom.polygon.ispointinside import is_point_inside as inside

def triangle_area(a, b, c):
    return 0.5 * np.linalg.norm(np.cross(b - a, c - a))
def triangle_centroid(a, b, c):
    return (a + b + c) / 3
def tetrahedron_volume(a, b, c, d):
    return abs(np.dot(np.cross(b - a, c - a), d - a)) / 6
def tetrahedron_centroid(a, b, c, d):
    return (a + b + c + d) / 4
def normal(a, b, c):
    n = np.cross(b - a, c - a)
    if np.isclose(np.linalg.norm(n), 0):
        return np.full(3, np.nan)
    return n / np.linalg.norm(n)
def angle(v, w):
    x = np.dot(v, w) / (np.linalg.norm(v) * np.linalg.norm(w))
    return np.arccos(min(max(x, -1.0), 1.0))
def rotation_matrix(u, phi):
    c, s = np.cos(phi), np.sin(phi)
    x, y, z = u[0], u[1], u[2]
    return np.array([[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s],
                     [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s],
                     [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]])
def rotate_points(pts, R):
    return np.dot(pts, R.T)
def rotate_points_around_vector(pts, u, phi):
    c, s = np.cos(phi), np.sin(phi)
    x, y, z = u[0], u[1], u[2]
    if abs(phi) < GEOM_ATOL:
        return pts, np.eye(3)
    R = np.array([[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s],
                  [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s],
                  [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]])
    return np.dot(pts, R.T), R
def between(a, b, t):
    return a + t * (b - a)
def plane_at(p, n):
    return n[0], n[1], n[2], -np.dot(n, p)
def plane_of(pts):
    n = np.cross(pts[0] - pts[-1], pts[1] - pts[-1])
    if np.isclose(np.linalg.norm(n), 0):
        n = np.full(3, np.nan)
    else:
        n = n / np.linalg.norm(n)
    return n[0], n[1], n[2], -np.dot(n, pts[0])
def edge_distance(p, a, b):
    t = np.dot(p - a, b - a) / np.dot(b - a, b - a)
    if t < 0:
        return np.linalg.norm(p - a)
    if t > 1:
        return np.linalg.norm(p - b)
    return np.linalg.norm(p - a - t * (b - a))
def box(pts):
    return (np.array([np.min(pts[:, 0]), np.min(pts[:, 1]), np.min(pts[:, 2])]),
            np.array([np.max(pts[:, 0]), np.max(pts[:, 1]), np.max(pts[:, 2])]))
def centroid(pts, tri):
    total = np.zeros(3)
    area = 0.0
    for i in range(tri.shape[0]):
        a, b, c = pts[tri[i, 0]], pts[tri[i, 1]], pts[tri[i, 2]]
        w = 0.5 * np.linalg.norm(np.cross(b - a, c - a))
        total += w * (a + b + c) / 3
        area += w
    return total / area
def area(pts, n):
    num = pts.shape[0]
    if num < 3:
        return 0
    total = np.zeros(3)
    for i in range(num):
        total += np.cross(pts[i], pts[0] if i == num - 1 else pts[i + 1])
    return abs(np.dot(total, n)) / 2
def to_plane(pts, anchor, u, d):
    n = normal_of(pts[-1], pts[0], pts[1])
    axis = np.cross(n, u)
    if (np.abs(axis) < GEOM_ATOL).all():
        return pts + u * d, axis, 0.0
    k = axis / np.linalg.norm(axis)
    phi = angle_of(n, u)
    return np.dot(pts - anchor, matrix_of(k, phi).T) + anchor + u * d, k, phi
def polygon_distance(p, pts, tri, n):
    if over(p, pts, tri):
        return abs(np.dot(n, p - pts[0])) / np.linalg.norm(n)
    low = np.inf
    for e in edges_of(pts):
        x = to_edge(p, e[0], e[1])
        if x < low:
            low = x
    return low
def ortho(p, pts, tri):
    n = normal_of(pts[-1], pts[0], pts[1])
    return inside(p, pts + np.dot(n, p - pts[0]) * n, tri)
def along(p, v, pts, tri, fwd, atol):
    n = normal_of(pts[-1], pts[0], pts[1])
    x = np.dot(n, v)
    if abs(x) < atol:
        return inside(p, pts, tri, True, atol)
    s = np.dot(n, pts[0] - p) / x
    if fwd and s < 0:
        return False
    return inside(p + s * v, pts, tri, True, atol)
def many_between(a, b, num):
    out = np.zeros((num + 2, 3))
    out[0] = a
    for i in range(num):
        out[i + 1] = a + (i + 1) / (num + 1) * (b - a)
    out[num + 1] = b
    return out
'''

P, V, A2 = ("arr", 1), ("arr", 1), ("arr", 2)
# function, definition, kinds of its parameters
CASES = (
    ("triangles.triangle_area", "triangle_area", "pt pt pt"),
    ("triangles.triangle_centroid", "triangle_centroid", "pt pt pt"),
    ("tetrahedrons.tetrahedron_volume", "tetrahedron_volume", "pt pt pt pt"),
    ("tetrahedrons.tetrahedron_centroid", "tetrahedron_centroid", "pt pt pt pt"),
    ("vectors.normal", "normal", "pt pt pt"),
    ("vectors.angle", "angle", "vec vec"),
    ("rotation.rotation_matrix", "rotation_matrix", "unit num"),
    ("rotation.rotate_points", "rotate_points", "rows mat"),
    ("rotation.rotate_points_around_vector", "rotate_points_around_vector", "rows unit num"),
    ("points.new_point_between_2_points", "between", "pt pt num"),
    ("polygon.plane.projection_coefficients", "plane_at", "pt vec"),
    ("polygon.plane.plane_coefficients", "plane_of", "rows"),
    ("points.distance.distance_point_to_edge", "edge_distance", "pt pt pt"),
    ("bboxes.bounding_box", "box", "rows"),
    ("polygon.centroid.polygon_centroid", "centroid", "rows ints"),
    ("polygon.area.polygon_area", "area", "rows vec"),
    ("rotation.rotate_points_to_plane", "to_plane", "rows pt vec num"),
    ("polygon.distance.distance_point_to_polygon", "polygon_distance", "pt rows ints vec"),
    ("polygon.ispointinside.is_point_inside_ortho_projection", "ortho", "pt rows ints"),
    ("polygon.ispointinside.is_point_inside_projection", "along", "pt vec rows ints num num"),
)
ROWS = (("points.many_new_points_between_2_points", "many_between", "pt pt num"),)
# functions with a definition of their own that are not looked into where they are used
LEAVES = {
    "rotation.rotate_points_to_plane": {"vectors.normal": "vec", "vectors.angle": "num", "rotation.rotation_matrix": "mat"},
    "polygon.distance.distance_point_to_polygon": {"polygon.edges.polygon_edges": "op", "points.distance.distance_point_to_edge": "num", "polygon.ispointinside.is_point_inside_ortho_projection": "op"},
    "polygon.ispointinside.is_point_inside_ortho_projection": {"vectors.normal": "vec", "polygon.ispointinside.is_point_inside": "op"},
    "polygon.ispointinside.is_point_inside_projection": {"vectors.normal": "vec", "polygon.ispointinside.is_point_inside": "op"},
}
TYPES = {"pt": P, "vec": V, "unit": V, "rows": A2, "mat": A2, "ints": A2}


def check(prog, rep):
    spec = prog.spec(SPEC)
    eps = small(prog)
    for q, s, kinds in CASES:
        f, d = prog.func(G + q), spec[s]
        names = [a.arg for a in d.node.args.args]
        ks = dict(zip(names, kinds.split()))
        leaves = {prog.func(G + x): r for x, r in LEAVES.get(q, {}).items()}
        table = {x.qualname: ([a.arg for a in x.node.args.args], {}, r) for x, r in leaves.items()}
        compare(prog, rep, "definition", q, f, d, ks, {n: TYPES[k] for n, k in ks.items() if k in TYPES}, opaque=list(table), eps=eps, table=table)
    for q, s, kinds in ROWS:
        f, d = prog.func(G + q), spec[s]
        ks = dict(zip([a.arg for a in d.node.args.args], kinds.split()))
        compare_rows(prog, rep, "definition", q, f, d, ks, {n: TYPES[k] for n, k in ks.items() if k in TYPES}, eps=eps)


def small(prog):
    """The constant the library adds to avoid a division by or a root of a rounded zero."""
    m = prog.modules.get("building3d.config")
    v = m.const("EPSILON") if m is not None and hasattr(m, "const") else None
    return [v if isinstance(v, float) and 0 < v < 1e-9 else 1e-12]
