HEAD = '''
import numpy as np
from building3d.geom.polygon import Polygon
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.geom.building import Building


def poly(*pts, name=None):
    return Polygon(np.array(pts, dtype=float), name=name)


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
'''
SEEDS = [
    ("c21-cut-plane", "C21", "a cut that leaves the plane of the polygon beyond its outline",
     "a polygon is sliced although the cut does not lie in its plane",
     [("geom/polygon/slice/__init__.py", "        np.vstack((poly.pts, slicing_pts))\n", "        slicing_pts\n")],
     HEAD + '''
from building3d.geom.polygon.slice import slice_polygon
p = poly((0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0))
assert refused(slice_polygon, p, np.array([[1.0, 0, 0], [1.0, 2, 0], [1.0, 3, 1]]))
'''),
    ("c21-quiet-surface", "C21", "an absorption value set for a surface whose zone does not exist",
     "a setting for an unknown surface is dropped without an error",
     [("sim/rays/simulation_config.py", "            logger.error(str(e))\n            raise e\n", "            logger.error(str(e))\n            if isinstance(e, ValueError):\n                raise e\n            return\n")],
     HEAD + '''
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1, 1, 1, name="s")], "z")], "b")
c = SimulationConfig(b)
c.set_surface_param("absorption", "b/z/s", 0.5, b)
assert refused(c.set_surface_param, "absorption", "b/other/s", 0.5, b)
'''),
    ("c15-upper-cell", "C15", "a ray that approaches a surface from the cell below it",
     "surfaces in the upper neighbour cells are not searched",
     [("sim/rays/find_nearby_polygons.py", "            for k in range(-1, 2, 1):", "            for k in range(-1, 1, 1):")],
     HEAD + '''
from building3d.sim.rays.find_nearby_polygons import find_nearby_polygons
try:
    from numba.typed import Dict
except ImportError:
    Dict = None
from building3d.sim.rays.voxel_grid import make_voxel_grid
p = np.array([[0.0, 0, 2.5], [1.0, 0, 2.5], [1.0, 1, 2.5], [0.0, 1, 2.5]])
q = np.array([[0.0, 0, 0], [1.0, 0, 0], [1.0, 1, 0], [0.0, 1, 0]])
g = make_voxel_grid(min_xyz=(0.0, 0.0, 0.0), max_xyz=(1.0, 1.0, 2.5), poly_pts=[q, p], step=1.0, verbose=False)
assert 1 in find_nearby_polygons(0, 0, 1, g)
'''),
    ("c18-plane-before", "C18", "a polygon whose points are turned round while it is made",
     "the plane of a polygon looks away from its normal",
     [("geom/polygon/__init__.py", "plane_coefficients(\n            self.pts\n        )", "plane_coefficients(pts)")],
     HEAD + '''
pts = np.array([[0.0, 0, 1], [2, 0, 1], [2, 2, 1], [0, 2, 1]])
for vn in ((0.0, 0, 1), (0.0, 0, -1)):
    p = Polygon(pts.copy(), vn=np.array(vn))
    c = np.array(p.plane_coefficients[:3])
    assert np.allclose(c / np.linalg.norm(c), p.vn), (c, p.vn)
'''),
    ("c35-busiest-step", "C35", "a recording whose busiest step differs from its busiest absorber",
     "the impulse responses are scaled by the busiest step, so the largest total is not one",
     [("sim/rays/impulse_response.py", "hit_inst.sum(axis=0).max()", "hit_inst.sum(axis=1).max()")],
     HEAD + '''
from building3d.sim.rays.impulse_response import impulse_response
class Cfg:
    engine = {"time_step": 0.5}
hits = np.array([[1.0, 2.0], [3.0, 2.0], [0.0, 4.0]])
ir = impulse_response(hits, Cfg())
assert np.allclose(ir[1].sum(), 1.0) and np.allclose(ir[0].sum(), 0.5), ir
'''),
    ("c35-last-receiver", "C35", "more than one absorber, with hits at the last one",
     "the last absorber has no impulse response of its own",
     [("sim/rays/impulse_response.py", "        ir[an] = hit_inst[:, an]", "        ir[an] = hit_inst[:, min(an, num_absorbers - 2)]")],
     HEAD + '''
from building3d.sim.rays.impulse_response import impulse_response
class Cfg:
    engine = {"time_step": 0.5}
hits = np.array([[1.0, 2.0], [3.0, 2.0], [0.0, 4.0]])
ir = impulse_response(hits, Cfg())
assert np.allclose(ir[1].to_numpy(), hits[:, 1] / 8), ir
'''),
    ("c36-second-only", "C36", "only the second point given, lying in the part cut off first",
     "the part with the second point gets the first name",
     [("geom/polygon/slice/__init__.py", '''        if poly1.is_point_inside(pt2):
            poly1.name = name2
            poly2.name = name1
''', '''        if poly1.is_point_inside(pt2):
            poly1.name = name1
            poly2.name = name2
''')],
     HEAD + '''
from building3d.geom.polygon.slice import slice_polygon
p = Polygon(np.array([[0.0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]]))
cut = np.array([[1.0, 0, 0], [1, 2, 0]])
for x in (0.5, 1.5):
    pt = np.array([x, 1.0, 0])
    a, b = slice_polygon(p, cut, name1="one", pt2=pt, name2="two")
    assert a.name == "one" and b.name == "two" and b.is_point_inside(pt) and not a.is_point_inside(pt)
'''),
    ("c36-edge-point", "C36", "a naming point that lies on the edge of a part",
     "a first point on the edge of the part is refused",
     [("geom/polygon/slice/__init__.py", '''        if poly1.is_point_inside(pt1):
            poly1.name = name1
            poly2.name = name2
        elif poly2.is_point_inside(pt1):
''', '''        if poly1.is_point_inside(pt1, boundary_in=False):
            poly1.name = name1
            poly2.name = name2
        elif poly2.is_point_inside(pt1, boundary_in=False):
''')],
     HEAD + '''
from building3d.geom.polygon.slice import slice_polygon
p = Polygon(np.array([[0.0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]]))
cut = np.array([[1.0, 0, 0], [1, 2, 0]])
for x in (0.0, 2.0):
    pt = np.array([x, 1.0, 0])
    a, b = slice_polygon(p, cut, pt1=pt, name1="one", name2="two")
    assert a.name == "one" and b.name == "two" and a.is_point_inside(pt)
'''),
    ("c25-long-number", "C25", "a saved step number of more than three digits",
     "files with a long number are not found",
     [("paths/wildcardpath.py", 'f"(?P{start}{gr}{stop}\\\\d+)"', 'f"(?P{start}{gr}{stop}\\\\d{{1,3}})"')],
     HEAD + '''
import os
import tempfile
from building3d.paths.wildcardpath import WildcardPath
w = WildcardPath("sub_<job>/file_<step>.csv")
with tempfile.TemporaryDirectory() as d:
    for n in (7, 999, 1000, 123456):
        p = w.fill(d, job=n, step=n)
        os.makedirs(os.path.dirname(p))
        open(p, "w").close()
        assert w.get_matching_paths_dict_values(d)[p] == {"job": n, "step": n}, n
'''),
    ("c25-disagree", "C25", "a name in which one placeholder stands for two different numbers",
     "a name the pattern cannot generate is matched",
     [("paths/wildcardpath.py", '''                    if wname not in paths[f]:
                        paths[f][wname] = int(val)
                    else:
                        assert (
                            int(val) == paths[f][wname]
                        ), f"Multiple values for one wildcard in a path are not allowed: {f}"
''', '''                    paths[f][wname] = int(val)
''')],
     HEAD + '''
import os
import tempfile
from building3d.paths.wildcardpath import WildcardPath
w = WildcardPath("a_<n>/b_<n>")
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "a_1", "b_1"))
    assert list(w.get_matching_paths_dict_values(d).values()) == [{"n": 1}]
    os.makedirs(os.path.join(d, "a_1", "b_2"))
    bad = os.path.join(d, "a_1", "b_2")
    assert refused(w.get_matching_paths_dict_values, d) or bad not in w.get_matching_paths_dict_values(d)
'''),
    ("c37-third-ray", "C37", "a plot of three or more rays",
     "lines of later rays are drawn through the positions of the second ray",
     [("sim/rays/ray_buff_plotter.py", "            curr_index += line_len\n", "            curr_index = line_len\n")],
     HEAD + '''
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter
rng = np.random.default_rng(1)
for rays in (1, 2, 3, 5):
    pos = rng.random((4, rays, 3))
    v, ls = RayBuffPlotter(None, pos, np.ones((4, rays))).get_lines()
    assert len(ls) == rays
    for r in range(rays):
        assert np.allclose(v[list(ls[r])], pos[:, r, :])
'''),
    ("c37-old-energy", "C37", "a movie with trails longer than one step, of rays whose energy changes",
     "rays are coloured with the energy they had at the start of the trail",
     [("sim/rays/movie_from_buffer.py", '''            point_mesh.points = position[-1, :, :]
            point_mesh["energy"] = energy[-1, :]
''', '''            point_mesh.points = position[-1, :, :]
            point_mesh["energy"] = energy[0, :]
''')],
     HEAD + '''
import tempfile
from types import SimpleNamespace
import building3d.sim.rays.movie_from_buffer as m


class Mesh(dict):
    def __init__(self, points=None, lines=None, faces=None):
        self.points, self.lines, self.faces = points, lines, faces

    def set_active_scalars(self, name):
        pass


class Plotter:
    def __init__(self, **kw):
        self.meshes, frames[:] = [], []

    def add_mesh(self, mesh, **kw):
        self.meshes.append(mesh)

    def write_frame(self):
        frames.append([(np.array(x.points), np.array(x["energy"])) for x in self.meshes if x.faces is None and x.lines is None])

    def open_gif(self, *a, **k):
        pass

    def close(self):
        pass


frames = []
m.pv = SimpleNamespace(Plotter=Plotter, PolyData=Mesh)
rng = np.random.default_rng(1)
pos, enr = rng.random((8, 5, 3)), rng.random((8, 5))
b = SimpleNamespace(get_mesh=lambda: (np.zeros((3, 3)), np.array([[0, 1, 2]])))
for length in (1, 3):
    vis = dict(ray_opacity=1, ray_trail_opacity=1, ray_trail_length=length, ray_point_size=1, building_opacity=1,
               building_color="w", movie_fps=1, movie_colormap="x")
    with tempfile.TemporaryDirectory() as d:
        m.make_movie_from_buffer(d + "/x.gif", b, pos, enr, SimpleNamespace(visualization=vis), verbose=False)
    assert len(frames) >= 6
    for shown in frames:
        for p, e in shown:
            k = [i for i in range(8) if np.array_equal(p, pos[i])]
            assert len(k) == 1 and np.array_equal(e, enr[k[0]]), length
'''),
]
