HEAD = '''
import os, sys, tempfile
import numpy as np
from building3d.geom.solid.box import box
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.polygon import Polygon
from building3d.geom.zone import Zone
from building3d.geom.building import Building
def rect(x0, y0, x1, y1, z=0.0, name=None):
    return Polygon(np.array([[x0, y0, z], [x1, y0, z], [x1, y1, z], [x0, y1, z]], dtype=float), name=name)
tmp = tempfile.mkdtemp()
'''
SEEDS = [
    ("c03-rounded", "C03", "coordinates with more than twelve decimals",
     "coordinates read back from a B3D file differ from the written ones",
     [("io/b3d.py", "] = p.pts.tolist()", "] = p.pts.round(12).tolist()")],
     HEAD + '''
from building3d.io.b3d import write_b3d, read_b3d
b = Building([Zone([box(1 / 3, 1 / 7, 1 / 11, name="s")], name="z")], name="b")
f = os.path.join(tmp, "a.b3d"); write_b3d(f, b); c = read_b3d(f)
for p in b.get_polygon_paths():
    assert np.array_equal(b.get(p).pts, c.get(p).pts), p
'''),
    ("c04-lower-case", "C04", "a wall name with capital letters",
     "walls read back from a dotbim file have another name",
     [("io/dotbim.py", "wkey = (wall_uid, wall_name)", "wkey = (wall_uid, wall_name.lower())")],
     HEAD + '''
from building3d.io.dotbim import write_dotbim, read_dotbim
b = Building([Zone([Solid([Wall([rect(0, 0, 1, 1, name="p")], name="North")], name="s")], name="z")], name="b")
f = os.path.join(tmp, "a.bim"); write_dotbim(f, b); c = read_dotbim(f)
assert list(c["z"]["s"].walls) == ["North"], list(c["z"]["s"].walls)
'''),
    ("c05-third-vertex", "C05", "a third vertex with many decimals",
     "the third vertex of facets is written with limited precision",
     [("io/stl.py", "vertex {v3x} {v3y} {v3z}", "vertex {v3x:.7g} {v3y:.7g} {v3z:.7g}")],
     HEAD + '''
from building3d.io.stl import write_stl
p = Polygon(np.array([[1 / 9, 1 / 11, 0], [1 + 1 / 13, 1 / 17, 0], [2 / 3, 3 / 7, 0.0]]), name="p")
b = Building([Zone([Solid([Wall([p], name="w")], name="s")], name="z")], name="b")
f = os.path.join(tmp, "a.stl"); write_stl(f, b)
v = {tuple(map(float, l.split()[1:])) for l in open(f) if l.strip().startswith("vertex")}
assert v == {tuple(x) for x in p.pts}, v
'''),
    ("c08-first-link", "C08", "a polygon that touches several others, requested together with another relation",
     "a pair linked through touching only is left out when overlapping is requested as well",
     [("geom/building/graph.py", "                if touching:\n", "                if touching and not (overlapping and g[pl1.path]):\n")],
     HEAD + '''
from building3d.geom.building.graph import graph_polygon
s = box(1, 1, 1, name="s")
b = Building([Zone([s], name="z")], name="b")
g = graph_polygon(b, facing=True, overlapping=True, touching=True)
for x in b.get_polygon_paths():
    for y in b.get_polygon_paths():
        if x != y and b.get(x).is_touching_polygon(b.get(y)):
            assert y in g[x] and x in g[y], (x, y)
'''),
    ("c09-zone-kept", "C09", "the zone graph is requested, a zone is added and it is requested again",
     "the zone graph of the model before the change is returned",
     [("geom/building/__init__.py", "self.graph_zone = graph_zone(", "self.graph_zone = self.graph_zone or graph_zone(")],
     HEAD + '''
b = Building([Zone([box(1, 1, 1, name="s")], name="y")], name="b")
b.get_graph(level="zone")
b.add_zone(Zone([box(1, 1, 1, (1, 0, 0), name="t")], name="z"))
assert b.get_graph(level="zone")["b/y"] == ["b/z"], b.get_graph(level="zone")
'''),
    ("c12-below-zero", "C12", "a surface that absorbs more than the ray has left",
     "negative energies are recorded",
     [("sim/rays/simulation_loop.py", "                if energy[rn] <= eps:\n                    energy[rn] = 0.0\n                    break\n", "                if energy[rn] <= eps:\n                    break\n")],
     HEAD + '''
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
c = SimulationConfig(b)
c.verbose = False
c.engine.update(time_step=1e-4, num_steps=60, batch_size=30, voxel_size=0.25, search_transparent=False)
c.rays.update(num_rays=3, source=(0.5, 0.5, 0.5), absorbers=[(0.0, 0.0, 0.0)], absorber_radius=0.01)
c.set_surface_param("absorption", "b", 0.7, b)
c.paths.update(project_dir=tmp, buffer_dir=os.path.join(tmp, "states"))
np.random.seed(1)
_, e, _ = Simulation(b, c).run()
assert (e >= 0).all(), e.min()
'''),
    ("c13-first-hits", "C13", "a run of several batches with hits at the end of a batch",
     "the hits recorded for the last step of a batch are overwritten with those of its first",
     [("sim/rays/simulation.py", "            hits = hit_buf[-1]\n", "            hits = hit_buf[0]\n")],
     HEAD + '''
from building3d.sim.rays import simulation as m
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
c = SimulationConfig(b)
c.verbose = False
c.engine.update(num_steps=4, batch_size=2, voxel_size=0.5, search_transparent=False)
c.rays.update(num_rays=2, source=(0.5, 0.5, 0.5), absorbers=[(0.5, 0.5, 0.5)], absorber_radius=0.2)
c.paths.update(project_dir=tmp, buffer_dir=os.path.join(tmp, "states"))
starts = []
def loop(**k):
    starts.append(np.array(k["hits"]).copy())
    n = k["num_steps"]
    return (np.zeros((n + 1, k["num_rays"], 3)), np.ones((n + 1, k["num_rays"])), np.arange(n + 1.0).reshape((-1, 1)) + 10 * len(starts))
m.simulation_loop = loop
m.Simulation(b, c).run()
assert starts[1][0] == 12.0, starts
'''),
    ("c14-source-digits", "C14", "a source given with more than three decimals",
     "rays do not start at the configured source",
     [("sim/rays/simulation.py", "np.array(sim_cfg.rays[\"source\"], dtype=FLOAT)", "np.array(sim_cfg.rays[\"source\"], dtype=FLOAT).round(3)")],
     HEAD + '''
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig
b = Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b")
c = SimulationConfig(b)
c.verbose = False
c.rays.update(source=(0.12345, 0.5, 0.5))
c.paths.update(project_dir=tmp, buffer_dir=os.path.join(tmp, "states"))
assert Simulation(b, c).source[0] == 0.12345
'''),
    ("c16-close-surfaces", "C16", "two surfaces less than a millimetre apart, the farther one looked at first",
     "the farther of two close surfaces becomes the target",
     [("sim/rays/find_target.py", "if dist < target_candidates[min_dist_index]:", "if dist + 1e-3 < target_candidates[min_dist_index]:")],
     HEAD + '''
from building3d.sim.rays.find_target import find_target_surface
near, far = rect(-1, -1, 1, 1, z=1.0), rect(-1, -1, 1, 1, z=1.0005)
r = find_target_surface(np.zeros(3), np.array([0.0, 0.0, 1.0]), [far.pts, near.pts], [far.tri, near.tri], set([-1]), set([0, 1]))
assert r == 1, r
'''),
    ("c27-past-the-end", "C27", "a point beyond the end of an edge",
     "the distance to an edge is too large for points beyond its second end",
     [("geom/points/distance.py", "        return np.linalg.norm(pt2 - ptest)\n", "        return np.linalg.norm(pt2 - ptest) if t < 6 else np.linalg.norm(pt1 - ptest)\n")],
     HEAD + '''
from building3d.geom.points.distance import distance_point_to_edge
d = distance_point_to_edge(np.array([8.0, 0.0, 0.0]), np.array([0.0, 0.0, 0.0]), np.array([1.0, 0.0, 0.0]))
assert abs(d - 7.0) < 1e-9, d
'''),
    ("c17-angle-in-place", "C17", "vectors that do not have unit length",
     "asking for the angle between two vectors changes the first",
     [("geom/vectors.py", "    dot_v1_v2 = np.dot(v1 / np.linalg.norm(v1), v2 / np.linalg.norm(v2))\n", "    v1 /= np.linalg.norm(v1)\n    dot_v1_v2 = np.dot(v1, v2 / np.linalg.norm(v2))\n")],
     HEAD + '''
from building3d.geom.vectors import angle
v = np.array([2.0, 0.0, 0.0])
angle(v, np.array([0.0, 1.0, 0.0]))
assert v[0] == 2.0, v
'''),
    ("c24-orientation", "C24", "a sliced polygon whose second part comes out turned over",
     "a part of a sliced polygon has the opposite orientation",
     [("geom/solid/stitch.py", "    if not np.allclose(b.vn, p.vn):\n", "    if not np.allclose(a.vn, p.vn):\n")],
     HEAD + '''
from building3d.geom.solid import stitch as m
p = rect(0, 0, 2, 2, name="p")
s = Solid([Wall([p], name="w")], name="s")
def cut(q, pts, pt2=None, name1=None, name2=None):
    return rect(0, 0, 1, 2, name=name1), rect(1, 0, 2, 2, name=name2).flip(name2)
m.slice_polygon = cut
m.slice_one_and_replace(s, p, np.array([[1.0, 0.0, 0.0], [1.0, 2.0, 0.0]]))
for q in s["w"].polygons.values():
    assert np.allclose(q.vn, p.vn), q.name
'''),
    ("c28-one-axis", "C28", "a translation along one axis only",
     "the floor plan is not moved",
     [("geom/solid/floor_plan.py", "    if not np.allclose(translate, (0, 0, 0)):", "    if np.all(translate):")],
     HEAD + '''
from building3d.geom.solid.floor_plan import floor_plan
s = floor_plan([(0, 0), (1, 0), (1, 1), (0, 1)], height=2, translate=(5.0, 0.0, 0.0))
assert min(p.pts[:, 0].min() for w in s.walls.values() for p in w.polygons.values()) == 5.0
'''),
]
