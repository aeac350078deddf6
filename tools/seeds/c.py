HEAD = '''
import numpy as np
from building3d.geom.polygon import Polygon
from building3d.geom.wall import Wall
from building3d.geom.solid import Solid
from building3d.geom.zone import Zone
from building3d.geom.building import Building


def poly(*pts, name=None):
    return Polygon(np.array(pts, dtype=float), name=name)
'''
SEEDS = [
    ("c29-thin-margin", "C29", "a margin asked for near the last edges of a polygon",
     "a point nearer to an edge than the margin counts as inside",
     [("geom/polygon/ispointinside.py", "        for edge in polygon_edges(pts):\n            d = distance_point_to_edge", "        for edge in polygon_edges(pts)[:-1]:\n            d = distance_point_to_edge")],
     HEAD + '''
p = poly((0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0))
from building3d.geom.polygon.ispointinside import is_point_inside_margin
for x, y in ((0.1, 1), (1.9, 1), (1, 0.1), (1, 1.9)):
    assert not is_point_inside_margin(np.array([x, y, 0.0]), 0.5, p.pts, p.tri), (x, y)
'''),
    ("c29-behind", "C29", "a segment that ends before it reaches the polygon",
     "a segment whose extension meets the polygon counts as crossing it",
     [("geom/polygon/crossing.py", "    if t < 0 or t > 1:\n", "    if t < 0 or t > 1 + abs(d):\n")],
     HEAD + '''
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon as f
p = poly((0, 0, 3), (2, 0, 3), (2, 2, 3), (0, 2, 3))
assert not f(np.array([1., 1, 0]), np.array([1., 1, 1]), p.pts, p.tri)
'''),
    ("c16-no-target", "C16", "a ray far from all surfaces",
     "a ray with no surface nearby stays where it is for ever",
     [("sim/rays/simulation_loop.py", "                vn = np.zeros(3, dtype=FLOAT)\n                dist = np.inf\n\n            while", "                vn = np.zeros(3, dtype=FLOAT)\n                dist = grid_step\n\n            while")],
     HEAD + '''
from building3d.geom.solid.box import box
from building3d.io.arrayformat import to_array_format, get_polygon_points_and_faces
from building3d.sim.rays.voxel_grid import make_voxel_grid
from building3d.sim.rays.simulation_loop import simulation_loop
b = Building([Zone([box(4, 4, 4, name="s")], "z")], "b")
points, faces, polygons, walls, solids, zones = to_array_format(b)
pp = [get_polygon_points_and_faces(points, faces, polygons, n)[0] for n in range(len(walls))]
grid = make_voxel_grid(min_xyz=tuple(points.min(0)), max_xyz=tuple(points.max(0)), poly_pts=pp, step=0.1, verbose=False)
pos, vel = np.array([[2., 2, 2]]), np.array([[1., 0, 0]])
out = simulation_loop(0, 3, 1, 1.0, 0.25, 0.1, grid, pos, vel, np.ones(1), np.zeros(1), np.array([[9., 9, 9]]), 0.01,
                      points, faces, polygons, walls, {-1}, np.zeros(len(walls)), False)
assert abs(out[0][-1, 0, 0] - 2.75) < 1e-9, out[0][:, 0, 0]
'''),
]
