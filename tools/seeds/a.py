HEAD = '''
import numpy as np
from building3d.geom.solid.box import box
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.polygon import Polygon
from building3d.geom.zone import Zone
from building3d.geom.building import Building
from building3d.geom.exceptions import GeometryError
def rect(x0, y0, x1, y1, z=0.0, name=None):
    return Polygon(np.array([[x0, y0, z], [x1, y0, z], [x1, y1, z], [x0, y1, z]], dtype=float), name=name)
'''
SEEDS = [
    ("c01-parent-kept", "C01", "a polygon that already belongs to a wall is added to another wall",
     "a child's parent is no longer the container that lists it",
     [("geom/wall/__init__.py", "        poly.parent = self\n        self.polygons[poly.name] = poly\n\n    def replace",
       "        if poly.parent is None:\n            poly.parent = self\n        self.polygons[poly.name] = poly\n\n    def replace")],
     HEAD + '''
p = rect(0, 0, 1, 1, name="p")
a = Wall([p], name="a")
b = Wall([p], name="b")
assert b["p"].parent is b, b["p"].parent
'''),
    ("c01-zone-strip", "C01", "a solid whose name has trailing blanks",
     "a solid is listed under a key that is not its name",
     [("geom/zone/__init__.py", "self.solids[sld.name] = sld", "self.solids[sld.name.rstrip()] = sld")],
     HEAD + '''
z = Zone([box(1, 1, 1, name="room ")], name="z")
assert list(z.solids) == [s.name for s in z.solids.values()], z.solids
'''),
    ("c02-wall-index", "C02", "a wall with the same name as another wall's polygon",
     "the path of a polygon finds a different object when a wall key is missing",
     [("geom/building/__init__.py", "            polygon = obj[4]\n            return self[zone][solid][wall][polygon]\n",
       "            polygon = obj[4]\n            walls = self[zone][solid].walls\n            return walls.get(wall, next(iter(walls.values())))[polygon]\n")],
     HEAD + '''
s = Solid([Wall([rect(0, 0, 1, 1, name="p")], name="w")], name="s")
b = Building([Zone([s], name="z")], name="b")
try:
    b.get("b/z/s/nosuchwall/p")
except KeyError:
    pass
else:
    raise SystemExit("unknown path answered")
'''),
    ("c06-max-zone", "C06", "a building with two zones where the first holds more than one solid",
     "the array format assigns solids to the wrong zone",
     [("io/arrayformat.py", "            zones[sn] = zn\n", "            zones[sn] = min(sn, len(bdg.zones) - 1)\n")],
     HEAD + '''
from building3d.io.arrayformat import to_array_format
b = Building([Zone([box(1, 1, 1), box(1, 1, 1, (2, 0, 0))]), Zone([box(1, 1, 1, (4, 0, 0))])])
assert list(to_array_format(b)[5]) == [0, 0, 1], to_array_format(b)[5]
'''),
    ("c07-dedupe", "C07", "two solids of one zone that occupy the same place",
     "the mesh of a zone misses coinciding solids",
     [("geom/zone/get_mesh.py", "    object_meshes = tuple(s.get_mesh() for s in solids)\n",
       "    object_meshes = tuple({s.get_mesh()[0].tobytes(): s.get_mesh() for s in solids}.values())\n")],
     HEAD + '''
z = Zone([box(1, 1, 1, name="a"), box(1, 1, 1, name="b")])
n = sum(s.get_mesh()[0].shape[0] for s in z.solids.values())
assert z.get_mesh()[0].shape[0] == n
'''),
    ("c20-boundary-wall", "C20", "a wall with several polygons where the point lies on a later one",
     "a point on the boundary of a solid is not found",
     [("geom/solid/__init__.py", "        all_polys = [p for w in self.children.values() for p in w.children.values()]\n        for poly in all_polys:\n            if poly.is_point_inside(pt):\n",
       "        all_polys = [next(iter(w.children.values())) for w in self.children.values()]\n        for poly in all_polys:\n            if poly.is_point_inside(pt):\n")],
     HEAD + '''
w = Wall([rect(0, 0, 1, 1, name="p"), rect(1, 0, 2, 1, name="q")], name="w")
s = Solid([w], name="s")
assert s.is_point_at_boundary(np.array([1.5, 0.5, 0.0]))
'''),
    ("c26-parent-removed", "C01", "a wall is replaced by one that still belongs to another solid",
     "a wall's parent is not the solid that lists it after adding it to a second solid",
     [("geom/solid/__init__.py", "        wall.parent = self\n        self.walls[wall.name] = wall\n\n    def replace_wall",
       "        self.walls[wall.name] = wall\n        if not isinstance(wall.parent, Solid):\n            wall.parent = self\n\n    def replace_wall")],
     HEAD + '''
w = Wall([rect(0, 0, 1, 1, name="p")], name="w")
Solid([w], name="a")
s = Solid([w], name="b")
assert s["w"].parent is s
'''),
]
