"""C03: B3D files."""
from __future__ import annotations

from ..jsonio import polygon_keeps, roundtrip

EXPLANATION = (
    "Value-provenance dataflow over the B3D writer and reader as one composition: the nested value handed to the JSON encoder is "
    "followed into the reader, and the normal form of the rebuilt object tree (class, name, children in order, coordinates, triangles "
    "and id of every polygon, conditions under which a part exists) is compared with the normal form of a structural copy of the input.")
MIN_OBLIGATIONS = 6
TECHNIQUE = "dataflow: writer/reader agreement by composing value provenance through the file and comparing normal forms of object trees"
NOTE = ("Covers every building, any number and naming of containers, including empty ones; floats are assumed to survive JSON text "
        "(Python's repr round-trips). Storage failures and files edited by hand are not covered.")

SPEC = '''
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone


def copy(b):
    zones = []
    for z in b.zones.values():
        solids = []
        for s in z.solids.values():
            walls = []
            for w in s.walls.values():
                polygons = []
                for p in w.polygons.values():
                    polygons.append(Polygon(p.pts, name=p.name, uid=p.uid, tri=p.tri))
                walls.append(Wall(polygons, name=w.name))
            solids.append(Solid(walls, name=s.name))
        zones.append(Zone(solids, name=z.name))
    return Building(zones, name=b.name)
'''


def check(prog, rep):
    spec = prog.spec(SPEC)
    w = prog.func("building3d.io.b3d.write_b3d")
    r = prog.func("building3d.io.b3d.read_b3d")
    roundtrip(prog, rep, w, r, spec["copy"], ("name",))
    polygon_keeps(prog, rep)
    rep.assumptions.append("JSON text keeps strings, dictionary order and floating-point numbers")
