"""C04: dotbim files."""
from __future__ import annotations

from .. import canon
from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..jsonio import Store, mentions, options, polygon_keeps, roundtrip
from ..spec import polygon_hook
from ..terms import NONE, const, mk

EXPLANATION = (
    "Value-provenance dataflow over the dotbim writer and reader as one composition: the meshes, elements and file information handed to "
    "the dotbim library are followed into the reader, and the normal form of the rebuilt object tree (class, name, id, children in order, "
    "coordinates and triangles of every polygon, conditions under which a part exists) is compared with that of a structural copy of the input.")
MIN_OBLIGATIONS = 6
TECHNIQUE = "dataflow: writer/reader agreement by composing value provenance through the file and comparing normal forms of object trees"
NOTE = ("Covers every building, any number and naming of containers. The dotbim library is modelled as storing the fields it is given; "
        "numbers are assumed to survive JSON text.")

SPEC = '''
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone


def copy(b):
    building = Building(name=b.name, uid=b.uid)
    for z in b.zones.values():
        zone = Zone(name=z.name, uid=z.uid)
        for s in z.solids.values():
            solid = Solid(name=s.name, uid=s.uid)
            for w in s.walls.values():
                wall = Wall(name=w.name, uid=w.uid)
                for p in w.polygons.values():
                    wall.add_polygon(Polygon(p.pts, name=p.name, uid=p.uid, tri=p.tri))
                if len(w.polygons) > 0:
                    solid.add_wall(wall)
            if any(len(w.polygons) > 0 for w in s.walls.values()):
                zone.add_solid(solid)
        if any(any(len(w.polygons) > 0 for w in s.walls.values()) for s in z.solids.values()):
            building.add_zone(zone)
    return building
'''

FIELDS = {
    "Mesh": ("mesh_id", "coordinates", "indices"),
    "Element": ("mesh_id", "vector", "rotation", "guid", "type", "color", "info"),
    "File": ("schema_version", "meshes", "elements", "info"),
    "Color": ("r", "g", "b", "a"),
    "Vector": ("x", "y", "z"),
    "Rotation": ("qx", "qy", "qz", "qw"),
}


def hooks(S):
    out = {}

    def maker(names):
        def make(I, st, name, a):
            args, kw = a
            o = I.alloc(st, "dict")
            vals = dict(zip(names, args))
            vals.update(kw)
            for n in names:
                if n in vals:
                    I.add_entry(st, o, "set", const(n), vals[n])
            return o
        return make
    for c, names in FIELDS.items():
        out["dotbimpy." + c] = maker(names)

    def save(I, st, b, a):
        args, kw = a
        S.put(I, st, I.freeze(st, b), I.val(st, args[0] if args else kw["path"]), {})
        return NONE
    out[".save"] = save
    return out


def field(j, *keys):
    for k in keys:
        if j is None or j[0] != "J":
            return None
        j = next((p[1][1] for p in j[1] if p[0] == "tuple" and p[1][0] is const(k)), None)
    return j


def with_info(j, info):
    return mk("J", tuple(tm.tup([const("info"), info]) if p[0] == "tuple" and p[1][0] is const("info") else p for p in j[1]))


def check_foreign(prog, rep, r, written):
    """A file that does not carry the mark the writer stores must be refused."""
    info = field(written, "info")
    marks = [p for p in info[1] if p[0] == "tuple" and tm.is_const(p[1][1])] if info is not None and info[0] == "J" else []
    rep.ob("file-marked", "write_dotbim", bool(marks) or (None if info is None or vague(info) else False), r.where(),
           "the file information holds no constant mark of the tool")
    for m in marks:
        for how in ("missing", "different"):
            I = Interp(prog)
            I.hooks["Polygon"] = polygon_hook
            S = Store()
            I.hooks.update(S.hooks())
            tool = I.param("tool", ("str",))
            I.nonnull.add(tool)
            other = tuple(p for p in info[1] if p is not m)
            if how == "different":
                other += (tm.tup([m[1][0], tool]),)
            S.writes.append((with_info(written, mk("J", other)), None, None, None, None, None))
            st = I.start()
            path = I.param("path", ("str",))
            I.run(st, r, [path] + options(I, r, 1))
            rep.use(I)
            if how == "missing":
                late = [e for e in I.effects if e.kind == "missing" and e.args[1] is m[1][0]]
                ok = bool(st.dead) or bool(late)
            else:
                fact = tm.cmp("==", tool, m[1][1])
                ok = bool(st.dead) or fact in st.facts() or canon.equal(tm.conj(list(st.facts())), tm.conj(list(st.facts()) + [fact]))
                if not ok and any(vague(g) for g in st.facts() if mentions(g, tool)):
                    ok = None
            rep.ob("foreign-refused", f"{how} {tm.show(m[1][0])}", ok, r.where(), "a file without this tool's mark is accepted")


def check_library_call(rep, w, S):
    """Parts of the format that the reader of this library does not use but others do: elements point to their own mesh and id."""
    if len(S.writes) != 1:
        return
    j = S.writes[0][0]
    els, meshes = field(j, "elements"), field(j, "meshes")

    def inner(t):
        loops = []
        while t is not None and t[0] == "red" and t[1] in ("flat", "list"):
            loops.append(t[2])
            t = t[3]
        return loops, t
    (le, e), (lm, m) = inner(els), inner(meshes)
    wh = w.where()
    if e is None or m is None or e[0] != "J" or m[0] != "J":
        rep.ob("element-mesh", "write_dotbim", None, wh, "meshes or elements are not understood")
        return
    rep.ob("element-mesh", "write_dotbim", tuple(le) == tuple(lm) and field(e, "mesh_id") is field(m, "mesh_id"), wh,
           "an element does not refer to the mesh of its own polygon")
    rep.same("element-guid", "write_dotbim", field(e, "guid"), mk("attr", mk("bv", 0, "elem"), "uid"), wh)


def check(prog, rep):
    spec = prog.spec(SPEC)
    w = prog.func("building3d.io.dotbim.write_dotbim")
    r = prog.func("building3d.io.dotbim.read_dotbim")
    S = Store()
    roundtrip(prog, rep, w, r, spec["copy"], ("name", "uid"), hooks(S), S)
    if len(S.writes) == 1:
        check_foreign(prog, rep, r, S.writes[0][0])
    check_library_call(rep, w, S)
    polygon_keeps(prog, rep)
