"""C02: paths, lookups and path listings."""
from __future__ import annotations

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..loader import AnalysisError
from ..terms import NONE, const, mk

EXPLANATION = (
    "Dataflow over the path properties, the lookup methods and the path listings of all five levels, on an arbitrary chain "
    "building/zone/solid/wall/polygon with arbitrary names. Rules: the path is the joined chain of names; looking it up from each of "
    "the five objects of the chain yields the very object (25 combinations); a path of 1..8 arbitrary parts is resolved only by "
    "subscripting the children with its own parts after the first part was compared with the building's name, and 7 or more "
    "parts always raise; listings equal the specification's nested loops over all children in order.")
MIN_OBLIGATIONS = 45
SPEC = '''
def s_building(o):
    out = []
    for z in o.zones.values():
        for s in z.solids.values():
            for w in s.walls.values():
                for p in w.polygons.values():
                    out.append(p.path)
    return out
def s_zone(o):
    out = []
    for s in o.solids.values():
        for w in s.walls.values():
            for p in w.polygons.values():
                out.append(p.path)
    return out
def s_solid(o):
    out = []
    for w in o.walls.values():
        for p in w.polygons.values():
            out.append(p.path)
    return out
def s_wall(o):
    out = []
    for p in o.polygons.values():
        out.append(p.path)
    return out
'''
CLS = ("Building", "Zone", "Solid", "Wall", "Polygon")


def chain(prog):
    I = Interp(prog)
    st = I.start()
    b = I.obj_param("building", prog.cls("building3d.geom.building.Building"))
    objs, names = [b], [mk("attr", b, "name")]
    I.sepfree.add(names[0])
    for n, c in (("zone_name", "Building"), ("solid_name", "Zone"), ("wall_name", "Solid"), ("poly_name", "Wall")):
        p = I.param(n, ("str",))
        I.nonnull.add(p)
        I.sepfree.add(p)
        o = mk("item", mk("attr", objs[-1], I.child_attr[c]), p)
        I.nonnull.add(o)
        objs.append(o)
        names.append(p)
    return I, st, objs, names


def check_paths(prog, rep):
    for k in range(5):
        I, st, objs, names = chain(prog)
        exp = names[0]
        for n in names[1:k + 1]:
            exp = tm.cat([exp, const("/"), n])
        got = I.val(st, I.read_attr(st, objs[k], "path"))
        w = prog.cls(f"building3d.geom.{CLS[k].lower()}.{CLS[k]}").module.relpath
        rep.same("path", CLS[k], got, exp, w)
        rep.ob("path-always", CLS[k], not [g for g, kd in st.guards] and not st.dead, w, "the path is refused for some objects")
        rep.use(I)
        if k:
            # outside any container its own name is the path
            I = Interp(prog)
            st = I.start()
            o = I.obj_param("self", prog.cls(f"building3d.geom.{CLS[k].lower()}.{CLS[k]}"))
            I.nonnull.add(o)
            got = tm.subst(I.val(st, I.read_attr(st, o, "path")), {I.val(st, I.read_attr(st, o, "parent")): NONE})
            rep.same("path-alone", CLS[k], got, I.val(st, I.read_attr(st, o, "name")), w)
            rep.use(I)
        for j in range(5):
            I, st, objs, names = chain(prog)
            m = I.read_attr(st, objs[j], "get")
            if m[0] != "bound":
                raise AnalysisError(f"anchor not found: {CLS[j]}.get")
            r = I.apply(st, m, [exp], {})
            rep.use(I)
            inst = f"{CLS[k]} from {CLS[j]}"
            wj = prog.cls(f"building3d.geom.{CLS[j].lower()}.{CLS[j]}").module.relpath
            if st.dead:
                rep.ob("lookup", inst, False, wj, "looking up its own path always raises")
                continue
            rep.same("lookup", inst, r, objs[k], wj)
            rep.ob("lookup-always", inst, None if any(vague(g) for g, _ in st.guards) else not st.guards, wj,
                   f"only when {[tm.show(g) for g, _ in st.guards]}")


def check_refusals(prog, rep):
    for n in range(1, 9):
        I, st, objs, names = chain(prog)
        parts = []
        for i in range(n):
            p = I.param(f"part{i}", ("str",))
            I.nonnull.add(p)
            I.sepfree.add(p)
            parts.append(p)
        path = parts[0]
        for p in parts[1:]:
            path = tm.cat([path, const("/"), p])
        m = I.read_attr(st, objs[0], "get")
        r = I.apply(st, m, [path], {})
        rep.use(I)
        w = I.prog.cls("building3d.geom.building.Building").module.relpath
        inst = f"{n} parts"
        if n >= 7:
            rep.ob("too-many-parts", inst, True if st.dead else (None if vague(r) else False), w, f"returns {tm.show(r)}")
            continue
        if n == 6:
            continue        # a point of a polygon
        if st.dead:
            rep.ob("resolve", inst, False, w, "always raises")
            continue
        exp = objs[0]
        for i, c in zip(range(1, n), CLS):
            exp = mk("item", mk("attr", exp, I.child_attr[c]), parts[i])
        rep.same("resolve", inst, r, exp, w)
        same = tm.cmp("==", mk("attr", objs[0], "name"), parts[0])
        facts = [g for g, k in st.guards if k == "check"]
        rep.ob("building-name-checked", inst, same in facts, w, "the first part is not compared with the building's name")
        extra = [g for g, _ in st.guards if g is not same]
        ok = True
        for g in extra:
            # presence tests of the parts are implied by the lookups themselves
            if g[0] == "cmp" and g[1] == "in" and g[2] in parts:
                continue
            ok = None if vague(g) else False
        rep.ob("resolve-always", inst, ok, w, f"only when {[tm.show(g) for g in extra]}")
    for k in range(4):
        # children are looked up by subscripting, an unknown name raises
        I, st, objs, names = chain(prog)
        p = I.param("key", ("str",))
        I.nonnull.add(p)
        r = I.read_item(st, objs[k], p)
        exp = mk("item", mk("attr", objs[k], I.child_attr[CLS[k]]), p)
        rep.same("getitem", CLS[k], r, exp, prog.cls(f"building3d.geom.{CLS[k].lower()}.{CLS[k]}").module.relpath)


def check_lists(prog, rep):
    spec = prog.spec(SPEC)
    for k, c in enumerate(CLS[:4]):
        I, st, objs, names = chain(prog)
        m = I.read_attr(st, objs[k], "get_polygon_paths")
        if m[0] != "bound":
            raise AnalysisError(f"anchor not found: {c}.get_polygon_paths")
        r = I.val(st, I.apply(st, m, [], {}))
        J, sj, oj, _ = chain(prog)
        e = J.val(sj, J.run(sj, spec["s_" + c.lower()], [oj[k]]))
        w = I.prog.cls(f"building3d.geom.{c.lower()}.{c}").module.relpath
        rep.use(I)
        rep.same("path-list", c, r, e, w)
        br = [g for g, _ in st.guards]
        rep.ob("path-list-always", c, not br, w, f"only when {[tm.show(g) for g in br]}")


def check(prog, rep):
    check_paths(prog, rep)
    check_refusals(prog, rep)
    check_lists(prog, rep)
