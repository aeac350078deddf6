"""C06: array format."""
from __future__ import annotations

from .. import core
from .. import terms as tm
from ..interp import Interp
from ..loader import AnalysisError
from ..rows import rows
from ..spec import branches, polygon_hook, tree
from ..terms import const, mk

EXPLANATION = (
    "Value-provenance dataflow over the conversions to and from arrays. The normal form of every returned array (which value is "
    "stored at which row, over which nest of containers), of every number recorded on an object, and of the rebuilt object tree is "
    "compared with the normal form of a specification analysed the same way.")
MIN_OBLIGATIONS = 18

SPEC = '''
import numpy as np

def to_arrays(bdg):
    points = []
    faces = []
    polygons = []
    walls = []
    solids = []
    zones = []
    np_ = 0
    nw = 0
    ns = 0
    nz = 0
    off = 0
    for z in bdg.zones.values():
        z.num = nz
        for s in z.solids.values():
            s.num = ns
            zones.append(nz)
            for w in s.walls.values():
                w.num = nw
                solids.append(ns)
                for p in w.polygons.values():
                    p.num = np_
                    walls.append(nw)
                    for x in p.pts:
                        points.append(x)
                    for t in p.tri:
                        faces.append(t + off)
                        polygons.append(np_)
                    off += len(p.pts)
                    np_ += 1
                nw += 1
            ns += 1
        nz += 1
    return points, faces, polygons, walls, solids, zones


def one_polygon(points, faces, polygons, poly_num):
    mine = []
    for k, pl in enumerate(polygons):
        if pl == poly_num:
            mine.append(k)
    used = set()
    for k, f in enumerate(faces):
        if k in mine:
            used.add(int(f[0]))
            used.add(int(f[1]))
            used.add(int(f[2]))
    order = sorted(list(used))
    new = {}
    n = 0
    for q in order:
        new[q] = n
        n += 1
    pts = np.zeros((len(order), 3))
    for i in range(len(order)):
        pts[i] = points[order[i]]
    tri = np.zeros((len(mine), 3))
    for i in range(len(mine)):
        for j in range(3):
            tri[i, j] = new[faces[mine[i], j]]
    return pts, tri
'''

ARRAYS = ("points", "faces", "polygons", "walls", "solids", "zones")


def arrays(prog, rep, f):
    I = Interp(prog)
    st, v = I.run_sym(f, bdg=I.obj_param("bdg", I.class_named("Building"))) if "bdg" in _params(f) else I.run_sym(f)
    return I, st, v


def _params(f):
    return [a.arg for a in f.node.args.args]


def list_entries(I, st, o):
    """Positions and values of an appended list."""
    ents, ren = I.entries(st, o)
    out = set()
    for e in ents:
        body = tm.tup([e.pos, I.val(st, e.val)])
        for l, _ in reversed(e.loops):
            body = mk("red", "list", l[1], tm.abstract(body, l))
        out.add(body)
    return I.length(st, o), frozenset(out)


def check_to(prog, rep, spec):
    f = prog.func("building3d.io.arrayformat.to_array_format")
    cls = prog.cls("building3d.geom.building.Building")

    def go(fn):
        I = Interp(prog)
        st = I.start()
        b = I.obj_param("bdg", cls)
        return I, st, I.run(st, fn, [b])
    I, st, v = go(f)
    S, ss, sv = go(spec["to_arrays"])
    rep.use(I)
    w = f.where()
    if v[0] != "tuple" or len(v[1]) != 6:
        rep.ob("encode", "result", core.differs(v, sv), w, f"does not return the six arrays: {tm.show(v)}")
        return
    for i, name in enumerate(ARRAYS):
        exp_n, exp = list_entries(S, ss, sv[1][i])
        got = rows(I, st, v[1][i])
        inst = f"to_array_format:{name}"
        if got is None:
            rep.ob("encode", inst, None, w, f"construction not understood: {tm.show(I.val(st, v[1][i]))}")
            continue
        rep.same("encode-size", inst, got[0], exp_n, w)
        compare_rows(rep, "encode", inst, got[1], exp, w)
        dtype(rep, I, v[1][i], inst, name == "points", w)
    # numbers recorded on the objects
    for loc, val in sorted(ss.mem.items(), key=lambda kv: tm.show(kv[0])):
        if loc[0] == "attr" and loc[2] == "num":
            inst = f"number of {I.type_of(loc[1])[1].name}" if I.type_of(loc[1]) else tm.show(loc)
            got = st.mem.get(loc)
            if got is None:
                rep.ob("number", inst, False, w, "the number used in the arrays is not recorded on the object")
            else:
                rep.same("number", inst, got, val, w)
    for e in I.effects:
        if e.kind == "raise":
            rep.ob("encode-total", f"raise:{e.args[0]}", False, e.where, f"refuses a valid building when {tm.show(e.cond())}")
    br = branches(st)
    rep.ob("encode-total", "to_array_format", not br, w, f"result only under {[tm.show(g) for g in br]}")


def compare_rows(rep, rule, inst, got, exp, w):
    if got == exp:
        rep.ob(rule, inst, True, w)
        return
    bad = [t for t in got if t not in exp]
    miss = [t for t in exp if t not in got]
    d = f"stores {[tm.show(t) for t in bad]}; required {[tm.show(t) for t in miss]}"
    verdict = False
    for t in bad:
        if any(core.differs(t, m) is None for m in miss) or (not miss and core.vague(t)):
            verdict = None
    if verdict is None:
        # the outermost collection alone may already be wrong
        for t in bad:
            if t[0] == "red" and t[2][0] != "while" and not core.vague(t[2]) and all(t[2] is not m[2] for m in miss if m[0] == "red"):
                if not core.fun_names(t[2]) and t[2][0] in ("attr", "slice", "rev"):
                    verdict = False
    rep.ob(rule, inst, verdict, w, d)


def dtype(rep, I, x, inst, is_float, w):
    inf = I.info(x)
    if inf is None or inf.init is None or inf.init[0] != "call":
        return
    d = dict(inf.init[3]).get("dtype")
    name = d[1] if d is not None and d[0] == "ext" else ("default" if d is None else "?")
    if name == "?":
        return
    ok = {"np.float64", "builtins.float", "np.double", "default"} if is_float else \
        {"np.int32", "np.int64", "builtins.int", "np.intp", "np.uint32", "np.uint64"}
    rep.ob("encode-dtype", inst, name in ok, w, f"element type {name} cannot hold the values")


def check_one(prog, rep, spec):
    f = prog.func("building3d.io.arrayformat.get_polygon_points_and_faces")

    def go(fn):
        I = Interp(prog)
        st = I.start()
        ps = [I.param(n, ("arr",)) for n in ("points", "faces", "polygons")] + [I.param("poly_num", ("int",))]
        I.parallel[ps[2]] = ps[1]          # one polygon number per face
        I.width[ps[0]] = I.width[ps[1]] = 3
        return I, st, I.run(st, fn, ps)
    I, st, v = go(f)
    S, ss, sv = go(spec["one_polygon"])
    rep.use(I)
    w = f.where()
    if v[0] != "tuple" or len(v[1]) != 2:
        rep.ob("extract", "result", core.differs(v, sv), w, f"returns {tm.show(v)}")
        return
    for i, name in enumerate(("points", "triangles")):
        got, exp = rows(I, st, v[1][i]), rows(S, ss, sv[1][i])
        if got is None:
            g = I.val(st, v[1][i])
            rep.ob("extract", name, None, w, f"not understood: {tm.show(g)}")
            continue
        unordered = [t for t in got[1] if _has(t, "dedupe") and not _has(t, "sorted")]
        if unordered:
            rep.ob("extract-order", name, False, w, "the order of the points follows the iteration order of a set")
            continue
        rep.same("extract-size", name, got[0], exp[0], w)
        compare_rows(rep, "extract", name, got[1], exp[1], w)
        dtype(rep, I, v[1][i], f"extract:{name}", i == 0, w)
    br = branches(st)
    rep.ob("extract-total", name, not br, w, f"result only under {[tm.show(g) for g in br]}")


def _has(t, kind):
    return tm.contains(t, lambda x: x[0] == kind)


def check_from(prog, rep):
    f = prog.func("building3d.io.arrayformat.from_array_format")
    one = prog.func("building3d.io.arrayformat.get_polygon_points_and_faces")
    I = Interp(prog, opaque={one.qualname})
    poly = I.class_named("Polygon")
    I.hooks[poly.qualname] = polygon_hook
    st = I.start()
    ps = {n: I.param(n, ("arr",)) for n in ARRAYS}
    v = I.run(st, f, [ps[n] for n in ARRAYS])
    rep.use(I)
    w = f.where()
    got = tree(I, st, v, attrs=())
    # required: zones 0..max, solids with zones[i] == zone, walls with solids[i] == solid, polygons with walls[i] == wall
    P = {n: ps[n] for n in ARRAYS}
    nz = tm.add(tm.call("np.max", (P["zones"],)), tm.ONE)
    alts = [nz]
    idx = lambda L: mk("idx", L)
    LP = tm.loop_id(P["walls"], 0)
    ex = mk("call", one.qualname, (P["points"], P["faces"], P["polygons"], idx(LP)), ())
    node = mk("rec", "Polygon", (("pts", mk("item", ex, tm.ZERO)), ("name", tm.NONE), ("uid", tm.NONE),
                                 ("tri", mk("item", ex, tm.ONE))), ())
    LW = tm.loop_id(P["solids"], 0)
    LS = tm.loop_id(P["zones"], 0)
    LZ = tm.loop_id(mk("range", tm.ZERO, nz, tm.ONE), 0)
    for cname, inner, outer in (("Wall", LP, LW), ("Solid", LW, LS), ("Zone", LS, LZ)):
        body = tm.phi(tm.cmp("==", mk("elem", inner), idx(outer)), node, mk("skip"))
        node = mk("node", cname, (), (mk("red", "list", inner[1], tm.abstract(body, inner)),))
    exp = mk("node", "Building", (), (mk("red", "list", LZ[1], tm.abstract(node, LZ)),))
    rep.same("decode", "from_array_format", got, exp, w)


def check(prog, rep):
    spec = prog.spec(SPEC)
    check_to(prog, rep, spec)
    check_one(prog, rep, spec)
    check_from(prog, rep)
