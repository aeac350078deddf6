"""C24: stitching replaces exactly the sliced polygons and visits all neighbours."""
from __future__ import annotations

from .. import canon
from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..loader import AnalysisError
from ..spec import equal
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk
from .c26 import check_one

EXPLANATION = (
    "The stitching functions are analysed by value-provenance dataflow with the cutting, the graph query and the wall's replacement recorded as effects. Rules: solids to stitch are looked up by the full paths the adjacency graph links, "
    "and a pair is passed over only if the very same two paths were handled before; a polygon is cut together with its own solid and replaced in its own wall only, by exactly the two parts, and nothing is changed on the ways that give up; "
    "both parts carry the normal of the original. The search for the next pair is compared with a specification function.")
TECHNIQUE = "value-provenance dataflow with effect obligations, normal-form comparison with specification functions"
NOTE = "Holds for all solids and names; whether a cut of given shapes succeeds is numerical and not claimed."
MIN_OBLIGATIONS = 18

G = "building3d.geom."
S = G + "solid.stitch."
SPEC = '''
def wanted(bdg, path):
    _, z, s = path.split("/")
    return bdg.zones[z].solids[s]
def adjacent(s1, s2):
    for w1 in s1.walls.values():
        for p1 in w1.polygons.values():
            for w2 in s2.walls.values():
                for p2 in w2.polygons.values():
                    if p1.is_crossing_polygon(p2) or p1.contains_polygon(p2) or p2.contains_polygon(p1):
                        return p1, p2
    return None
def name_both(poly, pts, pt1, name1, pt2, name2):
    return (name1, name2)
'''


def query(kind):
    """A question about polygons that is not looked into."""
    def hook(I, st, fn, env):
        return mk("call", kind, tuple(I.val(st, env[p.arg]) for p in fn.node.args.args), ())
    return hook


def recorder(kind, keep=None):
    def hook(I, st, fn, env):
        a = fn.node.args
        args = [I.val(st, env[p.arg]) for p in a.args] + ([I.val(st, env[a.vararg.arg])] if a.vararg else [])
        I.effect(st, kind, *args)
        return mk("call", kind, tuple(args[:keep]), ())
    return hook


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def check(prog, rep):
    names = {n: prog.func(S + n) for n in ("stitch_solids", "next_adjacent_polygons", "slice_both_and_replace", "slice_one_and_replace", "replace_polygon")}
    wr = prog.method(prog.cls(G + "wall.Wall"), "replace_polygon")
    if wr is None:
        raise AnalysisError("anchor not found: Wall.replace_polygon")
    building(prog, rep, names)
    recursion(prog, rep, names)
    search(prog, rep, names)
    both(prog, rep, names)
    one(prog, rep, names, wr)
    oriented(prog, rep)
    check_one(prog, rep, "Wall", "wall", "replace_polygon", "Polygon", True)


def start(prog, rep, hooks, opaque=()):
    I = Interp(prog, opaque=[prog.func(o).qualname for o in opaque])
    for q, n in hooks.items():
        I.hooks[q] = recorder(n, 1 if n == "SLICE" else None)
    return I, I.start()


# ---------------------------------------------------------------- the building
def building(prog, rep, names):
    c = prog.cls(G + "building.Building")
    f, gg = prog.method(c, "stitch_solids"), prog.method(c, "get_graph")
    if f is None or gg is None:
        raise AnalysisError("anchor not found: Building.stitch_solids or get_graph")
    I, st = start(prog, rep, {gg.qualname: "GRAPH", names["stitch_solids"].qualname: "STITCH"})
    get = prog.method(c, "get")
    if get is not None:
        I.hooks[get.qualname] = query("GET")
    b = I.obj_param("self", c)
    I.run(st, f, [], {}, b)
    rep.use(I)
    eff = [e for e in I.effects if e.kind == "STITCH"]
    if not eff:
        rep.ob("pairs-visited", "stitched", False, f.where(), "no pair of solids is stitched")
        return
    gargs = [p.arg for p in gg.node.args.args]
    S_ = prog.spec(SPEC)
    for e in eff:
        w = where(e, f)
        graphs = {x for l in e.Ls() for x in tm.subterms(l) if x[0] == "call" and x[1] == "GRAPH"}
        ok = len(graphs) == 1
        rep.ob("pairs-visited", "adjacency graph", True if ok else None, w, "the pairs do not come from one adjacency graph")
        if not ok:
            continue
        g = graphs.pop()
        given = dict(zip(gargs, g[2]))
        for k, want in (("level", const("solid")), ("facing", TRUE), ("overlapping", TRUE)):
            v = given.get(k, NONE)
            rep.ob("pairs-visited", f"graph {k}", verdict(v is want, v), w, f"the graph is requested with {k}={tm.show(v)[:40]}")
        L = e.loops
        if len(L) != 2:
            rep.ob("pairs-visited", "all links", None, w, "not two nested loops over the graph")
            continue
        outer, inner = L[0][0], L[1][0]
        paths = [x for l in (outer, inner) for x in (mk("elem", l), mk("idx", l), mk("key", l))]
        p1 = [x for x in paths if tm.contains(e.args[0], lambda y: y is x)]
        p2 = [x for x in paths if tm.contains(e.args[1], lambda y: y is x)]
        a = [x for x in p1 if x[1] is outer]
        z = [x for x in p2 if x[1] is inner]
        if not (a and z):
            a = [x for x in p2 if x[1] is outer]
            z = [x for x in p1 if x[1] is inner]
            flip = True
        else:
            flip = False
        if not (a and z):
            rep.ob("pairs-visited", "both ends", verdict(False, *e.args[:2]), w, f"stitches {tm.show(e.args[0])[:60]} with {tm.show(e.args[1])[:60]}")
            continue
        for k, (got, x) in enumerate(zip(e.args[:2], (z[0], a[0]) if flip else (a[0], z[0]))):
            J = Interp(prog)
            sj = J.start()
            exp = J.val(sj, J.run(sj, S_["wanted"], [J.obj_param("self", J.class_named("Building")), x]))
            rep.ob("found-by-path", f"solid {k + 1}", verdict(got is exp or got is mk("call", "GET", (b, x), ()), got), w, f"the solid stitched is {tm.show(got)[:120]}, not the one of the linked path")
        for x in tm.conj_list(e.cond()):
            skipped(I, st, rep, e, x, a[0], z[0], w)
    rep.count("stitch_sites", len(eff))


def content(I, k, seen=0):
    """(unordered?, members) of a pair used as a key."""
    if k[0] == "obj" or k[0] == "at":
        own = [x.args[1] for x in I.effects if x.kind in ("add", "append") and x.args[0] is k]
        return True, own
    if k[0] in ("setof", "sorted", "frozenset") or k[0] == "call" and k[1] in ("frozenset", "set", "sorted", "tuple"):
        src = k[1] if k[0] != "call" else (k[2][0] if k[2] else None)
        if src is not None and seen < 4:
            u, m = content(I, src, seen + 1)
            return True, m
    if k[0] == "tuple":
        return False, list(k[1])
    if k[0] in ("idx", "elem", "key", "item"):
        return False, [k]
    return None, []


def skipped(I, st, rep, e, x, a, z, w):
    """A condition under which a pair is stitched."""
    y = x[1] if x[0] == "not" else x
    if y[0] == "cmp" and y[1] in ("<", "==", "is") and {y[2], y[3]} == {a, z}:
        rep.ob("passed-over", "order of the paths", True, w)
        return
    if x[0] == "not" and y[0] == "cmp" and y[1] == "in":
        kind, parts = content(I, y[2])
        if not parts:
            rep.ob("passed-over", "pair", None, w, f"passes over a pair when {tm.show(y)[:80]}")
            return
        full = {a, z} <= set(parts)
        rep.ob("passed-over", "told apart", verdict(full, *parts), w, f"pairs handled before are told apart by {', '.join(tm.show(p)[:60] for p in parts)}, not by both full paths")
        box = y[3][1] if y[3][0] == "flux" else y[3]
        adds = [q for q in I.effects if q.kind in ("append", "add") and q.args[0] is box]
        rep.ob("passed-over", "remembered", True if adds else None, w, "what is remembered of handled pairs is not understood")
        for q in adds:
            _, m = content(I, q.args[1])
            rep.ob("passed-over", "remembered pair", verdict(bool(m) and set(m) == set(parts) or {a, z} <= set(m), *m), q.where, f"remembers {', '.join(tm.show(p)[:60] for p in m)} as handled")
            rep.ob("passed-over", "remembered when stitched", verdict(canon.equal(q.cond(), e.cond()), q.cond()), q.where, "a pair is remembered as handled without having been stitched")
        return
    rep.ob("passed-over", tm.show(x)[:60], verdict(False, x), w, f"a pair is stitched only if {tm.show(x)[:100]}")


def where(e, f):
    return e.where if e.where.startswith("building3d") else f.where()


# ---------------------------------------------------------------- one pair of solids after the other
def recursion(prog, rep, names):
    f = names["stitch_solids"]
    I, st = start(prog, rep, {names["slice_both_and_replace"].qualname: "BOTH", names["next_adjacent_polygons"].qualname: "NEXT"})
    s1, s2 = (I.obj_param(n, I.class_named("Solid")) for n in ("s1", "s2"))
    v = I.run(st, f, [s1, s2])
    rep.use(I)
    eff = [e for e in I.effects if e.kind == "BOTH"]
    rep.ob("pair-cut", "found pairs", bool(eff), f.where(), "polygons found to be adjacent are not cut")
    nxt = mk("call", "NEXT", (s1, s2), ())
    for e in eff:
        src = settle(I, e.args[1])
        ok = e.args[0] is s1 and e.args[2] is s2 and src is not None and src is settle(I, e.args[3]) and e.args[1][0] == "item" and e.args[1][2] is ZERO and e.args[3][2] is ONE and src is nxt
        rep.ob("pair-cut", f"{e.where}", verdict(ok, *e.args) if src is not None or e.args[1][0] == "item" else None, e.where,
               f"cuts {tm.show(e.args[1])[:50]} of {tm.show(e.args[0])[:20]} and {tm.show(e.args[3])[:50]} of {tm.show(e.args[2])[:20]}")
    # goes on until there is none
    done = [e for e in I.effects if e.kind == "call" and e.args[0] == f.qualname]
    again = [e for e in eff if e.loops] or done
    rep.ob("pair-cut", "until none is left", bool(again), f.where(), "stops after the first pair")


def settle(I, t):
    """The search whose result t is a part of."""
    if t[0] != "item":
        return None
    b = t[1]
    if b[0] == "call":
        return b
    if b[0] == "lv":
        for r in I.loop_recs.values():
            for c, u in r.updates.items():
                if mk("lv", *b[1:]) is b and r.serial == b[1]:
                    vals = {r.inits.get(c), u} - {None}
                    calls = {x for x in vals if x[0] == "call" and x[1] == "NEXT"}
                    if calls and vals <= calls | {b}:
                        return calls.pop() if len(calls) == 1 else None
    return None


def search(prog, rep, names):
    opq = [prog.func(q).qualname for q in (G + "polygon.crossing.are_polygons_crossing", G + "polygon.ispointinside.is_point_inside_margin")]
    equal(prog, rep, "next-pair", "search", names["next_adjacent_polygons"], prog.spec(SPEC)["adjacent"],
          lambda I: (None, [I.obj_param("s1", I.class_named("Solid")), I.obj_param("s2", I.class_named("Solid"))]), opaque=opq, guards=False)


# ---------------------------------------------------------------- a pair of polygons
def both(prog, rep, names):
    f = names["slice_both_and_replace"]
    I, st = start(prog, rep, {names["slice_one_and_replace"].qualname: "CUT"}, [G + "points.find_close_pairs.find_close_pairs", G + "polygon.ispointinside.is_point_inside_margin"])
    pc = prog.cls(G + "polygon.Polygon")
    for n in ("contains_polygon", "is_crossing_polygon", "is_facing_polygon", "is_touching_polygon"):
        m = prog.method(pc, n)
        if m is not None:
            I.hooks[m.qualname] = query(n)
    s1, s2 = (I.obj_param(n, I.class_named("Solid")) for n in ("s1", "s2"))
    p1, p2 = (I.obj_param(n, I.class_named("Polygon")) for n in ("p1", "p2"))
    I.run(st, f, [s1, p1, s2, p2])
    rep.use(I)
    cuts = [e for e in I.effects if e.kind == "CUT"]
    rep.ob("own-solid", "cuts", bool(cuts), f.where(), "nothing is cut")
    for e in cuts:
        s, p, pts = e.args[:3]
        mine, other = (p1, p2) if s is s1 else (p2, p1) if s is s2 else (None, None)
        q = p
        while q[0] == "item" and q[1][0] == "call" and q[1][1] == "CUT" and q[1][2][0] is s:
            q = q[1][2][1]
        rep.ob("own-solid", f"{e.where}", verdict(mine is not None and q is mine, s, p), e.where, f"cuts {tm.show(p)[:60]} within {tm.show(s)[:30]}")
        uses = tm.contains(pts, lambda x: x is mk("attr", other, "pts")) if other is not None else False
        rep.ob("own-solid", f"{e.where} points", verdict(uses, pts), e.where, f"cuts with {tm.show(pts)[:80]}, not with points of the other polygon")
    if cuts:
        c = tm.disj([e.cond() for e in cuts])
        full = c is TRUE or canon.equal(c, TRUE)
        rep.ob("own-solid", "some polygon is cut", full or (None if vague(c) else False), f.where(), f"nothing is cut unless {tm.show(c)[:100]}")
    rep.count("cuts", len(cuts))


# ---------------------------------------------------------------- a polygon
def one(prog, rep, names, wr):
    f = names["slice_one_and_replace"]
    sp = prog.func(G + "polygon.slice.slice_polygon")
    c = prog.cls(G + "polygon.Polygon")
    flip = prog.method(c, "flip")
    I, st = start(prog, rep, {wr.qualname: "REPLACE", sp.qualname: "SLICE", flip.qualname: "FLIP"}, [G + "polygon.slice.add_intersection_points.add_intersection_points"])
    s, p = I.obj_param("s", I.class_named("Solid")), I.obj_param("p", I.class_named("Polygon"))
    v = I.run(st, f, [s, p, I.param("slicing_pts", ("arr",))])
    rep.use(I)
    ret = I.val(st, v)
    eff = [e for e in I.effects if e.kind == "REPLACE"]
    rep.ob("own-wall", "replaced", bool(eff), f.where(), "the cut polygon is not replaced")
    pairs = []
    for e in eff:
        wall, name = e.args[:2]
        new = e.args[2] if len(e.args) > 2 else NONE
        par = [mk("attr", p, "parent"), mk("attr", p, "_parent")]
        if wall in par:
            ok, why = name is mk("attr", p, "name"), "another polygon of the wall"
            loops_ok = not e.loops
        else:
            el = [mk("elem", l) for l in e.Ls()]
            same = [x for x in tm.conj_list(e.cond()) if x[0] == "cmp" and x[1] in ("is", "==") and p in x[2:4]]
            ok = len(el) == 2 and wall is el[0] and name in (mk("attr", el[1], "name"), mk("attr", p, "name"), mk("key", e.Ls()[1])) and any(x[1] == "is" and el[1] in x[2:4] for x in same)
            why = "every polygon that meets " + tm.show(tm.conj([x for x in tm.conj_list(e.cond()) if el and any(tm.contains(x, lambda y: y is q) for q in el)]))[:80]
            loops_ok = len(e.loops) == 2 and all(walls_of(s, l) for l in e.Ls()[:1])
        rep.ob("own-wall", e.where, verdict(ok, wall, name), e.where, f"replaces {why}, not the cut polygon itself")
        rep.ob("own-wall", f"{e.where} all walls", True if loops_ok else None, e.where, "the walls searched are not those of the solid")
        ok = new[0] == "tuple" and len(new[1]) == 2
        rep.ob("two-parts", e.where, verdict(ok, new), e.where, f"the polygon is replaced by {tm.show(new)[:100]}")
        if not ok:
            continue
        cut = set()
        for k, x in enumerate(new[1]):
            q = part(x, p)
            good = q is not None and q[0] == "item" and q[1][0] == "call" and q[1][1] == "SLICE" and q[1][2][0] is p
            rep.ob("two-parts", f"part {k + 1}", verdict(good, x), e.where, f"part {k + 1} is {tm.show(x)[:100]}, not a part of the polygon in its orientation")
            if good:
                cut.add(q[2])
        if len(cut) > 0:
            rep.ob("two-parts", "both", len(cut) == 2, e.where, "one part is put in twice and the other is lost")
        pairs.append(new)
    # what is told to the caller
    ok, bad = True, []
    for leaf in leaves(ret):
        if leaf[0] == "tuple" and len(leaf[1]) == 2 and (all(x is NONE for x in leaf[1]) or any(leaf is q for q in pairs)):
            continue
        bad.append(leaf)
    rep.ob("result-told", "returned parts", verdict(not bad, *bad), f.where(), f"returns {tm.show(bad[0])[:100]}" if bad else "")
    # nothing else changes
    other = [e for e in I.effects if e.kind in ("setattr", "delattr", "setitem", "delitem", "pop", "clear", "remove") and touches(e.args[0], (s, p))]
    rep.ob("left-as-it-was", "no other change", not other, other[0].where if other else f.where(), f"{other[0].kind} {tm.show(other[0].args[0])[:60]}" if other else "")
    rep.count("replacements", len(eff))


def walls_of(s, L):
    return tm.contains(L, lambda x: x is s)


def touches(t, xs):
    return any(tm.contains(t, lambda y: y is x) for x in xs) if isinstance(t, tm.T) else False


def part(x, p):
    """The part itself, or turned around exactly when its normal differs from the original's."""
    if x[0] == "phi":
        c, a, b = x[1], x[2], x[3]
        if c[0] == "not":
            c, a, b = c[1], b, a
        turned = b[0] == "call" and b[1] == "FLIP" and b[2][0] is a or b[0] == "mcall" and b[1] is a and b[2] == "flip"
        if turned and c[0] in ("call",) and c[1] in ("np.allclose",) and {mk("attr", a, "vn"), mk("attr", p, "vn")} == set(c[2][:2]):
            return a
        return None
    return x


def leaves(t):
    if t[0] == "phi":
        yield from leaves(t[2])
        yield from leaves(t[3])
    else:
        yield t


# ---------------------------------------------------------------- orientation
def oriented(prog, rep):
    f = prog.func(G + "polygon.slice.slice_polygon")
    opq = [G + "points.are_points_coplanar", G + "polygon.slice.add_intersection_points.add_intersection_points", G + "polygon.slice.remove_redundant_points.remove_redundant_points",
           G + "polygon.slice.get_point_arrays.get_point_arrays", G + "triangles.triangulate", G + "polygon.centroid.polygon_centroid", G + "polygon.area.polygon_area",
           G + "polygon.plane.plane_coefficients", G + "vectors.normal", G + "polygon.ispointinside.is_point_inside", "building3d.random.random_id", G + "paths.validate_name.validate_name"]
    for combo, has in (("no names", ()), ("first point", ("pt1",)), ("second point", ("pt2",)), ("both points", ("pt1", "pt2"))):
        I = Interp(prog, opaque=[prog.func(o).qualname for o in opq])
        st = I.start()
        p = I.obj_param("poly", I.class_named("Polygon"))

        def arg(n, t):
            v = I.param(n, t)
            I.nonnull.add(v)
            return v
        args = [p, arg("slicing_pts", ("arr",)), arg("pt1", ("arr",)) if "pt1" in has else NONE, arg("name1", ("str",)), arg("pt2", ("arr",)) if "pt2" in has else NONE, arg("name2", ("str",))]
        v = I.run(st, f, args)
        rep.use(I)
        v = simplify(v)
        if v[0] != "tuple" and not (v[0] == "phi"):
            rep.ob("orientation-kept", combo, None, f.where(), f"returns {tm.show(v)[:60]}")
            continue
        vn = mk("attr", p, "vn")
        for leaf in leaves(v):
            if leaf[0] != "tuple" or len(leaf[1]) != 2:
                rep.ob("orientation-kept", combo, None, f.where(), f"returns {tm.show(leaf)[:60]}")
                continue
            for k, x in enumerate(leaf[1]):
                for y in leaves(x):
                    n = I.val(st, I.read_attr(st, y, "vn"))
                    n = simplify(n)
                    rep.ob("orientation-kept", f"{combo}: part {k + 1}", verdict(n is vn, n), f.where(), f"the normal of a part is {tm.show(n)[:80]}, not that of the polygon")


def simplify(t):
    """A value is always close to itself."""
    sub = {x: TRUE for x in tm.subterms(t) if x[0] == "call" and x[1] in ("np.allclose", "np.isclose") and len(x[2]) >= 2 and x[2][0] is x[2][1]}
    return tm.subst(t, sub) if sub else t
