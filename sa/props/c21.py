"""C21: invalid input is refused with an error."""
from __future__ import annotations

import ast
import builtins

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..kernel import Kernel
from ..loader import dotted
from ..rays import Sim
from ..scan import all_nodes, functions
from ..spec import polygon_hook
from ..terms import FALSE, NONE, TRUE, const, mk

EXPLANATION = (
    "Dataflow over every public entry point that has to refuse something. The analysis collects what is known on every normal exit "
    "(conditions of branches that raise, asserts, conditions tested in loops that raise, also inside called functions) and the condition that "
    "makes the input invalid is computed from a specification over the same arguments. Rule: what is known on normal exit must contradict "
    "the invalid condition. A second rule goes over every exception handler: it raises again on every path, except around the numeric solver "
    "of line intersections and around a polygon slice that turns out impossible.")
TECHNIQUE = "facts on normal exit against invalid-input conditions; exception-handler lint over the call graph"
NOTE = "Decided for every input of the listed kinds; inputs that some other error stops later count as refused."
MIN_OBLIGATIONS = 35

SPEC = '''
import json
import numpy as np
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.paths.wildcardpath import WildcardPath
from building3d.geom.points import are_points_coplanar
from building3d.geom.polygon.slice.add_intersection_points import add_intersection_points
from building3d.geom.polygon.slice.remove_redundant_points import remove_redundant_points

def few_points(pts):
    return len(pts) < 3

def not_flat(pts):
    return not are_points_coplanar(pts)

def no_triangles(pts, name, uid, tri):
    return len(tri) == 0

def names_count(plan, height, translate, rot, name, wall_names):
    return len(wall_names) > len(plan)

def cut_not_flat(poly, cut):
    return not are_points_coplanar(np.vstack((poly.pts, cut)))

def cut_too_short(poly, cut):
    return len(remove_redundant_points(add_intersection_points(poly.pts, cut)[1], poly.pts, poly.tri)) < 2

def few_cut_points(pts, tri, cut):
    return len(cut) < 2

def no_cut_points(cut):
    return len(cut) == 0

def wrong_level(level):
    return level != "polygon" and level != "wall" and level != "solid" and level != "zone"

def too_long(size):
    return size > 32

def too_short(size):
    return size <= 0

def not_unit(u, phi):
    return not np.isclose(np.linalg.norm(u), 1.0)

def no_tri(pts, tri):
    return len(tri) == 0

def more_faces(a, b):
    return len(a) < len(b)

def other_building(self, path):
    return path.split("/")[0] != self.name

def too_deep(self, path):
    return len(path.split("/")) > 6

def no_hits(hits, cfg):
    return not (hits.sum(axis=0).max() > 0)

def wrong_count(self, values):
    return len(values) < len(self._wildcards)

def wrong_key(self, values):
    return any(k not in self._wildcards for k in values.keys())

def separator(name):
    return "/" in name

def nowhere(p, building, first):
    return not any(isinstance(building.get(path), Solid) and building.get(path).is_point_inside(p) for path in first) and not any(
        isinstance(building.get(s.path), Solid) and building.get(s.path).is_point_inside(p) for z in building.children.values() for s in z.children.values())

def outside_1(vn, pts1, pts2, pt1, name1, pt2, name2):
    return not Polygon(pts1).is_point_inside(pt1) and not Polygon(pts2).is_point_inside(pt1)

def outside_2(vn, pts1, pts2, pt1, name1, pt2, name2):
    return not Polygon(pts1).is_point_inside(pt2) and not Polygon(pts2).is_point_inside(pt2)

def neither_1(vn, pts1, pts2, pt1, name1, pt2, name2):
    return not Polygon(pts1).is_point_inside(pt1) and not Polygon(pts1).is_point_inside(pt2)

def neither_2(vn, pts1, pts2, pt1, name1, pt2, name2):
    return not Polygon(pts2).is_point_inside(pt1) and not Polygon(pts2).is_point_inside(pt2)

def unnumbered(self, param, building):
    return any(p.num is None for z in building.children.values() for s in z.children.values() for w in s.children.values() for p in w.children.values())

def negative(self, param, building):
    return any(p.num < 0 for z in building.children.values() for s in z.children.values() for w in s.children.values() for p in w.children.values())

def no_positions(path, cfg):
    return len(WildcardPath(cfg.paths["position_file"]).get_matching_paths_dict_values(path)) == 0

def no_energies(path, cfg):
    return len(WildcardPath(cfg.paths["energy_file"]).get_matching_paths_dict_values(path)) == 0

def no_counts(path, cfg):
    return len(WildcardPath(cfg.paths["hits_file"]).get_matching_paths_dict_values(path)) == 0

def steps(kind, path, cfg):
    return max([d["step"] for d in WildcardPath(cfg.paths[kind]).get_matching_paths_dict_values(path).values()]) + 1

def uneven_energy(path, cfg):
    return steps("position_file", path, cfg) != steps("energy_file", path, cfg)

def uneven_hits(path, cfg):
    return steps("position_file", path, cfg) != steps("hits_file", path, cfg)

def foreign(path):
    with open(path, "r") as f:
        bim = json.load(f)
    return bim["info"]["generated_by"] != "Building3D"
'''


class Logic:
    nonneg = frozenset()
    unsat, theory, below, atoms = Kernel.unsat, Kernel.theory, Kernel.below, Kernel.atoms


def plain(t, sized):
    """Truth of numbers and of collections as comparisons."""
    if t[0] in ("and", "or"):
        return (tm.conj if t[0] == "and" else tm.disj)([plain(x, sized) for x in t[1]])
    if t[0] == "not":
        return tm.neg(plain(t[1], sized))
    if t[0] == "op" and t[1] in ("%", "//", "*", "-", "+"):
        return tm.neg(tm.cmp("==", t, const(0)))
    return tm.cmp("<", const(0), tm.length(t)) if t in sized else t


def apart(t):
    """Unequal sizes as one being smaller; a set is never larger than what it is made of."""
    if t[0] == "not" and t[1][0] == "cmp" and t[1][1] == "==" and all(x[0] == "len" for x in t[1][2:4]):
        a, b = t[1][2:4]
        small = lambda x, y: x[1][0] == "call" and x[1][1] in ("set", "builtins.set", "frozenset") and x[1][2] == (y[1],) or x[1][0] == "setof" and x[1][1] is y[1]
        return tm.disj([FALSE if small(b, a) else tm.cmp("<", a, b), FALSE if small(a, b) else tm.cmp("<", b, a)])
    return t


def contradicted(facts, bad):
    """Can bad not hold where the facts hold?"""
    sized = {x[1] for x in tm.subterms(bad) if x[0] == "len"}
    bad = apart(bad)
    fs = tm.conj_list(tm.conj([plain(f, sized) for f in facts]))
    if Logic().unsat(fs + [bad]):
        return True
    if bad[0] == "or":
        return all(contradicted(fs, x) for x in bad[1])
    if bad[0] == "and":
        return any(contradicted(fs + [y for y in bad[1] if y is not x], x) for x in bad[1])
    if bad[0] == "red" and bad[1] == "any":
        for f in fs:
            if f[0] == "not" and f[1][0] == "red" and f[1][1] == "any" and f[1][2] is bad[2] and contradicted([tm.neg(f[1][3])], bad[3]):
                return True
    for f in fs:
        if f[0] == "cmp" and f[1] == "==" and not tm.is_const(f[2]) and not tm.is_const(f[3]):
            rest = [x for x in fs if x is not f]
            if contradicted([tm.subst(x, {f[2]: f[3]}) for x in rest], tm.subst(bad, {f[2]: f[3]})):
                return True
    return False


def truth(v):
    return v if v[0] != "const" else (TRUE if v[2] else FALSE)


def sized(facts):
    """The largest of no values is an error, so where it has been compared there are values."""
    out = []
    for f in facts:
        for g in ([f] if f[0] == "cmp" else [f[1]] if f[0] == "not" and f[1][0] == "cmp" else []):
            if not tm.contains(g, lambda x: x[0] in ("phi", "and", "or")):
                for x in tm.subterms(g):
                    if x[0] == "call" and x[1] in ("max", "min", "builtins.max", "builtins.min") and len(x[2]) == 1 and x[2][0][0] == "red" and x[2][0][1] == "list":
                        out.append(tm.cmp("<", const(0), tm.length(x[2][0][2])))
    return out


def touching(bad, facts):
    """Facts that say something about the same things as bad, but in terms the analysis cannot interpret."""
    names = {x for x in tm.subterms(bad) if x[0] in ("param", "attr")}
    return [g for g in facts if vague(g) and names & set(tm.subterms(g))]


def refused(prog, rep, inst, f, sf, make, opaque=(), hooks=None, pick=None, unstar=False, kw=None, also=None):
    def start():
        I = Interp(prog, opaque=opaque)
        I.hooks.update(hooks or {})
        return I, I.start(), make(I)
    I, st, (selfv, args) = start()
    I.run(st, f, list(args), kw(I) if kw else {}, selfv)
    rep.use(I)
    J, sj, (selfj, argj) = start()
    a = [argj[i] for i in pick] if pick is not None else ([selfj] if selfj is not None else []) + list(argj)
    if unstar:
        a = [x[1] if x[0] == "star" else x for x in a]
    if kw:
        a = [selfj] + list(kw(J).values())
    v = J.run(sj, sf, a[:len(sf.node.args.args)])
    bad = truth(J.val(sj, v))
    facts = [] if st.dead else st.facts()
    ok = bool(st.dead) or contradicted(facts + sized(facts), bad) or also is not None and contradicted(facts, truth(J.val(sj, J.run(sj, also, a[:len(also.node.args.args)]))))
    if not ok:
        ok = None if vague(bad) or touching(bad, facts) else False
    rep.ob("refused", inst, ok, f.where(), f"goes on although {tm.show(bad)}")
    return I, st


def never_returns(prog, rep, inst, f, make, why, opaque=()):
    """make(I, st) sets up the invalid situation itself; then no normal exit may exist."""
    I = Interp(prog, opaque=opaque)
    st = I.start()
    selfv, args = make(I, st)
    I.run(st, f, list(args), {}, selfv)
    rep.use(I)
    facts = st.facts()
    ok = bool(st.dead) or contradicted(facts, TRUE)
    if not ok:
        ok = None if any(vague(g) for g in facts) else False
    rep.ob("refused", inst, ok, f.where(), f"goes on although {why}")


# ---------------------------------------------------------------- exception handlers
def ends(prog, f, body, depth=0):
    """Does this block never run to its end, because it raises on every path?"""
    for n in body:
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(n, ast.If) and n.orelse and ends(prog, f, n.body, depth) and ends(prog, f, n.orelse, depth):
            return True
        if isinstance(n, ast.With) and ends(prog, f, n.body, depth):
            return True
        if isinstance(n, ast.Assert) and isinstance(n.test, ast.Constant) and not n.test.value:
            return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and depth < 4:
            gs = callees(prog, f, n.value)
            if gs and all(isinstance(g.node.body, list) and ends(prog, g, g.node.body, depth + 1) for g in gs):
                return True
    return False


def leaves_quietly(body):
    """A way out of the block that is not its end and not an error."""
    return any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in body for n in ast.walk(b))


def callees(prog, f, call):
    """Functions of the package a call may reach, by resolved name or by method name."""
    d = dotted(call.func)
    if d and "." not in d:
        r = prog.lookup(f.module, d)
        if r and r[0] == "func":
            return [r[1]]
        if r and r[0] == "class":
            m = prog.method(r[1], "__init__")
            return [m] if m else []
        return []
    if isinstance(call.func, ast.Attribute):
        if d:
            r = prog.lookup(f.module, d.split(".")[0])
            if r and r[0] == "ext":
                return []
            if r and r[0] == "module":
                g = prog.find_func(r[1] + "." + d.split(".", 1)[1])
                return [g] if g else []
        if isinstance(call.func.value, ast.Name) and call.func.value.id == "self" and f.cls is not None:
            m = prog.method(f.cls, call.func.attr)
            return [m] if m else []
        return [g for g in functions(prog) if g.cls is not None and g.name == call.func.attr]
    return []


def bases(prog, m, name):
    """Names of an exception and of everything it derives from."""
    r = prog.lookup(m, name.split(".")[-1]) if m else None
    if r and r[0] == "class":
        out = [r[1].name]
        for b in r[1].node.bases:
            out += bases(prog, r[1].module, dotted(b) or "Exception")
        return out
    k = getattr(builtins, name.split(".")[-1], None)
    if isinstance(k, type) and issubclass(k, BaseException):
        return [c.__name__ for c in k.__mro__]
    return [name.split(".")[-1], "Exception", "BaseException"]


def thrown(prog, f, nodes, seen):
    """(exception name with its bases, where) for every error these nodes can raise explicitly, or by looking up a key or index."""
    for n in nodes:
        if isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            yield bases(prog, f.module, dotted(e) or "Exception"), f.where(n)
        elif isinstance(n, ast.Assert):
            yield bases(prog, None, "AssertionError"), f.where(n)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and seen:
            yield bases(prog, None, "KeyError"), f.where(n)
            yield bases(prog, None, "IndexError"), f.where(n)
        elif isinstance(n, ast.Call):
            for g in callees(prog, f, n):
                if g.qualname not in seen:
                    yield from thrown(prog, g, list(all_nodes(g)), seen | {g.qualname})


def caught(h, prog, f):
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [(dotted(t) or "BaseException").split(".")[-1] for t in ts]


def handlers(prog, rep):
    slicing = prog.func(SL + "slice_polygon")
    n = 0
    for f in functions(prog):
        for t in all_nodes(f):
            if isinstance(t, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                blocks = [(caught(h, prog, f), h.body, t.body, h) for h in t.handlers]
                if t.finalbody:
                    n += 1
                    rep.ob("not-swallowed", f"{f.qualname}: finally", not leaves_quietly(t.finalbody), f.where(t), "leaving in the final block drops an error that is on its way")
            elif isinstance(t, ast.With):
                blocks = []
                for it in t.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1] == "suppress":
                        blocks.append(([(dotted(a) or "BaseException").split(".")[-1] for a in c.args], [ast.Pass()], t.body, t))
            else:
                continue
            for kinds, body, tried, at in blocks:
                n += 1
                inner = [x for b in tried for x in ast.walk(b)]
                what = f"{f.qualname}: {', '.join(kinds)}"
                if ends(prog, f, body) and not leaves_quietly(body):
                    rep.ob("not-swallowed", what, True, f.where(at))
                    continue
                calls = [g for x in inner if isinstance(x, ast.Call) for g in callees(prog, f, x)]
                if kinds == ["GeometryError"] and calls and all(g is slicing for g in calls):
                    rep.ob("not-swallowed", what, True, f.where(at))
                    continue
                lost = [(b, w) for b, w in thrown(prog, f, inner, frozenset()) if set(b) & set(kinds)]
                via = kinds == ["GeometryError"] and any(g is not slicing and slicing.qualname in reach(prog, g) for g in calls)
                rep.ob("not-swallowed", what, None if via else not lost, f.where(at), f"an error raised at {lost[0][1]} ({lost[0][0][0]}) is dropped here" if lost else "")
    rep.count("exception_handlers", n)


def reach(prog, g, seen=None):
    seen = seen if seen is not None else set()
    if g.qualname not in seen:
        seen.add(g.qualname)
        for x in all_nodes(g):
            if isinstance(x, ast.Call):
                for h in callees(prog, g, x):
                    reach(prog, h, seen)
    return seen


G = "building3d.geom."
R = "building3d.sim.rays."
SL = G + "polygon.slice."
OPAQUE = {
    "Polygon": [G + "points.are_points_coplanar", G + "triangles.triangulate", G + "vectors.normal", G + "polygon.centroid.polygon_centroid", G + "polygon.area.polygon_area", G + "plane.plane_coefficients"],
    "slice": [G + "points.are_points_coplanar", SL + "add_intersection_points.add_intersection_points", SL + "remove_redundant_points.remove_redundant_points", SL + "get_point_arrays.get_point_arrays", SL + "make_polygons", G + "polygon.Polygon.flip"],
}


def check(prog, rep):
    S = prog.spec(SPEC)
    pc = prog.cls(G + "polygon.Polygon")
    init = prog.method(pc, "__init__")
    arr = lambda I, *names: [I.param(n, ("arr",)) for n in names]

    def given(I, n, t=("arr",)):
        x = I.param(n, t)
        I.nonnull.add(x)
        return x

    def polygon(I, tri=False):
        a = arr(I, "pts")
        if tri:
            a += [I.param("name", ("str",)), I.param("uid", ("str",)), given(I, "tri"), given(I, "vn")]
        return I.obj_param("self", pc), a

    for inst, s, tri in (("polygon of fewer than three points", "few_points", True), ("polygon of points off one plane", "not_flat", False), ("polygon with an empty list of triangles", "no_triangles", True)):
        refused(prog, rep, inst, init, S[s], lambda I, tri=tri: polygon(I, tri), [x for x in OPAQUE["Polygon"] if s != "no_triangles" or not x.endswith("polygon_centroid")], pick=[0, 1, 2, 3][:len(S[s].node.args.args)])

    fp = prog.func(G + "solid.floor_plan.floor_plan")

    def plan(I):
        return None, [I.param("plan", ("arr",)), I.param("height", ("num",)), I.param("translate", ("arr",)), I.param("rot_angle", ("num",)), I.param("name", ("str",)), given(I, "wall_names", ("list", ("str",)))]
    for inst, s in (("floor plan with too many wall names", "names_count"),):
        refused(prog, rep, inst, fp, S[s], plan, [G + "rotation.rotate_points_around_vector"], {pc.qualname: polygon_hook})

    sp = prog.func(SL + "slice_polygon")
    cut = lambda I: (None, [I.obj_param("poly", pc), I.param("cut", ("arr",))])
    for inst, s in (("slice with points off the plane", "cut_not_flat"), ("slice with fewer than two usable points", "cut_too_short")):
        refused(prog, rep, inst, sp, S[s], cut, [x for x in OPAQUE["slice"] if s == "cut_not_flat" or not x.endswith("get_point_arrays")] + [SL + "locate_slicing_points.locate_slicing_points"])
    refused(prog, rep, "cutting line of fewer than two points", prog.func(SL + "get_point_arrays.get_point_arrays"), S["few_cut_points"], lambda I: (None, arr(I, "pts", "tri", "cut")))
    refused(prog, rep, "cutting line of no points", prog.func(SL + "locate_slicing_points.locate_slicing_points"), S["no_cut_points"], lambda I: (None, arr(I, "cut", "pts", "tri", "edges")))

    bc = prog.cls(G + "building.Building")
    gg = prog.method(bc, "get_graph")
    names = [a.arg for a in gg.node.args.args][1:]

    def graph(I):
        return I.obj_param("self", bc), [I.param(n, ("str",) if n == "level" else ("bool",)) for n in names]
    refused(prog, rep, "graph of an unknown level", gg, S["wrong_level"], graph, [G + "building.graph.graph_" + x for x in ("polygon", "wall", "solid", "zone")], pick=[names.index("level")])

    for inst, s in (("lookup of a path in another building", "other_building"), ("lookup of a path with too many parts", "too_deep")):
        refused(prog, rep, inst, prog.method(bc, "get"), S[s], lambda I: (I.obj_param("self", bc), [I.param("path", ("str",))]))

    rid = prog.func("building3d.random.random_id")
    for inst, s in (("random name longer than 32 characters", "too_long"), ("random name of no characters", "too_short")):
        refused(prog, rep, inst, rid, S[s], lambda I: (None, [given(I, "size", ("int",))]))
    refused(prog, rep, "rotation about a vector that has not unit length", prog.func(G + "rotation.rotation_matrix"), S["not_unit"], lambda I: (None, [I.param("u", ("arr",)), I.param("phi", ("num",))]))
    refused(prog, rep, "centroid of no triangles", prog.func(G + "polygon.centroid.polygon_centroid"), S["no_tri"], lambda I: (None, arr(I, "pts", "tri")))
    refused(prog, rep, "mesh with more triangle arrays than point arrays", prog.func(G + "mesh.vstack_mesh"), S["more_faces"], lambda I: (None, [I.param(n, ("list", ("arr",))) for n in ("pts", "tri")]))
    for c in ("polygon.Polygon", "wall.Wall", "solid.Solid", "zone.Zone"):
        k = prog.cls(G + c)
        def orphan(I, st, k=k):
            o = I.obj_param("self", k)
            st.mem[mk("attr", o, I.parent_attr[k.name])] = NONE
            return o, [I.param("path", ("str",))]
        never_returns(prog, rep, f"lookup from a {k.name} that is in no building", prog.method(k, "get"), orphan, "the object has no parent", [prog.method(bc, "get").qualname])

    refused(prog, rep, "impulse response of no hits", prog.func("building3d.sim.rays.impulse_response.impulse_response"), S["no_hits"], lambda I: (None, [I.param("hits", ("arr",)), I.obj_param("cfg", prog.cls("building3d.sim.rays.simulation_config.SimulationConfig"))]))
    refused(prog, rep, "name with a path separator", prog.func(G + "paths.validate_name.validate_name"), S["separator"], lambda I: (None, [I.param("name", ("str",))]))

    # names of the parts of a slice
    mp = prog.func(SL + "make_polygons")

    def parts(I, one, two):
        a = [I.param(n, ("arr",)) for n in ("vn", "pts1", "pts2")]
        return None, a + [given(I, "pt1") if one else NONE, I.param("name1", ("str",)), given(I, "pt2") if two else NONE, I.param("name2", ("str",))]
    hooks = {pc.qualname: polygon_hook}
    op = [prog.method(pc, "is_point_inside").qualname]
    for inst, s, one, two in (("slice named by a first point outside both parts", "outside_1", True, False), ("slice named by a second point outside both parts", "outside_2", False, True),
                              ("slice named by two points outside the one part", "neither_1", True, True), ("slice named by two points outside the other part", "neither_2", True, True)):
        refused(prog, rep, inst, mp, S[s], lambda I, one=one, two=two: parts(I, one, two), op, hooks)

    # a point in no room
    refused(prog, rep, "location of a point outside every solid", prog.func(G + "building.find_location.find_location"), S["nowhere"],
            lambda I: (None, [I.param("p", ("arr",)), I.obj_param("building", bc), mk("star", I.param("first", ("list", ("str",))))]),
            [prog.method(bc, "get").qualname, prog.method(prog.cls(G + "solid.Solid"), "is_point_inside").qualname], unstar=True)

    # simulation settings
    cc = prog.cls(R + "simulation_config.SimulationConfig")
    f = prog.method(cc, "surface_params_to_array")
    for inst, s in (("surface values of a polygon without a number", "unnumbered"), ("surface values of a polygon with a negative number", "negative")):
        refused(prog, rep, inst, f, S[s], lambda I: (I.obj_param("self", cc), [I.param("param", ("str",)), I.obj_param("building", bc)]), also=S["negative"])
    sim = Sim(prog)
    rep.use(sim.K)
    n, b = sim.setting("engine", "num_steps"), sim.setting("engine", "batch_size")
    for inst, bad in (("simulation with steps that do not fill whole batches", tm.neg(tm.cmp("==", mk("op", "%", n, b), const(0)))),):
        ok = contradicted(sim.start.guards, bad)
        if not ok:
            ok = None if touching(bad, sim.start.guards) else False
        rep.ob("refused", inst, ok, sim.init.where(), f"goes on although {tm.show(bad)}")

    # files
    wc = prog.cls("building3d.paths.wildcardpath.WildcardPath")
    fill = prog.method(wc, "fill")
    for inst, s in (("file pattern filled with too few values", "wrong_count"), ("file pattern filled with an unknown name", "wrong_key")):
        refused(prog, rep, inst, fill, S[s], lambda I: (I.obj_param("self", wc), [I.param("parent", ("str",))]), kw=lambda I: {"**": I.param("values", ("dict", ("str",), ("str",)))})

    def matching(I, st, fn, env):
        names = [a.arg for a in fn.node.args.args]
        return mk("call", "matching", (I.val(st, I.read_attr(st, env[names[0]], "path")), I.val(st, env[names[1]])), ())
    rb = prog.func(R + "dump_buffers.read_buffers")
    for inst, s in (("saved states without positions", "no_positions"), ("saved states without energies", "no_energies"), ("saved states without counts", "no_counts"),
                    ("saved states with unequal numbers of positions and energies", "uneven_energy"), ("saved states with unequal numbers of positions and counts", "uneven_hits")):
        refused(prog, rep, inst, rb, S[s], lambda I: (None, [I.param("path", ("str",)), I.obj_param("cfg", cc)]), hooks={prog.method(wc, "get_matching_paths_dict_values").qualname: matching, fill.qualname: lambda I, st, fn, env: mk("call", "filled", (), ())})
    for inst, s in ((".bim file of another program", "foreign"),):
        refused(prog, rep, inst, prog.func("building3d.io.dotbim.read_dotbim"), S[s], lambda I: (None, [I.param("path", ("str",))]))
    handlers(prog, rep)
