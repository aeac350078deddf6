"""C09: repeated queries answer for the current request and the current model."""
from __future__ import annotations

import ast

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..links import assignments, atoms, value
from ..leftovers import changing_globals, outliving
from ..loader import AnalysisError
from ..scan import all_nodes
from ..terms import NONE, const, mk
from . import c08

EXPLANATION = (
    "Typestate analysis of the building's graph cache by induction over calls: starting from a new building, and from any state in which cached "
    "answers are right, a request with any level and flags (or adding a zone, or stitching) is followed by another request; every value that the "
    "second request can return must be the graph of its own level and flags, or a cached one that was already right for exactly that request. "
    "Effect analysis of the search for transparent polygons: it must not read or write state that outlives the call (module-level containers, "
    "function attributes, mutable defaults, memoising decorators, fields of the building) and must return a new object.")
TECHNIQUE = "typestate analysis of cached answers (case split over return conditions) and effect analysis of state outliving a call"
NOTE = ("Holds for all sequences of requests and building-level modifications. Changes made directly to zones, solids or walls behind the "
        "building's back are outside the statement.")
MIN_OBLIGATIONS = 40
G = "building3d.geom."
LEVELS = ("polygon", "wall", "solid", "zone")
SPEC = '''
from building3d.geom.building import Building
def ask(b, level, f, o, t):
    return b.get_graph(False, level, f, o, t)
def first(name, level, f, o, t):
    b = Building([], name)
    return b.get_graph(False, level, f, o, t)
def again(b, new, level1, f1, o1, t1, level, f, o, t):
    b.get_graph(new, level1, f1, o1, t1)
    return b.get_graph(False, level, f, o, t)
def fresh(b, level, f, o, t):
    return b.get_graph(True, level, f, o, t)
def added(b, z, level, f, o, t):
    b.add_zone(z)
    return b.get_graph(False, level, f, o, t)
def stitched(b, level, f, o, t):
    b.stitch_solids()
    return b.get_graph(False, level, f, o, t)
'''


def lift(t):
    """Moves conditionals out of comparisons and lengths, so that conditions become propositional formulas."""
    k = t[0]
    if k in ("and", "or"):
        xs = [lift(x) for x in t[1]]
        return tm.conj(xs) if k == "and" else tm.disj(xs)
    if k == "not":
        return tm.neg(lift(t[1]))
    if k == "phi":
        c, a, b = lift(t[1]), lift(t[2]), lift(t[3])
        return mk("phi", c, a, b) if a is not b else a
    if k == "cmp":
        for i in (2, 3):
            x = t[i]
            if x[0] == "phi":
                arm = lambda y: lift(tm.cmp(t[1], *((y, t[3]) if i == 2 else (t[2], y))))
                return mk("phi", lift(x[1]), arm(x[2]), arm(x[3]))
    return t


def leaves(t, env):
    """The value of nested conditionals for an assignment of the atomic conditions."""
    while t[0] == "phi":
        t = t[2] if value(t[1], env) else t[3]
    return t


def conds(t, out):
    if t[0] == "phi":
        for a in atoms(t[1]):
            if a not in out:
                out.append(a)
        conds(t[2], out)
        conds(t[3], out)
    return out


def lift_value(t):
    if t[0] == "phi":
        return mk("phi", lift(t[1]), lift_value(t[2]), lift_value(t[3]))
    return t


def eqs(env):
    """Equalities that hold under an assignment, as pairs; tuples element by element."""
    out = []
    for a, v in env.items():
        if a[0] == "cmp" and a[1] in ("==", "is") and v:
            out.append((a[2], a[3]))
    return out


def classes(env):
    parent = {}

    def find(x):
        while parent.get(x, x) is not x:
            x = parent[x]
        return x

    def union(x, y):
        x, y = find(x), find(y)
        if x is not y:
            parent[x] = y
    todo = eqs(env)
    for _ in range(3):
        more = []
        for x, y in todo:
            union(x, y)
            if x[0] == y[0] == "tuple" and len(x[1]) == len(y[1]):
                more += list(zip(x[1], y[1]))
        members = {}
        for x in list(parent) + [y for p in todo for y in p]:
            members.setdefault(find(x), []).append(x)
        for ms in members.values():
            tups = [m for m in ms if m[0] == "tuple"]
            for m in tups[1:]:
                if len(m[1]) == len(tups[0][1]):
                    more += list(zip(tups[0][1], m[1]))
        todo = more
    return find


def same(find, x, y):
    if find(x) is find(y):
        return True
    if x[0] == y[0] == "tuple" and len(x[1]) == len(y[1]):
        return all(same(find, a, b) for a, b in zip(x[1], y[1]))
    return False


def consistent(env, find):
    for a, v in env.items():
        if a[0] == "cmp" and a[1] in ("==", "is") and not v and same(find, a[2], a[3]):
            return False
    cs = {}
    for a, v in env.items():
        if a[0] == "cmp" and a[1] in ("==", "is") and v:
            for x in (a[2], a[3]):
                if tm.is_const(x):
                    r = find(x)
                    if cs.setdefault(r, x) is not x:
                        return False
                if x is NONE and any(find(z) is find(x) and (z[0] == "tuple" or z[0] == "p") for z in (a[2], a[3])):
                    return False
    for a, v in env.items():         # an empty container has no elements
        if v and a[0] == "cmp" and a[1] == "==" and a[2] is tm.ZERO and tm.cmp("<", tm.ZERO, a[3]) in env and env[tm.cmp("<", tm.ZERO, a[3])]:
            return False
    return True


def setup(prog, rep):
    I = Interp(prog)
    for lv in LEVELS:
        I.hooks[prog.func(f"{G}building.graph.graph_{lv}").qualname] = c08.level_hook(lv)
    sq = prog.func(G + "solid.stitch.stitch_solids").qualname
    I.hooks[sq] = lambda I, st, fn, env: NONE
    return I


def result(prog, rep, S, name, make):
    I = setup(prog, rep)
    st = I.start()
    v = I.run(st, S[name], make(I))
    rep.use(I)
    if st.dead:
        return I, None
    return I, lift_value(I.val(st, v))


def check_cache(prog, rep):
    S = prog.spec(SPEC)
    cls = prog.cls(G + "building.Building")
    w = {n: prog.method(cls, n) for n in ("get_graph", "add_zone", "stitch_solids")}
    for n, f in w.items():
        if f is None:
            raise AnalysisError(f"anchor not found: Building.{n}")
    bobj = lambda I: I.obj_param("b", cls)
    flags = lambda I, p: [I.param(p + n, ("bool",)) for n in ("facing", "overlapping", "touching")]
    for lv in LEVELS:
        _, before = result(prog, rep, S, "ask", lambda I: [bobj(I), const(lv), *flags(I, "")])
        judge(prog, rep, "request", f"new building:{lv}", w["get_graph"], *result(
            prog, rep, S, "first", lambda I: [I.param("name", ("str",)), const(lv), *flags(I, "")]), lv, None)
        judge(prog, rep, "request-fresh", f"fresh:{lv}", w["get_graph"], *result(
            prog, rep, S, "fresh", lambda I: [bobj(I), const(lv), *flags(I, "")]), lv, None)
        for l1 in LEVELS:
            judge(prog, rep, "request-after-request", f"{lv} after {l1}", w["get_graph"], *result(
                prog, rep, S, "again", lambda I: [bobj(I), I.param("new", ("bool",)), const(l1), *flags(I, "earlier_"), const(lv), *flags(I, "")]), lv, before)
        judge(prog, rep, "request-after-adding", lv, w["add_zone"], *result(
            prog, rep, S, "added", lambda I: [bobj(I), I.obj_param("z", I.class_named("Zone")), const(lv), *flags(I, "")]), lv, None)
        judge(prog, rep, "request-after-stitching", lv, w["stitch_solids"], *result(
            prog, rep, S, "stitched", lambda I: [bobj(I), const(lv), *flags(I, "")]), lv, None)


def judge(prog, rep, rule, inst, f, I, got, lv, before):
    w = f.where()
    if got is None:
        rep.ob(rule, inst, False, w, "the request never returns")
        return
    fl = tuple(mk("p", n) for n in ("facing", "overlapping", "touching"))
    names = conds(got, [])
    if before is not None:
        conds(before, names)
    if len(names) > 14:
        rep.ob(rule, inst, None, w, f"too many conditions: {len(names)}")
        return
    n = 0
    for env in assignments(names, {}):
        find = classes(env)
        if not consistent(env, find):
            continue
        n += 1
        leaf = leaves(got, env)
        if leaf[0] == "call" and leaf[1].startswith("graph:"):
            ok = leaf[1] == "graph:" + lv and len(leaf[2]) == 4 and all(same(find, a, b) for a, b in zip(leaf[2][1:], fl))
            d = f"the answer is {tm.show(leaf)}"
            if not ok and len(leaf[2]) == 5:
                ok, d = (None if vague(leaf[2][4]) else False), f"the answer is derived from {tm.show(leaf[2][4])[:200]}"
        elif before is not None and leaf is leaves(before, env):
            ok, d = True, ""
        else:
            ok = None if vague(leaf) or leaf[0] not in ("attr", "item", "call", "c") else False
            d = f"the answer is {tm.show(leaf)[:200]}"
        if ok is not True:
            truth = [tm.show(a)[:80] if v else "not " + tm.show(a)[:80] for a, v in env.items()]
            rep.ob(rule, inst, ok, w, f"{d} for a request of level {lv} with flags {[tm.show(x) for x in fl]}, when {truth}")
            return
    rep.ob(rule, inst, True, w)
    rep.count("cases_examined", n)


def cache_fields(prog):
    """Fields of a building in which requests keep their answers, and the functions that maintain them."""
    cls = prog.cls(G + "building.Building")
    ask = prog.method(cls, "get_graph")
    I = setup(prog, None)
    st = I.start()
    I.run(st, ask, [I.obj_param("b", cls), I.param("new", ("bool",)), I.param("level", ("str",))] + [I.param(n, ("bool",)) for n in "fot"])
    return {e.args[1] for e in I.effects if e.kind == "setattr"}, set(I.seen_funcs)


def check_stateless(prog, rep):
    f = prog.func("building3d.sim.rays.find_transparent.find_transparent")
    I = Interp(prog)
    for lv in LEVELS:
        I.hooks[prog.func(f"{G}building.graph.graph_{lv}").qualname] = c08.level_hook(lv)
    st = I.start()
    b = I.obj_param("building", I.class_named("Building"))
    v = I.run(st, f, [b])
    rep.use(I)
    w = f.where()
    fresh = v[0] == "obj"
    rep.ob("own-result", f.qualname, True if fresh else (None if vague(v) else False), w, f"returns {tm.show(v)[:200]}, which is not a new object")
    if fresh:
        for e in I.effects:
            if e.kind in ("store", "setattr", "append", "add") and any(x is v for x in e.args[1:]):
                rep.ob("own-result", f.qualname, False, e.where, f"the result is also kept in {tm.show(e.args[0])[:100]}")
    for e in I.effects:
        if e.kind == "setattr" and e.args[0][0] != "obj":
            rep.ob("no-leftovers", f"{f.qualname}:{e.args[1]}", False, e.where, f"stores {e.args[1]} on {tm.show(e.args[0])[:100]}")
    n = 0
    J = c08.graph_run(prog, rep, prog.spec(c08.SPEC))[0]
    changing = changing_globals(prog)
    kept, keepers = cache_fields(prog)
    for q in sorted(I.seen_funcs | J.seen_funcs):
        g = prog.funcs.get(q)
        if g is None or g.module.relpath == "spec":
            continue
        n += 1
        bad = list(outliving(prog, g, changing))
        rep.ob("no-leftovers", q, not bad, g.where(bad[0][0]) if bad else g.where(), "; ".join(t for _, t in bad))
        for x in all_nodes(g):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in kept and q not in keepers:
                rep.ob("no-leftovers", f"{q}:{x.attr}", False, g.where(x), f"reads field {x.attr}, in which earlier requests leave their answers")
        # fields of the model as a hidden memory
        for x in all_nodes(g):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and g.name != "__init__":
                rep.ob("no-leftovers", f"{q}:{x.attr}", False, g.where(x), f"stores a result in field {x.attr}")
    rep.count("functions_checked_for_state", n)


def check(prog, rep):
    check_cache(prog, rep)
    check_stateless(prog, rep)
