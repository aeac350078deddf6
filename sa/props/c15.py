"""C15: the voxel search never misses a polygon close to the ray."""
from __future__ import annotations

from itertools import product

from .. import terms as tm
from ..core import vague
from ..kernel import FULL, NONE, Kernel
from ..loader import AnalysisError
from ..rays import PRIMITIVES, R, Engine, Sim
from ..terms import ZERO, mk

EXPLANATION = (
    "Value-provenance dataflow over the grid construction, the neighbour search and the ray loop. The cells created are compared with the cells a box of the given extent can touch; the condition under which a polygon is left "
    "out of a cell is shown to imply that the polygon lies strictly on one side of the cell along an axis; listed numbers are shown to be written to consecutive slots and to be kept whole; the search is shown to add every "
    "polygon of each of the 27 cells; the cell of a ray is compared with the rounding used for the grid.")
TECHNIQUE = "abstract interpretation of array kernels, guarded-write obligations, comparison of normal forms"
NOTE = "Holds for all polygons, grid steps and positions over real numbers; rounding of the range's end points is not modelled."
MIN_OBLIGATIONS = 45


def check(prog, rep):
    grid(prog, rep)
    neighbours(prog, rep)
    engine(prog, rep)
    handover(prog, rep)


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def is_floor(t, step):
    """int(floor(x / step)) -> x"""
    while t[0] == "call" and t[1] in ("int", "builtins.int", "np.int64", "np.int32", "np.intp") or t[0] == "mcall" and t[2] in ("astype", "item"):
        t = t[2][0] if t[0] == "call" else t[1]
    if t[0] == "call" and t[1] in ("floor", "np.floor", "math.floor"):
        return over(t[2][0], step)
    if t[0] == "op" and t[1] == "//" and t[3] is step:
        return t[2]
    return None


def over(t, step):
    """The x with t = x / step."""
    if t[0] == "op" and t[1] == "/" and t[3] is step:
        return t[2]
    for x in tm.subterms(t):
        if x[0] in ("elem", "sel") and t in (tm.div(x, step), tm.mul(x, tm.div(tm.ONE, step))):
            return x
    return None


# ---------------------------------------------------------------- the grid
def grid(prog, rep):
    f = prog.func(R + "voxel_grid.make_voxel_grid")
    names = [p.arg for p in f.node.args.args]
    if len(names) < 4:
        raise AnalysisError("the grid construction takes fewer arguments")
    n_lo, n_hi, n_pts, n_step = names[:4]
    P = lambda n: mk("p", n)
    lo, hi = [P(f"lo{k}") for k in range(3)], [P(f"hi{k}") for k in range(3)]
    step = P(n_step)
    K = Kernel(prog, opaque=[prog.func(PRIMITIVES["log"]).qualname])
    K.nonneg.add(P("eps"))
    K.nonneg.add(step)
    _, rets = K.run(f, {n_lo: tm.tup(lo), n_hi: tm.tup(hi), n_pts: ("list", "arr")})
    rep.use(K)
    pts = mk("base", n_pts, "")
    refs = {v for _, v in rets}
    if len(refs) != 1 or next(iter(refs))[0] != "ref":
        raise AnalysisError("the voxel grid is not one dictionary")
    root = K.roots[next(iter(refs))[1]]
    fills = [e for e in K.events if e.root is root and e.kind in ("store", "mutate")]
    if not fills:
        raise AnalysisError("nothing is stored in the voxel grid")
    rec = {r.key: r for r in K.loop_recs}
    cells = {}
    for e in fills:
        rep.count("grid_writes", 1)
        ok = e.kind == "store" and len(e.idx) == 1
        rep.ob("cell-written-once", e.where, ok, e.where, "a cell of the grid is changed in place")
        if not ok:
            continue
        key = e.idx[0]
        comp, ks = cell(K, rep, rec, e, key, lo, hi, step)
        if comp is not None:
            listed(K, rep, rec, e, comp, pts, step)


def cell(K, rep, rec, e, key, lo, hi, step):
    """The terms of the cell's three numbers, with obligations that all needed cells are made."""
    if key[0] == "tuple":
        gen, comp, loops, guards = key[1], key[1], e.loops, e.guards
        where = e.where
    else:
        b = key
        while b[0] in ("sel", "elem"):
            b = b[1]
        if b[0] == "gen" and key[0] == "sel" and len(key[2]) == 1:
            raise AnalysisError("unrecognised list of cells")
        if b[0] != "base":
            rep.ob("cells-known", e.where, None, e.where, f"the cells {tm.show(key)[:80]} could not be interpreted")
            return None, None
        made = [x for x in K.events if x.root is not None and x.root.name == b[1] and x.kind in ("store", "mutate")]
        if len(made) != 1 or len(made[0].val[1] if made[0].val[0] == "tuple" else ()) != 1 or made[0].val[1][0][0] != "tuple":
            rep.ob("cells-known", e.where, None, e.where, "the list of cells could not be interpreted")
            return None, None
        m = made[0]
        gen, loops, guards, where = m.val[1][0][1], m.loops, m.guards, m.where
        last = rec.get(e.loops[0]) if e.loops else None
        full = last is not None and last.count is tm.length(b) and not last.breaks
        rep.ob("all-cells-filled", e.where, verdict(full, last.count if last is not None and last.count is not None else ZERO), e.where, "not every cell of the grid gets its polygons")
        comp = [component(key, k) for k in range(3)]
    if len(gen) != 3:
        rep.ob("cells-known", where, False, where, "a cell is not numbered by three coordinates")
        return None, None
    rep.ob("cells-unconditional", where, not guards, where, "cells are left out under some condition")
    for L in loops:
        r = rec.get(L)
        if r is not None:
            rep.ob("cells-complete", f"{where} loop at line {L[-1][0]}", not r.breaks, r.where, "the numbering of cells stops early")
    used = set()
    for k in range(3):
        x = is_floor(gen[k], step)
        it = x[1] if x is not None and x[0] == "elem" else None
        ok = it is not None and it[0] == "call" and it[1] in ("np.arange", "arange") and len(it[2]) == 3
        rep.ob("cell-rounding", f"axis {k}", verdict(ok, gen[k]), where, f"the cell number {tm.show(gen[k])[:100]} is not the rounded-down coordinate divided by the cell size")
        if not ok:
            continue
        a, b, st = it[2]
        used.add(x)
        rep.ob("cell-spacing", f"axis {k}", verdict(st is step, st), where, f"the sampled coordinates are {tm.show(st)[:40]} apart, not one cell")
        ge = lambda u, v: K.implies([], tm.neg(tm.cmp("<", u, v)))
        rep.ob("range-start", f"axis {k}", verdict(ge(lo[k], a), a), where, f"the cells start at {tm.show(a)[:60]}, which may lie above the lowest coordinate")
        rep.ob("range-end", f"axis {k}", verdict(ge(b, tm.add(hi[k], step)), b), where, f"the cells end before {tm.show(b)[:60]}, which may be less than one cell beyond the highest coordinate")
    rep.ob("cell-axes", where, len(used) in (3,) or None, where, "two coordinates of a cell come from one range")
    return comp, gen


def listed(K, rep, rec, e, comp, pts, step):
    """The value stored for a cell lists every polygon not strictly on one side."""
    v = e.val
    cnt = None
    if v[0] == "sel" and len(v[2]) == 1 and v[2][0][0] == "slice" and v[2][0][3] in (NONE, tm.ONE):
        if v[2][0][1] not in (NONE, ZERO):
            rep.ob("list-kept-whole", e.where, verdict(False, v[2][0][1]), e.where, "the start of a cell's list is cut off")
            return
        cnt, v = v[2][0][2], v[1]
    while v[0] == "call" and v[1] in ("np.array", "np.asarray") and v[2]:
        v = v[2][0]
    names = chain(v)
    ls = [r for r in {x.root for x in K.events if x.root is not None and len(x.loops) > len(e.loops)} if r.name in names]
    if len(ls) != 1:
        rep.ob("list-known", e.where, None, e.where, f"the list {tm.show(v)[:80]} of a cell could not be interpreted")
        return
    ws = [x for x in K.events if x.root is ls[0] and x.kind in ("store", "mutate")]
    rep.count("list_writes", len(ws))
    ws = [x for x in ws if x.loops]
    rep.ob("list-written", e.where, len(ws) == 1 or (None if ws else False), e.where, f"polygon numbers are written to the list at {len(ws)} places")
    if len(ws) != 1:
        return
    w = ws[0]
    L = rec.get(w.loops[-1])
    if L is None:
        raise AnalysisError("the loop over polygons was not found")
    full = L.count is tm.length(pts) and not L.breaks
    rep.ob("all-polygons-considered", w.where, verdict(full, L.count or ZERO), L.where, "not every polygon is considered for a cell")
    val = w.val[1][0] if w.kind == "mutate" and w.val[0] == "tuple" and len(w.val[1]) == 1 else w.val
    rep.ob("own-number", w.where, verdict(val is L.index, val), w.where, f"the number written is {tm.show(val)[:60]}, not the polygon considered")
    # slots
    if w.kind == "store":
        ok = len(w.idx) == 1
        c = w.idx[0] if ok else ZERO
        m = next((m for m in L.mods if m[0] == "e" and K.head_sym(L.key, m) is c), None)
        if m is None:
            rep.ob("own-slot", w.where, verdict(False, c), w.where, f"the slot {tm.show(c)[:60]} is not a running counter")
        else:
            first, end, post = K.get(L.entry, m), K.get(L.end, m), K.head_sym(L.key + ("post",), m)
            rep.ob("slots-from-zero", w.where, first is ZERO or verdict(False, first), w.where, f"the slots start at {tm.show(first)[:40]}")
            for c2, leaf in K.leaves(end):
                gs = (c2,)
                stored = all(K.implies(gs, g) for g in w.guards)
                skipped = K.unsat([K.lift(g) for g in gs + tuple(w.guards)])
                want = tm.add(c, tm.ONE) if stored else c if skipped else None
                rep.ob("next-slot", f"{w.where} after {tm.show(leaf)[:30]}", verdict(leaf is want, leaf) if want is not None else None, w.where, "a written slot is not followed by the next one, so listed polygons are overwritten or lost")
            rep.ob("list-kept-whole", e.where, verdict(cnt is post, cnt or ZERO), e.where, "the list of a cell is not cut exactly behind the last number written")
    else:
        rep.ob("list-kept-whole", e.where, verdict(cnt is None, cnt or ZERO), e.where, "the list of a cell is cut")
    # nothing between the loop and the cell's value
    rep.ob("filled-for-each-cell", e.where, bool(e.loops) and e.loops == w.loops[:len(e.loops)] or None, e.where, "the list is not the one filled for this cell")
    rep.ob("cell-stored", e.where, not e.guards or None, e.where, "the list of a cell is stored under some condition")
    # the condition under which a polygon is left out
    sides = []
    pn = L.index
    for k in range(3):
        col = mk("sel", pts, (pn, FULL, tm.const(k)))
        a = tm.mul(comp[k], step)
        sides.append(tm.cmp("<", mk("mcall", col, "max", (), ()), a))
        sides.append(tm.cmp("<", tm.add(a, step), mk("mcall", col, "min", (), ())))
    neither = [tm.expand(tm.neg(s)) for s in sides]
    for i, g in enumerate(w.guards):
        rep.count("drop_conditions", 1)
        ok = K.implies(neither, tm.expand(g))
        rep.ob("drop-condition", f"{w.where} [{i}] {tm.show(g)[:80]}", verdict(ok, g), w.where, "a polygon can be left out of a cell although it does not lie strictly on one side of it along an axis")


def chain(v):
    """Names of the arrays whose contents v is."""
    if v[0] == "sel":
        return chain(v[1])
    if v[0] == "upd":
        return chain(v[1]) or chain(v[3])
    if v[0] == "phi":
        return chain(v[2]) | chain(v[3])
    if v[0] == "mix":
        return set().union(*[chain(x) for x in v[1:] if isinstance(x, tm.T)])
    if v[0] == "fill":
        return set()
    return {v[1]} if v[0] == "base" else {t[2] for t in tm.subterms(v) if t[0] == "head"}


# ---------------------------------------------------------------- the neighbour search
def neighbours(prog, rep):
    f = prog.func(PRIMITIVES["nearby"])
    names = [p.arg for p in f.node.args.args]
    if len(names) < 4:
        raise AnalysisError("the neighbour search takes fewer arguments")
    K = Kernel(prog)
    _, rets = K.run(f, {names[3]: ("dict",)})
    rep.use(K)
    g = mk("base", names[3], "")
    xyz = [mk("p", n) for n in names[:3]]
    outs = {v for _, v in rets}
    ok = len(outs) == 1 and next(iter(outs))[0] == "ref"
    if not ok:
        raise AnalysisError("the neighbour search does not return one set")
    root = K.roots[next(iter(outs))[1]]
    found = {}
    for e in K.events:
        if e.root is not root:
            continue
        if e.fn in ("discard", "remove", "pop", "clear", "difference_update", "intersection_update") or e.kind not in ("mutate", "store"):
            rep.ob("nothing-removed", e.where, False, e.where, "polygons are taken out of the result")
            continue
        for v in (e.val[1] if e.val[0] == "tuple" else (e.val,)):
            src = v[1] if v[0] == "elem" else v
            key = None
            if src[0] in ("get",) and src[1] is g:
                key = src[2]
            elif src[0] == "sel" and src[1] is g:
                key = src[2][0]
            if key is None or key[0] != "tuple" or len(key[1]) != 3:
                rep.ob("cells-searched", e.where, verdict(False, v), e.where, f"{tm.show(v)[:80]} is not a polygon of a cell of the grid")
                continue
            off = [tm.sub(c, x) for c, x in zip(key[1], xyz)]
            if not all(tm.is_num(o) for o in off):
                rep.ob("cells-searched", e.where, None, e.where, f"the cell {tm.show(key)[:80]} could not be placed next to the ray's")
                continue
            o = tuple(int(x[2]) for x in off)
            has = tm.cmp("in", key, g)
            ok = all(K.implies([has], c) for c in e.guards)
            rep.ob("cell-condition", f"cell {o}", verdict(ok, *e.guards), e.where, f"the polygons of cell {o} are added only under a condition")
            loops = [r for r in K.loop_recs if r.key in e.loops]
            whole = all(not r.breaks for r in loops) and (v[0] != "elem" or any(r.count is tm.length(src) for r in loops))
            rep.ob("cell-whole", f"cell {o}", verdict(whole, src), e.where, f"not all polygons of cell {o} are added")
            if ok and whole:
                found[o] = e
    unknown = any(o[0] == "cells-searched" and o[2] is None for o in rep.obs)
    for o in product((-1, 0, 1), repeat=3):
        rep.ob("neighbour-searched", f"cell {o}", o in found or (None if unknown else False), f.where(), f"the polygons of the cell at offset {o} are not found")


# ---------------------------------------------------------------- the cell of a ray
def engine(prog, rep):
    E = Engine(prog)
    K = E.K
    rep.use(K)
    near = E.prim.get("nearby")
    names = [p.arg for p in prog.func(PRIMITIVES["nearby"]).node.args.args][:4]
    step = mk("p", "grid_step")
    calls = [c for c in K.calls if c[0] == near]
    if not calls:
        raise AnalysisError("the ray loop does not search for nearby polygons")
    for q, args, arr, guards, loops, where, vals in calls:
        rep.ob("engine-grid", where, verdict(args[names[3]] is mk("base", "grid", ""), args[names[3]]), where, "the search is not made in the grid given to the engine")
    # cells: from the position of the ray being moved
    tgt = E.prim.get("target")
    tn = [p.arg for p in prog.func(PRIMITIVES["target"]).node.args.args]
    n = 0
    for q, args, arr, guards, loops, where, vals in K.calls:
        if q != tgt:
            continue
        n += 1
        got = args[tn[5]]
        pos = args[tn[0]]
        for c, leaf in K.leaves(got):
            ok = leaf[0] == "call" and leaf[1] == near
            rep.ob("searched-nearby", where, verdict(ok, leaf), where, f"the target is searched among {tm.show(leaf)[:80]}, not among the polygons near the ray")
            if not ok:
                continue
            for k in range(3):
                x = is_floor(leaf[2][k], step)
                want = component(pos, k)
                ok = x is want
                rep.ob("ray-cell", f"{where} axis {k}", verdict(ok, leaf[2][k]), where, f"the cell number {tm.show(leaf[2][k])[:120]} is not the ray's coordinate {k} divided by the cell size, rounded down")
    if not n:
        raise AnalysisError("the ray loop does not search for targets")


def component(pos, k):
    return mk("sel", pos[1], pos[2] + (tm.const(k),)) if pos[0] == "sel" else mk("sel", pos, (tm.const(k),))


# ---------------------------------------------------------------- the run
def handover(prog, rep):
    S = Sim(prog)
    K = S.K
    rep.use(K)
    mg = prog.funcs[S.q["grid"]]
    un = S.q.get("unpack")
    n_lo, n_hi, n_pts, n_step = [p.arg for p in mg.node.args.args][:4]
    grids, loops = S.calls("grid"), S.calls("loop")
    if not grids or not loops:
        raise AnalysisError("the run does not make a grid and enter the ray loop")
    for c in loops:
        a = c[1]
        g = a["grid"]
        ok = g[0] == "call" and g[1] == S.q["grid"]
        rep.ob("run-grid", c[5], verdict(ok, g), c[5], "the ray loop is not given the grid made for this run")
        if not ok:
            continue
        mk_args = next((d[1] for d in grids), None)
        pts = a["points"]
        for k in range(3):
            for nm, op in ((n_lo, "min"), (n_hi, "max")):
                want = mk("mcall", flat(pts, FULL, tm.const(k)), op, (), ())
                got = part(mk_args[nm], k)
                alt = mk("sel", mk("mcall", pts, op, (), (("axis", ZERO),)), (tm.const(k),))
                rep.ob("run-extent", f"{op} of axis {k}", verdict(got in (want, alt), got), c[5], f"the grid's {op} along axis {k} is {tm.show(got)[:80]}")
        rep.ob("run-cell-size", c[5], verdict(mk_args[n_step] is a["grid_step"], mk_args[n_step], a["grid_step"]), c[5], "grid and ray loop use different cell sizes")
        got = mk_args[n_pts]
        ok = got[0] == "gen" and got[3] is tm.length(a["walls"])
        if ok:
            v = got[2]
            ok = v[0] == "sel" and v[2] == (ZERO,) and v[1][0] == "call" and v[1][1] == un and tuple(v[1][2][:4]) == (pts, a["faces"], a["polygons"], got[1])
        rep.ob("run-polygons", c[5], verdict(ok, got), c[5], "the grid is not made for the points of all polygons in their numbering")


def flat(t, *idx):
    return mk("sel", t[1], t[2] + idx) if t[0] == "sel" else mk("sel", t, idx)


def part(t, k):
    return t[1][k] if t[0] == "tuple" and len(t[1]) == 3 else mk("sel", t, (tm.const(k),))
