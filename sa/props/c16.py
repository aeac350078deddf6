"""C16: rays react to the nearest opaque surface ahead, if there is one."""
from __future__ import annotations

from .. import terms as tm
from ..core import differs, vague
from ..kernel import Kernel
from ..loader import AnalysisError
from ..rays import PRIMITIVES, R, Engine
from ..terms import FALSE, TRUE, ZERO, mk

EXPLANATION = (
    "Value-provenance dataflow over the target search and the ray loop. The search is checked by induction over its loop: from any best candidate so far, one round with a polygon keeps it or replaces it exactly as "
    "a nearest-of-the-hit-and-opaque rule demands, for every combination of the conditions involved. The projection test is compared with its definition. In the ray loop, every energy loss at a surface, reflection and move is "
    "checked against the target of the current position and direction: points, triangles, normal and absorption all belong to it, nothing happens without a target, and a move needs a fresh target that is far enough or absent.")
TECHNIQUE = "abstract interpretation of array kernels, inductive loop-step comparison, guarded-write obligations"
NOTE = "Holds for all positions, directions and polygon sets, over real numbers; what counts as inside a polygon is left to the point-in-polygon predicate."
MIN_OBLIGATIONS = 20

P_IN = "building3d.geom.polygon.ispointinside.is_point_inside_projection"
SPEC = '''
from building3d.geom.polygon.ispointinside import is_point_inside
from building3d.geom.polygon.plane import plane_coefficients
import numpy as np

def spec(ptest, v, pts, tri, fwd_only=True, atol=1e-5):
    a, b, c, d = plane_coefficients(pts)
    denom = a * v[0] + b * v[1] + c * v[2]
    if np.abs(denom) < atol:
        return is_point_inside(ptest, pts, tri, atol=atol)
    s = (-d - a * ptest[0] - b * ptest[1] - c * ptest[2]) / denom
    if fwd_only and s < 0:
        return False
    return is_point_inside(ptest + s * v, pts, tri, atol=atol)
'''


def check(prog, rep):
    search(prog, rep)
    projection(prog, rep)
    engine(prog, rep)


# ---------------------------------------------------------------- the search
def search(prog, rep):
    f = prog.func(PRIMITIVES["target"])
    names = [p.arg for p in f.node.args.args]
    if len(names) < 6:
        raise AnalysisError("the target search takes fewer arguments")
    n_pos, n_dir, n_pts, n_tri, n_tr, n_chk = names[:6]
    prim = {k: prog.func(q).qualname for k, q in (("distance", PRIMITIVES["distance"]), ("normal", PRIMITIVES["normal"]), ("inside", P_IN))}
    K = Kernel(prog, opaque=prim.values())
    _, rets = K.run(f, {n_pos: ("arr", 1), n_dir: ("arr", 1), n_pts: ("list", "arr"), n_tri: ("list", "arr"), n_tr: ("set",), n_chk: ("set",)})
    rep.use(K)
    b = lambda n: mk("base", n, "")
    recs = [r for r in K.loop_recs if r.kind == "seq" and r.count is tm.length(b(n_chk))]
    if len(recs) != 1:
        raise AnalysisError(f"expected one loop over the polygons to check in {f.qualname}, found {len(recs)}")
    r = recs[0]
    rep.ob("all-polygons-checked", f.name, not r.breaks and not r.end.dead, r.where, "the search stops before all nearby polygons have been checked")
    key = r.key
    pn = mk("elem", b(n_chk), r.index)
    pts, tri = mk("sel", b(n_pts), (pn,)), mk("sel", b(n_tri), (pn,))
    # the variable returned
    cands = [m for m in r.mods if m[0] == "e" and any(tm.contains(v, lambda y: y is K.head_sym(key + ("post",), m)) for _, v in rets)]
    if len(cands) != 1:
        raise AnalysisError("the result of the target search is not a single variable of its loop")
    mvar = cands[0]
    m, post = K.head_sym(key, mvar), K.head_sym(key + ("post",), mvar)
    for st, v in rets:
        for c, leaf in K.leaves(v):
            gs = st.guards + ((c,) if c is not TRUE else ())
            neg = K.implies(gs, tm.cmp("<", post, ZERO))
            ok = leaf is post or tm.is_num(leaf) and leaf[2] == -1 and neg
            rep.ob("returns-the-nearest", f"{f.name} returns {tm.show(leaf)[:40]}", True if ok else (None if vague(leaf) else False), r.where, "the returned number is not the best candidate, or 'no target' although there is one")
    first = K.get(r.entry, mvar)
    rep.ob("no-target-at-first", f.name, tm.is_num(first) and first[2] == -1, r.where, f"the search starts from {tm.show(first)[:60]}")
    end = K.get(r.end, mvar)
    # conditions of one round
    A = tm.cmp("in", pn, b(n_tr))
    ins = {t for t in tm.subterms(end) if t[0] == "call" and t[1] == prim["inside"]}
    good = {t for t in ins if t[2][:5] == (b(n_pos), b(n_dir), pts, tri, TRUE)}
    ok = len(ins) == 1 and ins == good
    rep.ob("hit-test", f.name, True if ok else (None if any(vague(t) for t in ins) else False), r.where,
           "the hit test is not made once, forward only, for this ray and this polygon" if not ok else "")
    if not ok:
        return
    B = next(iter(ins))
    vn = mk("call", prim["normal"], tuple(mk("sel", b(n_pts), (pn, tm.const(k))) for k in (-1, 0, 1)), ())
    ds = {t for t in tm.subterms(end) if t[0] == "call" and t[1] == prim["distance"]}
    dist = mk("call", prim["distance"], (b(n_pos), pts, tri, vn), ())
    rep.ob("distance-to-this-polygon", f.name, True if ds == {dist} else (None if any(vague(t) for t in ds) else False), r.where,
           f"distances compared: {', '.join(tm.show(t)[:140] for t in ds if t is not dist) or 'none'}")
    if ds != {dist}:
        return
    # best distance so far: looked up by the best number, or kept in a variable
    best = []
    for x in r.mods:
        h = K.head_sym(key, x)
        if x[0] == "a" and x[1].kind == "dict":
            best.append((x, mk("get", h, m)))
        elif x[0] == "e" and x is not mvar:
            best.append((x, h))
        elif x[0] == "a":
            best.append((x, mk("sel", h, (m,))))
    tried = []
    for x, bst in best:
        e = end
        if x[0] == "a":
            h = K.head_sym(key, x)
            e = tm.subst(end, {mk("get", mk("upd", h, (pn,), dist), m): bst, mk("sel", mk("upd", h, (pn,), dist), (m,)): bst})
        if not tm.contains(e, lambda y: y is bst):
            continue
        tried.append((x, bst, e))
    if not tried:
        rep.ob("keeps-the-nearest", f.name, None if vague(end) else False, r.where, "the choice does not compare with the best distance so far")
        return
    x, bst, e = tried[0]
    N, L, L2 = tm.cmp("<", m, ZERO), tm.cmp("<", dist, bst), tm.cmp("<", bst, dist)
    fb = K.get(r.entry, x)
    infinite = x[0] == "e" and (fb is mk("ext", "np.inf") or tm.show(fb) in ("inf", "float('inf')"))
    rep.count("combinations_of_conditions", 0)

    def value(t, a, i, n, l):
        mp = {A: tm.const(a), B: tm.const(i), N: tm.const(n), L: tm.const(l == "<"), L2: tm.const(l == ">")}
        for _ in range(4):
            t = tm.subst(t, mp)
        return t
    for a in (True, False):
        for i in (True, False):
            for n in (True, False):
                for l in "<=>":
                    rep.count("combinations_of_conditions", 1)
                    v = value(e, a, i, n, l)
                    if a or not i:
                        want = {m}
                    elif n:
                        want = {pn} if not infinite or l == "<" else {pn, m}
                    else:
                        want = {pn} if l == "<" else {m} if l == ">" else {pn, m}
                    inst = f"round with polygon {'transparent' if a else 'opaque'}, {'hit' if i else 'not hit'}, {'first candidate' if n else 'distance ' + l + ' best'}"
                    ok = v in want
                    rep.ob("keeps-the-nearest", inst, True if ok else (None if vague(v) else False), r.where, f"the best candidate becomes {tm.show(v)[:100]}" if not ok else "")
                    # the distance kept is that of the polygon kept
                    nb = value(K.get(r.end, x), a, i, n, l)
                    if x[0] == "e":
                        good = nb is (dist if v is pn else bst)
                    else:
                        h = K.head_sym(key, x)
                        good = nb is mk("upd", h, (pn,), dist) or v is not pn and nb is h
                    rep.ob("best-distance-belongs-to-best", inst, True if good else (None if vague(nb) else False), r.where, f"the distance kept becomes {tm.show(nb)[:100]}" if not good else "")


# ---------------------------------------------------------------- projection
def projection(prog, rep):
    f = prog.func(P_IN)
    opaque = [prog.func(q).qualname for q in ("building3d.geom.polygon.ispointinside.is_point_inside", "building3d.geom.polygon.plane.plane_coefficients")]
    names = [p.arg for p in f.node.args.args]
    kinds = lambda ns: {ns[0]: mk("p", "ptest"), ns[1]: mk("p", "v"), ns[2]: mk("p", "pts"), ns[3]: mk("p", "tri"), ns[4]: mk("p", "fwd_only"), ns[5]: mk("p", "atol")}
    K = Kernel(prog, opaque=opaque)
    _, got = K.run(f, kinds(names))
    m = prog.spec(SPEC)
    g = prog.funcs[m.name + ".spec"] if hasattr(m, "name") else prog.func("building3d._spec.spec")
    K2 = Kernel(prog, opaque=opaque)
    _, exp = K2.run(g, kinds([p.arg for p in g.node.args.args]))
    rep.use(K)
    agree(K, rep, "projection-test", f.name, got, exp, f.where())


def agree(K, rep, rule, inst, got, exp, where):
    """Two functions return the same under all conditions."""
    n = 0
    for s1, v1 in got:
        for s2, v2 in exp:
            gs = tuple(s1.guards) + tuple(s2.guards)
            if K.unsat([K.lift(g) for g in gs]):
                continue
            n += 1
            a, b = K.given(v1, gs), K.given(v2, gs)
            ok = a is b or K.same(a, b)
            if not ok:
                ok = differs(a, b)
                new = [g for g in s1.guards if any(vague(x) for x in (g,))]
                ok = None if new or any(differs(g, tm.conj(s2.guards)) is None for g in s1.guards) else ok
            rep.ob(rule, f"{inst} case {n}", ok, where, "" if ok else f"returns {tm.show(a)[:160]} where {tm.show(b)[:160]} is due")
    if n == 0:
        rep.ob(rule, inst, None, where, "no case in common with the definition")


# ---------------------------------------------------------------- the ray loop
def engine(prog, rep):
    E = Engine(prog)
    K = E.K
    K.nonneg.add(mk("p", "eps"))
    rep.use(K)
    rays = {r.key: r for r in E.ray_loops()}
    pos, vel, en = (E.root[k] for k in ("position", "velocity", "energy"))
    b = lambda n: mk("base", n, "")
    eps = mk("p", "eps")
    step = tm.mul(mk("p", "ray_speed"), mk("p", "time_step"))
    tgt, dst, nrm = (E.prim.get(k) for k in ("target", "distance", "normal"))
    if not tgt or not dst or not nrm:
        raise AnalysisError("the ray loop's target, distance or normal function was not found")

    def ray_of(loops):
        return next((rays[k].index for k in reversed(loops) if k in rays), None)

    # the lists handed to the search
    for q, args, arr, guards, loops, where, vals in K.calls:
        if q != tgt:
            continue
        ray = ray_of(loops)
        inst = f"target search at {where}"
        a = list(args.values())
        if ray is None:
            rep.ob("search-for-current-ray", inst, None, where, "search outside a loop over rays")
            continue
        for nm, got, exp in (("position", a[0], K.read(arr[pos], (ray,))), ("direction", a[1], K.read(arr[vel], (ray,)))):
            rep.ob("search-for-current-ray", f"{inst}: {nm}", True if got is exp else differs(got, exp), where, f"searched with {tm.show(got)[:120]}")
        for i, nm in ((2, "points"), (3, "triangles")):
            x = K.read(a[i], (mk("p", "?n"),))
            exp = mk("sel", mk("call", E.prim["unpack"], (b("points"), b("faces"), b("polygons"), mk("p", "?n")), ()), (tm.const(i - 2),))
            ok = x is exp
            rep.ob("search-in-all-surfaces", f"{inst}: {nm}", True if ok else differs(x, exp), where, f"polygon n is looked up as {tm.show(x)[:140]}")
            if ok:
                n = K.length(a[i])
                rep.ob("search-in-all-surfaces", f"{inst}: number of {nm}", True if n is tm.length(b("walls")) or tm.contains(n, lambda y: y in (b("walls"), b("polygons"))) else None, where, "")

    def facts(e, ray):
        """Target, distance and normal for the ray as it is at this event."""
        arr = e.arr
        if len(e.idx) == 2 and e.loops:
            # one component after the other: the ray as it was before the first
            arr = next((r.entry.arr for r in K.loop_recs if r.key == e.loops[-1] and r.index is e.idx[1] and r.entry is not None), arr)
            arr = next((x.arr for x in E.stores("position") if x.root is e.root and x.guards == e.guards and x.loops == e.loops and len(x.idx) == 2 and x.idx[0] is ray and tm.is_const(x.idx[1]) and tm.is_const(e.idx[1])), arr)
        p, v = K.read(arr[pos], (ray,)), K.read(arr[vel], (ray,))
        ts = {t for g in e.guards + (e.val,) for t in tm.subterms(g) if t[0] == "call" and t[1] == tgt}
        now = [t for t in ts if t[2][0] is p and t[2][1] is v]
        if not now:
            return None, ts
        t = sorted(now, key=tm.tkey)[0]
        pts, tri = K.read(t[2][2], (t,)), K.read(t[2][3], (t,))
        vn = mk("call", nrm, tuple(K.read(pts, (tm.const(k),)) for k in (-1, 0, 1)), ())
        d = mk("call", dst, (p, pts, tri, vn), ())
        return (t, pts, tri, vn, d, p, v), ts

    limits = []
    at_limit = {}             # whether a target exactly at the limit counts as close

    def limit(e, d, t):
        """The distance that counts as 'about to hit': x with d < x or x < d among the guards."""
        out = set()
        for g in e.guards:
            for x in tm.subterms(K.given(K.lift(g), (tm.neg(tm.cmp("<", t, ZERO)),))):
                if x[0] == "cmp" and x[1] == "<" and d in (x[2], x[3]):
                    out.add(x[3] if x[2] is d else x[2])
        return out

    for nm, root in (("energy", en), ("velocity", vel)):
        for e in E.stores(nm):
            ray = ray_of(e.loops)
            if ray is None or e.kind != "store" or not e.idx or e.idx[0] is not ray:
                continue
            cur = K.read(e.old, e.idx)
            if nm == "energy" and not any(x[0] == "sel" and x[1] is b("surf_absorption") for x in tm.subterms(e.val)):
                continue
            inst = f"{nm} at a surface, {e.where}"
            fs, ts = facts(e, ray)
            if fs is None:
                rep.ob("acts-on-current-target", inst, None if not ts or vague(e.val) else False, e.where, "the surface used was not found for the ray's current position and direction")
                continue
            t, pts, tri, vn, d, p, v = fs
            there = tm.neg(tm.cmp("<", t, ZERO))
            rep.ob("only-with-a-target", inst, K.implies(e.guards, there), e.where, "happens although there may be no target (number -1)")
            lim = limit(e, d, t)
            ok = [x for x in lim if K.implies(e.guards, tm.cmp("<", d, x)) or K.implies(e.guards, tm.cmp("<=", d, x))]
            st = True if ok else (None if any(vague(g) for g in e.guards) or not lim else False)
            if not lim and any(x[0] == "call" and x[1] == dst for g in e.guards for x in tm.subterms(g)):
                st = False
            rep.ob("only-when-close", inst, st, e.where, "not guarded by the distance of the ray to this target being small")
            limits += [(x, inst, e.where) for x in ok]
            at_limit.update((x, not K.implies(e.guards, tm.cmp("<", d, x))) for x in ok)
            if nm == "energy":
                ab = {x[2] for x in tm.subterms(e.val) if x[0] == "sel" and x[1] is b("surf_absorption")}
                rep.ob("target-absorption", inst, ab == {(t,)}, e.where, f"uses the absorption of {[tm.show(i)[:80] for a in ab for i in a if i is not t]}")
                # whenever a target is close, the ray reacts
                r = rays[next(k for k in reversed(e.loops) if k in rays)]
                e0 = K.read(r.head.arr[en], (ray,))
                live = [tm.cmp("<", eps, e0), tm.cmp("<", ZERO, e0), tm.cmp("<", eps, cur), tm.cmp("<", ZERO, cur), there]
                for x in ok:
                    for g in e.guards:
                        good = K.implies(live + [tm.cmp("<", d, x)], g) or stopped(E, K, live, g, ray)
                        rep.ob("reacts-whenever-close", inst, True if good else (None if vague(g) else False), e.where, f"a close target is ignored unless {tm.show(g)[:140]}" if not good else "")
            else:
                val = K.given(e.val, e.guards)
                exp = tm.sub(v, tm.scale(tm.mul(K.dot(vn, v), vn), 2))
                same = K.same(val, exp)
                rep.ob("mirror-at-target", inst, True if same else differs(val, exp), e.where, f"the direction becomes {tm.show(val)[:200]}" if not same else "")
    moves = 0
    for e in E.stores("position"):
        ray = ray_of(e.loops)
        if ray is None or not e.idx or e.idx[0] is not ray:
            continue
        moves += 1
        inst = f"move at {e.where}"
        fs, ts = facts(e, ray)
        if fs is None:
            rep.ob("fresh-target-before-move", inst, None if not ts or any(vague(g) for g in e.guards) else False, e.where, "the target was not determined for the direction the ray moves in")
            continue
        t, pts, tri, vn, d, p, v = fs
        cur = K.read(e.old, e.idx)
        vv = K.read(v, e.idx[1:])
        val = K.given(e.val, e.guards)
        exp = tm.add(cur, tm.mul(vv, mk("p", "time_step")))
        ok = K.same(val, exp)
        rep.ob("moves-along-current-direction", inst, True if ok else differs(val, exp), e.where, f"the position becomes {tm.show(val)[:200]}" if not ok else "")
        lim = limit(e, d, t)
        none = tm.cmp("<", t, ZERO)
        ok = [x for x in lim if K.implies(e.guards + (tm.neg(none),), tm.cmp("<", x, d)) or K.implies(e.guards + (tm.neg(none),), tm.cmp("<=", x, d))]
        rep.ob("moves-only-if-free", inst, True if ok else (None if any(vague(g) for g in e.guards) else False), e.where, "the ray moves although its target may be closer than one step")
        limits += [(x, inst, e.where) for x in ok]
        r = rays[next(k for k in reversed(e.loops) if k in rays)]
        live = [tm.cmp("<", eps, K.read(a[en], (ray,))) for a in (r.head.arr, e.arr)] + [tm.cmp("<", ZERO, K.read(a[en], (ray,))) for a in (r.head.arr, e.arr)]
        for x in ok:
            for how, free in (("no target", [none] + [tm.cmp("<", x, i) for i in INF] + [tm.neg(tm.cmp("<", i, x)) for i in INF]),
                              ("target not close", [tm.neg(none), tm.cmp("<", x, d) if at_limit.get(x) else tm.neg(tm.cmp("<", d, x))])):
                for g in e.guards:
                    good = K.implies(live + free, g) or stopped(E, K, live, g, ray)
                    rep.ob("moves-whenever-free", f"{inst}: {how}", True if good else (None if vague(g) else False), e.where, f"a ray with energy left and {how} moves only if also {tm.show(g)[:140]}" if not good else "")
    rep.ob("rays-move", "ray loop", moves > 0, E.f.where(), "no write to the positions found")
    for x, inst, where in limits:
        k = ratio(x, step)
        rep.ob("close-covers-one-step", inst, True if k is not None and k >= 1 else (False if k is not None or not vague(x) and not tm.contains(x, lambda y: y[0] == "call") else None), where,
               f"'close' means {tm.show(x)[:80]}, less than the way covered in one step" if k is None or k < 1 else "")
    rep.count("searches", sum(1 for c in K.calls if c[0] == tgt))


INF = (mk("ext", "np.inf"), mk("ext", "math.inf"), mk("call", "float", (tm.const("inf"),), ()))


def stopped(E, K, live, g, ray):
    """Where the condition fails, the ray was just stopped: its energy was set to zero."""
    return any(z.kind == "store" and z.idx == (ray,) and z.val in (ZERO, tm.const(0.0)) and all(K.implies(live + [tm.neg(g)], h) for h in z.guards) for z in E.stores("energy"))


def ratio(x, step):
    """x = k * step"""
    if x is step:
        return 1
    if x[0] == "sum" and len(x[1]) == 1 and x[2] == 0 and x[1][0][0] is step:
        return x[1][0][1]
    return None
