"""C10: transparent polygons are exactly the facing pairs inside one zone, and rays pass exactly these."""
from __future__ import annotations

from .. import terms as tm
from ..core import vague
from ..kernel import Kernel
from ..loader import AnalysisError
from ..rays import PRIMITIVES, R, Engine, Sim
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, mk

EXPLANATION = (
    "Value-provenance dataflow over the search for transparent polygons, the creation and run of a simulation and the ray loop. Every path added to the result is traced to a pair of the facing graph of the given building, and "
    "the conditions it is added under are shown equivalent to: the pair lies in one zone. The set of numbers given to the ray loop is traced to the reported paths when the search is enabled and to no polygon when it is "
    "disabled, and the set used by every target search to the one given.")
TECHNIQUE = "abstract interpretation with guarded-effect obligations, end-to-end value provenance"
NOTE = "Relies on C08/C20 for the symmetry of the facing graph, on C02 for the lookup by path, on C06 for polygon numbers and on C16 for the use of the set in the target search."
MIN_OBLIGATIONS = 14

GRAPH = "building3d.geom.building.graph.graph_polygon"
SPLIT = "building3d.geom.paths.split_path.split_path"


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def check(prog, rep):
    search(prog, rep)
    numbers(prog, rep)
    engine(prog, rep)


# ---------------------------------------------------------------- the search
def search(prog, rep):
    f = prog.func(R + "find_transparent.find_transparent")
    gq, sq = prog.func(GRAPH).qualname, prog.func(SPLIT).qualname
    K = Kernel(prog, opaque=[gq, sq])
    _, rets = K.run(f, {})
    rep.use(K)
    arg = mk("p", f.node.args.args[0].arg)
    graphs = [c for c in K.calls if c[0] == gq]
    if len(graphs) != 1:
        uses = [t for e in K.events for t in tm.subterms(e.val) if t[0] == "mcall" and t[2] == "get_graph"]
        if uses:
            rep.ob("facing-pairs", f.name, False, f.where(), "the facing pairs are those of an earlier request, not of the building as it is")
            return
        raise AnalysisError(f"expected one use of the polygon graph in {f.qualname}, found {len(graphs)}")
    a = graphs[0][1]
    ps = [p.arg for p in prog.func(GRAPH).node.args.args]
    want = dict(zip(ps, (arg, TRUE, FALSE, FALSE)))
    for p in ps:
        if p in want:
            rep.ob("facing-pairs", f"{p} given to the graph", verdict(a[p] is want[p], a[p]), graphs[0][5], f"the graph is asked for {p} = {tm.show(a[p])[:40]}")
    G = mk("call", gq, tuple(a[p] for p in ps), ())
    loops = [r for r in K.loop_recs if r.kind == "seq" and r.count is tm.length(G)]
    if len(loops) != 1:
        raise AnalysisError("the loop over the facing pairs was not found")
    L = loops[0]
    rep.ob("all-pairs", f.name, not L.breaks and not L.end.dead, L.where, "the search stops before all polygons have been considered")
    k = mk("elem", G, L.index)
    v = K.lookup(G, k)
    q0 = mk("sel", v, (ZERO,))
    n = tm.length(v)
    # the result
    names = set()
    for st, t in rets:
        names |= sources(K, st, t)
    if "" in names:
        rep.ob("all-returned", f.name, False, f.where(), "only a part of the transparent polygons found is returned")
        return
    if not names or None in names:
        rep.ob("result-known", f.name, None, f.where(), "the returned collection could not be traced")
        return
    roots = [r for r in K.roots.values() if r.name in names]
    adds, facts = [], [tm.cmp("==", n, ONE), tm.cmp("<", ZERO, n), tm.neg(tm.cmp("<", ONE, n)), tm.neg(tm.cmp("==", n, ZERO)), n, v]
    for e in K.events:
        if e.kind == "assert":
            ok = e.val[0] == "call" and e.val[1] == "builtins.isinstance" or K.implies(facts, e.val) and tm.contains(e.val, lambda x: x is n) or K.implies(e.guards, e.val)
            rep.ob("search-succeeds", e.where, verdict(ok, e.val), e.where, f"the search fails unless {tm.show(e.val)[:80]}")
            if ok:
                facts.append(e.val)
        elif e.kind == "raise":
            ok = K.unsat([K.lift(x) for x in facts + list(e.guards)])
            rep.ob("search-succeeds", e.where, verdict(ok, *e.guards), e.where, "the search fails for some building")
        elif e.root in roots and e.kind in ("mutate", "store"):
            if e.fn in ("add", "append", "extend", "update", "insert", "|="):
                for x in items(e.val):
                    adds.append((x, e))
            else:
                rep.ob("nothing-removed", e.where, False, e.where, f"{e.fn} takes polygons out of the result")
    if not adds:
        rep.ob("pairs-reported", f.name, False, f.where(), "no polygon is ever reported")
        return
    rep.count("reported_values", len(adds))
    partners = {q0} | {x for x, _ in adds if x[0] == "elem" and x[1] is v}
    zone = lambda x: {mk("sel", mk("call", sq, (x,), ()), (ONE,)), mk("sel", mk("mcall", x, "split", (tm.const("/"),), ()), (ONE,))}
    alike = lambda q: {tm.cmp("==", a, b) for a in zone(k) for b in zone(q)}
    # sets that only hold what the result holds
    shadow = {}
    for r in K.roots.values():
        if r in roots or r.kind not in ("set", "list", "dict"):
            continue
        es = [e for e in K.events if e.root is r and e.kind in ("mutate", "store")]
        if es and all(e.fn in ("add", "append", "update", "extend") and all(any(x is y and all(K.implies(e.guards, c) for c in d.guards) for y, d in adds) for x in items(e.val)) for e in es):
            shadow[r.name] = r
    for r in roots:
        shadow[r.name] = r
    for x, e in adds:
        ok = x is k or x in partners
        rep.ob("reported-pair", f"{e.where} {tm.show(x)[-60:]}", verdict(ok, x), e.where, "the reported path is not that of a facing polygon")
        if not ok:
            continue
        qs = partners if x is k else {x}
        same = any(K.implies(e.guards, c) for q in qs for c in alike(q))
        some = any(K.implies(e.guards, c) for c in (tm.cmp("<", ZERO, n), tm.cmp("==", n, ONE), tm.neg(tm.cmp("==", n, ZERO)), n, v)) or any(q[0] == "elem" for q in qs)
        rep.ob("same-zone-only", f"{e.where} {'polygon' if x is k else 'partner'}", verdict(same, *e.guards), e.where, "a polygon is reported although it may not face one of its own zone")
        rep.ob("has-partner", f"{e.where} {'polygon' if x is k else 'partner'}", verdict(some, *e.guards), e.where, "a polygon is reported although it may face nothing")
    # every facing pair of a zone is reported
    done = False
    seen = []
    for q in partners:
        for x in (k, q):
            for c in alike(q):
                hyp = facts + [c] + [tm.neg(tm.cmp("in", x, t)) for e in K.events for g in e.guards for t in members(g, shadow)]
                for y, e in adds:
                    if y is x:
                        seen += list(e.guards)
                        done = done or all(K.implies(hyp, g) for g in e.guards)
    rep.ob("pairs-reported", f.name, verdict(done, *seen), L.where, "a facing pair within one zone may stay unreported")


def members(g, shadow):
    return [t[3] for t in tm.subterms(g) if t[0] == "cmp" and t[1] == "in" and (t[3][0] == "base" and t[3][1] in shadow or t[3][0] == "empty")]


def items(v):
    out = []
    for x in (v[1] if v[0] == "tuple" else (v,)):
        out += items(x) if x[0] == "tuple" else [x]
    return out


def sources(K, st, t):
    if t[0] == "ref":
        t = st.arr.get(K.roots[t[1]], mk("opq"))
    if t[0] == "base":
        return {t[1]}
    if t[0] in ("phi", "mix"):
        return set().union(*[sources(K, st, x) for x in t[2:4]])
    if t[0] == "call" and t[2] and t[1].split(".")[-1] in ("set", "list", "tuple", "frozenset"):
        return sources(K, st, t[2][0])
    if t[0] == "sel" and len(t[2]) == 1 and t[2][0][0] == "slice":
        return {""} if None not in sources(K, st, t[1]) else {None}
    if t[0] in ("mut", "app", "upd"):
        return sources(K, st, t[1])
    if t[0] in ("empty",) or t[0] == "tuple" and not t[1]:
        return set()
    return {None}


# ---------------------------------------------------------------- from paths to numbers
def collected(K, t, guards):
    """What a set holds: (value, number of rounds or None, conditions, loop or None), or None."""
    if t[0] == "empty":
        return []
    if t[0] == "tuple":
        return [(x, None, (), None) for x in t[1]]
    if t[0] == "gen":
        return [(t[2], t[3], (), None)]
    if t[0] == "op" and t[1] == "|":
        a, b = collected(K, t[2], guards), collected(K, t[3], guards)
        return None if a is None or b is None else a + b
    if t[0] == "mcall" and t[2] == "union":
        parts = [collected(K, x, guards) for x in (t[1],) + tuple(t[3])]
        return None if None in parts else sum(parts, [])
    if t[0] == "call" and t[1].split(".")[-1] in ("set", "list", "tuple", "frozenset"):
        return collected(K, t[2][0], guards) if t[2] else []
    if t[0] == "mut" and t[2] in ("add", "append", "update", "extend"):
        a = collected(K, t[1], guards)
        return None if a is None else a + [(x, None, (), None) for x in items(tm.tup(t[3]))]
    if t[0] == "mut" and t[2] in ("discard", "remove"):
        a = collected(K, t[1], guards)
        return None if a is None else a + [(mk("removed", x), None, (), None) for x in t[3]]
    if t[0] == "app":
        a = collected(K, t[1], guards)
        return None if a is None else a + [(t[2], None, (), None)]
    if t[0] == "base":
        rs = [r for r in K.loop_recs if any(m[0] == "a" and m[1].name == t[1] and K.head_sym(r.key + ("post",), m) is t for m in r.mods)]
        if len(rs) != 1:
            return None
        r = rs[0]
        m = next(m for m in r.mods if m[0] == "a" and m[1].name == t[1])
        a = collected(K, K.get(r.entry, m), guards)
        if a is None:
            return None
        for e in K.events:
            if e.root is m[1] and e.loops and e.loops[-1] == r.key:
                if e.fn not in ("add", "append", "update", "extend"):
                    a.append((mk("removed", e.val), None, (), None))
                    continue
                extra = tuple(g for g in e.guards if g not in r.entry.guards)
                a += [(x, r.count, extra, r) for x in items(e.val)]
        return a
    return None


def numbers(prog, rep):
    S = Sim(prog)
    K = S.K
    rep.use(K)
    on = S.setting("engine", "search_transparent")
    paths = mk("call", S.q["transparent"], (S.building,), ()) if "transparent" in S.q else None
    calls = S.calls("loop")
    if not calls:
        raise AnalysisError("the run does not enter the ray loop")
    get = lambda p: mk("attr", mk("mcall", S.building, "get", (p,), ()), "num")
    item = lambda p: mk("attr", mk("sel", S.building, (p,)), "num")
    for c in calls:
        t, where = c[1]["transparent_polygons"], c[5]
        seen = set()
        for cond, leaf in K.leaves(t):
            for val in (True, False):
                fact = on if val else tm.neg(on)
                if K.unsat([K.lift(fact), K.lift(cond)]):
                    continue
                what = "with the search enabled" if val else "with the search disabled"
                seen.add(val)
                got = collected(K, leaf, c[3])
                if got is None:
                    rep.ob("numbers-known", what, None, where, f"the set {tm.show(leaf)[:100]} could not be traced")
                    continue
                real = [x for x in got if not (tm.is_num(x[0]) and x[0][2] < 0) and not (x[0][0] == "removed" and tm.is_num(items(x[0][1])[0]))]
                rep.count("set_sources", len(got))
                if not val:
                    rep.ob("disabled-stops-all", what, verdict(not real, *[x[0] for x in real]), where, "polygons are let through although the search for them is disabled")
                    continue
                ok = bool(real)
                for x, cnt, gs, r in real:
                    p = path_of(x, paths)
                    good = p is not None and x in (get(p), item(p)) and cnt is tm.length(paths)
                    rep.ob("numbers-of-reported", f"{what}: {tm.show(x)[:60]}", verdict(good, x), where, "a number that is not that of a reported polygon is let through, or not all reported polygons are")
                    whole = r is None or not r.breaks
                    free = all(harmless(g, x) for g in gs)
                    rep.ob("numbers-complete", f"{what}: {tm.show(x)[:60]}", verdict(whole and free, *gs), where, "some reported polygons are left out")
                rep.ob("numbers-reported", what, verdict(ok, leaf), where, "reported polygons are not let through")
        for val in (True, False):
            rep.ob("setting-used", f"search {'enabled' if val else 'disabled'}", val in seen or None, where, "the setting could not be followed")


def path_of(x, paths):
    for t in tm.subterms(x):
        if t[0] == "elem" and t[1] is paths:
            return t
    return None


def harmless(g, x):
    """A check made before a number is used that only refuses to go on."""
    obj = x[1] if x[0] == "attr" else x
    return g[0] == "call" and g[1] == "builtins.isinstance" and g[2][0] is obj or g is tm.neg(tm.cmp("is", x, NONE)) or g is tm.neg(tm.cmp("==", x, NONE))


# ---------------------------------------------------------------- the ray loop
def engine(prog, rep):
    E = Engine(prog)
    K = E.K
    rep.use(K)
    root = E.root["transparent_polygons"]
    for e in E.stores("transparent_polygons"):
        x = items(e.val)
        ok = e.fn in ("remove", "discard", "add") and len(x) == 1 and tm.is_num(x[0]) and x[0][2] < 0
        rep.ob("set-kept", f"{e.where} {e.fn}", verdict(ok, *x), e.where, "the ray loop changes which polygons rays pass")
    tn = [p.arg for p in prog.func(PRIMITIVES["target"]).node.args.args]
    n = 0
    for q, args, arr, guards, loops, where, vals in K.calls:
        if q != E.prim.get("target"):
            continue
        n += 1
        got = args[tn[4]]
        for c, leaf in K.leaves(got):
            ok = given_set(leaf, root.name)
            rep.ob("set-used", f"{where} {tm.show(leaf)[:40]}", verdict(ok, leaf), where, f"the target search lets rays pass {tm.show(leaf)[:80]}, not the given polygons")
    if not n:
        raise AnalysisError("the ray loop does not search for targets")


def given_set(t, name):
    while t[0] == "mut":
        if not (t[2] in ("remove", "discard", "add") and len(t[3]) == 1 and tm.is_num(t[3][0]) and t[3][0][2] < 0):
            return False
        t = t[1]
    if t[0] in ("mix", "phi"):
        return given_set(t[2], name) and given_set(t[3], name)
    return t[0] == "base" and t[1] == name
