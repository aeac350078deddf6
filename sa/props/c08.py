"""C08: adjacency graphs."""
from __future__ import annotations

import ast

from .. import terms as tm
from ..core import differs, vague
from ..interp import Interp
from ..links import assignments, atoms, holder, links, value
from ..loader import AnalysisError
from ..spec import equal
from ..terms import NONE, TRUE, T, const, mk

EXPLANATION = (
    "Effect analysis of the polygon graph: every link the routine adds is collected with its loops and condition. Rules: both loops cover "
    "all polygons of the building; a link's condition is 'different polygons, at least one requested relation holds' and nothing else except "
    "the bounding-box pre-check and a memo of pairs already handled; links go both ways, once. The wall, solid and zone graphs are analysed "
    "the same way: each link of the given graph is kept under both shortened paths unless they coincide, and duplicates are removed. "
    "The relation wrappers, the bounding-box test and the routing of levels and flags are compared as normal forms with specification functions.")
TECHNIQUE = "effect analysis of graph construction (link conditions, loop coverage, memo soundness) and comparison of normal forms"
NOTE = ("Holds for every building and flag combination. The geometric relations themselves (facing, overlapping, touching) and the exactness "
        "of bounding boxes are taken as given; the relations are assumed symmetric.")
MIN_OBLIGATIONS = 20
G = "building3d.geom."
RELS = (("facing", "facing.are_polygons_facing", ("pts", "vn")), ("overlapping", "crossing.are_polygons_crossing", ("pts", "tri")),
        ("touching", "touching.are_polygons_touching", ("pts", "tri")))
SPEC = '''
def all_polygons(b):
    return [p for z in b.zones.values() for s in z.solids.values() for w in s.walls.values() for p in w.polygons.values()]
def overlap(b1, b2):
    return not ((b1[1] < b2[0]).any() or (b1[0] > b2[1]).any())
'''


def path_funcs(prog):
    out = []
    for c in ("Polygon", "Wall", "Solid", "Zone", "Building"):
        f = prog.method(prog.cls(f"{G}{c.lower()}.{c}"), "path")
        if f is None:
            raise AnalysisError(f"anchor not found: {c}.path")
        out.append(f.qualname)
    return out


class Polys:
    """Recognises values and loops that stand for all polygons of the building."""

    def __init__(self, prog, rep, S, paths):
        self.prog, self.rep, self.S, self.paths = prog, rep, S, paths
        self.done = {}

    def hook(self, I, st, fn, env):
        a = fn.node.args
        if len(env) != 1 or len(a.args) != 1:
            return None
        b, = env.values()
        if not self.complete(fn):
            return None
        r = tm.call("polygons", (b,))
        I.set_type(r, ("list", ("cls", I.class_named("Polygon"))))
        I.nonnull.add(r)
        return r

    def complete(self, fn):
        if fn.qualname in self.done:
            return self.done[fn.qualname]
        from .. import canon
        vals = []
        for g in (fn, self.S["all_polygons"]):
            I = Interp(self.prog, opaque=self.paths)
            st = I.start()
            v = I.run(st, g, [I.obj_param("bdg", I.class_named("Building"))])
            vals.append(I.val(st, v) if not st.dead else NONE)
            self.rep.use(I)
        ok = canon.equal(*vals)
        if not ok:
            self.rep.ob("pairs-all", fn.qualname, differs(*vals), fn.where(),
                        f"polygons of a building required; found {tm.show(vals[0])[:300]}")
        self.done[fn.qualname] = True
        return True


def all_polygons(loops, bdg):
    """Splits a nest of loops into (element, kind) per group covering all polygons; kind 'half' for 'the ones after element i'."""
    out = []
    chain = []
    for L, _ in loops:
        c = L[1]
        e = mk("elem", L)
        if c[0] == "slice" and c[1][0] == "red" and c[1][1] == "list" and c[1][3] is mk("bv", 0, "elem"):
            c = mk("slice", c[1][2], *c[2:])
        if c[0] == "call" and c[1] == "polygons" and c[2] == (bdg,):
            out.append((e, "all"))
        elif c[0] == "slice" and c[1] is tm.call("polygons", (bdg,)) and c[3] is NONE and out \
                and c[2] is tm.add(mk("idx", out[0][0][1]), const(1)):
            out.append((e, "half"))
        else:
            want = ("zones", "solids", "walls", "polygons")[len(chain)]
            base = bdg if not chain else mk("elem", chain[-1])
            if c is not mk("attr", base, want):
                return None
            chain.append(L)
            if len(chain) == 4:
                out.append((e, "all"))
                chain = []
    return out if not chain else None


def module_helpers(prog, f):
    for q, g in prog.funcs.items():
        if g.module is f.module and g is not f and g.cls is None and len(g.node.args.args) == 1:
            yield g


def graph_run(prog, rep, S):
    f = prog.func(G + "building.graph.graph_polygon")
    paths = path_funcs(prog)
    rel = {n: prog.func(G + "polygon." + q).qualname for n, q, _ in RELS}
    bb = prog.func(G + "bboxes.bounding_box").qualname
    ov = prog.func(G + "bboxes.are_bboxes_overlapping").qualname
    I = Interp(prog, opaque=paths + list(rel.values()) + [bb, ov])
    P = Polys(prog, rep, S, paths)
    for g in module_helpers(prog, f):
        I.hooks[g.qualname] = P.hook
    st = I.start()
    bdg = I.obj_param("bdg", I.class_named("Building"))
    flags = [I.param(n, ("bool",)) for n, _, _ in RELS]
    v = I.run(st, f, [bdg] + flags)
    rep.use(I)
    return I, st, v, f, paths, rel, bb, ov, bdg, flags


def check_polygon_graph(prog, rep, S):
    I, st, v, f, paths, rel, bb, ov, bdg, flags = graph_run(prog, rep, S)
    w = f.where()
    if v[0] != "obj":
        rep.ob("pairs", f.qualname, None, w, "the returned graph is not built in the routine")
        return
    ls, _ = links(I, v)
    if any(l is None for l in ls):
        rep.ob("pairs", f.qualname, None, w, "links are removed again")
        ls = [l for l in ls if l is not None]
    path = lambda e: tm.call(paths[0], (e,))
    seen = {}
    memo = {}
    for l in ls:
        pairs = all_polygons(l.loops, bdg)
        if pairs is None or len(pairs) != 2:
            cs = [tm.show(L[1])[:80] for L, _ in l.loops]
            rep.ob("pairs-all", f"{f.qualname}:{tm.show(l.key)[-40:]}", None if any(vague(L[1]) for L, _ in l.loops) else False, l.where,
                   f"loops over {cs}; required: all pairs of polygons")
            return
        (a, _), (b, kind) = pairs
        if {l.key, l.val} != {path(a), path(b)}:
            rep.ob("pairs-key", f.qualname, differs(mk("tuple", (l.key, l.val)), mk("tuple", (path(a), path(b)))), l.where,
                   f"links {tm.show(l.key)} to {tm.show(l.val)}; required: the paths of the two polygons")
            return
        seen.setdefault(l.key is path(a), []).append((tm.conj(l.conds), a, b, kind, l))
    if not seen:
        rep.ob("pairs", f.qualname, False, w, "no links are ever added")
        return
    half = False
    for fwd, xs in seen.items():
        h, mm = link_condition(rep, f, fwd, xs, path, flags, rel, bb, ov, v)
        half = half or h
        for x in mm:
            memo[x] = xs[0][1:3]
    both, rev = len(seen) == 2, False
    for x, (a, b) in memo.items():
        r = check_memo(rep, I, f, x, a, b, path, v)
        rev = rev or r
    if half:
        rep.ob("symmetric", f.qualname, both, w, "each pair is visited once but linked in one direction only")
    elif both:
        rep.ob("no-duplicates", f.qualname, rev, w, "pairs are visited in both orders and linked both ways each time")
    else:
        rep.ob("symmetric", f.qualname, not rev, w, "pairs are linked in one direction only, and the other order is skipped")
    for e in I.effects:
        if e.kind == "raise":
            rep.ob("refuses", f.qualname, False, e.where, f"raises when {tm.show(e.cond())[:200]}")
    br = [g for g, k in st.guards if k == "branch"]
    rep.ob("refuses", f.qualname, not br, w, "does not always return")


def same_test(x, a, b, path):
    """Whether an atom says that both polygons are the same one."""
    for p, q in ((a, b), (b, a)):
        if x in (tm.cmp("is", p, q), tm.cmp("==", path(p), path(q)), tm.cmp("==", mk("idx", p[1]), mk("idx", q[1])),
                 tm.cmp("==", mk("attr", p, "uid"), mk("attr", q, "uid")), tm.cmp("==", tm.call("id", (p,)), tm.call("id", (q,)))):
            return True
    return False


def link_condition(rep, f, fwd, xs, path, flags, rel, bb, ov, g):
    """The link must be added exactly when a requested relation holds between two different polygons not handled before."""
    _, a, b, kind, l0 = xs[0]
    c = tm.disj([x[0] for x in xs])
    inst = f"{f.qualname}:{'forward' if fwd else 'backward'}"
    half = kind == "half"
    fixed, rels, extra, memo, free = {}, {}, [], [], []
    for x in atoms(c):
        if x in flags:
            continue
        if x[0] == "cmp" and x[1] == "in" and x[2] in (path(a), path(b)) and not (holder(x[3])[0] is g):
            free.append(x)                # whether the key exists
        elif x[0] == "cmp" and x[1] == "in" and (x[2][0] in ("tuple", "obj", "call", "setof", "attr") or holder(x[3])[0] is g):
            memo.append(x)
            fixed[x] = False
        elif same_test(x, a, b, path):
            fixed[x] = False
        elif x in (tm.cmp("<", mk("idx", a[1]), mk("idx", b[1])), tm.cmp("<", mk("idx", b[1]), mk("idx", a[1]))):
            half = True
            fixed[x] = None
        elif x[0] == "call" and x[1] == ov and set(x[2]) == {tm.call(bb, (mk("attr", e, "pts"),)) for e in (a, b)}:
            fixed[x] = True
        elif x[0] == "call" and x[1] in rel.values():
            i = list(rel.values()).index(x[1])
            args = lambda p, q: tuple(mk("attr", e, k) for e in (p, q) for k in RELS[i][2])
            if x[2] in (args(a, b), args(b, a)) and i not in rels:
                rels[i] = x
            elif x[2] in (args(a, b), args(b, a)):
                fixed[x] = ("as", rels[i])
            else:
                extra.append(x)
        else:
            extra.append(x)
    for x in extra:
        mine = tm.contains(x, lambda y: holder(y)[0] is g)
        rep.ob("link-condition", inst, None if vague(x) and not mine else False, l0.where, f"links also depend on: {tm.show(x)[:400]}")
    if extra:
        return half, memo
    order = [x for x, k in fixed.items() if k is None]
    base = {x: k for x, k in fixed.items() if isinstance(k, bool)}
    alike = {x: k[1] for x, k in fixed.items() if isinstance(k, tuple)}
    names = atoms(c)
    bad = None
    for o in ([{}] if not order else [{x: v for x in order} for v in (False, True)]):
        wrong = None
        for env in assignments([x for x in names if x not in alike and x not in free] + [x for x in flags if x not in names], {**base, **o}):
            env.update({x: env[y] for x, y in alike.items()})
            want = any(env[flags[i]] and (i not in rels or env[rels[i]]) for i in range(3))
            vals = {value(c, {**env, **e2}) for e2 in assignments(free, {})}
            if vals != {want}:
                wrong = (want, [RELS[i][0] for i in range(3) if env[flags[i]]], [RELS[i][0] for i, x in rels.items() if env[x]])
                break
        if wrong is None:
            bad = None
            break
        bad = wrong
    if bad is not None:
        want, req, hold = bad
        d = f"with {req or 'nothing'} requested and {hold or 'nothing'} holding the pair is {'not always' if want else ''} linked"
        rep.ob("link-relation", inst, False, l0.where, d)
    else:
        rep.ob("link-relation", inst, len(rels) == 3, l0.where, f"relations tested: {[RELS[i][0] for i in rels]}")
    same = [x for x in fixed if same_test(x, a, b, path)]
    if not half:
        ok = bool(same) and not any(value(c, e) for e in assignments(names, {same[0]: True}))
        rep.ob("no-self-link", inst, ok, l0.where, "a polygon may be linked to itself")
    return half, memo


def check_memo(rep, I, f, x, a, b, path, g):
    """The memo of handled pairs; returns whether a handled pair is recorded for the other order too."""
    item, S = x[2], x[3]
    if holder(S)[0] is g:
        ok = {item, holder(S)[1]} == {path(a), path(b)}
        rep.ob("memo", f.qualname, ok, f.where(), "membership test between other objects")
        return True
    while S[0] in ("flux", "st"):
        S = S[1]
    adds = [e for e in I.effects if e.kind in ("add", "append") and e.args[0] is S]
    if S[0] != "obj" or not adds:
        rep.ob("memo", f.qualname, None, f.where(), f"record of handled pairs not understood: {tm.show(x)[:200]}")
        return False
    idents = lambda e: (path(e), e, mk("attr", e, "uid"), tm.call("id", (e,)), mk("idx", e[1]))
    keys = set()
    for e in adds:
        k = e.args[1]
        for i in range(len(idents(a))):
            p, q = idents(a)[i], idents(b)[i]
            if k[0] == "tuple" and k[1] in ((p, q), (q, p)):
                keys.add((i, k[1] == (p, q)))
                break
            if k[0] in ("setof", "frozenset") or k[0] == "call" and k[1] == "frozenset":
                if all(tm.contains(k, lambda y, z=z: y is z) for z in (p, q)):
                    keys |= {(i, True), (i, False)}
                    break
        else:
            rep.ob("memo", f.qualname, None if vague(k) else False, e.where,
                   f"handled pairs are recorded as {tm.show(k)[:200]}, which does not identify the pair of polygons")
            return True
    k = item
    ok = any(k[0] == "tuple" and k[1] in ((p, q), (q, p)) or k[0] != "tuple" and all(tm.contains(k, lambda y, z=z: y is z) for z in (p, q))
             for p, q in zip(idents(a), idents(b)))
    rep.ob("memo", f.qualname, ok, f.where(), f"looks up {tm.show(k)[:200]}")
    fw = any(k[0] == "tuple" and k[1] == (p, q) for p, q in zip(idents(a), idents(b)))
    return len(keys) == 2 or any(d != fw for _, d in keys)


def up(t, memo=None):
    """Rewrites 'path without its last components' to a normal form."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = tm.rebuild(t, lambda x: up(x, memo))
    k = None
    if r[0] == "mcall" and r[2] == "join" and tm.is_str(r[1]) and len(r[3]) == 1:
        x = r[3][0]
        if x[0] == "slice" and x[2] is tm.ZERO and tm.is_int(x[3]) and tm.cval(x[3]) < 0 and x[1][0] == "mcall" and x[1][2] == "split" \
                and x[1][3] == (r[1],):
            k, src = -tm.cval(x[3]), x[1][1]
    if r[0] == "item" and r[2] is tm.ZERO and r[1][0] == "mcall" and r[1][2] == "rsplit" and len(r[1][3]) == 2 and tm.is_int(r[1][3][1]):
        k, src = tm.cval(r[1][3][1]), r[1][1]
    if k:
        if src[0] == "up":
            k, src = k + src[2], src[1]
        r = mk("up", src, k)
    memo[t] = r
    return r


def check_projection(prog, rep, name, n):
    f = prog.func(f"{G}building.graph.{name}")
    gp = prog.func(G + "building.graph.graph_polygon").qualname
    ty = ("dict", ("str",), ("list", ("str",)))

    def poly_graph(I, st, fn, env):
        r = tm.call(gp, tuple(env.values()))
        I.set_type(r, ty)
        I.nonnull.add(r)
        return r
    for given in (False, True):
        I = Interp(prog)
        I.hooks[gp] = poly_graph
        st = I.start()
        bdg = I.obj_param("bdg", I.class_named("Building"))
        flags = [I.param(m, ("bool",)) for m, _, _ in RELS]
        G1 = tm.call(gp, (bdg, *flags))
        if given:
            g = I.param("g", ty)
            I.nonnull.add(g)
            st.guard(tm.cmp("<", tm.ZERO, tm.length(g)), "check")
        else:
            g = NONE
        v = I.run(st, f, [bdg, *flags, g])
        rep.use(I)
        inst = f"{f.qualname}:{'given graph' if given else 'own graph'}"
        w = f.where()
        for e in I.effects:
            if e.kind == "raise":
                rep.ob("refuses", inst, False, e.where, "raises")
        projection(prog, rep, I, st, v, inst, w, n, {G1, g} if given else {G1})


def projection(prog, rep, I, st, v, inst, w, n, graphs):
    if v[0] == "phi":
        for x in (v[2], v[3]):
            projection(prog, rep, I, st, x, inst, w, n, graphs)
        return
    if v[0] != "obj":
        rep.ob("projection", inst, None, w, f"the result is not understood: {tm.show(v)[:200]}")
        return
    objs = []
    for e in I.effects:
        if e.kind == "store" and e.args[0][0] == "obj" and e.args[0] not in objs and e.args[0] is not v:
            objs.append(e.args[0])
        if e.kind in ("append", "add") and holder(e.args[0])[0] not in (None, v) and holder(e.args[0])[0] not in objs:
            objs.append(holder(e.args[0])[0])
    srcs = {}
    total = False
    dedup = False
    for d in [v] + objs:
        ls, stores = links(I, d)
        groups = {}
        for l in ls:
            if l is None:
                rep.ob("projection", inst, None, w, "links are removed again")
                continue
            lp = [L[1] for L, _ in l.loops]
            src = next((x for x in lp if x in graphs), None)
            if any(tm.contains(x, lambda y: holder(y)[0] is not None and holder(y)[0] in [v] + objs) for x in lp):
                if any(tm.contains(x, lambda y: y[0] == "call" and y[1] in ("set", "frozenset")) for x in lp):
                    dedup = True          # the collections of the graph, rewritten without duplicates
                continue
            if src is None:
                if not all(x[0] in ("phi",) for x in lp[:1]):
                    rep.ob("projection", inst, None if any(vague(x) for x in lp) else False, l.where,
                           f"links are made from {[tm.show(x)[:80] for x in lp]}; required: the polygon graph of the same flags")
                continue
            L = next(L for L, _ in l.loops if L[1] is src)
            M = tm.loop_id(mk("elem", L), 0)
            key, val = mk("key", L), mk("elem", M)
            rest = [x for x in lp if x is not src and x is not mk("elem", L)]
            if rest:
                rep.ob("projection", inst, None if any(vague(x) or x[0] == "listof" for x in rest) else False, l.where,
                       f"links are made from {[tm.show(x)[:80] for x in rest]}")
                continue
            k, x = up(l.key), up(l.val)
            ek, ev = mk("up", key, n), mk("up", val, n)
            if (k, x) not in ((ek, ev), (ev, ek)):
                rep.ob("projection", inst, differs(tm.tup([k, x]), tm.tup([ek, ev])), l.where,
                       f"links {tm.show(k)} to {tm.show(x)}; required: both paths without the last {n} part(s)")
                continue
            ex, self_test = [], False
            for c in l.conds:
                c = up(c)
                y = c[1] if c[0] == "not" else c
                if y[0] == "dedupe":
                    dedup = True
                elif c in (tm.neg(tm.cmp("==", ek, ev)), tm.neg(tm.cmp("==", ev, ek))):
                    self_test = True
                elif y[0] == "cmp" and y[1] == "in" and y[2] in (ek, ev):
                    if holder(y[3])[0] is not None:
                        dedup = True
                    else:
                        ex.append(c)
                elif tm.cmp("<", tm.ZERO, tm.length(src)) is c:
                    pass                 # whether the graph is empty
                else:
                    rep.ob("projection", inst, differs(c, TRUE), l.where, f"links also depend on: {tm.show(c)[:300]}")
            rep.ob("no-self-link", inst, self_test, l.where, "an object may be linked to itself")
            if l.kind == "add":
                dedup = True
            groups.setdefault(src, []).append(tm.conj(ex))
        for src, xs in groups.items():
            c = tm.disj(xs)
            if c is TRUE:
                srcs[src] = True
            elif srcs.get(src) is not True and not tm.contains(c, lambda y: y[0] == "flux" and y[1] is not d):
                srcs[src] = False
            else:
                srcs.setdefault(src, None)
        total = total or bool(groups)
    if not total:
        rep.ob("projection", inst, None if not rep_has(rep, inst) else True, w, "no links found")
        return
    for src, ok in srcs.items():
        rep.ob("projection-all", inst, ok, w, "links are dropped when an object already has, or does not yet have, an entry")
    rep.ob("projection-unique", inst, dedup, w, "duplicates are not removed")


def rep_has(rep, inst):
    return any(o[1] == inst and o[2] is False for o in rep.obs)


def level_hook(lv):
    """The graph of a level as an uninterpreted function of the building and the flags."""
    def h(I, st, fn, env):
        vals = dict(env)
        ns = [a.arg for a in fn.node.args.args]
        base = tuple(vals[x] for x in ns[:4])
        g = vals[ns[4]] if len(ns) > 4 else NONE
        g = I.val(st, g) if g[0] == "obj" else g
        own = tm.call("graph:polygon", base)
        r = tm.call("graph:" + lv, base if g in (NONE, own) else base + (g,))
        I.nonnull.add(r)
        I.set_type(r, ("dict", ("str",), ("list", ("str",))))
        return r
    return h


def check_routing(prog, rep):
    cls = prog.cls(G + "building.Building")
    f = prog.method(cls, "get_graph")
    if f is None:
        raise AnalysisError("anchor not found: Building.get_graph")
    fs = {lv: prog.func(f"{G}building.graph.graph_{lv}") for lv in ("polygon", "wall", "solid", "zone")}

    for lv in fs:
        I = Interp(prog)
        for x, g in fs.items():
            I.hooks[g.qualname] = level_hook(x)
        st = I.start()
        self_ = I.obj_param("self", cls)
        flags = {n: I.param(n, ("bool",)) for n, _, _ in RELS}
        v = I.run(st, f, [], {"new": TRUE, "level": const(lv), **flags}, self_)
        rep.use(I)
        exp = tm.call("graph:" + lv, (self_, *[flags[n] for n, _, _ in RELS]))
        got = I.val(st, v) if not st.dead else mk("never")
        if got is not exp and tm.contains(got, lambda x: x[0] == "call" and x[1] == "graph:polygon") and lv != "polygon" \
                and not tm.contains(got, lambda x: x[0] == "call" and x[1] in [f"graph:{y}" for y in fs if y != "polygon"]):
            rep.ob("routing", f"Building.get_graph:{lv}", None, f.where(), f"result {tm.show(got)[:300]} not understood")
            continue
        if got is not exp and got[0] == "call" and got[1].startswith("graph:"):
            rep.ob("routing", f"Building.get_graph:{lv}", False, f.where(), f"returns {tm.show(got)}; required: {tm.show(exp)}")
            continue
        rep.same("routing", f"Building.get_graph:{lv}", got, exp, f.where())


def check(prog, rep):
    S = prog.spec(SPEC)
    check_polygon_graph(prog, rep, S)
    for lv, n in (("wall", 1), ("solid", 2), ("zone", 3)):
        check_projection(prog, rep, "graph_" + lv, n)
    check_routing(prog, rep)
    f = prog.func(G + "bboxes.are_bboxes_overlapping")

    def boxes(I):
        out = []
        for n in ("bbox1", "bbox2"):
            lo, hi = I.param(n + "_lo", ("arr",)), I.param(n + "_hi", ("arr",))
            for x in (lo, hi):
                I.nonnull.add(x)
                I.width[x] = 3
            out.append(tm.tup([lo, hi]))
        return None, out
    equal(prog, rep, "precheck", f.qualname, f, S["overlap"], boxes)
