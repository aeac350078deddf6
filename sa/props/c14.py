"""C14: every simulation setting takes effect where it belongs."""
from __future__ import annotations

from .. import terms as tm
from ..core import vague
from ..kernel import Kernel
from ..loader import AnalysisError
from ..rays import R, Engine, Sim
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, mk

EXPLANATION = (
    "End-to-end value provenance: the creation of a simulation and its run are analysed as one chain, and every argument that reaches the ray loop and the voxel grid is compared with the setting it must come from. Inside the "
    "ray loop each setting's use is compared with its purpose (steps, moves, reflection distance, absorber size). The functions that set surface parameters and turn them into an array are checked path by path: which entries "
    "a setting writes for each kind of object, and which entry each polygon's number reads.")
TECHNIQUE = "end-to-end value provenance, guarded-write obligations"
NOTE = "Holds for all configurations and orders of settings; relies on C02 for the lookup by path and on C20 for the polygon paths of an object."
MIN_OBLIGATIONS = 40

C = R + "simulation_config.SimulationConfig"


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def check(prog, rep):
    run(prog, rep)
    engine(prog, rep)
    setter(prog, rep)
    to_array(prog, rep)
    created(prog, rep)


# ---------------------------------------------------------------- from the configuration to the engine
def plain(t):
    """Conversions that keep the values."""
    while t[0] == "call" and t[1] in ("np.array", "np.asarray", "np.ascontiguousarray", "int", "float", "builtins.int", "builtins.float", "np.float64") and t[2]:
        t = t[2][0]
    return t


def run(prog, rep):
    S = Sim(prog)
    K = S.K
    rep.use(K)
    cfg = S.setting
    arr = mk("call", S.q["arrays"], (S.building,), ())
    part = lambda k: mk("sel", arr, (tm.const(k),))
    calls, grids = S.calls("loop"), S.calls("grid")
    if not calls or not grids:
        raise AnalysisError("the run does not make a grid and enter the ray loop")
    want = dict(num_steps=cfg("engine", "batch_size"), num_rays=cfg("rays", "num_rays"), ray_speed=cfg("rays", "ray_speed"), time_step=cfg("engine", "time_step"),
                grid_step=cfg("engine", "voxel_size"), absorbers=cfg("rays", "absorbers"), absorber_radius=cfg("rays", "absorber_radius"),
                points=part(0), faces=part(1), polygons=part(2), walls=part(3))
    for c in calls:
        a, where = c[1], c[5]
        for name, t in want.items():
            got = plain(a[name])
            rep.ob("setting-reaches-engine", name, verdict(got is t, got), where, f"{name} is {tm.show(got)[:80]}, not {tm.show(t)[:80]}")
        got = a["surf_absorption"]
        ok = got[0] == "call" and got[1] == S.q.get("params") and got[2][:3] == (S.cfg, tm.const("absorption"), S.building)
        rep.ob("setting-reaches-engine", "surface absorption", verdict(ok, got), where, f"the absorption given to the engine is {tm.show(got)[:80]}, not the values set for the building's surfaces")
        steps(K, rep, S, c)
        start(K, rep, S, c)
    for c in grids:
        got = c[1]["step"]
        t = cfg("engine", "voxel_size")
        rep.ob("setting-reaches-engine", "voxel size of the grid", verdict(got is t, got), c[5], f"the cell size is {tm.show(got)[:80]}")
    # settings are read only
    for e in K.events:
        if e.kind in ("setattr", "store", "mutate") and e.old is not None and isinstance(e.old, tm.T) and e.root is None and rooted(e.old, S.cfg):
            rep.ob("settings-kept", e.where, False, e.where, "a run changes the configuration")
    rep.ob("settings-kept", "run", True, S.run.where(), "")


def rooted(t, x):
    while t[0] in ("sel", "attr", "get", "elem"):
        t = t[1]
    return t is x


def steps(K, rep, S, c):
    """The ray loop is entered until the number of steps is reached."""
    total, batch = S.setting("engine", "num_steps"), S.setting("engine", "batch_size")
    where, guards, loops = c[5], c[3], c[4]
    if not loops:
        got = c[1]["num_steps"]
        rep.ob("number-of-steps", where, verdict(got is total, got), where, "the number of steps made is not the one set")
        return
    r = next(r for r in K.loop_recs if r.key == loops[-1])
    if r.kind in ("range", "seq"):
        ok = r.count in (tm.call("rangelen", (ZERO, total, batch)), tm.binop("//", total, batch))
        rep.ob("number-of-steps", where, verdict(ok, r.count), where, f"the ray loop is entered {tm.show(r.count)[:80]} times")
        return
    ms = [m for m in r.mods if m[0] == "e" and any(g is tm.cmp("<", K.head_sym(r.key, m), total) for g in guards)]
    new = [g for g in guards if g not in r.entry.guards]
    rep.ob("number-of-steps", where, verdict(len(ms) == 1, *new), where, "the run does not go on until the number of steps set")
    for m in ms:
        first, end = K.get(r.entry, m), K.get(r.end, m)
        rep.ob("number-of-steps", "counted from zero", verdict(first is ZERO, first), where, f"the steps are counted from {tm.show(first)[:40]}")
        rep.ob("number-of-steps", "counted by batch", verdict(end is tm.add(K.head_sym(r.key, m), batch), end), where, "the steps counted for a batch are not the ones made")


def start(K, rep, S, c):
    """Rays start at the source with the speed set."""
    loops, where = c[4], c[5]
    first = {}
    r = next((r for r in K.loop_recs if loops and r.key == loops[-1]), None)
    for name in ("position", "velocity"):
        v = c[6].get(name, c[1][name])
        if r is not None:
            m = next((m for m in r.mods if m[0] == "e" and K.head_sym(r.key, m) is c[1][name]), None)
            v = K.get(r.entry, m) if m is not None else v
        st = r.entry if r is not None else S.start
        first[name] = st.arr.get(K.roots[v[1]], v) if v[0] == "ref" and not v[2] else v
    src = S.setting("rays", "source")
    p = first["position"]
    got = p[3] if p[0] == "span" else p[1] if p[0] == "fill" else p[2][0] if p[0] == "call" and p[1] in ("np.tile", "np.full", "np.broadcast_to") and p[2] else p
    if p[0] == "call" and p[1] == "np.full":
        got = p[2][-1]
    if p[0] == "upd":
        got = p[3]
    rep.ob("starts-at-source", where, verdict(plain(got) is src, got), where, f"rays start at {tm.show(got)[:80]}, not at the source set")
    v = first["velocity"]
    sp = S.setting("rays", "ray_speed")
    fs = list(v[1]) if v[0] == "mul" else [v]
    n = sum(1 for x in fs if x is sp)
    rep.ob("starts-with-speed", where, verdict(n == 1, v), where, f"the initial velocity is not a direction times the speed set")
    if n == 1:
        fs.remove(sp)
        names = {t[1] for x in fs for t in tm.subterms(x) if t[0] == "base"}
        norm = any(t[0] == "call" and t[1].split(".")[-1] in ("norm", "sqrt", "hypot") for x in fs for t in tm.subterms(x))
        for e in K.events:
            if e.root is not None and e.root.name in names and e.kind == "store":
                norm = norm or any(t[0] == "call" and t[1].split(".")[-1] in ("norm", "sqrt", "hypot") for t in tm.subterms(e.val))
        rep.ob("starts-with-speed", "direction of length one", verdict(norm, *fs), where, "the initial directions are not of length one, so rays do not have the speed set")


# ---------------------------------------------------------------- inside the engine
def engine(prog, rep):
    E = Engine(prog)
    K = E.K
    rep.use(K)
    P = lambda n: mk("p", n)
    outer = [r for r in K.loop_recs if r.count is P("num_steps") and r.index is not None]
    rep.ob("steps-made", "ray loop", len(outer) == 1 and not outer[0].breaks or (None if outer else False), E.f.where(), "the engine does not make the number of steps given")
    for e in E.stores("position"):
        old = K.read(e.old, e.idx)
        step = tm.sub(e.val, old)
        fs = list(step[1]) if step[0] == "mul" else [step]
        dt = P("time_step") in fs
        rep.ob("move-by-time-step", e.where, verdict(dt, step), e.where, f"a move of {tm.show(step)[:80]} is not the velocity times the time step")
        if dt:
            fs.remove(P("time_step"))
            ok = len(fs) == 1 and any(t[0] in ("base", "head") and "velocity" in t for t in tm.subterms(fs[0]))
            rep.ob("move-by-velocity", e.where, verdict(ok, *fs), e.where, f"a move follows {tm.show(tm.tup(fs))[:80]}, not the ray's velocity")
    # distances to surfaces are compared with the length of a step
    used = 0
    seen = set()
    speed = lambda x: x is P("ray_speed")
    for e in K.events:
        for g in e.guards:
            for t in tm.subterms(g):
                if t[0] == "cmp" and t[1] == "<" and tm.contains(t, speed) and not any(u[0] == "cmp" and u is not t and tm.contains(u, speed) for u in tm.subterms(t)):
                    seen.add(t)
    for t in seen:
        side = t[3] if tm.contains(t[3], speed) else t[2]
        lin = [(x, c) for x, c in (side[1] if side[0] == "sum" else ((side, 1),))]
        prod = tm.mul(P("ray_speed"), P("time_step"))
        ok = len(lin) == 1 and lin[0][0] is prod and lin[0][1] >= 1 and (side[0] != "sum" or side[2] == 0)
        rep.ob("step-length", tm.show(side)[:40], verdict(ok, side), E.f.where(), f"surfaces are looked for within {tm.show(side)[:60]}, which may be less than the length of a step")
        used += 1
    known = any(tm.contains(g, speed) for e in K.events for g in list(e.guards) + [e.val] if isinstance(g, tm.T))
    rep.ob("step-length", "used", bool(used) or (None if known else False), E.f.where(), "the speed of rays is not used to tell which surfaces are within a step")


# ---------------------------------------------------------------- surface parameters
def isa(t):
    """isinstance with several classes as alternatives."""
    if t[0] == "call" and t[1] == "builtins.isinstance" and t[2][1][0] == "tuple":
        return tm.disj([mk("call", t[1], (t[2][0], c), ()) for c in t[2][1][1]])
    if t[0] in ("c", "p", "base", "ext", "cls"):
        return t
    return tm.rebuild(t, isa)


KINDS = ("building.Building", "zone.Zone", "solid.Solid", "wall.Wall", "polygon.Polygon")


def alternatives(t):
    """The values a conditional may have, each with its conditions."""
    if t[0] != "phi":
        return [([], t)]
    return [([c] + cs, v) for c, x in ((t[1], t[2]), (tm.neg(t[1]), t[3])) for cs, v in alternatives(x)]


def setter(prog, rep):
    f = prog.func(C + ".set_surface_param")
    K = Kernel(prog)
    names = [p.arg for p in f.node.args.args]
    if len(names) < 5:
        raise AnalysisError("setting a surface parameter takes fewer arguments")
    n_self, n_par, n_path, n_val, n_bdg = names[:5]
    P = lambda n: mk("p", n)
    K.types[P(n_self)] = prog.cls(C)
    out, rets = K.run(f, {})
    rep.use(K)
    table = mk("sel", mk("attr", P(n_self), "surfaces"), (P(n_par),))
    obj = mk("mcall", P(n_bdg), "get", (P(n_path),), ())
    below = mk("mcall", obj, "get_polygon_paths", (), ())
    rec = {r.key: r for r in K.loop_recs}
    writes = []
    for e in K.events:
        if e.kind not in ("store", "mutate") or e.root is not None and e.old is None:
            continue
        if e.root is not None:
            continue
        if e.kind == "mutate":
            if not rooted(e.old, P(n_self)) and not rooted(e.old, P(n_bdg)):
                continue
            ok = e.old is table and e.fn == "update"
            v = e.val[1][0] if e.val[0] == "tuple" and e.val[1] else e.val
            rep.ob("sets-own-table", e.where, None if ok else verdict(False, e.old), e.where, f"{e.fn} on {tm.show(e.old)[:60]}")
            continue
        key = e.idx[-1] if e.idx else NONE
        base = e.old if len(e.idx) == 1 else mk("sel", e.old[1], e.old[2] + e.idx[:-1]) if e.old[0] == "sel" else mk("sel", e.old, e.idx[:-1])
        rep.ob("sets-own-table", e.where, verdict(base is table, base), e.where, f"the value is stored in {tm.show(base)[:60]}, not among the values of this parameter")
        rep.ob("sets-given-value", e.where, verdict(e.val is P(n_val), e.val), e.where, f"the stored value is {tm.show(e.val)[:60]}")
        r = rec.get(e.loops[-1]) if e.loops else None
        for conds, coll in alternatives(key[1]) if key[0] == "elem" else [([], None)]:
            single = key is P(n_path) or coll is not None and coll[0] in ("tuple", "list") and list(coll[1]) == [P(n_path)]
            each = coll is below
            rep.ob("sets-paths-below", e.where, verdict(single or each, key), e.where, f"a value is set for {tm.show(key)[:60]}, which is not below the given path")
            if coll is not None:
                whole = r is not None and r.count is tm.length(key[1]) and not r.breaks
                rep.ob("sets-all-paths", e.where, verdict(whole, r.count if r is not None and r.count is not None else ZERO), e.where, "not all polygons below the path are set")
            writes.append((single, each, [isa(g) for g in list(e.guards) + conds], e))
    inst = lambda n: mk("call", "builtins.isinstance", (obj, mk("cls", "building3d.geom." + n)), ())
    for n in KINDS:
        hyp = [inst(n)] + [tm.neg(inst(o)) for o in KINDS if o != n]
        hyp += [tm.cmp("==", mk("call", "builtins.type", (obj,), ()), mk("cls", "building3d.geom." + n))]
        ok = any((single if n == KINDS[-1] else each) and all(K.implies(hyp, g) for g in gs) for single, each, gs, e in writes)
        gs = [g for w in writes for g in w[2]]
        rep.ob("sets-for-kind", n.split(".")[-1], verdict(ok, *gs), f.where(), f"setting the parameter of a {n.split('.')[-1].lower()} does not set its polygons")
        bad = [e for e in K.events if e.kind == "raise" and not K.unsat([K.lift(x) for x in hyp + [isa(g) for g in e.guards]])]
        bad = [e for e in bad if e.guards]
        rep.ob("sets-for-kind", f"{n.split('.')[-1]} accepted", verdict(not bad, *[g for e in bad for g in e.guards]), f.where(), f"a {n.split('.')[-1].lower()} may be refused")


def to_array(prog, rep):
    f = prog.func(C + ".surface_params_to_array")
    K = Kernel(prog)
    names = [p.arg for p in f.node.args.args]
    if len(names) < 3:
        raise AnalysisError("the array of surface parameters takes fewer arguments")
    P = lambda n: mk("p", n)
    n_self, n_par, n_bdg = names[:3]
    K.types[P(n_self)] = prog.cls(C)
    out, rets = K.run(f, {})
    rep.use(K)
    table = mk("sel", mk("attr", P(n_self), "surfaces"), (P(n_par),))
    paths = mk("mcall", P(n_bdg), "get_polygon_paths", (), ())
    refs = {v for _, v in rets}
    if len(refs) != 1 or next(iter(refs))[0] != "ref":
        raise AnalysisError("the array of surface parameters is not one array")
    root = K.roots[next(iter(refs))[1]]
    rep.ob("one-value-each", "size", verdict(root.shape is not None and first_dim(root.shape) is tm.length(paths), root.shape or ZERO), f.where(), "the array does not have one element per polygon")
    stores = [e for e in K.events if e.root is root and e.kind in ("store", "mutate")]
    rec = {r.key: r for r in K.loop_recs}
    cases = {True: [], False: []}
    start = None
    for e in stores:
        path = next((t for i in e.idx for t in tm.subterms(i) if t[0] == "elem" and t[1] is paths), None)
        if path is None:
            if not e.loops and not e.idx:
                continue            # filled beforehand
            rep.ob("own-number", e.where, verdict(False, *e.idx), e.where, f"the element {tm.show(tm.tup(e.idx))[:60]} is not that of a polygon")
            continue
        obj = mk("mcall", P(n_bdg), "get", (path,), ())
        ok = e.idx == (mk("attr", obj, "num"),)
        rep.ob("own-number", e.where, verdict(ok, *e.idx), e.where, f"a value is stored at {tm.show(tm.tup(e.idx))[:60]}, not at the polygon's number")
        r = rec.get(e.loops[-1]) if e.loops else None
        whole = r is not None and r.count is tm.length(paths) and not r.breaks
        rep.ob("all-polygons", e.where, verdict(whole, r.count if r is not None and r.count is not None else ZERO), e.where, "not every polygon gets a value")
        was = r.entry.arr.get(root) if r is not None else None
        start = was[1] if was is not None and was[0] == "fill" else None
        has = tm.cmp("in", path, table)
        harmless = lambda g: g[0] == "call" and g[1] == "builtins.isinstance" or tm.contains(g, lambda x: x is mk("attr", obj, "num")) and not tm.contains(g, lambda x: x is has)
        gs = [g for g in e.guards if not harmless(g)]
        for known in (True, False):
            fact = has if known else tm.neg(has)
            if K.unsat([K.lift(x) for x in gs + [fact]]):
                continue
            sure = all(K.implies([fact], g) for g in gs)
            cases[known].append((e, K.given(e.val, [fact]), sure, gs, path))
    default = mk("sel", table[1], table[2] + (tm.const("default"),))
    for known, es in cases.items():
        what = "a surface that was set" if known else "a surface never set"
        if not known and not es and start is not None:
            rep.ob("right-value", what, verdict(start is default, start), f.where(), f"{what} gets {tm.show(start)[:80]}")
            continue
        rep.ob("value-stored", what, verdict(any(s for _, _, s, _, _ in es), *[g for x in es for g in x[3]]), f.where(), f"{what} gets no value")
        for e, v, _, _, path in es:
            own = mk("sel", table[1], table[2] + (path,))
            alt = mk("mcall", table, "get", (path, default), ())
            ok = v in (own, alt) if known else v in (default, alt) or v is own and falls_back(prog)
            ok = ok or known and v is K.lookup(table, path)
            rep.ob("right-value", f"{e.where} {what}", verdict(ok, v), e.where, f"{what} gets {tm.show(v)[:80]}")


def first_dim(sh):
    return sh[1][0] if sh[0] == "tuple" and sh[1] else sh


def falls_back(prog):
    """The table answers with the default for paths it does not hold."""
    c = prog.find_func(R + "simulation_config.SurfaceParams.__missing__")
    if c is None:
        return False
    K = Kernel(prog)
    _, rets = K.run(c, {})
    me = mk("p", c.node.args.args[0].arg)
    return bool(rets) and all(v is mk("sel", me, (tm.const("default"),)) for _, v in rets)


def created(prog, rep):
    """A new configuration holds no value for a single surface, so that these follow the default."""
    f = prog.func(C + ".__init__")
    K = Kernel(prog)
    me = mk("p", f.node.args.args[0].arg)
    K.types[me] = prog.cls(C)
    out, _ = K.run(f, {})
    rep.use(K)
    v = out.env.get((("@", me), "surfaces"))
    if v is None or v[0] != "ref":
        raise AnalysisError("a new configuration has no surface parameters")
    bad = [e for e in K.events if e.kind in ("store", "mutate") and (e.root is K.roots[v[1]] or e.root is None and e.old is not None and not rooted(e.old, mk("p", "building")))]
    for e in bad:
        rep.ob("default-follows", e.where, False, e.where, "a new configuration sets values of single surfaces, which then no longer follow the default")
    c = out.arr.get(K.roots[v[1]])
    for k, t in (c[1] if c is not None and c[0] in ("dictof", "dict") else ()):
        extra = [x for x in tm.subterms(t) if x[0] == "mcall" and x[2] == "get_polygon_paths"]
        rep.ob("default-follows", tm.show(k), verdict(not extra, t), f.where(), "a new configuration sets values of single surfaces, which then no longer follow the default")
    rep.ob("default-follows", "new configuration", not bad, f.where(), "")
