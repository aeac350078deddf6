"""C37: movies and plots of rays show each ray with its own positions and energy."""
from __future__ import annotations

from .. import canon, terms as tm
from ..core import vague
from ..interp import Interp
from ..spec import equal
from ..terms import NONE, ONE, ZERO, const, mk

EXPLANATION = (
    "The movie writer is analysed by value-provenance dataflow; every mesh it draws or updates is recorded with the points and the colour values it gets, and under which condition. "
    "Points taken from one recorded step must be coloured with the energies of that step; trail points, laid out ray by ray, must be coloured with the energies of the same steps in the same layout. "
    "The window of steps must end at a step that moves on by one with every frame and start no more than the trail length before it. "
    "Plotted objects are recorded in the same way: each must be drawn with its own faces, lines and points, in the colour given for it. "
    "The layout of trails and of plotted lines is compared in normal form with specification functions.")
TECHNIQUE = "value-provenance dataflow over recorded mesh updates, layout comparison, normal-form comparison with specification functions"
NOTE = "Holds for all recordings, trail lengths and buildings, and for any number of plotted objects (the counts are only compared with each other and with 0 and 1); what the plotting library draws from the meshes is assumed to be what it documents."
MIN_OBLIGATIONS = 20

R = "building3d.sim.rays."
M = R + "movie_from_buffer."
SPEC = '''
import numpy as np
import pyvista as pv
from building3d.geom.types import FLOAT
from building3d.display.colors import random_rgb_color
def lines(pb):
    pts = []
    index = []
    n = 0
    for r in range(pb.shape[1]):
        index.append(pb.shape[0])
        for s in range(pb.shape[0]):
            pts.append(pb[s, r, :])
            index.append(n)
            n += 1
    return np.array(pts), index
def plot_points(self):
    return self.pos_buf[-1, :, :]
def plot_lines(self):
    pts = []
    index = []
    n = 0
    for r in range(self.pos_buf.shape[1]):
        pts.extend(self.pos_buf[:, r, :])
        index.append([n + i for i in range(self.pos_buf.shape[0])])
        n += self.pos_buf.shape[0]
    return np.vstack(pts, dtype=FLOAT), np.vstack(index)
def mesh(building):
    v, f = building.get_mesh()
    out = []
    for t in f:
        out.extend([3, t[0], t[1], t[2]])
    return v, out
def plotted(objects, output_file, colors):
    if len(objects) == 0:
        raise ValueError
    if len(colors) > 0 and len(colors) != len(objects):
        raise ValueError
    pl = pv.Plotter()
    for i, obj in enumerate(objects):
        if len(colors) > 0:
            col = [float(x) for x in colors[i]]
        elif len(objects) == 1:
            col = [1.0, 1.0, 1.0]
        else:
            col = random_rgb_color()
        if callable(getattr(obj, "get_mesh", None)):
            v, f = obj.get_mesh()
            out = []
            for t in f:
                out.extend([3, t[0], t[1], t[2]])
            pl.add_mesh(pv.PolyData(v, faces=np.array(out)), color=col)
        if callable(getattr(obj, "get_lines", None)):
            v, ls = obj.get_lines()
            out = []
            for l in ls:
                seg = [len(l)]
                for k in l:
                    seg.append(int(k))
                out.extend(seg)
            pl.add_mesh(pv.PolyData(v, lines=out), color=col)
        if callable(getattr(obj, "get_points", None)):
            pl.add_mesh(pv.PolyData(obj.get_points()), color=col)
'''
ALL = mk("slc", NONE, NONE, NONE)


def check(prog, rep):
    S = prog.spec(SPEC)
    lines = prog.func(M + "position_buffer_to_lines")
    equal(prog, rep, "trails", lines.qualname, lines, S["lines"], lambda I: (None, [I.param("pb", ("arr",))]))
    c = prog.cls(R + "ray_buff_plotter.RayBuffPlotter")
    for m, s in (("get_points", "plot_points"), ("get_lines", "plot_lines")):
        f = prog.method(c, m)
        equal(prog, rep, "plotted", f.qualname, f, S[s], lambda I: (I.obj_param("self", c), []))
    movie(prog, rep, S, lines)
    plot(prog, rep, S)


def recorded(prog, fn):
    """What is put into a plot: kind -> [(mesh, colour, condition, where)]."""
    I = Interp(prog, opaque=[prog.func("building3d.display.colors.random_rgb_color").qualname])
    st = I.start()
    I.run(st, fn, [I.param(n, ("any",)) for n in ("objects", "output_file", "colors")])
    out = {}
    for e in I.effects:
        if e.kind == "mcall" and e.args[1] == "add_mesh" and e.args[2][0] == "mcall" and e.cond() != tm.FALSE:
            call = e.args[2]
            mesh = I.val(st, call[3][0]) if call[3] else NONE
            col = I.val(st, dict(call[4]).get("color", NONE))
            kws = dict(mesh[3]) if mesh[0] == "call" else {}
            kind = next((k for k in ("faces", "lines") if k in kws), "points")
            for m in out.setdefault(kind, []):
                if m[0] == mesh and m[1] == col:
                    m[2] = tm.disj([m[2], e.cond()])
                    break
            else:
                out[kind].append([mesh, col, e.cond(), e.where])
    return I, st, out


def plot(prog, rep, S):
    f = prog.func("building3d.display.plot_objects.plot_objects")
    I, st, got = recorded(prog, f)
    rep.use(I)
    J, sj, exp = recorded(prog, S["plotted"])
    facts = (st.facts(), sj.facts())
    for kind in ("faces", "lines", "points"):
        inst = f"{f.qualname} [{kind}]"
        rows = got.get(kind, [])
        if len(rows) != 1:
            rep.ob("object-drawn", inst, None if rows else False, f.where(), f"{kind} of an object are drawn in {len(rows)} places")
            continue
        (mesh, col, cond, w), (m2, c2, k2, _) = rows[0], exp[kind][0]
        used = lambda t: {x[2] for x in walk(t) if x[0] == "mcall"}
        if mesh[0] == "call" and used(mesh) != used(m2) and not vague(tm.tup(mesh[2])):
            rep.ob("object-drawn", inst, False, w, f"{kind} are taken from {', '.join(sorted(used(mesh)))}")
            continue
        rep.same("object-drawn", inst, mesh, m2, w, facts)
        coloured(rep, I, inst, col, w)
        rep.same("object-drawn-when", inst, cond, k2, w, facts)


def coloured(rep, I, inst, col, w):
    """The object gets the colour given for it, for every relation between the two counts."""
    objs, cols = mk("p", "objects"), mk("p", "colors")
    for n, c in ((1, 0), (1, 1), (2, 0), (2, 2), (3, 0), (3, 3)):
        t = tm.subst(col, {tm.length(objs): const(n), tm.length(cols): const(c)})
        while t[0] == "phi":
            k = canon.canon(t[1])
            if k not in (tm.TRUE, tm.FALSE):
                break
            t = t[2] if k == tm.TRUE else t[3]
        where = f"{inst} {n} objects, {c} colours"
        if t[0] == "phi":
            rep.ob("object-colour", where, None, w, f"the colour is {tm.show(t)[:200]}")
            continue
        src = [t] + [e.args[1] for e in I.effects if e.kind == "append" and e.args[0] == t]
        picks = [x for y in src for x in walk(y) if x[0] == "item" and x[1] == cols]
        if c == 0:
            rep.ob("object-colour", where, not picks, w, "a colour is looked up although none are given")
            continue
        own = [x for x in picks if x[2][0] == "idx" and x[2][1][:2] == ("L", objs)]
        rep.ob("object-colour", where, True if picks and len(own) == len(picks) else None if any(vague(y) for y in src) and not picks else False, w,
               f"the object is drawn in {'; '.join(tm.show(y) for y in src)[:200]} instead of its own colour")


def movie(prog, rep, S, lines):
    f = prog.func(M + "make_movie_from_buffer")
    made = []

    def poly(I, st, name, a):
        args, kw = a
        o = I.alloc(st, "dict")
        vals = [I.val(st, x) for x in args]
        kws = {k: I.val(st, x) for k, x in kw.items()}
        I.effect(st, "made", o, tm.tup(vals))
        made.append((o, vals, kws, I.effects[-1]))
        return o
    I = Interp(prog, opaque=[lines.qualname])
    I.hooks["pyvista.PolyData"] = poly
    st = I.start()
    p = {n: I.param(n, ("any",)) for n in ("output_file", "building", "pos_buf", "enr_buf", "sim_cfg", "verbose")}
    I.run(st, f, list(p.values()))
    rep.use(I)
    groups = {}
    made = [m for m in made if any(e is m[3] for e in I.effects)]
    steps = {tm.length(p[n]): mk("p", "<steps>") for n in ("pos_buf", "enr_buf")}
    value = lambda t: tm.subst(I.val(st, t), steps)
    for o, vals, kws, e in made:
        vals, kws = [tm.subst(v, steps) for v in vals], {k: tm.subst(v, steps) for k, v in kws.items()}
        if vals or kws:
            g = groups.setdefault((o, e.cond()), {"where": e.where})
            if vals:
                g["points"] = vals[0]
            g.update(kws)
    for e in I.effects:
        if e.kind == "setattr" and e.args[1] in ("points", "lines", "faces"):
            groups.setdefault((e.args[0], e.cond()), {"where": e.where})[e.args[1]] = value(e.args[2])
        elif e.kind == "store" and len(e.args) > 2 and tm.is_str(e.args[1]) and (("points" in groups.get((e.args[0], e.cond()), {})) or any(o == e.args[0] for o, *_ in made)):
            groups.setdefault((e.args[0], e.cond()), {"where": e.where})["colour"] = value(e.args[2])
    rep.count("mesh updates", len(groups))
    kinds = {}
    for (o, cond), g in sorted(groups.items(), key=lambda x: x[1]["where"]):
        w = g["where"]
        pts = g.get("points")
        inst = f"{f.qualname} {w}"
        if pts is None:
            rep.ob("mesh-points", inst, None, w, "a mesh whose points are not known is changed")
            continue
        if "faces" in g:
            drawn(prog, rep, I, S, g, w)
            kinds.setdefault("building", []).append(cond)
            continue
        src = provenance(pts, p["pos_buf"], lines.qualname)
        if src is None:
            rep.ob("mesh-points", inst, None, w, f"points of a mesh come from {tm.show(pts)[:200]}")
            continue
        kind, sel = src
        kinds.setdefault(kind, []).append(cond)
        rep.ob("mesh-points", inst, True, w)
        col = g.get("colour")
        if col is None:
            rep.ob("own-energy", inst, False, w, "the points are moved but keep their former colours")
        elif kind == "points":
            same(rep, "own-energy", inst, col, swap(pts, p["pos_buf"], p["enr_buf"]), w)
        else:
            laid_out(rep, inst, col, swap(sel, p["pos_buf"], p["enr_buf"]), w)
            ln = g.get("lines")
            if ln is None:
                rep.ob("own-trail", inst, False, w, "points of the trails are changed without their connections")
            else:
                same(rep, "own-trail", inst, ln, mk("item", pts[1], ONE) if pts[0] == "item" else ln, w)
        window(rep, inst, I, sel, p["pos_buf"], p["sim_cfg"], w)
    for k in ("points", "trails"):
        cs = kinds.get(k, [])
        every = canon.equal(tm.disj(cs), tm.TRUE) if cs else False
        rep.ob("every-frame", f"{f.qualname} [{k}]", True if every else False if not any(vague(c) for c in cs) else None, f.where(),
               f"{k} are updated only when {tm.show(tm.disj(cs))[:200] if cs else 'never'}")
    rep.ob("building-drawn", f.qualname, bool(kinds.get("building")), f.where(), "the building is not drawn")
    wrote(rep, I, f)


def same(rep, rule, inst, got, exp, w):
    rep.same(rule, inst, spread(got), spread(exp), w)


def spread(t):
    """a[s][i] and a[s, :][i] as one selection: leading slices kept apart from an index into them."""
    if t[0] == "item" and t[1][0] == "item":
        inner = spread(t[1])
        return mk("item", inner, trim(t[2]))
    if t[0] == "item":
        return mk("item", t[1], trim(t[2]))
    return t


def trim(ix):
    if ix[0] == "tuple":
        xs = list(ix[1])
        while len(xs) > 1 and xs[-1] == ALL:
            xs.pop()
        return xs[0] if len(xs) == 1 else tm.tup(xs)
    return ix


def swap(t, a, b):
    return tm.subst(t, {a: b})


def provenance(t, pos, lines):
    """('points', recorded steps) for the positions of one step, ('trails', recorded steps) for laid out lines."""
    if t[0] == "item" and t[2] == ZERO and t[1][0] == "call" and t[1][1] == lines and len(t[1][2]) == 1:
        return ("trails", t[1][2][0]) if tm.contains(t, lambda x: x == pos) else None
    if t[0] == "item" and tm.contains(t, lambda x: x == pos):
        s = spread(t)
        if s[1][0] == "item" and s[1][1] == pos:
            return "points", s[1]
        return "points", s
    return None


def laid_out(rep, inst, col, exp, w):
    """Energies of all steps and rays in the order ray by ray."""
    kind, base = None, None
    if col[0] == "mcall" and col[2] in ("flatten", "ravel", "reshape"):
        base, args, kw = col[1], col[3], dict(col[4])
        order = args[0] if args and col[2] != "reshape" else kw.get("order")
        byray = order == const("F")
        if order is not None and order not in (const("F"), const("C")):
            base = None
        if col[2] == "reshape" and args not in ((const(-1),), (tm.tup((const(-1),)),)):
            base = None
    elif col[0] == "call" and col[1] in ("np.ravel", "numpy.ravel") and len(col[2]) == 1 and not col[3]:
        base, byray = col[2][0], False
    if base is not None:
        turned = False
        if base[0] == "attr" and base[2] == "T":
            base, turned = base[1], True
        elif base[0] == "call" and base[1] in ("np.transpose", "numpy.transpose") and len(base[2]) == 1:
            base, turned = base[2][0], True
        elif base[0] == "mcall" and base[2] == "transpose" and not base[3]:
            base, turned = base[1], True
        kind = byray != turned
    if kind is None:
        rep.ob("own-energy", inst, None, w, f"trails are coloured with {tm.show(col)[:200]}")
        return
    rep.ob("own-energy-order", inst, kind, w, "trail points go ray by ray, their energies step by step: points get the energy of other rays")
    same(rep, "own-energy", inst, base, exp, w)


def window(rep, inst, I, sel, pos, cfg, w):
    """The steps shown: up to a step that moves on by one per frame, and at most the trail length."""
    s = spread(sel)
    ix = s[2] if s[0] == "item" and s[1] == pos else None
    if ix is None:
        rep.ob("window", inst, None, w, f"the steps shown are {tm.show(sel)[:200]}")
        return
    if ix[0] != "slc":
        last = ix
    else:
        if ix[3] not in (NONE, ONE):
            rep.ob("window", inst, False, w, "steps are left out or reversed")
            return
        last = ix[2]
    idx = [x for x in walk(last) if x[0] == "idx"]
    moves = len(set(idx)) == 1 and tm.is_int(tm.sub(last, idx[0]))
    rep.ob("step-by-step", inst, True if moves else None if vague(last) or not idx else False, w, f"the newest step shown is {tm.show(last)[:200]}")
    if ix[0] == "slc":
        n = mk("item", mk("attr", cfg, "visualization"), const("ray_trail_length"))
        lo = tm.sub(last, n)
        exp = tm.phi(tm.cmp("<", lo, ZERO), ZERO, lo)
        ok = canon.equal(ix[1], exp) or canon.equal(canon.canon(ix[1]), canon.canon(mk("call", "max", (lo, ZERO), ()))) or canon.equal(ix[1], mk("call", "max", (ZERO, lo), ()))
        rep.ob("trail-length", inst, True if ok else None if vague(ix[1]) else False, w, f"the oldest step shown is {tm.show(ix[1])[:200]}")


def walk(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from (y for y in walk(x) if y and isinstance(y[0], str))


def drawn(prog, rep, I, S, g, w):
    J = Interp(prog)
    sj = J.start()
    v = J.val(sj, J.run(sj, S["mesh"], [J.param("building", ("any",))]))
    rep.same("building-mesh", f"{M}make_movie_from_buffer {w}", tm.tup((g["points"], g["faces"])), v, w)


def wrote(rep, I, f):
    wf = [e for e in I.effects if e.kind == "mcall" and e.args[1] == "write_frame"]
    rep.ob("frames-written", f.qualname, bool(wf), f.where(), "no frame is written")
    close = [e for e in I.effects if e.kind == "mcall" and e.args[1] == "close"]
    rep.ob("movie-closed", f.qualname, bool(close), f.where(), "the movie is never closed")
