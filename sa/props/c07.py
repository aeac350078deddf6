"""C07: combined meshes."""
from __future__ import annotations

from .. import terms as tm
from ..interp import Interp
from ..rows import rows
from ..terms import ZERO, const, mk

EXPLANATION = (
    "Value-provenance dataflow over the mesh stacking routine and the get_mesh methods of the four container levels. "
    "Rule 1: every row of the stacked arrays is written exactly once, at position (rows of earlier parts + own row), with the "
    "value of that row of that part; face rows are shifted by the number of points of earlier parts. Rule 2: each level "
    "passes all its children, in order, points with points and triangles with triangles, to the stacking routine.")
MIN_OBLIGATIONS = 12


def expected_rows(I, st, coll, attr_name, shift=None):
    """Rows of attr over all elements of coll, concatenated; shift: attribute counted before each part."""
    L = tm.loop_id(coll, 0)
    part = mk("attr", mk("elem", L), attr_name)
    R = tm.loop_id(part, 0)
    idx = mk("idx", R)
    off = tm.psum(L, tm.abstract(tm.length(part), L))
    v = mk("elem", R)
    if shift is not None:
        v = tm.add(v, tm.psum(L, tm.abstract(tm.length(mk("attr", mk("elem", L), shift)), L)))
    body = tm.tup([tm.add(off, idx), v])
    for l in (R, L):
        body = mk("red", "list", l[1], tm.abstract(body, l))
    return tm.red("sum", coll, tm.abstract(tm.length(part), L)), frozenset([body])


def check_stack(prog, rep):
    f = prog.func("building3d.geom.mesh.vstack_mesh")
    I = Interp(prog)
    st = I.start()
    parts = mk("p", "parts")
    poly = I.class_named("Polygon")
    I.set_type(parts, ("list", ("cls", poly)))
    bp = mk("bv", 0, "elem")
    t_pts = mk("red", "list", parts, mk("attr", bp, "pts"))
    t_tri = mk("red", "list", parts, mk("attr", bp, "tri"))
    I.set_type(t_pts, ("list", ("arr",)))
    I.set_type(t_tri, ("list", ("arr",)))
    v = I.run(st, f, [t_pts, t_tri])
    rep.use(I)
    w = f.where()
    for i, (what, a, sh) in enumerate((("points", "pts", None), ("faces", "tri", "pts"))):
        x = I.read_item(st, v, const(i))
        got = rows(I, st, x)
        exp_n, exp = expected_rows(I, st, parts, a, sh)
        inst = f"{f.qualname}:{what}"
        if got is None:
            d = tm.show(I.val(st, x))
            rep.ob("stack-rows", inst, None, w, f"array construction not understood: {d}")
            continue
        rep.same("stack-size", inst, got[0], exp_n, w)
        from ..core import vague
        if got[1] == exp:
            rep.ob("stack-rows", inst, True, w)
        else:
            bad = [t for t in got[1] if t not in exp]
            miss = [t for t in exp if t not in got[1]]
            d = f"rows written {[tm.show(t) for t in bad]}; required {[tm.show(t) for t in miss]}"
            outer = [t for t in bad if t[0] == "red" and not vague(t[2]) and t[2][0] != "while" and t[2] is not parts]
            rep.ob("stack-rows", inst, None if any(vague(t) for t in bad) and not outer else False, w, d)
        dtype(rep, I, st, x, what, inst, w)
    checks_only(rep, I, st, parts, "stack-guard", f.qualname, w)


def dtype(rep, I, st, x, what, inst, w):
    inf = I.info(x)
    if inf is None or inf.init is None or inf.init[0] != "call":
        return
    d = dict(inf.init[3]).get("dtype")
    name = d[1] if d is not None and d[0] == "ext" else None
    ok_f = {"np.float64", "builtins.float", "np.double", None}
    ok_i = {"np.int32", "np.int64", "builtins.int", "np.intp", "np.uint32"}
    rep.ob("stack-dtype", inst, name in (ok_f if what == "points" else ok_i), w, f"dtype {name}")


def checks_only(rep, I, st, parts, rule, inst, w):
    """No input other than mismatched lengths may be refused or cut short."""
    for e in I.effects:
        if e.kind == "raise":
            rep.ob(rule, f"{inst}:{e.args[0]}", False, e.where, f"refuses when {tm.show(e.cond())}")
    for g, k in st.guards:
        if k == "branch":
            rep.ob(rule, f"{inst}:branch", False, w, f"only returns when {tm.show(g)}")
    rep.ob(rule, inst, True, w)


LEVELS = (("Wall", "wall", "polygons"), ("Solid", "solid", "walls"), ("Zone", "zone", "solids"), ("Building", "building", "zones"))


def check_level(prog, rep, cname, mod, attr):
    cls = prog.cls(f"building3d.geom.{mod}.{cname}")
    f = prog.method(cls, "get_mesh")
    if f is None:
        from ..loader import AnalysisError
        raise AnalysisError(f"anchor not found: {cname}.get_mesh")
    stack = prog.func("building3d.geom.mesh.vstack_mesh")
    child_mesh = [prog.method(prog.cls(f"building3d.geom.{m}.{c}"), "get_mesh") for c, m, _ in LEVELS]
    opq = {stack.qualname} | {g.qualname for g in child_mesh if g is not None and g is not f}
    I = Interp(prog, opaque=opq)
    attr = I.child_attr.get(cname, attr)
    st = I.start()
    self_ = I.obj_param("self", cls)
    v = I.run(st, f, [], {}, self_)
    rep.use(I)
    coll = mk("attr", self_, attr)
    b = mk("bv", 0, "elem")
    if cname == "Wall":
        pts, tri = mk("attr", b, "pts"), mk("attr", b, "tri")
    else:
        i = [l[0] for l in LEVELS].index(cname)
        m = mk("call", child_mesh[i - 1].qualname, (b,), ())
        pts, tri = mk("item", m, ZERO), mk("item", m, const(1))
    args = (mk("red", "list", coll, pts), mk("red", "list", coll, tri))
    r = mk("call", stack.qualname, args, ())
    got = I.val(st, v)
    if got[0] == "tuple" and len(got[1]) == 2:
        a, c = got[1]
        if a[0] == "item" and c[0] == "item" and a[1] is c[1] and a[2] is ZERO and c[2] is const(1):
            got = a[1]
    rep.same("level-parts", f"{cname}.get_mesh", got, r, f.where())
    branches = [g for g, k in st.guards if k == "branch"]
    rep.ob("level-unconditional", f"{cname}.get_mesh", not branches, f.where(), f"only under {[tm.show(g) for g in branches]}")


def check(prog, rep):
    check_stack(prog, rep)
    for lv in LEVELS:
        check_level(prog, rep, *lv)
