"""C01: names, keys and parents of children."""
from __future__ import annotations

import ast

from .. import scan
from .. import terms as tm
from .. import typesys as ty
from ..core import vague
from ..interp import Interp
from ..loader import AnalysisError
from ..spec import polygon_hook
from ..terms import TRUE, const, mk

EXPLANATION = (
    "Dataflow with effect ordering over the four adding methods and the five constructors, plus a who-may-write query over the "
    "whole package. Rules: every normal exit of an adding method has stored the child under its own name and set its parent to "
    "the container; nothing is written while the name may still be taken; exactly that case raises; constructors add every "
    "given child; child maps and parents are written only by those methods and by replacing methods; every value assigned to a "
    "name is either random or known to be free of the separator.")
MIN_OBLIGATIONS = 45
LEVELS = (("Building", "building", "add_zone", "Zone"), ("Zone", "zone", "add_solid", "Solid"),
          ("Solid", "solid", "add_wall", "Wall"), ("Wall", "wall", "add_polygon", "Polygon"))
STATE = ("setattr", "store", "delitem", "mutate", "append", "add", "inplace", "delattr")


def method(prog, cname, mod, name):
    c = prog.cls(f"building3d.geom.{mod}.{cname}")
    f = prog.method(c, name)
    if f is None:
        raise AnalysisError(f"anchor not found: {cname}.{name}")
    return c, f


def show_all(gs):
    return [tm.show(g) for g in gs]


def check_add(prog, rep, cname, mod, add, kid, seen):
    c, f = method(prog, cname, mod, add)
    I = Interp(prog)
    st = I.start()
    self_ = I.obj_param("self", c)
    child = I.obj_param("child", I.class_named(kid))
    I.run(st, f, [child], {}, self_)
    rep.use(I)
    seen |= I.seen_funcs
    inst = f"{cname}.{add}"
    kids = mk("attr", self_, I.child_attr[cname])
    name = mk("attr", child, "name")
    taken = tm.cmp("in", name, kids)
    free = tm.neg(taken)
    par = mk("attr", child, I.parent_attr[kid])
    w = f.where()
    if st.dead:
        rep.ob("add-stores", inst, False, w, f"adding never succeeds ({st.dead})")
        return
    rep.same("add-parent", inst, I.read_attr(st, child, "parent"), self_, w)
    stores = [e for e in I.effects if e.kind in ("store", "delitem", "mutate") and e.args[0] is kids]
    good = [e for e in stores if e.kind == "store" and e.args[2] is child]
    rep.same("add-name", inst, I.read_attr(st, child, "name"), name, w)
    if not good:
        # perhaps the map was rebuilt: look at the final one
        m = I.read_attr(st, self_, I.child_attr[cname])
        got = I.read_item(st, m, name)
        rep.ob("add-stores", inst, True if got is child else (None if m is not kids else False), w,
               f"the child is not stored among the children; stored: {tm.show(got)}")
    for e in good:
        k = e.args[1]
        rep.ob("add-key", inst, True if k is name else (None if vague(k) else False), e.where,
               f"stored under {tm.show(k)} instead of its own name")
        extra = [g for g, kd in e.guards if g is not free]
        rep.ob("add-stores", inst, not extra, e.where, f"stored only when {show_all(extra)}")
    for e in stores:
        if e not in good:
            rep.ob("add-others", inst, False, e.where, f"also changes other children: {e.kind}")
    # nothing changes while the name may be taken
    refusals = [e for e in I.effects if e.kind == "raise"]
    match = [e for e in refusals if implies(taken, e.cond())]
    rep.ob("add-refuses", inst, bool(match) or _vague_any(refusals), w, "no error is raised when the name is already taken")
    for e in refusals:
        cnd = e.cond()
        ok = True if implies(cnd, taken) else (None if vague(cnd) or "isinstance" in tm.show(cnd) else False)
        if "isinstance" in tm.show(cnd):
            ok = True
        rep.ob("add-refuses-only-taken", inst, ok, e.where, f"also refuses when {tm.show(cnd)}")
    for e in I.effects:
        if e.kind not in STATE:
            continue
        b = e.args[0]
        if isinstance(b, tm.T) and b[0] == "obj":
            continue
        if b is kids or b is child or b is mk("attr", child, I.child_attr.get(kid, "pts")):
            facts = [g for g, _ in e.guards]
            rep.ob("add-before-check", f"{inst}:{e.kind} {tm.show(b)}", any(implies(g, free) for g in facts), e.where,
                   f"{tm.show(b)} is changed before the name is known to be free")


def _vague_any(effs):
    return None if any(vague(e.cond()) for e in effs) else False


def implies(a, b):
    """Conservative: every conjunct of b appears in a."""
    xs = set(tm.conj_list(a))
    return all(x in xs for x in tm.conj_list(b))


def sym_args(I, prog, f):
    args = {}
    for p in f.node.args.args[1:] + f.node.args.kwonlyargs:
        args[p.arg] = I.param(p.arg, ty.parse(prog, f.module, p.annotation, f.cls))
    return args


def check_init(prog, rep, cname, mod, kid, seen):
    c, f = method(prog, cname, mod, "__init__")
    I = Interp(prog)
    st = I.start()
    args = sym_args(I, prog, f)
    pnames = [p.arg for p in f.node.args.args[1:]]
    coll = args[pnames[0]]
    o = I.instantiate(st, c, [], args)
    rep.use(I)
    seen |= I.seen_funcs
    inst = f"{cname}()"
    w = f.where()
    if st.dead:
        rep.ob("init-adds", inst, False, w, "constructor never completes")
        return
    kids = I.read_attr(st, o, I.child_attr[cname])
    L = tm.loop_id(coll, 0)
    e0 = mk("elem", L)
    if kids[0] != "obj":
        rep.ob("init-adds", inst, None, w, f"children held in {tm.show(kids)}")
    else:
        ents, _ = I.entries(st, kids)
        sets = [e for e in ents if e.kind == "set"]
        ok = len(ents) == 1 and len(sets) == 1 and tuple(l for l, _ in sets[0].loops) == (L,) \
            and sets[0].val is e0 and sets[0].key is mk("attr", e0, "name")
        det = f"entries {[(e.kind, tm.show(e.key) if e.key else None, tm.show(e.val) if e.val else None, show_all(l for l, _ in e.loops)) for e in ents]}"
        st_ok = ok
        if not ok:
            vg = any(vague(x) for e in ents for x in (e.key, e.val) if x is not None)
            st_ok = None if vg else False
        rep.ob("init-adds", inst, st_ok, w, det)
        if ok:
            g = I.implied(st, sets[0].guard)
            rep.ob("init-adds-all", inst, g is TRUE, w, f"only children with {tm.show(g)} are added")
    ps = [e for e in I.effects if e.kind == "setattr" and e.args[1] == I.parent_attr[kid] and e.args[0] is e0]
    rep.ob("init-parent", inst, bool(ps) and all(e.args[2] is o for e in ps), w, "children do not get the new object as parent")


# ---------------------------------------------------------------------- names
def name_safe(I, v, facts, conds=()):
    """True when v cannot contain the separator given facts; None when not understood."""
    if v[0] == "phi":
        a = name_safe(I, v[2], facts, conds + (v[1],))
        b = name_safe(I, v[3], facts, conds + (tm.neg(v[1]),))
        return False if False in (a, b) else (None if None in (a, b) else True)
    if v[0] == "c" and tm.is_str(v):
        return "/" not in v[2]
    if v[0] == "str":
        return name_safe(I, v[1], facts, conds)
    if v[0] == "call" and v[1].startswith("uuid."):
        return True
    if v[0] == "cat":
        rs = [name_safe(I, x, facts, conds) for x in v[1]]
        return False if False in rs else (None if None in rs else True)
    if tm.NONE in [x for c in conds for x in (c,)]:
        return True
    if any(c is tm.FALSE for c in conds):
        return True
    want = tm.neg(tm.cmp("in", const("/"), v))

    def holds(g):
        if g is want:
            return True
        if g[0] == "phi":
            for c in conds:
                if g[1] is c:
                    return holds(g[2])
                if g[1] is tm.neg(c):
                    return holds(g[3])
            return holds(g[2]) and holds(g[3])
        if g[0] == "and":
            return any(holds(x) for x in g[1])
        if g[0] == "or":
            rest = [x for x in g[1] if tm.neg(x) not in conds]
            return all(holds(x) for x in rest) and bool(rest)
        return False
    if any(holds(g) for g in facts):
        return True
    # one more chance: an object already in the model has a checked name
    if v[0] == "attr" and v[2] == "name":
        return True
    if v[0] in ("call", "mcall") or vague(v):
        return None
    return False


def check_names(prog, rep, seen):
    geo = {"Building", "Zone", "Solid", "Wall", "Polygon"}
    # constructors
    n = 0
    for cname, mod in (("Building", "building"), ("Zone", "zone"), ("Solid", "solid"), ("Wall", "wall"), ("Polygon", "polygon")):
        c, f = method(prog, cname, mod, "__init__")
        I = Interp(prog)
        st = I.start()
        o = I.instantiate(st, c, [], sym_args(I, prog, f))
        rep.use(I)
        es = [e for e in I.effects if e.kind == "setattr" and e.args[1] == "name" and e.args[0] is o]
        rep.ob("name-set", f"{cname}()", bool(es), f.where(), "the constructor sets no name")
        arg = mk("p", "name")
        for e in es:
            n += 1
            r = name_safe(I, I.val(st, e.args[2]), [g for g, _ in e.guards])
            rep.ob("name-checked", f"{cname}()", r, e.where, f"name may contain the separator: {tm.show(e.args[2])}")
        fin = I.val(st, I.read_attr(st, o, "name"))
        leaves = phi_leaves(fin)
        rep.ob("name-given", f"{cname}()", arg in leaves and all(x is arg or x[0] in ("str", "call") for x in leaves), f.where(),
               f"the given name is not kept as it is: {tm.show(fin)}")
    # every other place writing a name
    done = set()
    for f in scan.functions(prog):
        sites = list(scan.attr_writes(f, "name"))
        if not sites or f.name == "__init__" and f.cls is not None and f.cls.name in geo:
            continue
        if f.cls is not None and f.cls.name not in geo and all(is_self(f, s) for s in sites):
            continue
        if f.qualname in done:
            continue
        done.add(f.qualname)
        poly = I.class_named("Polygon")
        I = Interp(prog, inline=lambda g, f=f: g.module is f.module and small(g) or g.name in ("validate_name", "random_id") or g.module.name.startswith("building3d.geom.paths.") and small(g))
        I.hooks[poly.qualname] = polygon_hook
        I.run_sym(f)
        rep.use(I)
        es = [e for e in I.effects if e.kind == "setattr" and e.args[1] == "name"]
        if not es:
            rep.ob("name-checked", f.qualname, None, f.where(sites[0]), "a name is written but the write was not reached")
        bad = {}
        for e in es:
            n += 1
            r = name_safe(I, e.args[2], [g for g, _ in e.guards])
            k = f"{f.qualname}:{tm.show(e.args[2])}"
            bad[k] = (r if bad.get(k, (True,))[0] is True else bad[k][0], e)
        for k, (r, e) in bad.items():
            rep.ob("name-checked", k, r, e.where, f"name may contain the separator: {tm.show(e.args[2])}")
    rep.count("name_writes", n)


def small(g):
    return not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(g.node))


def is_self(f, n):
    a = f.node.args.args
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and a and n.value.id == a[0].arg


def phi_leaves(v):
    if v[0] == "phi":
        return phi_leaves(v[2]) | phi_leaves(v[3])
    return {v}


# ---------------------------------------------------------------------- who may write
def check_writers(prog, rep, seen):
    I = Interp(prog)
    maps = {v for k, v in I.child_attr.items() if k != "Polygon"} | {"children"}
    n = 0
    for f in scan.functions(prog):
        if f.cls is not None and f.cls.name == "Polygon":
            continue
        for node, kind, attr in scan.container_writes(f, maps):
            n += 1
            ok = f.qualname in seen
            if kind == "attr" and f.cls is not None and f.cls.name not in I.child_attr and is_self(f, node):
                continue     # an attribute of an unrelated class
            rep.ob("children-writer", f"{f.qualname}:{attr}", ok, f.where(node),
                   f"children are changed ({kind}) outside the adding and replacing methods")
        for pn in I.parent_names | {"parent"}:
            for node in scan.attr_writes(f, pn):
                n += 1
                ok = f.qualname in seen or f.name == "__init__" and is_self(f, node) or \
                    any(d.endswith(".setter") for d in f.decorators)
                rep.ob("parent-writer", f"{f.qualname}:{pn}", ok, f.where(node), "a parent is changed outside the adding and replacing methods")
    # helpers used by the adding methods are used by nobody else
    for q in sorted(seen):
        f = prog.funcs.get(q)
        if f is None or not list(scan.container_writes(f, maps)) or f.name.startswith(("add_", "replace_", "__init__")):
            continue
        for g, node in scan.callers(prog, f.name):
            rep.ob("children-writer", f"{g.qualname}->{f.name}", g.qualname in seen, g.where(node),
                   "children are changed through a helper of the adding methods")
    rep.count("write_sites", n)


def check_parent_prop(prog, rep):
    """What is assigned to parent is what parent returns."""
    for cname, mod, _, _ in LEVELS[1:] + (("Polygon", "polygon", None, None),):
        c = prog.cls(f"building3d.geom.{mod}.{cname}")
        I = Interp(prog)
        st = I.start()
        o = I.obj_param("self", c)
        x = I.obj_param("x", I.class_named(Interp.PARENT_CLS[cname]))
        I.write_attr(st, o, "parent", x)
        rep.same("parent-kept", cname, I.read_attr(st, o, "parent"), x, c.module.relpath)
        rep.use(I)


def check(prog, rep):
    seen = set()
    for cname, mod, add, kid in LEVELS:
        check_add(prog, rep, cname, mod, add, kid, seen)
        check_init(prog, rep, cname, mod, kid, seen)
    for cname, mod, m, kid in (("Wall", "wall", "replace_polygon", "Polygon"), ("Solid", "solid", "replace_wall", "Wall")):
        c = prog.cls(f"building3d.geom.{mod}.{cname}")
        f = prog.method(c, m)
        if f is not None:
            I = Interp(prog)
            I.run_sym(f)
            seen |= I.seen_funcs
    check_parent_prop(prog, rep)
    check_names(prog, rep, seen)
    check_writers(prog, rep, seen)
