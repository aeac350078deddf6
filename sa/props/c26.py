"""C26: replacing children is all-or-nothing."""
from __future__ import annotations

import ast

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..terms import TRUE, mk
from .c01 import method

EXPLANATION = (
    "Dataflow with effect ordering over the two replacing methods. Rules: on every normal exit the children are the previous ones "
    "without the named child plus every given replacement under its own name with the container as parent; a missing child and "
    "a collision with a remaining child or another replacement raise; no error can be raised after the first change of the "
    "container, of its children map or of a replacement.")
MIN_OBLIGATIONS = 10
COMMIT = ("setattr", "store", "delitem", "mutate", "delattr", "inplace")


def is_fresh(b):
    return isinstance(b, tm.T) and b[0] == "obj"


def covers(I, st, o, kids, old):
    """Does container o hold all names of kids but old?"""
    if o is kids:
        return True
    if o[0] == "flux":
        o = o[1]
    if o[0] != "obj":
        return False
    L = tm.loop_id(kids, 0)
    e0 = mk("elem", L)
    for e in I.entries(st, o)[0]:
        if tuple(l for l, _ in e.loops) == (L,) and (e.key is mk("attr", e0, "name") or e.val is mk("attr", e0, "name")):
            if all(x is tm.neg(tm.cmp("==", mk("attr", e0, "name"), old)) for x in tm.conj_list(e.guard)):
                return True
    return False


def check_one(prog, rep, cname, mod, meth, kid, many):
    c, f = method(prog, cname, mod, meth)
    I = Interp(prog)
    st = I.start()
    self_ = I.obj_param("self", c)
    old = I.param("old", ("str",))
    I.nonnull.add(old)
    k = I.class_named(kid)
    if many:
        new = I.param("new", ("list", ("cls", k)))
        NL = tm.loop_id(new, 0)
        item, iloops = mk("elem", NL), (NL,)
        arg = mk("star", new)
    else:
        new = item = arg = I.obj_param("new", k)
        iloops = ()
    I.run(st, f, [old, arg], {}, self_)
    rep.use(I)
    inst = f"{cname}.{meth}"
    w = f.where()
    if st.dead:
        rep.ob("replace-result", inst, False, w, "replacing never succeeds")
        return
    kids = mk("attr", self_, I.child_attr[cname])
    L = tm.loop_id(kids, 0)
    e0 = mk("elem", L)
    kname, nname = mk("attr", e0, "name"), mk("attr", item, "name")
    isold = tm.cmp("==", kname, old)

    # final contents
    m = I.read_attr(st, self_, I.child_attr[cname])
    ents = I.entries(st, m)[0] if m[0] == "obj" or m is kids else None
    if ents is None:
        rep.ob("replace-result", inst, None, w, f"children held in {tm.show(m)}")
    else:
        kept = removed = added = m is kids and "base"
        other = []
        kept, removed = (True, False) if m is kids else (False, False)
        added = False
        for e in ents:
            loops = tuple(l for l, _ in e.loops)
            g = I.implied(st, e.guard)
            if e.kind == "set" and loops == (L,) and e.key is kname and e.val is e0:
                if g is TRUE:
                    kept = True
                elif g is tm.neg(isold):
                    kept = removed = True
                else:
                    other.append(f"keeps only children with {tm.show(g)}")
            elif e.kind == "del" and loops == () and e.key is old and g is TRUE:
                removed = True
                if added:
                    other.append("removes the named child after adding the replacements")
            elif e.kind == "set" and loops == iloops and e.val is item and e.key is nname:
                added = True
                if g is not TRUE:
                    other.append(f"adds only replacements with {tm.show(g)}")
            elif e.kind == "set" and any(vague(x) for x in (e.key, e.val)):
                other.append(None)
            elif e.kind == "clear" and not kept:
                kept = False
            else:
                other.append(f"{e.kind} {tm.show(e.key) if e.key is not None else ''} -> {tm.show(e.val) if e.val is not None else ''}")
        und = None in other
        other = [x for x in other if x]
        for what, ok in (("keeps the other children", kept), ("removes the named child", removed), ("adds every replacement", added)):
            rep.ob("replace-result", f"{inst}: {what}", True if ok else (None if und else False), w, "not on every normal exit")
        rep.ob("replace-only", inst, None if und else not other, w, "; ".join(other))
    ps = [e for e in I.effects if e.kind == "setattr" and e.args[1] == I.parent_attr[kid]]
    good = [e for e in ps if e.args[0] is item and e.args[2] is self_ and not [g for g, kd in e.guards if kd == "branch"]]
    rep.ob("replace-parent", inst, bool(good) and len(good) == len(ps), w, "replacements do not get the container as parent, or others lose theirs")

    # refusals
    raises = [(i, e) for i, e in enumerate(I.effects) if e.kind == "raise"]
    missing = tm.neg(tm.cmp("in", old, kids))
    mraise = [e for _, e in raises if e.cond() is missing]
    implicit = [e for e in I.effects if e.kind == "delitem" and e.args[1] is old] or \
        [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)
         and isinstance(n.slice, ast.Name) and n.slice.id == f.node.args.args[1].arg]
    rep.ob("replace-missing-refused", inst, bool(mraise or implicit), w, "replacing an unknown child raises no error")

    def collision(cnd):
        """Is cnd 'the replacement's name is taken by a remaining child'?"""
        if cnd[0] == "cmp" and cnd[1] == "in" and cnd[2] is nname and covers(I, st, cnd[3], kids, old):
            return True
        b = mk("bv", 0, "elem")
        want = tm.red("any", kids, tm.conj([tm.cmp("==", mk("attr", b, "name"), nname),
                                            tm.neg(tm.cmp("==", mk("attr", b, "name"), old))]))
        alt = tm.conj([tm.cmp("in", nname, kids), tm.neg(tm.cmp("==", nname, old))])
        return cnd in (want, alt)
    craise = [(i, e) for i, e in raises if collision(e.cond())]
    rep.ob("replace-collision-refused", inst, bool(craise) or (None if any(vague(e.cond()) and e.cond()[0] != "cmp" for _, e in raises) else False),
           w, "a collision with a remaining child raises no error")
    for i, e in raises:
        if e not in mraise and (i, e) not in craise:
            cnd = e.cond()
            okay = cnd[0] == "cmp" and cnd[1] == "in" and cnd[2] is nname or "isinstance" in tm.show(cnd)
            okay = okay or cnd[0] == "red" and cnd[1] == "any" and nname in set(tm.subterms(cnd))
            rep.ob("replace-refuses-only", f"{inst}:{tm.show(cnd)}", True if okay else (None if vague(cnd) else False), e.where,
                   f"also refuses when {tm.show(cnd)}")

    # no refusal after a commit
    commits = [(i, e) for i, e in enumerate(I.effects) if e.kind in COMMIT and not is_fresh(e.args[0])]
    rep.ob("replace-commits", inst, bool(commits), w, "no change is made")
    n = 0
    first = commits[0] if commits else None
    prechecked = [i for i, e in craise if first and i < first[0] and not shares_loop(e, [c for _, c in commits])]
    for i, e in enumerate(I.effects):
        refuse = e.kind == "raise" or e.kind == "assert" or (
            e.kind == "delitem" and not is_fresh(e.args[0]) and tm.cmp("in", e.args[1], e.args[0]) not in [g for g, _ in e.guards])
        if not refuse:
            continue
        n += 1
        before = [c for j, c in commits if j < i]
        around = [c for j, c in commits if j > i and shares_loop(e, [c])]
        ok = not before and not around
        if not ok and e.kind == "raise" and prechecked and e.cond()[0] == "cmp" and e.cond()[1] == "in" and e.cond()[2] is nname:
            ok = True     # cannot happen: the names were found free before anything was changed
        d = (before + around)
        rep.ob("replace-all-or-nothing", f"{inst}:{e.kind} {e.args[0] if isinstance(e.args[0], str) else ''}@{tm.show(e.cond())[:80]}", ok, e.where,
               f"an error can be raised here after {d[0].kind} at {d[0].where}" if d else "")
    rep.count("refusal_points", n)
    rep.count("commit_points", len(commits))


def shares_loop(e, cs):
    ls = {s for _, s in e.loops}
    return any(ls & {s for _, s in c.loops} for c in cs)


def check(prog, rep):
    check_one(prog, rep, "Wall", "wall", "replace_polygon", "Polygon", True)
    check_one(prog, rep, "Solid", "solid", "replace_wall", "Wall", False)
