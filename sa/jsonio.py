"""What a writer puts into a JSON file and a reader gets back, followed through the dataflow analysis."""
from __future__ import annotations

from . import canon
from . import terms as tm
from .core import differs, vague
from .interp import Interp
from .spec import branches, compare, polygon_hook, tree
from .terms import NONE, TRUE, mk

# options of the json module that do not change what is stored
HARMLESS = {"indent", "separators", "ensure_ascii", "allow_nan", "check_circular"}


class Store:
    """The file: at most one value is written, reading returns it."""

    def __init__(self):
        self.writes = []         # (value, file, condition, options, where)
        self.reads = []          # (file, options, where)

    def hooks(self):
        return {"json.dump": self.dump, "json.dumps": self.dumps, "json.load": self.load, "json.loads": self.load,
                ".write": self.write, ".write_text": self.write}

    def put(self, I, st, value, file, kw):
        cond = tm.conj(branches(st))
        self.writes.append((value, file, cond, kw, I.where(), bool(st.loops)))

    def dump(self, I, st, name, a):
        args, kw = a
        kw = dict(kw)
        obj = args[0] if args else kw.pop("obj")
        fp = args[1] if len(args) > 1 else kw.pop("fp")
        self.put(I, st, I.freeze(st, obj), I.val(st, fp), kw)
        return NONE

    def dumps(self, I, st, name, a):
        args, kw = a
        kw = dict(kw)
        obj = args[0] if args else kw.pop("obj")
        return mk("jsontext", I.freeze(st, obj), tuple(sorted((k, I.val(st, v)) for k, v in kw.items())))

    def write(self, I, st, b, a):
        args, kw = a
        x = args[0] if args else None
        if x is not None and x[0] == "jsontext":
            self.put(I, st, x[1], I.val(st, b), dict(x[2]))
            return NONE
        return None

    def load(self, I, st, name, a):
        args, kw = a
        self.reads.append((I.val(st, args[0]), kw, I.where()))
        if len(self.writes) != 1:
            return mk("opq", "file contents")
        return self.writes[0][0]


def mentions(t, p):
    return tm.contains(t, lambda x: x is p)


def options(I, f, n=2):
    """Unknown values for the optional parameters."""
    return [I.param(a.arg, ("bool",) if a.annotation is not None and getattr(a.annotation, "id", "") == "bool" else None)
            for a in f.node.args.args[n:]]


def roundtrip(prog, rep, w, r, spec, attrs, hooks=None, store=None):
    """Reading with r what w wrote must give the tree of the specification."""
    I = Interp(prog)
    I.hooks["Polygon"] = polygon_hook
    S = store or Store()
    I.hooks.update(S.hooks())
    I.hooks.update(hooks or {})
    st = I.start()
    b = I.obj_param("building", I.class_named("Building"))
    path = I.param("path", ("str",))
    I.run(st, w, [path, b] + options(I, w))
    wn = len(I.effects)
    rep.ob("written-once", w.name, len(S.writes) == 1, w.where(), f"{len(S.writes)} values are written")
    if len(S.writes) != 1 or st.dead:
        rep.ob("writes", w.name, not st.dead, w.where(), "always raises")
        return None
    v, file, cond, kw, wh, loops = S.writes[0]
    rep.ob("written-always", w.name, cond is TRUE and not loops or (None if vague(cond) else False), wh, f"written only when {tm.show(cond)}")
    rep.ob("write-target", w.name, mentions(file, path) or differs(file, path), wh, f"writes to {tm.show(file)}")
    for k, x in sorted(kw.items()):
        ok = k in HARMLESS or tm.is_const(x) and not x[2]
        rep.ob("write-option", f"{w.name}:{k}", True if ok else (False if k == "sort_keys" else None), wh, f"option {k} changes what is stored")
    st.dead = None
    res = I.run(st, r, [path] + options(I, r, 1))
    rep.use(I)
    for f, kw, wh in S.reads:
        rep.ob("read-source", r.name, mentions(f, path) or differs(f, path), wh, f"reads from {tm.show(f)}")
        for k, x in sorted(kw.items()):
            rep.ob("read-option", f"{r.name}:{k}", tm.is_const(x) and not x[2] or None, wh, f"option {k} changes what is read")
    if not S.reads:
        rep.ob("read-source", r.name, None, r.where(), "no JSON is read")
    if st.dead:
        rep.ob("restored", r.name, False, r.where(), "reading always raises")
        return None
    J = Interp(prog)
    J.hooks["Polygon"] = polygon_hook
    sj = J.start()
    e = J.run(sj, spec, [J.obj_param("building", J.class_named("Building"))])
    got, exp = tree(I, st, res, attrs), tree(J, sj, e, attrs)
    compare(rep, "restored", got, exp, r.where(), (st.facts(), sj.facts()))
    miss = [x for x in I.effects if x.kind == "missing"]
    for x in miss:
        c = tm.neg(x.args[2]) if len(x.args) > 2 else None
        rep.ob("present", f"{tm.show(x.args[1])}", False if c is not None and not vague(c) else None, x.where,
               f"{tm.show(x.args[1])} is read but was not stored" + (f" when {tm.show(c)}" if c is not None else ""))
    rep.ob("no-missing-keys", r.name, True if not miss else None if all(len(x.args) < 3 for x in miss) else True, r.where())
    here = {(x.where) for x in J.effects if x.kind == "raise"}
    for n, x in enumerate(I.effects):
        if x.kind in ("raise", "assert") and x.where not in here:
            c = x.cond() if x.kind == "raise" else tm.neg(x.args[0])
            if c is tm.FALSE or vague(c) or tm.contains(c, lambda y: y[0] in ("call", "mcall")):
                continue
            rep.ob("accepts-every-model", (w if n < wn else r).name, False, x.where, f"raises when {tm.show(c)}")
    br = tm.conj(branches(st))
    rep.ob("restored-always", r.name, canon.equal(br, TRUE) or (None if vague(br) else False), r.where(), f"only when {tm.show(br)}")
    return I, st, res


def polygon_keeps(prog, rep):
    """A polygon built from points, name, id and triangles carries exactly these."""
    far = tuple("building3d.geom." + x for x in ("points", "triangles", "vectors", "bboxes", "polygon.area", "polygon.centroid", "polygon.plane"))
    I = Interp(prog, inline=lambda f: not f.qualname.startswith(far))
    st = I.start()
    c = I.class_named("Polygon")
    arr = ("arr",)
    given = {"pts": I.param("pts", arr), "name": I.param("name", ("str",)), "uid": I.param("uid", ("str",)), "tri": I.param("tri", arr)}
    for x in given.values():
        I.nonnull.add(x)
    f = prog.method(c, "__init__")
    o = I.apply(st, mk("cls", c.qualname), [], dict(given))
    rep.use(I)
    if st.dead:
        rep.ob("polygon-keeps", "Polygon", False, f.where(), "construction always raises")
        return
    for a, x in given.items():
        rep.same("polygon-keeps", a, I.val(st, I.read_attr(st, o, a)), x, f.where())
