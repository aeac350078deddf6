"""C05: STL files."""
from __future__ import annotations

from .. import canon
from .. import terms as tm
from ..core import ALTERING, VAGUE, differs, fun_names, vague
from ..interp import Interp
from ..jsonio import mentions, options
from ..spec import branches, polygon_hook
from ..strs import line, simp
from ..terms import FALSE, NONE, TRUE, const, mk

EXPLANATION = (
    "Writer: the text put into the file is followed as a normal form (which words and values, in which nest of loops over zones, solids, "
    "walls, polygons and triangles) and compared with that of a specification. Reader: the transfer function of one round of the reading "
    "loop is computed for each kind of line of the layout (abstract domain: lines as word sequences with named values); what it stores, "
    "where, and which line it goes to next must be what the layout requires, which by induction over lines covers every file.")
MIN_OBLIGATIONS = 14
TECHNIQUE = "dataflow: normal form of the written text against a specification; per-line-kind transfer functions of the reading loop"
NOTE = ("Covers every building and every file in the written layout. Numbers are assumed to survive Python's default float formatting. "
        "Files that deviate from the layout are outside the property.")

SPEC = '''
def text(bdg):
    lines = []
    for zone in bdg.zones.values():
        for sld in zone.solids.values():
            lines.append(f"solid {sld.uid}\\n")
            for wall in sld.walls.values():
                for poly in wall.polygons.values():
                    for facet in poly.tri:
                        a = poly.pts[facet[0]]
                        b = poly.pts[facet[1]]
                        c = poly.pts[facet[2]]
                        lines.append("facet normal outer loop\\n")
                        lines.append(f"vertex {a[0]} {a[1]} {a[2]}\\n")
                        lines.append(f"vertex {b[0]} {b[1]} {b[2]}\\n")
                        lines.append(f"vertex {c[0]} {c[1]} {c[2]}\\n")
                        lines.append("endloop\\n")
                        lines.append("endfacet\\n")
            lines.append(f"endsolid {sld.uid}\\n")
    return lines
'''


# ---------------------------------------------------------------------- writer
def pieces(t):
    """Text as a list of words, values and ("each", collection, pieces)."""
    k = t[0]
    if k == "tuple":
        return [p for x in t[1] for p in pieces(x)]
    if k == "concat":
        return [p for x in t[1] for p in pieces(x)]
    if k == "red" and t[1] in ("list", "flat", "cat"):
        return [("each", t[2], tuple(join(pieces(t[3]))))]
    if k == "cat":
        return [p for x in t[1] for p in pieces(x)]
    if tm.is_str(t):
        return [("txt", t[2])]
    if k == "mcall" and t[2] == "join" and tm.is_str(t[1]) and t[3]:
        sep = t[1][2]
        r = pieces(t[3][0])
        if sep.strip() == "" or sep == "":
            if sep == "":
                return r
            return [("txt", sep)] + spaced(r, sep) + [("txt", sep)]
    return [("val", t[1] if k == "str" and not t[2] else t)]


def spaced(ps, sep):
    out = []
    for p in ps:
        if p[0] == "each":
            p = ("each", p[1], tuple(spaced(p[2], sep)))
        out += [p, ("txt", sep)]
    return out


def join(ps):
    out = []
    for p in ps:
        if p[0] == "txt" and out and out[-1][0] == "txt":
            out[-1] = ("txt", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def words(ps):
    """Blank-separated words; normals are left out."""
    out = []
    glued = False
    for p in join(ps):
        if p[0] == "txt":
            ws = p[1].split()
            if glued and ws and not p[1][:1].isspace():
                out[-1] = ("glued", out[-1], ws[0])
                ws = ws[1:]
            out += [("w", w) for w in ws]
            glued = bool(p[1]) and not p[1][-1:].isspace()
        elif p[0] == "val":
            if glued:
                out[-1] = ("glued", out[-1], p[1])
            else:
                out.append(("v", p[1]))
            glued = True
        else:
            out.append(("each", p[1], tuple(words(p[2]))))
            glued = False
    res = []
    skip = False
    for w in out:
        if w == ("w", "outer"):
            skip = False
        if not skip:
            res.append(w)
        if w == ("w", "normal"):
            skip = True
    return res


def has_vague(ws):
    for w in ws:
        for x in w[1:]:
            if isinstance(x, tm.T):
                if vague(x) or tm.contains(x, lambda y: y[0] in ("call", "mcall")):
                    return True
            elif isinstance(x, tuple) and has_vague([x] if x and isinstance(x[0], str) else x):
                return True
    return False


def show(ws):
    out = []
    for w in ws:
        if w[0] == "w":
            out.append(w[1])
        elif w[0] == "v":
            out.append("{" + tm.show(w[1]) + "}")
        elif w[0] == "each":
            out.append(f"[for each of {tm.show(w[1])}: {show(w[2])}]")
        else:
            out.append(str(w)[:80])
    return " ".join(out)


def altered(ws, exp):
    """Whether some value is formatted, rounded or taken from elsewhere, rather than merely not understood."""
    for w in ws:
        if w[0] == "v" and w[1][0] == "str":
            return True
        if w[0] == "each" and altered(w[2], exp):
            return True
        for x in w[1:]:
            if isinstance(x, tm.T) and (tm.contains(x, lambda y: y[0] == "str" and len(y) > 2 and y[2]) or fun_names(x) & ALTERING):
                return True
    return False


def check_writer(prog, rep):
    w = prog.func("building3d.io.stl.write_stl")
    I = Interp(prog)
    files = []

    def opened(I, st, name, a):
        o = I.alloc(st, "list")
        files.append((o, I.val(st, a[0][0]), I.where(), tm.conj(branches(st)), I.val(st, a[0][1]) if len(a[0]) > 1 else a[1].get("mode", const("r"))))
        return o

    def write(I, st, b, a):
        if any(b is f[0] for f in files):
            I.append(st, b, a[0][0])
            return NONE
        return None

    def writelines(I, st, b, a):
        if any(b is f[0] for f in files):
            I.list_extend(st, b, a[0][0])
            return NONE
        return None
    I.hooks.update({"open": opened, ".write": write, ".writelines": writelines})
    st = I.start()
    b = I.obj_param("bdg", I.class_named("Building"))
    path = I.param("path", ("str",))
    I.run(st, w, [path, b] + options(I, w))
    rep.use(I)
    out = [f for f in files if I.log(st, f[0])]
    if len(out) != 1 or st.dead:
        rep.ob("text", "write_stl", False if st.dead else None, w.where(), "the text written is not found" if not st.dead else "always raises")
        return
    o, p, wh, cond, mode = out[0]
    rep.ob("target", "write_stl", mentions(p, path) or differs(p, path), wh, f"writes to {tm.show(p)}")
    rep.ob("mode", "write_stl", tm.is_str(mode) and "w" in mode[2] or "x" in str(mode) or None, wh, f"opened with mode {tm.show(mode)}")
    rep.ob("always", "write_stl", canon.equal(cond, TRUE) or (None if vague(cond) else False), wh, f"only when {tm.show(cond)}")
    J = Interp(prog)
    sj = J.start()
    e = J.run(sj, prog.spec(SPEC)["text"], [J.obj_param("bdg", J.class_named("Building"))])
    got = words(pieces(I.freeze(st, o)))
    exp = words(pieces(J.freeze(sj, e)))
    ok = got == exp
    if not ok:
        # a block may also carry the solid's name
        def ren(ws):
            return [("each", x[1], tuple(ren(x[2]))) if x[0] == "each" else
                    ("v", mk("attr", x[1][1], "name")) if x[0] == "v" and x[1][0] == "attr" and x[1][2] == "uid" else x for x in ws]
        ok = got == ren(exp)
    rep.ob("text", "write_stl", True if ok else (None if has_vague(got) and not altered(got, exp) else False), w.where(),
           f"expected {show(exp)}; found {show(got)}")
    rep.count("words_of_text_compared", count(exp))


def count(ws):
    return sum(1 + (count(w[2]) if w[0] == "each" else 0) for w in ws)


# ---------------------------------------------------------------------- reader
def vertex(tag):
    return [const("vertex")] + [mk("num", tag, k) for k in range(3)]


NORMAL = [mk("num", "n", k) for k in range(3)]
NAME = mk("word", "block name")
FACET = [[const("facet"), const("normal")] + NORMAL, [const("outer"), const("loop")], vertex("a"), vertex("b"), vertex("c"),
         [const("endloop")], [const("endfacet")]]
KINDS = {
    "solid": [[const("solid"), NAME], FACET[0]],
    "facet": FACET,
    "endfacet": [FACET[6], FACET[0]],
    "endsolid": [[const("endsolid"), NAME]],
    "blank": [[], FACET[0]],
}


def reader(prog, rep):
    r = prog.func("building3d.io.stl.read_stl")
    I = Interp(prog)
    I.hooks["Polygon"] = polygon_hook
    LINES = I.param("lines", ("list", ("str",)))
    TEXT = I.param("text", ("str",))
    src = []

    def readlines(I, st, b, a):
        src.append((I.val(st, b), I.where()))
        return LINES

    def read(I, st, b, a):
        src.append((I.val(st, b), I.where()))
        return TEXT

    def split(I, st, b, a):
        if b is TEXT:
            return LINES
        return None
    I.hooks.update({".readlines": readlines, ".read": read, ".read_text": read, ".splitlines": split, ".split": split})
    st = I.start()
    path = I.param("path", ("str",))
    res = I.run(st, r, [path] + options(I, r, 1))
    rep.use(I)
    for s, wh in src:
        rep.ob("source", "read_stl", mentions(s, path) or differs(s, path), wh, f"reads from {tm.show(s)}")
    polys = [e for e in I.effects if e.kind == "new" and e.args[1].endswith(".Polygon") and e.args[0][0] == "rec"]
    if not polys or st.dead:
        rep.ob("polygons", "read_stl", False if st.dead else None, r.where(), "no polygon is made" if not st.dead else "always raises")
        return
    recs = [I.loop_recs[s] for e in polys[:1] for _, s in e.loops if s in I.loop_recs]
    if not recs:
        rep.ob("loop", "read_stl", None, r.where(), "the reading loop is not found")
        return
    rec = recs[0]
    # the position in the file
    idx = set()
    for e in I.effects:
        for x in tm.subterms(e.cond()):
            if x[0] == "item" and x[1] is LINES:
                idx.add(x[2])
    base = {x for x in idx if x[0] == "lv"}
    if len(base) != 1:
        rep.ob("loop", "read_stl", None, rec.where, f"the line position is not understood: {[tm.show(x) for x in idx][:4]}")
        return
    pos = base.pop()
    ups = rec.updates
    by_name = {c[-1]: c for c in rec.updates if isinstance(c[-1], str)}
    posc = by_name.get(pos[2])
    rep.ob("start", "read_stl", rec.inits.get(posc) is const(0) if posc is not None else None, rec.where, "reading does not start at the first line")
    seen = {}
    for kind, ls in KINDS.items():
        sub = {}
        for j, ws in enumerate(ls):
            sub[mk("item", LINES, tm.add(pos, const(j)))] = line(ws, True, True)
        inside = kind != "solid"

        def ev(t):
            t = simp(tm.subst(t, sub))
            m = {}
            for x in tm.subterms(t):
                if x[0] == "cmp" and x[1] == "<" and x[3] is tm.length(LINES):
                    d = tm.sub(x[2], pos)
                    if tm.is_int(d) and 0 <= d[2] < len(ls):
                        m[x] = TRUE
                if x[0] == "cmp" and x[1] == "is" and NONE in (x[2], x[3]):
                    o = x[3] if x[2] is NONE else x[2]
                    if o[0] == "lv" and o[1] == pos[1] and inside:
                        m[x] = FALSE
                if x[0] == "cmp" and x[1] == "==" and "name" in roles and roles["name"] in (x[2], x[3]) and inside:
                    o = x[3] if x[2] is roles["name"] else x[2]
                    if o is NAME:
                        m[x] = TRUE
                    elif tm.is_str(o):
                        m[x] = FALSE
            return simp(tm.subst(t, m)) if m else t
        roles = seen
        effs = []
        for e in I.effects:
            if not any(s == rec.serial for _, s in e.loops):
                continue
            g = ev(e.cond())
            if g is not FALSE:
                effs.append((e, g))
        check_kind(rep, I, rec, kind, ev, effs, pos, ups, posc, seen, by_name, r)
    for k in ("store", "wall", "name"):
        if k not in seen:
            rep.ob("roles", k, None, rec.where, f"cannot tell where the reader keeps its {k}")
    rep.count("line_kinds", len(KINDS))
    # the solids end up in the returned building
    tgt = seen.get("target")
    if tgt is not None:
        zones = I.read_attr(st, res, "zones")
        ents, ren = I.entries(st, zones) if zones[0] == "obj" else ((), None)
        ok = None
        for e in ents:
            z = e.val
            sol = I.read_attr(st, z, "solids")
            if sol is tgt:
                ok = True
        rep.ob("into-building", "read_stl", ok, r.where(), "the solids read are not found below the returned building")


def check_kind(rep, I, rec, kind, ev, effs, pos, ups, posc, seen, by_name, r):
    wh = rec.where
    inst = f"line '{kind}'"
    # next position
    nxt = ev(ups[posc]) if posc in ups and ups[posc] is not None else None
    d = tm.sub(nxt, pos) if nxt is not None else None
    allow = {"solid": (1,), "facet": (6, 7), "endfacet": (1,), "endsolid": (1,), "blank": (1,)}[kind]
    ok = None
    if d is not None and tm.is_int(d):
        ok = d[2] in allow
        if kind == "facet" and not ok and 0 < d[2] < 6:
            ok = None
    rep.ob("next-line", inst, ok, wh, f"continues {tm.show(d) if d is not None else '?'} lines further; allowed: {allow}")
    # refusals
    for e, g in effs:
        if e.kind == "raise" and not tm.contains(g, lambda x: x[0] in VAGUE - {"lv"} or x[0] in ("call", "mcall", "rec")):
            rep.ob("accepted", inst, False, e.where, f"raises {e.args[0]} when {tm.show(g)}")
        if e.kind == "assert":
            c = ev(e.args[0])
            if c is FALSE:
                rep.ob("accepted", inst, False, e.where, "the assertion fails on a file in the written layout")
    pol = [(e, g) for e, g in effs if e.kind == "new" and e.args[0][0] == "rec"]
    puts = [(e, g) for e, g in effs if e.kind in ("store", "append") and e.args[-1][0] == "rec"]
    sols = [(e, g) for e, g in effs if e.kind == "store" and is_cls(I, e.args[2], "Solid")]
    if kind == "facet":
        rep.ob("one-polygon", inst, len(pol) == 1 if all(g is TRUE for _, g in pol) else None if any(vague(g) for _, g in pol) else False, wh,
               f"{len(pol)} polygons are made" + "".join(f" when {tm.show(g)}" for _, g in pol if g is not TRUE))
        if pol:
            pts = ev(dict(pol[0][0].args[0][2])["pts"])
            got = matrix(pts)
            want = tm.tup([tm.tup([mk("num", t, k) for k in range(3)]) for t in "abc"])
            rep.ob("vertices", inst, True if got is want else differs(got if got is not None else pts, want), pol[0][0].where,
                   f"vertices {tm.show(got if got is not None else pts)}; required: {tm.show(want)}")
        stored = [(e, g) for e, g in puts if pol and e.args[-1] is pol[0][0].args[0]]
        ok = len(stored) == 1 and stored[0][1] is TRUE
        if not ok and any(vague(g) for _, g in stored):
            ok = None
        rep.ob("kept-once", inst, ok, wh, "the polygon is not stored exactly once" + "".join(f" (stored when {tm.show(g)})" for _, g in stored))
        if stored:
            b = stored[0][0].args[0]
            seen["store"] = b
            while b[0] == "attr":
                b = b[1]
            seen["wall"] = b
            if "reset" in seen:
                check_reset(rep, seen, inst, wh, I)
    else:
        rep.ob("no-polygon", inst, none_of(pol + puts), wh, "a polygon is made without a facet")
    if kind == "solid":
        fresh, names = [], []
        for c, v in ups.items():
            if v is None or not isinstance(c[-1], str):
                continue
            x = ev(v)
            if x[0] == "obj":
                fresh.append((c[-1], x))
            elif tm.contains(x, lambda y: y is NAME):
                names.append((c[-1], x))
        seen["reset"] = fresh
        exact = [n for n, x in names if x is NAME]
        if exact:
            seen["name"] = find_lv(I, pos, exact[0]) or mk("lv", pos[1], exact[0])
        rep.ob("block-name", inst, bool(exact) or (None if names else False), wh, "the block's name is not kept")
    if kind == "endsolid":
        ok = len(sols) == 1 and sols[0][1] is TRUE
        gs = [g for _, g in sols if g is not TRUE]
        rep.ob("one-solid", inst, ok or (None if any(vague(g) for g in gs) else False), wh,
               f"{len(sols)} solids are stored" + "".join(f" when {tm.show(g)}" for g in gs))
        if sols:
            e = sols[0][0]
            seen["target"] = e.args[0]
            s = e.args[2]
            wall = seen.get("wall")
            inner = [x for x, g in effs if x.kind in ("store", "append", "setattr") and wall is not None and x.args[-1] is wall]
            inner += [x for x, g in effs if x.kind in ("store", "append") and wall is not None and tm.contains(x.args[-1], lambda y: y is wall)]
            rep.ob("solid-has-polygons", inst, bool(inner) or (None if wall is None else False), e.where,
                   "the solid is not built from the polygons of its block")
            uid = [ev(x.args[2]) for x, g in effs if x.kind == "setattr" and x.args[0] is s and x.args[1] in ("uid", "name")]
            nm = seen.get("name")
            ok = any(u is NAME or nm is not None and tm.contains(u, lambda y: y is nm) for u in uid)
            rep.ob("solid-identified", inst, True if ok else (None if any(vague(u) and not tm.contains(u, lambda y: y[0] == "call") for u in uid) else False),
                   e.where, "the solid does not carry the block's name")
    elif kind != "facet" or sols:
        rep.ob("no-solid", inst, none_of(sols), wh, "a solid is stored before its block ends")
    if kind in ("endfacet", "blank"):
        for c, v in ups.items():
            if v is None or not isinstance(c[-1], str) or c == posc:
                continue
            lv = find_lv(I, pos, c[-1])
            if lv is not None and lv in (seen.get("wall"), seen.get("name")):
                x = ev(v)
                rep.ob("unchanged", f"{inst} {c[-1]}", x is lv or (None if vague(x) and x[0] != "obj" else False), wh,
                       f"the reader's {c[-1]} changes to {tm.show(x)}")


def check_reset(rep, seen, inst, wh, I):
    wall = seen["wall"]
    ok = any(n == wall[2] for n, x in seen["reset"]) if wall[0] == "lv" else (None if vague(wall) else False)
    rep.ob("new-block", "line 'solid'", ok, wh, "a new block does not start with a fresh container of polygons")


def none_of(es):
    if not es:
        return True
    return False if any(g is TRUE for _, g in es) else None


def find_lv(I, pos, name):
    for e in I.effects:
        for t in [e.cond()] + [a for a in e.args if isinstance(a, tm.T)]:
            for x in tm.subterms(t):
                if x[0] == "lv" and x[1] == pos[1] and x[2] == name:
                    return x
    return None


def is_cls(I, t, name):
    ty = I.type_of(t) if isinstance(t, tm.T) else None
    return bool(ty) and ty[0] == "cls" and ty[1].name == name


def matrix(t):
    """Rows of a 3x3 array."""
    if t[0] == "call" and t[1] == "np.array" and t[2] and t[2][0][0] == "tuple":
        t = t[2][0]
    if t[0] == "call" and t[1] in ("np.vstack", "np.stack") and t[2] and t[2][0][0] == "tuple":
        t = t[2][0]
    if t[0] == "tuple":
        return t
    if t[0] == "arrv":
        cells = {}
        for e in t[2]:
            if e[0] != "tuple":
                return None
            k, v = e[1]
            if k[0] == "tuple" and len(k[1]) == 2 and tm.is_int(k[1][0]):
                i, j = k[1]
                if j[0] == "slc" and all(x is NONE for x in j[1:]):
                    if v[0] != "tuple" or len(v[1]) != 3:
                        return None
                    for c in range(3):
                        cells[i[2], c] = v[1][c]
                    continue
                if tm.is_int(j):
                    cells[i[2], j[2]] = v
                    continue
                return None
            if tm.is_int(k) and v[0] == "tuple" and len(v[1]) == 3:
                for c in range(3):
                    cells[k[2], c] = v[1][c]
                continue
            return None
        if set(cells) == {(i, j) for i in range(3) for j in range(3)}:
            return tm.tup([tm.tup([cells[i, j] for j in range(3)]) for i in range(3)])
        return tm.tup([tm.tup([cells.get((i, j), const(0)) for j in range(3)]) for i in range(3)])
    return None


def check(prog, rep):
    check_writer(prog, rep)
    reader(prog, rep)
