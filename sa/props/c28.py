"""C28: boxes and floor plans have the stated faces."""
from __future__ import annotations

from itertools import product

from .. import terms as tm
from ..algebra import Rat, Unknown, Vec, p_const
from ..geocmp import Compare
from ..interp import Interp
from ..spec import polygon_hook
from ..terms import NONE, const, mk

EXPLANATION = (
    "The object tree each constructor returns is taken from the dataflow summary of its whole call graph: walls, their polygons, names and the corner points as polynomials over the parameters. For the box every face has to be the cycle of the "
    "four corners on its side, turned outwards. For the floor plan the wall of an arbitrary edge has to join the edge at floor level with the edge at ceiling level, floor and ceiling have to be the whole outline turned down and up, and every "
    "point has to be the plan point, rotated about the vertical and moved.")
TECHNIQUE = "object-tree summaries with polynomial normal forms of corner points"
NOTE = "Holds for all dimensions, plans, rotations and translations in exact arithmetic; the order of corners that makes floor-plan walls face outwards is numerical and not claimed."
MIN_OBLIGATIONS = 20

G = "building3d.geom."
AX = range(3)
SIDES = {"floor": ("floor", 2, 0), "wall_0": ("poly_0", 1, 0), "wall_1": ("poly_1", 0, 1), "wall_2": ("poly_2", 1, 1), "wall_3": ("poly_3", 0, 0), "ceiling": ("ceiling", 2, 1)}


def interp(prog):
    I = Interp(prog)
    pc = I.class_named("Polygon")
    I.hooks[pc.qualname] = polygon_hook

    def flip(I, st, fn, env):
        names = [a.arg for a in fn.node.args.args]
        self_, name = I.val(st, env[names[0]]), env[names[1]]
        t = turned(I, self_, name)
        I.types[t] = ("cls", pc)
        I.nonnull.add(t)
        return t
    I.hooks[prog.method(pc, "flip").qualname] = flip

    def rotated(I, st, fn, env):
        a = [I.val(st, env[x.arg]) for x in fn.node.args.args]
        return tm.tup([mk("call", "rotated", tuple(a), ()), mk("call", "rotmat", tuple(a[1:]), ())])
    I.hooks[prog.func(G + "rotation.rotate_points_around_vector").qualname] = rotated
    return I


def turned(I, p, name):
    if p[0] == "phi":
        return tm.phi(p[1], turned(I, p[2], name), turned(I, p[3], name))
    return mk("rec", "Polygon", (("pts", mk("call", "reversed", (field(p, "pts"),), ())), ("name", name), ("uid", NONE), ("tri", NONE)), ()) if p[0] == "rec" else mk("call", "turned", (p, name), ())


def field(p, n):
    return dict(p[2])[n]


def leaves(p, cond=()):
    if p[0] == "phi":
        return leaves(p[2], cond + ((p[1], True),)) + leaves(p[3], cond + ((p[1], False),))
    return [(cond, p)]


def strip(t):
    """Without conversions that keep the value."""
    while t[0] == "call" and t[1] in ("float", "np.float64", "np.array", "np.asarray", "list", "tuple", "np.ascontiguousarray") and len(t[2]) == 1 or t[0] == "mcall" and t[2] in ("copy", "astype", "tolist"):
        t = t[2][0] if t[0] == "call" else t[1]
    return t


def children(I, st, o):
    """[(loops, guard, key, value)] of what a container holds, over all variants of its contents."""
    c = I.type_of(o)[1].name
    out = []
    for _, kids in leaves(I.read_attr(st, o, I.child_attr[c])):
        if kids[0] != "obj" or I.in_flux(st, kids):
            raise Unknown(f"children of {c}")
        ents, ren = I.entries(st, kids)
        f = lambda x: tm.subst(x, ren) if ren else x
        for e in ents:
            if e.kind != "set":
                raise Unknown(f"children of {c}: {e.kind}")
            if f(e.guard) is not tm.FALSE:
                out.append((tuple(f(l) for l, _ in e.loops), f(e.guard), f(e.key), f(e.val)))
    return out


# ---------------------------------------------------------------- box
def check(prog, rep):
    for f in (box, plan):
        try:
            f(prog, rep)
        except Unknown as e:
            rep.ob("faces", f.__name__, None, "building3d/geom/solid", f"not understood: {e}")


def box(prog, rep):
    f = prog.func(G + "solid.box.box")
    I = interp(prog)
    st = I.start()
    names = ("x", "y", "z", "move", "name")
    args = [I.param(n, None) for n in names]
    I.nonnull.add(args[4])
    r = I.run(st, f, args, {}, None)
    rep.use(I)
    w = f.where()
    A = Compare({"move": "vec"}).A
    low = A.conv(mk("p", "move")).c
    size = [A.s.var(("p", n)) for n in names[:3]]
    rep.ob("name", "box", strip(I.val(st, I.read_attr(st, r, "name"))) is args[4], w, "the solid does not have the given name")
    walls = children(I, st, r)
    if any(l for l, *_ in walls):
        raise Unknown("walls made in a loop")
    found = {}
    for loops, guard, key, o in walls:
        n = I.val(st, I.read_attr(st, o, "name"))
        if n[0] != "c" or guard is not tm.TRUE:
            raise Unknown("wall name")
        kids = children(I, st, o)
        if len(kids) != 1 or kids[0][0]:
            raise Unknown(f"polygons of {n[2]}")
        found[n[2]] = kids[0][3]
    rep.ob("walls", "box", set(found) == set(SIDES), w, f"walls {sorted(found)}; required {sorted(SIDES)}")
    for n, (pn, ax, far) in SIDES.items():
        if n not in found:
            continue
        p = found[n]
        if p[0] != "rec":
            raise Unknown(f"polygon of {n}")
        rep.ob("name", f"box {n}", field(p, "name") is const(pn), w, f"polygon named {tm.show(field(p, 'name'))}; required {pn}")
        pts = corners(A, field(p, "pts"))
        bits = []
        for v in pts:
            b = []
            for k in AX:
                d = A.s.add(v.c[k], low[k], -1)
                b.append(0 if not d.n else 1 if A.s.eq(d, size[k]) else None)
            bits.append(tuple(b))
        odd = [n_ for n_, b in enumerate(bits) if None in b]
        rep.ob("corner", f"box {n}", not odd and all(b[ax] == far for b in bits) and len(set(bits)) == 4 == len(bits), w,
               f"point {odd[0]} of {n} is no corner of the box" if odd else f"corners of {n} are not the four on its side")
        if odd or len(bits) != 4:
            continue
        u, v = (ax + 1) % 3, (ax + 2) % 3
        ring = [(b[u], b[v]) for b in bits]
        ccw = [(0, 0), (1, 0), (1, 1), (0, 1)]
        turns = lambda base: any(ring == base[k:] + base[:k] for k in range(4))
        rep.ob("outward", f"box {n}", turns(ccw if far else ccw[::-1]), w, f"the corners of {n} are not in the order that faces outwards")


def corners(A, t):
    t = strip(t)
    rev = False
    while t[0] == "call" and t[1] == "reversed":
        t, rev = strip(t[2][0]), not rev
    if t[0] == "call" and t[1] in ("np.vstack", "np.stack", "np.row_stack") and len(t[2]) == 1:
        t = t[2][0]
    t = strip(t)
    if t[0] != "tuple":
        raise Unknown(f"points {tm.show(t)[:60]}")
    pts = [A.as_vec(A.conv(x)) for x in t[1]]
    return pts[::-1] if rev else pts


# ---------------------------------------------------------------- floor plan
PLAN, HEIGHT, MOVE, ROT = (mk("p", n) for n in ("plan", "height", "translate", "rot_angle"))


class Plan:
    """Corner points of the floor plan under one combination of `not rotated` and `not moved`."""

    def __init__(self, A, env):
        self.A, self.env = A, env

    def truth(self, c):
        if c is tm.TRUE or c is tm.FALSE:
            return c is tm.TRUE
        if c[0] == "not":
            return not self.truth(c[1])
        if c[0] in ("and", "or"):
            xs = c[1] if not isinstance(c[1], tm.T) else c[1:]
            return (all if c[0] == "and" else any)([self.truth(x) for x in xs])
        which = self.about(c)
        if which is None:
            raise Unknown(f"condition {tm.show(c)[:80]}")
        return which

    def about(self, c):
        zero = lambda t: strip(t) in (const(0), const(0.0)) or strip(t)[0] == "tuple" and all(zero(x) for x in strip(t)[1]) or t[0] == "call" and t[1] == "np.zeros"
        ends = None
        if c[0] == "call" and c[1] in ("np.isclose", "np.allclose", "math.isclose"):
            ends = c[2][0], c[2][1]
        elif c[0] == "cmp" and c[1] == "==":
            ends = c[2], c[3]
        elif c[0] == "cmp" and c[1] in ("<", "<=") and c[2][0] == "call" and c[2][1] in ("abs", "np.abs", "np.fabs") and tm.is_num(c[3]) and 0 < c[3][2] < 1e-6:
            ends = c[2][2][0], const(0)
        if ends:
            for a, b in (ends, ends[::-1]):
                if strip(a) is ROT and zero(b):
                    return self.env["rot"] == 0
                if strip(a) is MOVE and zero(b):
                    return not any(self.env["move"])
                if self.sign(a) is not None and zero(b):
                    return self.sign(a) == 0
        if c[0] == "cmp" and c[1] in ("<", "<="):
            for a, b, k in ((c[2], c[3], 1), (c[3], c[2], -1)):
                if self.sign(a) is not None and zero(b):
                    v = self.sign(a) * k
                    return v < 0 or c[1] == "<=" and v == 0
        if self.sign(c) is not None:
            return self.sign(c) != 0
        if c[0] == "call" and c[1] == "bool" and self.sign(c[2][0]) is not None:
            return self.sign(c[2][0]) != 0
        if c[0] == "call" and c[1] in ("any", "np.any") and strip(c[2][0]) is MOVE:
            return any(self.env["move"])
        if c[0] == "call" and c[1] in ("all", "np.all") and strip(c[2][0]) is MOVE:
            return all(self.env["move"])
        return None

    def sign(self, t):
        """Sign of the angle or of a component of the translation in this case."""
        t = strip(t)
        if t is ROT:
            return self.env["rot"]
        if t[0] == "item" and strip(t[1]) is MOVE and tm.is_int(t[2]) and -3 <= t[2][2] < 3:
            return self.env["move"][t[2][2]]
        if t[0] == "call" and t[1] in ("abs", "np.abs", "np.fabs") and self.sign(t[2][0]) is not None:
            return abs(self.sign(t[2][0]))
        return None

    def shift(self):
        A = self.A
        return Vec([x if on else Rat({}) for x, on in zip(A.vec(("p", "translate")).c, self.env["move"])])

    def index(self, i):
        """Offset of an index from the running one, counted round the outline."""
        i = strip(i)
        n = mk("len", PLAN)
        if i[0] == "idx":
            return 0
        if i[0] == "op" and i[1] == "%" and self.is_count(i[3]):
            return self.raw(i[2])
        if i[0] == "phi":
            c = i[1]
            for last, rest, flip in ((i[2], i[3], False), (i[3], i[2], True)):
                if last is const(0) and self.raw(rest) == 1 and self.at_end(c) is (not flip):
                    return 1
                if self.raw(rest) == -1 and self.index_is_last(last):
                    return -1
            if all(x is const(0) or isinstance(self.raw(x), int) for x in (i[2], i[3])) and tm.contains(c, lambda x: x[0] == "idx"):
                return ("odd", tm.show(i)[:80])
            raise Unknown(f"index {tm.show(i)[:80]}")
        k = self.raw(i)
        if k in (0, -1):
            return k
        return ("beyond", k)

    def is_count(self, t):
        return t[0] == "len" or t[0] == "item" and t[1][0] == "attr" and t[1][2] == "shape"

    def index_is_last(self, t):
        return t is const(-1) or t[0] == "sum" and len(t[1]) == 1 and self.is_count(t[1][0][0]) and t[2] == -1

    def raw(self, i):
        if i[0] == "idx":
            return 0
        if i[0] == "sum" and len(i[1]) == 1 and i[1][0][0][0] == "idx" and i[1][0][1] == 1 and isinstance(i[2], int):
            return i[2]
        return None

    def at_end(self, c):
        """True if c holds exactly in the last round, False if exactly in the others."""
        if c[0] == "not":
            x = self.at_end(c[1])
            return None if x is None else not x
        if c[0] != "cmp":
            return None
        d = tm.sub(c[2], c[3])
        if d[0] != "sum" or len(d[1]) != 2:
            return None
        ws = {("i" if x[0] == "idx" else "n" if self.is_count(x) else "?"): w for x, w in d[1]}
        if set(ws) != {"i", "n"} or ws["i"] != -ws["n"] or abs(ws["i"]) != 1:
            return None
        k = d[2] * ws["i"]                # i - n + k, which is k - 1 in the last round and less before
        op = c[1] if ws["i"] > 0 else {"<": ">", "<=": ">=", "==": "=="}[c[1]]
        hold = {"<": lambda v: v < 0, "<=": lambda v: v <= 0, ">": lambda v: v > 0, ">=": lambda v: v >= 0, "==": lambda v: v == 0}[op]
        last, before = hold(k - 1), [hold(k - 2), hold(k - 3), hold(k - 9)]
        if last and not any(before):
            return True
        if not last and all(before):
            return False
        return None

    def point(self, t):
        A = self.A
        t0, t = t, strip(t)
        if t[0] == "phi":
            return self.point(t[2] if self.truth(t[1]) else t[3])
        if t is MOVE:
            return self.shift()
        if t[0] == "tuple" and len(t[1]) == 3:
            return Vec([self.number(x) for x in t[1]])
        if t[0] == "sum":
            out = None
            for x, wgt in t[1]:
                v = A.times(Rat(p_const(wgt)), self.point(x))
                out = v if out is None else A.plus(out, v)
            return out
        if t[0] == "item":
            return self.row(t[1], t[2])
        raise Unknown(f"point {tm.show(t)[:80]}")

    def number(self, t):
        t = strip(t)
        if t[0] == "phi":
            return self.number(t[2] if self.truth(t[1]) else t[3])
        if tm.is_num(t) or t is HEIGHT:
            return self.A.conv(t)
        if t[0] == "sum":
            out = Rat(p_const(t[2])) if t[2] else Rat({})
            for x, wgt in t[1]:
                out = self.A.s.add(out, self.A.s.mul(Rat(p_const(wgt)), self.number(x)))
            return out
        if t[0] == "item" and strip(t[1]) is MOVE and tm.is_int(t[2]):
            return self.point(MOVE).c[t[2][2]]
        if t[0] == "item" and t[1][0] in ("item", "elem") and tm.is_int(t[2]):
            p = t[1]
            if p[0] == "elem" and p[1][1] is PLAN:
                return self.A.s.var(("plan", 0, t[2][2]))
            if p[0] == "item" and strip(p[1]) is PLAN:
                return self.A.s.var(("plan", self.index(p[2]), t[2][2]))
            return self.point(p).c[t[2][2]]
        raise Unknown(f"number {tm.show(t)[:80]}")

    def row(self, t, i):
        """Point number i of an array of points."""
        A = self.A
        t = strip(t)
        if t[0] == "phi":
            return self.row(t[2] if self.truth(t[1]) else t[3], i)
        if t[0] == "call" and t[1] in ("np.vstack", "np.stack", "np.row_stack") and len(t[2]) == 1:
            return self.row(t[2][0], i)
        if t[0] == "concat":
            parts = []
            for x in t[1]:
                if x[0] == "red" and x[3][0] == "phi":
                    body = x[3]
                    while body[0] == "phi":
                        body = body[2] if self.truth(body[1]) else body[3]
                    if body[0] != "skip":
                        parts.append(mk("red", x[1], x[2], body))
                elif not (x[0] == "red" and x[3][0] == "skip"):
                    parts.append(x)
            if len(parts) == 1:
                return self.row(parts[0], i)
            raise Unknown("joined arrays")
        if t[0] == "red" and t[1] == "list":
            elem = mk("item", t[2], i)
            return self.point(tm.instantiate(t[3], elem, i, i))
        if t[0] == "call" and t[1] == "rotated":
            v = self.row(t[2][0], i)
            axis = self.point(t[2][1])
            sgn = None
            for s_ in (1, -1):
                if all(A.s.eq(c, Rat(p_const(e)) if e else Rat({})) for c, e in zip(axis.c, (0, 0, s_))):
                    sgn = s_
            if sgn is None or strip(t[2][2]) is not ROT:
                raise Unknown("rotation about another axis or angle")
            if not self.env["rot"]:
                return v
            c, s_ = A.s.var("cos"), A.s.var("sin")
            s_ = A.s.mul(Rat(p_const(sgn)), s_)
            m = A.s.mul
            return Vec([A.s.add(m(c, v.c[0]), m(s_, v.c[1]), -1), A.s.add(m(s_, v.c[0]), m(c, v.c[1])), v.c[2]])
        if t[0] == "sum":
            out = None
            for x, wgt in t[1]:
                v = self.point(x) if strip(x) is MOVE or strip(x)[0] == "tuple" else self.row(x, i)
                v = A.times(Rat(p_const(wgt)), v)
                out = v if out is None else A.plus(out, v)
            return out
        raise Unknown(f"array {tm.show(t)[:80]}")

    def expected(self, off, level):
        A, m = self.A, self.A.s.mul
        x, y = (A.s.var(("plan", off, k)) for k in (0, 1))
        z = A.conv(HEIGHT) if level else Rat({})
        if self.env["rot"]:
            c, s_ = A.s.var("cos"), A.s.var("sin")
            x, y = A.s.add(m(c, x), m(s_, y), -1), A.s.add(m(s_, x), m(c, y))
        v = Vec([x, y, z])
        return A.plus(v, self.shift())


def plan(prog, rep):
    f = prog.func(G + "solid.floor_plan.floor_plan")
    w = f.where()
    A = Compare({}).A
    envs = [{"rot": a, "move": b} for a, b in product((-1, 0, 1), product((-1, 0, 1), repeat=3))]
    for given in (True, False):
        I = interp(prog)
        st = I.start()
        names = ("plan", "height", "translate", "rot_angle", "name", "wall_names", "floor_name", "ceiling_name")
        args = [I.param(n, ("list", None) if n == "plan" else None) for n in names]
        for n in (4, 6, 7):
            I.nonnull.add(args[n])
        if given:
            I.nonnull.add(args[5])
        else:
            args[5] = NONE
        r = I.run(st, f, args, {}, None)
        rep.use(I)
        tag = "names given" if given else "names made up"
        rep.ob("name", f"floor plan, {tag}", strip(I.val(st, I.read_attr(st, r, "name"))) is args[4], w, "the solid does not have the given name")
        walls = children(I, st, r)
        rounds = [x for x in walls if x[0]]
        single = [x for x in walls if not x[0]]
        if len(rounds) != 1 or len(rounds[0][0]) != 1:
            raise Unknown("walls of the plan")
        loops, guard, key, o = rounds[0]
        rep.ob("walls", f"floor plan, {tag}", strip(loops[0][1]) is PLAN or counts_plan(loops[0][1]), w, f"walls are made for {tm.show(loops[0][1])[:60]}, not for each point of the plan")
        rep.ob("walls", f"floor plan, {tag}, none left out", guard is tm.TRUE, w, f"a wall is left out unless {tm.show(guard)[:80]}")
        L = loops[0]
        name = I.val(st, I.read_attr(st, o, "name"))
        want = lambda t: given_name(t, L) if given else made_name(t, L)
        rep.ob("name", f"wall, {tag}", want(name), w, f"wall named {tm.show(name)[:80]}")
        for loops2, _, _, p in children(I, st, o):
            for cond, q in leaves(p):
                if q[0] != "rec":
                    raise Unknown("polygon of a wall")
                rep.ob("name", f"polygon of a wall, {tag}, {len(cond)}", want(field(q, "name")), w, f"polygon named {tm.show(field(q, 'name'))[:80]}")
                ring(rep, A, envs, field(q, "pts"), w, tag)
        have = {}
        for _, guard, key, o in single:
            n = I.val(st, I.read_attr(st, o, "name"))
            have[n] = o
        for arg, level, sign in ((args[6], 0, -1), (args[7], 1, 1)):
            what = ("floor", "ceiling")[level]
            if arg not in have:
                rep.ob("walls", f"{what}, {tag}", False if all(n[0] == "p" for n in have) else None, w, f"no wall has the name given for the {what}")
                continue
            kids = children(I, st, have[arg])
            if len(kids) != 1:
                raise Unknown(f"polygons of the {what}")
            for cond, q in leaves(kids[0][3]):
                if q[0] != "rec":
                    raise Unknown(f"polygon of the {what}")
                rep.ob("name", f"polygon of the {what}, {tag}, {len(cond)}", field(q, "name") is arg, w, f"polygon named {tm.show(field(q, 'name'))[:80]}")
            outline(rep, A, envs, kids[0][3], level, sign, w, f"{what}, {tag}")
        rep.ob("walls", f"floor plan, {tag}, count", len(single) == 2, w, f"{len(single)} walls besides those of the edges")


def counts_plan(t):
    t = strip(t)
    return t[0] == "range" and t[1] is const(0) and t[2] is mk("len", PLAN) and t[3] is const(1)


def given_name(t, L):
    t = strip(t)
    if t[0] == "phi" and tm.contains(t[1], lambda x: x is NONE):
        return given_name(t[2], L) or given_name(t[3], L)      # a name that is not given is made up
    return t[0] == "item" and t[1] is mk("p", "wall_names") and t[2] is mk("idx", L)


def made_name(t, L):
    """wall-<number of the edge>"""
    if t[0] == "cat" and len(t[1]) == 2 and t[1][0] is const("wall-") and t[1][1][0] == "str":
        return t[1][1][1] is mk("idx", L)
    return False if tm.is_const(t) or t[0] == "cat" and all(x[0] in ("c", "str") for x in t[1]) else None


def ring(rep, A, envs, t, w, tag):
    """The four corners of the wall of an edge, in either direction."""
    for env in envs:
        P = Plan(A, env)
        t1 = strip(t)
        while t1[0] == "call" and t1[1] == "reversed":
            t1 = strip(t1[2][0])
        if t1[0] == "call" and t1[1] in ("np.vstack", "np.stack") and len(t1[2]) == 1:
            t1 = strip(t1[2][0])
        if t1[0] != "tuple":
            raise Unknown("points of a wall")
        got = [P.point(x) for x in t1[1]]
        inst = f"wall of an edge, {tag}, {case(env)}"
        ok = False
        for a, b in ((0, 1), (-1, 0)):
            exp = [P.expected(a, 0), P.expected(b, 0), P.expected(b, 1), P.expected(a, 1)]
            for e in (exp, exp[::-1]):
                ok = ok or len(got) == 4 and any(all(A.same(x, y) for x, y in zip(got, e[k:] + e[:k])) for k in range(4))
        rep.ob("corner", inst, ok, w, "the corners of a wall are not the ends of its edge at floor and ceiling level")


def outline(rep, A, envs, p, level, sign, w, inst):
    """All points of the plan at one level, turned the required way whatever way they are given."""
    for down in (True, False):
        q = p
        while q[0] == "phi":
            t = facing(q[1], down)
            if t is None:
                raise Unknown(f"condition {tm.show(q[1])[:80]}")
            q = q[2] if t else q[3]
        pts, rev = strip(field(q, "pts")), False
        while pts[0] == "call" and pts[1] == "reversed":
            pts, rev = strip(pts[2][0]), not rev
        got = (-1 if down else 1) * (-1 if rev else 1)
        rep.ob("outward", f"{inst}, outline given {'clockwise' if down else 'anticlockwise'}", got == sign, w, f"the normal points {'down' if got < 0 else 'up'}")
        for env in envs:
            P = Plan(A, env)
            i = mk("idx", mk("L", PLAN, 0))
            v = P.row(pts, i)
            rep.ob("corner", f"{inst}, {'clockwise' if down else 'anticlockwise'}, {case(env)}",
                   A.same(v, P.expected(0, level)), w, "a corner is not the plan point at its level, rotated and moved")


def case(env):
    sign = {-1: "negative", 0: "zero", 1: "positive"}
    return f"angle {sign[env['rot']]}, translation {', '.join(sign[x] for x in env['move'])}"


def facing(c, down):
    """Truth of a condition on the normal of the outline as first given."""
    if c[0] == "not":
        x = facing(c[1], down)
        return None if x is None else not x
    if c[0] == "call" and c[1] in ("np.allclose", "np.isclose"):
        for a, b in ((c[2][0], c[2][1]), (c[2][1], c[2][0])):
            b = strip(b)
            if normal(a) and b[0] == "tuple" and len(b[1]) == 3 and all(tm.is_num(x) for x in b[1]):
                v = [x[2] for x in b[1]]
                return (v == [0, 0, -1]) == down if v in ([0, 0, -1], [0, 0, 1]) else False if v != [0, 0, 0] else False
            if zcomp(a) and tm.is_num(b) and b[2] in (1, -1):
                return (b[2] == -1) == down
    if c[0] == "cmp" and c[1] in ("<", "<="):
        a, b = c[2], c[3]
        if zcomp(a) and tm.is_num(b) and abs(b[2]) < 1:
            return down
        if zcomp(b) and tm.is_num(a) and abs(a[2]) < 1:
            return not down
    return None


def normal(t):
    t = strip(t)
    if t[0] == "attr" and t[2] == "vn":
        return True
    return t[0] == "phi" and normal(t[2]) and normal(t[3])


def zcomp(t):
    t = strip(t)
    return t[0] == "item" and normal(t[1]) and t[2] in (const(2), const(-1))
