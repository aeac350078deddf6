"""C35: an impulse response keeps the times and relative sizes of the hits."""
from __future__ import annotations

from .. import terms as tm
from ..algebra import Rat, Space, p_const
from ..canon import canon
from ..core import vague
from ..interp import Interp
from ..loader import AnalysisError
from ..rays import R
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, const, is_const, mk

EXPLANATION = (
    "The conversion is analysed by value-provenance dataflow with the returned table modelled as a mapping from column to values plus an index. Rules: the index has one entry per row of the buffer and its k-th entry is "
    "k times the configured time step (decided by exact algebra on the term that builds it); there is one column per absorber, numbered from zero, holding that absorber's column of the buffer divided by one and the same number, "
    "the largest total of a single absorber; and the table is made only where that number is known to be positive.")
TECHNIQUE = "value-provenance dataflow with exact algebra on index terms"
NOTE = "Holds for all buffers and time steps; rounding of the times themselves is outside."
MIN_OBLIGATIONS = 5

FULL = mk("slc", NONE, NONE, NONE)


def check(prog, rep):
    f = prog.func(R + "impulse_response.impulse_response")
    names = [a.arg for a in f.node.args.args]
    if len(names) < 2:
        raise AnalysisError("the conversion takes fewer than two arguments")
    I = Interp(prog)
    frames = {}

    def frame(I, st, name, a):
        args, kw = a
        vals = dict(zip(("data", "index", "columns"), args), **kw)
        o = I.alloc(st, "dict")
        frames[o] = {k: I.val(st, v) for k, v in vals.items()}
        st.mem[mk("attr", o, "index")] = frames[o].get("index", NONE)
        return o
    I.hooks["pandas.DataFrame"] = frame
    I.hooks["pandas.Index"] = lambda I, st, name, a: (a[0] or [a[1].get("data", NONE)])[0]
    st = I.start()
    buf = I.param(names[0], ("arr",))
    cfg = I.obj_param(names[1], prog.cls(R + "simulation_config.SimulationConfig"))
    out = I.run(st, f, [buf, cfg])
    rep.use(I)
    if out not in frames:
        raise AnalysisError("the conversion does not return a table it made")
    data = frames[out]
    rows = {tm.length(buf), mk("len", buf), mk("item", mk("attr", buf, "shape"), ZERO)}
    cols = {mk("item", mk("attr", buf, "shape"), ONE)}
    dt = mk("item", mk("attr", cfg, "engine"), const("time_step"))
    at = f.where()
    # times
    t = I.val(st, I.read_attr(st, out, "index"))
    s = Space()
    n, k, step = (s.var((x,)) for x in ("n", "k", "dt"))
    atoms = {x: n for x in rows} | {dt: step}
    try:
        size, val = series(s, atoms, t, k)
        rep.ob("one-time-per-row", "index", s.eq(size, n), at, f"the index {tm.show(t)[:120]} has not one entry per row")
        rep.ob("row-k-at-k-steps", "index", s.eq(val, s.mul(k, step)), at, f"entry k of {tm.show(t)[:160]} is not k times the time step")
    except Unread as e:
        rep.ob("row-k-at-k-steps", "index", False if t is NONE else None, at, f"index not understood: {e}")
    # columns
    total = strip(mk("call", "np.max", (mk("call", "np.sum", (buf,), (("axis", ZERO),)),), ()))
    body = I.val(st, out)
    got = list(body[1]) if body[0] == "dictof" else None
    if data.get("data", NONE) is not NONE:
        d = data["data"]
        if d[0] == "dictof":
            got = list(d[1])
        elif got == []:
            c = data.get("columns", NONE)
            rep.ob("columns-numbered", "columns", True if c is NONE or c[0] == "range" and c[1] is ZERO and c[2] in cols and c[3] is ONE else None, at, f"columns are {tm.show(c)[:80]}")
            column(rep, at, "table", d, buf, total)
            got = ()
        else:
            got = None
    if got == ():
        pass
    elif not got or len(got) != 1 or got[0][0] != "red" or got[0][1] != "list" or got[0][3][0] != "tuple" or len(got[0][3][1]) != 2:
        rep.ob("columns-numbered", "columns", None if got is None or got else False, at, "columns not understood" if got is None or got else "the table has no columns")
    else:
        coll, (name, v) = got[0][2], got[0][3][1]
        bv = next((x for x in tm.subterms(mk("tuple", (name, v))) if x[0] == "bv" and x[2] == "idx"), None)
        wide = coll[0] == "range" and coll[1] is ZERO and coll[2] in cols and coll[3] is ONE or transposed(coll) is not None
        rep.ob("one-column-per-absorber", "columns", True if wide else (None if vague(coll) and coll[0] != "range" else False), at, f"columns are made for {tm.show(coll)[:100]}")
        rep.ob("columns-numbered", "columns", bv is not None and name is bv, at, f"the column of absorber k is called {tm.show(name)[:60]}")
        e = transposed(coll)
        if e is not None:
            v = tm.subst(v, {x: mk("item", e, mk("tuple", (FULL, bv))) for x in tm.subterms(v) if x[0] == "bv" and x[2] != "idx"})
        column(rep, at, "column", v, buf, total, bv)
    # never divided by nothing
    facts = [strip(x) for x in st.facts()]
    pos = [strip(x) for x in (tm.cmp("<", ZERO, total), tm.neg(tm.cmp("==", total, ZERO)), tm.neg(tm.cmp("<=", total, ZERO)))]
    rep.ob("refused-without-hits", "conversion", True if any(x in pos for x in facts) else (None if any(tm.contains(x, lambda y: y is total) for x in facts) else False),
           at, "a buffer without hits is divided by its total of zero")


def transposed(c):
    """The array whose columns are gone through."""
    if c[0] == "attr" and c[2] == "T":
        return c[1]
    if c[0] == "call" and c[1] == "np.transpose" and len(c[2]) == 1:
        return c[2][0]
    if c[0] == "mcall" and c[2] == "transpose" and not c[3]:
        return c[1]
    return None


def strip(t):
    """Copies and the spelling of reductions do not matter."""
    def go(x):
        if not isinstance(x, tm.T):
            return x
        if x[0] == "mcall" and x[2] == "copy":
            return go(x[1])
        if x[0] == "call" and x[1] in ("np.array", "np.asarray", "np.copy", "float", "np.float64") and len(x[2]) == 1:
            return go(x[2][0])
        return tm.rebuild(x, go)
    return canon(go(t))


def column(rep, at, inst, v, buf, total, bv=None):
    """The buffer (or its column) over the largest total, however it is written."""
    t = strip(v)
    want = {buf} if bv is None else {mk("item", buf, mk("tuple", (FULL, bv)))}
    num, den = t, None
    if t[0] == "op" and t[1] == "/":
        num, den = t[2], t[3]
    elif t[0] == "item" and t[1][0] == "op" and t[1][1] == "/":
        num, den = mk("item", t[1][2], t[2]), t[1][3]
    elif t[0] == "mul":
        rep.ob("column-of-the-absorber", inst, None, at, f"values are {tm.show(t)[:120]}")
        return
    rep.ob("column-of-the-absorber", inst, True if num in want else (None if odd(num) else False), at, f"the column of an absorber holds {tm.show(num)[:120]}")
    rep.ob("scaled-by-the-largest-total", inst, True if den is total else (None if den is not None and odd(den) else False), at,
           f"values are divided by {tm.show(den)[:100]}" if den is not None else "values are not divided by the largest total of an absorber")


KNOWN = ("np.sum", "np.max", "np.min", "np.mean", "np.cumsum", "np.diff", "sum", "max", "min", "len")


def odd(t):
    """Contains something whose meaning is not fixed here."""
    return tm.contains(t, lambda x: x[0] in ("opq", "lv", "obj") or x[0] in ("call",) and x[1] not in KNOWN)


class Unread(Exception):
    pass


def series(s, atoms, t, k):
    """(number of entries, k-th entry) of a term that builds a series."""
    sizes = []
    lit = lambda v: Rat(p_const(v))

    def arith(x, go):
        if x[0] == "op" and x[1] in ("+", "-", "*", "/"):
            a, b = go(x[2]), go(x[3])
            return s.add(a, b, 1 if x[1] == "+" else -1) if x[1] in "+-" else s.mul(a, b) if x[1] == "*" else s.div(a, b)
        r = None
        if x[0] == "sum":
            r = lit(x[2])
            for y, c in x[1]:
                r = s.add(r, s.mul(lit(c), go(y)))
        elif x[0] == "mul":
            r = lit(1)
            for y in x[1]:
                r = s.mul(r, go(y))
        if r is None:
            raise Unread(tm.show(x)[:60])
        return r

    def num(x, env):
        if x in env:
            return env[x]
        if is_const(x) and isinstance(x[2], (int, float)) and not isinstance(x[2], bool):
            return lit(x[2])
        if x[0] == "call" and x[1] in ("float", "int", "np.float64") and len(x[2]) == 1:
            return num(x[2][0], env)
        return arith(x, lambda y: num(y, env))

    def elem(x):
        if x in atoms or is_const(x):
            return num(x, atoms)
        if x[0] == "call" and x[1] in ("np.arange", "range"):
            a = x[2]
            if dict(x[3]).keys() - {"dtype"} or not 1 <= len(a) <= 2:
                raise Unread(tm.show(x)[:60])
            lo = num(a[0], atoms) if len(a) == 2 else lit(0)
            sizes.append(s.add(num(a[-1], atoms), lo, -1))
            return s.add(lo, k)
        if x[0] == "range" and x[3] is ONE:
            sizes.append(s.add(num(x[2], atoms), num(x[1], atoms), -1))
            return s.add(num(x[1], atoms), k)
        if x[0] == "call" and x[1] == "np.linspace":
            a = dict(zip(("start", "stop", "num", "endpoint"), x[2]), **dict(x[3]))
            end = a.get("endpoint", TRUE)
            if "num" not in a or set(a) - {"start", "stop", "num", "endpoint", "dtype"} or end not in (TRUE, FALSE):
                raise Unread(tm.show(x)[:60])
            lo, hi, m = (num(a[w], atoms) for w in ("start", "stop", "num"))
            sizes.append(m)
            return s.add(lo, s.mul(k, s.div(s.add(hi, lo, -1), m if end is FALSE else s.add(m, lit(1), -1))))
        if x[0] == "call" and x[1] in ("np.array", "np.asarray", "list", "tuple") and len(x[2]) == 1:
            return elem(x[2][0])
        if x[0] == "listof" and len(x[1]) == 1:
            return elem(x[1][0])
        if x[0] == "red" and x[1] == "list":
            if mk("len", x[2]) in atoms and not any(y[0] == "bv" and y[2] != "idx" for y in tm.subterms(x[3])):
                sizes.append(atoms[mk("len", x[2])])
                v = k
            else:
                v = elem(x[2])
            return num(x[3], {**atoms, **{y: v for y in tm.subterms(x[3]) if y[0] == "bv" and y[1] == 0}})
        if x[0] == "slice" and x[4] is const(-1):
            # backwards
            m = len(sizes)
            fwd = elem(x[1])
            return backwards(s, fwd, sizes[m], k) if len(sizes) > m else fwd
        return arith(x, elem)
    v = elem(t)
    if not sizes:
        raise Unread("a single number")
    if not all(s.eq(z, sizes[0]) for z in sizes):
        raise Unread("series of different lengths")
    return sizes[0], v


def backwards(s, v, n, k):
    """Entry n-1-k of a series that grows by the same amount from entry to entry."""
    if s.eq(v, k):
        return s.add(s.add(n, Rat(p_const(1)), -1), k, -1)
    raise Unread("reversed series")
