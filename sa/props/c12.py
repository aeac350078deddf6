"""C12: ray energy only decreases, is never negative, and is credited once."""
from __future__ import annotations

from .. import terms as tm
from ..core import vague
from ..kernel import FULL
from ..loader import AnalysisError
from ..rays import Engine
from ..terms import TRUE, ZERO, mk

EXPLANATION = (
    "Value-provenance dataflow over the ray loop (helpers analysed in place of their calls): every write to the energy, hit, position and velocity arrays is collected "
    "with the value written, the value it replaces and the conditions that guard it, with loops summarised by their invariants. Each energy write must be zero or the current energy "
    "minus the absorption of the current target; zeroing needs a reason (captured, outside the bounds, used up); at the end of every round the energy is zero, unchanged "
    "or guarded positive; credits equal the current energy and leave zero behind.")
TECHNIQUE = "abstract interpretation of the array kernel with guarded-write obligations"
NOTE = ("Holds for all geometries, step counts and layouts, over real numbers (no rounding), assuming absorptions and the comparison margin are not negative and "
        "initial energies are not negative.")
MIN_OBLIGATIONS = 20


def num0(t):
    return tm.is_num(t) and t[2] == 0 or t[0] == "fill" and num0(t[1])


def check(prog, rep):
    E = Engine(prog)
    K = E.K
    rep.use(K)
    K.nonneg.add(mk("p", "eps"))
    rep.assumptions.append("absorption coefficients, the comparison margin eps and initial energies are not negative")
    en, hits, pos, vel = (E.root[k] for k in ("energy", "hits", "position", "velocity"))
    surf = mk("base", "surf_absorption", "")
    rays = {r.key: r for r in E.ray_loops()}
    if not rays:
        raise AnalysisError("no loop over the rays found")

    def ray_of(e):
        """The index of the ray that the event is about."""
        for k in reversed(e.loops):
            if k in rays:
                return rays[k].index
        return None

    def energy_at(arr, ray):
        return K.read(arr[en], (ray,))

    eps = mk("p", "eps")

    def positive(guards, v):
        lows = [eps, ZERO] + [x[2] for g in guards for x in tm.conj_list(g) if x[0] == "cmp" and x[1] == "<" and tm.is_num(x[2])]
        return any((not tm.is_num(c) or c[2] >= 0) and K.implies(guards, tm.cmp("<", c, v)) for c in lows)

    def used_up(guards, v):
        return K.implies(guards, tm.neg(tm.cmp("<", eps, v))) or K.implies(guards, tm.neg(tm.cmp("<", ZERO, v)))

    def captures(arr, ray, sn):
        """Accepted forms of 'the ray is within the absorber's radius'."""
        p = K.read(arr[pos], (ray,))
        a = K.read(arr[E.root["absorbers"]], (sn,))
        ds = [tm.sub(p, a), tm.sub(a, p)]
        r = mk("p", "absorber_radius")
        sq = [x for d in ds for x in (mk("mcall", tm.mul(d, d), "sum", (), ()), K.dot(d, d))]
        out = [(s, tm.mul(r, r)) for s in sq] + [(mk("call", "np.linalg.norm", (x,), ()), r) for x in ds] + [(mk("call", f, (s,), ()), r) for f in ("np.sqrt", "math.sqrt") for s in sq]
        return [c for x, y in out for c in (tm.cmp("<", x, y), tm.cmp("<=", x, y))]

    def bounds(arr, ray, margin):
        out = []
        pts = arr[E.root["points"]]
        for k in range(3):
            col = K.read(pts, (FULL, tm.const(k)))
            x = K.read(arr[pos], (ray, tm.const(k)))
            lo, hi = mk("mcall", col, "min", (), ()), mk("mcall", col, "max", (), ())
            out.append(("below", k, tm.cmp("<", x, tm.sub(lo, margin))))
            out.append(("above", k, tm.cmp("<", tm.add(hi, margin), x)))
        return out

    # ---- writes to the energy
    absorbers = [r for r in K.loop_recs if r.index is not None and is_count_of(r.count, "absorbers")]
    n_hit = 0
    for e in E.stores("energy"):
        inst = f"energy written at {e.where}"
        ray = ray_of(e)
        if e.kind != "store" or ray is None or e.idx != (ray,):
            ok = None if ray is None and e.kind == "store" and vague(e.val) else False
            rep.ob("energy-of-own-ray", inst, ok, e.where, "energy is changed other than for one ray inside a loop over rays")
            continue
        cur = K.read(e.old, e.idx)
        for c, v in K.leaves(e.val):
            gs = e.guards + ((c,) if c is not TRUE else ())
            if v is cur or K.implies(gs, mk("cmp", "==", *sorted((v, cur), key=tm.tkey))):
                rep.ob("energy-never-increases", inst, True, e.where)
                continue
            if num0(v):
                rep.ob("energy-never-increases", inst, True, e.where)
                why = used_up(gs, cur)
                for t in {t for g in gs for t in tm.subterms(g) if t[0] == "sel" and t[1] is surf}:
                    why = why or t[2][0] in target_now(E, e, ray, gs) and used_up(gs, tm.sub(cur, t))
                for a in absorbers:
                    why = why or a.key in e.loops and any(K.implies(gs, x) for x in captures(e.arr, ray, a.index))
                if not why:
                    why = K.implies(gs, tm.disj([x for _, _, x in bounds(e.arr, ray, ZERO)]))
                rep.ob("energy-lost-for-a-reason", inst, True if why else (None if any(vague(g) for g in gs) else False), e.where,
                       "" if why else "energy is set to zero although the ray is not used up, captured or outside the bounds")
                continue
            d = tm.sub(v, cur)
            hit = d[0] == "sum" and len(d[1]) == 1 and d[1][0][1] == -1 and d[2] == 0 and d[1][0][0][0] == "sel" and d[1][0][0][1] is surf
            if hit:
                n_hit += 1
                t = d[1][0][0][2]
                exp = target_now(E, e, ray)
                ok = len(t) == 1 and t[0] in exp
                if len(t) == 1 and not ok:
                    ok = K.same(t[0], exp[0]) if exp else None
                    ok = True if ok else (None if vague(t[0]) else False)
                rep.ob("hit-uses-target-absorption", inst, ok, e.where, f"the absorption used is that of {tm.show(t[0])[:120]}, not of the surface the ray is about to hit")
                continue
            bad = not vague(v)
            rep.ob("energy-never-increases", inst, False if bad else None, e.where, f"energy becomes {tm.show(v)[:160]}")
    rep.ob("surface-hits-cost-energy", "surface hits", n_hit > 0, E.f.where(), "no write lowers the energy by a surface absorption")

    # ---- never negative at the end of a round
    for r in K.loop_recs:
        if r.key in rays:
            ray = rays[r.key].index
        else:
            ray = next((rays[k].index for k in reversed(r.loops) if k in rays), None)
        if ray is None or r.entry is None or not any(m[0] in ("a", "cell") and m[1] is en for m in r.mods):
            continue
        for i, s in enumerate([r.end] + r.breaks):
            if s is None or s.dead:
                continue
            head = energy_at(r.head.arr, ray)
            for c, v in K.leaves(energy_at(s.arr, ray)):
                gs = s.guards + ((c,) if c is not TRUE else ())
                ok = num0(v) or v is head or v[0] in ("head", "sel") and v[0] != "sum" and is_energy_symbol(v) or positive(gs, v) or K.unsat([K.lift(g) for g in gs])
                rep.ob("energy-not-negative", f"end of a round of the loop at {r.where}", True if ok else (None if vague(v) else False), r.where,
                       "" if ok else f"the energy {tm.show(v)[:140]} can be negative here")

    # ---- leaving the bounds
    for r in rays.values():
        if not any(e.root is en and r.key in e.loops and e.root is en for e in K.events) or not any(e.root is pos and r.key in e.loops for e in K.events):
            continue
        if r.end is None or r.end.dead:
            continue
        ray = r.index
        e0 = energy_at(r.head.arr, ray)
        for side, k, atom in bounds(r.head.arr, ray, eps):
            bad = None
            facts = (atom, tm.cmp("<", eps, e0), tm.cmp("<", ZERO, e0))
            known = {}
            for w in K.loop_recs:
                if w.kind == "while" and r.key in w.loops:
                    known.update(K.skipped(w, facts) or {})
            for c, v in K.leaves(tm.subst(energy_at(r.end.arr, ray), known)):
                if num0(v):
                    continue
                if not K.unsat([K.lift(tm.subst(g, known)) for g in r.end.guards + (c,) + facts]):
                    bad = v
            rep.ob("outside-means-zero", f"ray {side} the bounds on axis {k}", bad is None, r.where, "a ray outside the building's bounds keeps its energy")

    # ---- absorbers
    credits = []
    for e in K.events:
        if e.kind != "store" or e.root is None or e.root in (en, pos, vel) or ray_of(e) is None:
            continue
        old = K.read(e.old, e.idx)
        if tm.contains(e.val, lambda y: y is old) and e.root.rank == 1 and (e.root is hits or e.root.name in ("hits",)) or e.root is hits:
            credits.append((e, old))
    rep.ob("absorbers-are-credited", "absorber hits", bool(credits), E.f.where(), "no write adds to the hits of an absorber")
    for e, old in credits:
        inst = f"hits written at {e.where}"
        ray = ray_of(e)
        rec = next((r for r in absorbers if r.key in e.loops), None)
        if rec is None or e.idx != (rec.index,):
            rep.ob("credit-goes-to-its-absorber", inst, None if any(vague(t) for t in e.idx) else False, e.where, f"hits are added at [{', '.join(tm.show(t)[:60] for t in e.idx)}]")
            continue
        rep.ob("credit-goes-to-its-absorber", inst, True, e.where)
        cur = energy_at(rec.head.arr, ray)                  # what the ray had when it was found inside
        ok = e.val is tm.add(old, cur) or K.same(e.val, tm.add(old, cur))
        rep.ob("credit-is-current-energy", inst, True if ok else (None if vague(e.val) else False), e.where, f"hits become {tm.show(e.val)[:200]}")
        forms = captures(e.arr, ray, rec.index)
        ok = any(K.implies(e.guards, x) for x in forms)
        rep.ob("credit-only-inside", inst, True if ok else (None if any(vague(g) for g in e.guards) else False), e.where, "credited although the ray is not within the absorber's radius")
        # whenever a ray with energy is inside, it is credited
        live = [tm.cmp("<", eps, cur), tm.cmp("<", ZERO, cur)]
        for g in e.guards:
            c0 = energy_at(rays[next(k for k in reversed(e.loops) if k in rays)].head.arr, ray)
            ok = K.implies(live + [tm.cmp("<", eps, c0), tm.cmp("<", ZERO, c0), forms[0]], g) or K.implies(live + [tm.cmp("<", eps, c0), tm.cmp("<", ZERO, c0)] + forms, g)
            rep.ob("credit-whenever-inside", inst, True if ok else (None if vague(g) else False), e.where, f"a ray inside the absorber is credited only if also {tm.show(g)[:140]}")
        # afterwards nothing is left of it
        end = K.leaves(energy_at(rec.end.arr, ray)) if rec.end is not None and not rec.end.dead else []
        bad = None
        for s in [rec.end] + rec.breaks:
            if s is None or s.dead:
                continue
            for c, v in K.leaves(energy_at(s.arr, ray)):
                if not num0(v) and not K.unsat([K.lift(g) for g in s.guards + e.guards + (c,)]):
                    bad = v
        rep.ob("credited-once", inst, bad is None, e.where, f"after the credit the ray keeps energy {tm.show(bad)[:120]}" if bad is not None else "")
        # totals start from zero in each step
        top = rays[next(k for k in e.loops if k in rays)]
        c = K.read(top.entry.arr[e.root], e.idx)
        rep.ob("totals-start-from-zero", inst, True if num0(c) else (None if vague(c) else False), top.where, f"before the rays are checked the hits are {tm.show(c)[:120]}")
        step = [k for k in e.loops if k not in rays and k != rec.key]
        rep.ob("credited-in-every-step", inst, bool(step), e.where, "absorbers are not checked in each step")
    for e in E.stores("hits"):
        if any(e is c for c, _ in credits):
            continue
        ok = num0(e.val) and e.kind == "store" and ray_of(e) is None
        rep.ob("no-other-change-of-hits", f"hits written at {e.where}", True if ok else (None if vague(e.val) else False), e.where, f"hits become {tm.show(e.val)[:120]}")

    # ---- rays without energy stay as they are
    for nm in ("position", "velocity"):
        for e in E.stores(nm):
            ray = ray_of(e)
            if ray is None or not e.idx or e.idx[0] is not ray:
                rep.ob("dead-rays-stay", f"{nm} written at {e.where}", False, e.where, f"{nm} is changed other than for one ray inside a loop over rays")
                continue
            cur = energy_at(e.arr, ray)
            ok = positive(e.guards, cur)
            rep.ob("dead-rays-stay", f"{nm} written at {e.where}", True if ok else (None if any(vague(g) for g in e.guards) else False), e.where,
                   f"{nm} of a ray is changed although its energy may be zero")
    rep.count("array_writes", len(K.events))
    rep.count("loops_summarised", len(K.loop_recs))


def is_count_of(c, name):
    b = mk("base", name, "")
    return c is tm.length(b) or c is mk("sel", mk("attr", b, "shape"), (ZERO,)) or c is tm.mkitem(mk("attr", b, "shape"), ZERO)


def is_energy_symbol(v):
    return v[0] == "head" and v[2] == "energy" or v[0] == "sel" and v[1][0] == "base" and v[1][1] == "energy"


def target_now(E, e, ray, among=()):
    """The surface that the ray, where it is and as it is heading now, is about to hit."""
    p = E.K.read(e.arr[E.root["position"]], (ray,))
    v = E.K.read(e.arr[E.root["velocity"]], (ray,))
    out = []
    for t in [x for y in (e.val,) + tuple(among) for x in tm.subterms(y)]:
        if t[0] == "call" and t[1] == E.prim.get("target") and t[2][0] is p and t[2][1] is v:
            out.append(t)
    return out
