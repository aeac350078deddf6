"""C11: results do not depend on how the parallel loop is scheduled."""
from __future__ import annotations

import ast

from .. import terms as tm
from ..kernel import FULL, Kernel
from ..loader import AnalysisError
from ..modref import ModRef
from ..rays import Engine
from ..terms import mk

EXPLANATION = (
    "Dependence analysis of every parallel loop: all element reads, element writes and container changes in its body (helper functions analysed at their "
    "call sites) are collected with their index expressions. Data from outside the loop that is written in it must be written and read only at an element selected by this "
    "iteration's own index; variables must not carry values from one iteration to another or out of the loop; shared containers and the global "
    "random state must not be changed; functions called as primitives must not modify what they are given (mod analysis).")
TECHNIQUE = "loop dependence (race) analysis over array accesses with index normal forms, plus interprocedural mod analysis"
NOTE = "Holds for all schedules, thread counts and inputs. Assumes distinct arrays passed by the caller do not overlap in memory."
MIN_OBLIGATIONS = 12


def check(prog, rep):
    mr = ModRef(prog).solve()
    E = Engine(prog)
    K = E.K
    rep.use(K)
    done = set()
    for rec in K.loop_recs:
        if rec.kind != "prange":
            rep.ob("serial-loop", f"loop at {rec.where}", True, rec.where, "")
    n = judge(K, mr, rep, prog)
    done |= K.seen_funcs
    rep.count("parallel_loops", n)
    # other functions with parallel loops
    for q, f in sorted(prog.funcs.items()):
        if q in done or not q.startswith("building3d.") or "_to_be_ported" in q or not uses_prange(prog, f):
            continue
        k2 = Kernel(prog)
        k2.run(f, param_kinds(f))
        rep.use(k2)
        rep.count("parallel_loops", judge(k2, mr, rep, prog))
    # primitives used in the loop leave their arguments alone
    for name, q in sorted(E.prim.items()):
        mods = {k: v for k, v in mr.sum[q].mods.items()} if q in mr.sum else {}
        bad = sorted(mods.items(), key=str)
        rep.ob("primitive-without-side-effects", q, not bad, bad[0][1][0] if bad else prog.funcs[q].where(),
               f"{bad[0][1][1]}; it is called from the parallel loop with shared data" if bad else "")
    rep.count("element_reads", len(K.reads))
    rep.count("writes", len(K.events))


def uses_prange(prog, f):
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm == "prange":
                return True
            if isinstance(n, ast.Name):
                r = prog.lookup(f.module, n.id)
                if r and r[0] == "ext" and r[1].endswith("prange"):
                    return True
    return False


def param_kinds(f):
    out = {}
    for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        a = ast.unparse(p.annotation) if p.annotation is not None else ""
        if a.startswith(("dict", "Dict")):
            out[p.arg] = ("dict",)
        elif a.startswith("set"):
            out[p.arg] = ("set",)
        elif a.startswith("list"):
            out[p.arg] = ("list", None)
        elif a.endswith("Type") or "ndarray" in a or "NDArray" in a:
            out[p.arg] = ("arr", None)
    return out


def own(t, ix):
    """t = a*ix + c with a != 0 and c the same in every iteration -> (a, c)"""
    if t[0] == "slice":
        if t[1] is not tm.NONE and t[2] is not tm.NONE and tm.sub(t[2], t[1]) is tm.ONE:
            return own(t[1], ix)
        return None
    if t is ix:
        return 1, tm.ZERO
    if t[0] == "sum":
        cs = [(x, w) for x, w in t[1] if x is ix]
        rest = tm.sub(t, tm.scale(ix, cs[0][1])) if cs else t
        if cs and not tm.contains(rest, lambda y: y[0] in ("ix", "head", "base", "call", "opq")):
            return cs[0][1], rest
    return None


def judge(K, mr, rep, prog):
    n = 0
    for rec in K.loop_recs:
        if rec.kind != "prange":
            continue
        n += 1
        key, ix = rec.key, rec.index
        at = f"parallel loop at {rec.where}"
        evs = [e for e in K.events if key in e.loops]
        writes = {}
        for e in evs:
            if e.kind in ("store", "mutate"):
                if e.root is None:
                    rep.ob("own-data-only", f"{at}: write at {e.where}", None if e.kind == "store" else None, e.where, "target of the write not resolved")
                elif key not in e.root.loops:
                    writes.setdefault(e.root, []).append(e)
            elif e.kind == "random":
                rep.ob("no-shared-random-state", at, False, e.where, f"{e.fn} inside a parallel loop draws from shared state")
            elif e.kind == "setattr":
                rep.ob("own-data-only", f"{at}: attribute", False, e.where, "attribute set inside a parallel loop")
        reads = {}
        for r, idx, loops, where in K.reads:
            if key in loops and r in writes:
                reads.setdefault(r, []).append((idx, where))
        for r, ws in sorted(writes.items(), key=lambda x: x[0].name):
            muts = [e for e in ws if e.kind == "mutate"]
            if muts or r.kind in ("set", "dict", "list"):
                e = (muts or ws)[0]
                rep.ob("no-shared-container", f"{at}: {r.name}", False, e.where, f"{r.name} from outside the loop is changed by its iterations")
                continue
            # the component that selects this iteration's element
            forms = [[own(t, ix) for t in e.idx] for e in ws]
            width = min(len(x) for x in forms)
            comp = next((p for p in range(width) if all(x[p] for x in forms) and len({x[p] for x in forms}) == 1), None)
            if comp is None:
                e = next((e for e, x in zip(ws, forms) if not any(x)), ws[0])
                unknown = any(tm.contains(t, lambda y: y[0] == "sel" and ix in y[2]) and not tm.contains(t, lambda y: y[0] in ("head", "call")) for t in e.idx)
                rep.ob("own-data-only", f"{at}: {r.name}", None if unknown else False, e.where,
                       f"{r.name} is written at an element that other iterations may write or read: [{', '.join(tm.show(t)[:60] for t in e.idx)}]")
                continue
            rep.ob("own-data-only", f"{at}: {r.name}", True, ws[0].where, "")
            want = forms[0][comp]
            bad = [(i, w) for i, w in reads.get(r, []) if len(i) <= comp or own(i[comp], ix) != want]
            rep.ob("reads-own-data", f"{at}: {r.name}", not bad, bad[0][1] if bad else ws[0].where,
                   f"{r.name} is written by the iterations and read at [{', '.join(tm.show(t)[:60] for t in bad[0][0]) or 'all elements'}]" if bad else "")
        # variables
        names = {m[1] for m in rec.mods if m[0] == "e"}
        terms = []
        for e in evs:
            terms += [(t, e.where) for t in tuple(e.idx) + tuple(e.guards) + ((e.val,) if e.val is not None else ())]
        for c in K.calls:
            if key in c[4]:
                terms += [(t, c[5]) for t in c[1].values()]
        for r2 in K.loop_recs:
            if key in r2.loops and r2.count is not None:
                terms.append((r2.count, r2.where))
        after = [(t, e.where) for e in K.events if key not in e.loops for t in tuple(e.idx) + tuple(e.guards) + ((e.val,) if e.val is not None else ())]
        after += [(t, c[5]) for c in K.calls if key not in c[4] for t in c[1].values()]
        for fid, v in sorted(names, key=str):
            h, p = mk("head", key, v), mk("head", key + ("post",), v)
            hs = spread(K, {h}, [r for r in K.loop_recs if key in r.loops])
            bad = next((w for t, w in terms if isinstance(t, tm.T) and tm.contains(t, lambda y: y in hs)), None)
            rep.ob("no-carried-variable", f"{at}: {v}", bad is None, bad or rec.where, f"{v} carries a value from one iteration to another")
            ps = spread(K, {p}, [r for r in K.loop_recs if r is not rec])
            bad = next((w for t, w in after if isinstance(t, tm.T) and tm.contains(t, lambda y: y in ps)), None)
            rep.ob("no-result-of-last-iteration", f"{at}: {v}", bad is None, bad or rec.where, f"{v} set by the iterations is used after the loop")
    return n


def spread(K, syms, recs):
    """Symbols of other loops whose values may come from the given ones."""
    syms = set(syms)
    while True:
        new = set()
        for r in recs:
            for m in r.mods:
                for s in (r.entry, r.end, *r.breaks):
                    if s is None or s.dead or m[0] == "e" and m[1] not in s.env or m[0] != "e" and m[1] not in s.arr:
                        continue
                    if tm.contains(K.get(s, m), lambda y: y in syms):
                        new |= {K.head_sym(r.key, m), K.head_sym(r.key + ("post",), m)}
        if new <= syms:
            return syms
        syms |= new
