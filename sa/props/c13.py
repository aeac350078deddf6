"""C13: saved simulation states are complete, ordered and never overwritten."""
from __future__ import annotations

from .. import terms as tm
from ..core import vague
from ..kernel import Kernel
from ..loader import AnalysisError
from ..rays import R, Engine, Sim
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, const, mk

EXPLANATION = (
    "The recording of states is followed from the ray loop to the files and back. In the ray loop, every store into a returned buffer is matched with the number of steps made when it happens. In the run, the arguments of each "
    "batch are compared with the last recorded state of the previous batch and the saved step numbers with the steps counted. Saving and reading are checked by the provenance of file names, row numbers and data. The creation of "
    "a simulation is checked for each state of its directory (missing, empty, with files) by case analysis over the guards of refusals, directory creation and saving.")
TECHNIQUE = "value provenance of recorded rows and file names, guard case analysis"
NOTE = "Holds for all numbers of steps, batches, rays and absorbers; file names are made and matched by the wildcard path class (C25)."
MIN_OBLIGATIONS = 35

KINDS = ("position", "energy", "hits")


def verdict(ok, *ts):
    return True if ok else (None if any(vague(t) for t in ts) else False)


def check(prog, rep):
    inplace = engine(prog, rep)
    run(prog, rep, inplace)
    saving(prog, rep)
    reading(prog, rep)


# ---------------------------------------------------------------- the buffers of the ray loop
def engine(prog, rep):
    E = Engine(prog)
    K = E.K
    rep.use(K)
    n = mk("p", "num_steps")
    steps = [r for r in K.loop_recs if r.count is n and r.index is not None]
    if len(steps) != 1:
        raise AnalysisError("the loop over simulation steps was not found")
    r = steps[0]
    if len(E.rets) != 1 or E.rets[0][1][0] != "tuple" or len(E.rets[0][1][1]) != 3:
        raise AnalysisError("the ray loop does not return three buffers")
    inplace = {}
    for kind, v in zip(KINDS, E.rets[0][1][1]):
        if v[0] != "ref" or v[2]:
            rep.ob("buffer-complete", kind, None, E.f.where(), f"the returned {kind} buffer is {tm.show(v)[:60]}")
            continue
        root = K.roots[v[1]]
        own = E.root[kind]
        sh = root.shape
        rows = sh[1][0] if sh is not None and sh[0] == "tuple" and sh[1] else sh
        rep.ob("buffer-rows", kind, verdict(rows is tm.add(n, ONE), rows if rows is not None else ZERO), E.f.where(),
               f"the {kind} buffer has {tm.show(rows)[:60] if rows is not None else '?'} rows, not one for the initial state and one for each step")
        covered = set()
        stores = [e for e in K.events if e.root is root and e.kind in ("store", "mutate")]
        for i, e in enumerate(stores):
            if not e.idx and e.kind == "store":
                continue
            if any(x.kind == "store" and r.key in e.loops and x.loops == r.loops + (r.key,) and x.idx == e.idx[:1] and x.guards == r.head.guards for x in stores[i + 1:]):
                continue          # the row is written as a whole later in the same step
            extra = e.idx[1:]
            val = e.val
            inner = [l for l in e.loops if l not in r.loops and l != r.key]
            if inner:
                # row copied element by element
                q = next((q for q in K.loop_recs if q.key == inner[-1]), None)
                whole = len(inner) == 1 and q is not None and q.index is not None and extra == (q.index,) and not q.breaks
                sizes = (mk("p", "num_rays"), tm.length(K_base(K, "absorbers")), mk("sel", mk("attr", K_base(K, "absorbers"), "shape"), (ZERO,)))
                whole = whole and q.count in sizes
                gs = [g for g in e.guards if g not in (r.head.guards if r.key in e.loops else r.entry.guards)]
                now = e.now(own)
                rep.ob("row-whole", f"{kind} {e.where}", verdict(whole and not gs and val is K.read(now, extra), val, *gs), e.where, f"not every element of a row of the {kind} buffer is recorded")
                val = now
            else:
                rep.ob("row-whole", f"{kind} {e.where}", verdict(not extra, *extra), e.where, f"only the part {tm.show(tm.tup(extra))[:50]} of a row of the {kind} buffer is recorded")
                gs = [g for g in e.guards if g not in (r.head.guards if r.key in e.loops else r.entry.guards)]
                rep.ob("row-always", f"{kind} {e.where}", verdict(not gs, *gs), e.where, f"a row of the {kind} buffer is recorded only under a condition")
            row = e.idx[0]
            if r.key in e.loops:
                at_end, at_head = r.end.arr.get(own), r.head.arr.get(own)
                made = tm.add(r.index, ONE) if val is at_end else r.index if val is at_head else None
                what = "end" if made is not None and made is not r.index else "head"
            elif val is r.entry.arr.get(own):
                made, what = ZERO, "first"
            else:
                after = r.after.arr.get(own) if r.after is not None else None
                made, what = (n, "last") if after is not None and val is after else (None, None)
            if made is None:
                rep.ob("row-state", f"{kind} {e.where}", verdict(False, val), e.where, f"the recorded {kind} is {tm.show(val)[:80]}, not the state of the rays before or after a step")
                continue
            rep.ob("row-state", f"{kind} {e.where}", True, e.where, "")
            ok = row is made or what == "last" and tm.is_int(row) and row[2] == -1
            rep.ob("row-number", f"{kind} {e.where}", verdict(ok, row), e.where, f"the state after {tm.show(made)[:40]} steps is recorded in row {tm.show(row)[:40]}")
            covered.add(what)
        ok = {"first", "end"} <= covered or {"head", "last"} <= covered
        rep.ob("buffer-complete", kind, ok, E.f.where(), f"the {kind} buffer does not hold the initial state and the state after every step")
        inplace[kind] = bool(E.stores(kind)) and ok
    inplace["velocity"] = bool(E.stores("velocity"))
    rep.ob("buffer-complete", "every step", not r.breaks, E.f.where(), "the ray loop may stop before the number of steps")
    return inplace


def K_base(K, name):
    return mk("base", name, "")


# ---------------------------------------------------------------- batches
def run(prog, rep, inplace):
    S = Sim(prog)
    K = S.K
    rep.use(K)
    calls, dumps = S.calls("loop"), S.calls("dump")
    if not calls:
        raise AnalysisError("a run does not enter the ray loop")
    batch = S.setting("engine", "batch_size")
    folder = S.setting("paths", "buffer_dir")
    dt = S.setting("engine", "time_step")
    for c in calls:
        where = c[5]
        f = prog.funcs[c[0]]
        ps = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        out = mk("call", c[0], tuple(c[1][p] for p in ps), ())
        buf = [mk("sel", out, (const(k),)) for k in range(3)]
        r = next((r for r in K.loop_recs if c[4] and r.key == c[4][-1]), None)
        done = steps_done(K, r, batch)
        rep.ob("steps-counted", where, True if r is None or done is not None else None, where, "the number of steps made before a batch was not found")
        # the state of the rays
        if r is not None:
            rep.ob("batches-run", where, not r.breaks, where, "the run may stop before all batches are made")
            for name in KINDS + ("velocity",):
                got = c[1][name]
                m = next((m for m in r.mods if K.head_sym(r.key, m) is got), None)
                if m is None:
                    m = next((m for m in r.mods if m[0] == "a" and K.get(r.head, m) is got), None)
                if m is None:
                    v = c[6].get(name, got)
                    fresh = v[0] == "ref" and r.key in K.roots[v[1]].loops or any(x[0] == "head" for x in tm.subterms(got))
                    rep.ob("batch-continues", name, verdict(not fresh and inplace.get(name, False), got), where, f"each batch starts with the {name} {tm.show(got)[:60]}, not with that at the end of the previous batch")
                    continue
                end = K.get(r.end, m)
                if end[0] == "ref":
                    end = r.end.arr.get(K.roots[end[1]], end)
                last = {name: [K.read(buf[k], (i,)) for i in (const(-1), c[1]["num_steps"])] for k, name in enumerate(KINDS)}
                if name != "velocity":
                    ok = strip(end) in last[name]
                else:
                    prev = [K.read(buf[0], (i,)) for i in (const(-2), tm.sub(c[1]["num_steps"], ONE))]
                    ok = any(tm.expand(end) is tm.expand(tm.binop("/", tm.sub(a, b), d)) for a in last["position"] for b in prev for d in (dt, c[1]["time_step"]))
                ok = ok or end is got and inplace.get(name, False)
                rep.ob("batch-continues", name, verdict(ok, end), where, f"the {name} of the next batch is {tm.show(end)[:80]}, not that at the end of the batch")
        # saving
        mine = [d for d in dumps if d[4] == c[4]]
        partly = [d for d in dumps if d[4] != c[4][:len(d[4])]]
        rep.ob("batch-saved", where, bool(mine) or (None if partly else False), where, "the states of a batch are not saved")
        f = prog.funcs[S.q["dump"]]
        names = [p.arg for p in f.node.args.args]
        for d in mine:
            vals = [d[1][p] for p in names]
            gs = [g for g in d[3] if g not in c[3]]
            rep.ob("batch-saved", f"{d[5]} always", verdict(not gs, *gs), d[5], "the states of a batch are saved only under a condition")
            for k, kind in enumerate(KINDS):
                rep.ob("saved-as-kind", kind, verdict(vals[k] is buf[k], vals[k]), d[5], f"saved as {kind}: {tm.show(vals[k])[:80]}")
            rep.ob("saved-in-folder", d[5], verdict(vals[3] is folder, vals[3]), d[5], f"states are saved in {tm.show(vals[3])[:80]}, not in the state directory")
            if done is not None:
                rep.ob("saved-from-step", d[5], verdict(vals[5] is done, vals[5]), d[5], f"the rows of a batch are numbered from {tm.show(vals[5])[:60]}, not from the number of steps made before")
            elif r is None:
                rep.ob("saved-from-step", d[5], verdict(vals[5] is ZERO, vals[5]), d[5], "the rows of a run are not numbered from zero")
    for d in dumps:
        if not any(d[4] == c[4] for c in calls):
            rep.ob("batch-saved", d[5], None, d[5], "states are saved apart from the batch they belong to")
    directory(prog, rep, S, folder, dumps)


def strip(t):
    while t[0] == "call" and t[1] in ("np.array", "np.asarray", "np.copy") and t[2] or t[0] == "mcall" and t[2] == "copy":
        t = t[2][0] if t[0] == "call" else t[1]
    return t


def steps_done(K, r, batch):
    if r is None:
        return None
    if r.kind in ("range", "seq") and r.index is not None:
        return tm.mul(r.index, batch) if r.count is not None else None
    for m in r.mods:
        if m[0] == "e" and K.get(r.entry, m) is ZERO and K.get(r.end, m) is tm.add(K.head_sym(r.key, m), batch):
            return K.head_sym(r.key, m)
    for m in r.mods:
        h = K.head_sym(r.key, m)
        if m[0] == "e" and K.get(r.entry, m) is ZERO and K.get(r.end, m) is tm.add(h, ONE):
            return tm.mul(h, batch)
    return None


# ---------------------------------------------------------------- the state directory
def directory(prog, rep, S, folder, dumps):
    K = S.K
    paths = {folder} | {mk("call", n, (folder,), ()) for n in ("pathlib.Path", "os.path.abspath", "os.fspath", "os.path.normpath")}
    isdir = lambda t: t in paths or t[0] == "call" and t[1].split(".")[-1].rstrip(")") == "Path" and t[2] == (folder,)

    def exists(t):
        return t[0] == "call" and t[1] in ("os.path.exists", "os.path.isdir", "os.path.lexists") and isdir(t[2][0]) \
            or t[0] == "mcall" and t[2] in ("exists", "is_dir") and isdir(t[1])

    def listing(t):
        if t[0] == "call" and t[1] in ("os.listdir", "os.scandir", "builtins.list", "builtins.sorted", "builtins.tuple") and t[2]:
            return isdir(t[2][0]) or listing(t[2][0])
        return t[0] == "mcall" and t[2] in ("iterdir",) and isdir(t[1]) or t[0] == "mcall" and t[2] in ("glob", "rglob") and isdir(t[1]) and t[3] in ((const("*"),), (const("**/*"),))

    def filled(t):
        if t[0] == "call" and t[1] in ("builtins.any", "builtins.bool") and t[2]:
            return listing(t[2][0])
        if t[0] == "mcall" and t[2] == "any":
            return listing(t[1])
        if t[0] == "cmp" and t[1] == "<" and t[2] is ZERO and t[3][0] == "len":
            return listing(t[3][1])
        return listing(t)

    def subst(t, ex, fl):
        atoms = {}
        for x in tm.subterms(t):
            if exists(x):
                atoms[x] = TRUE if ex else FALSE
            elif filled(x) and x[0] in ("cmp",):
                atoms[x] = TRUE if fl else FALSE
            elif x[0] == "cmp" and x[1] == "==" and any(y[0] == "len" and listing(y[1]) for y in x[2:4]) and ZERO in x[2:4]:
                atoms[x] = FALSE if fl else TRUE
            elif x[0] == "len" and listing(x[1]) and not fl:
                atoms[x] = ZERO
        t = tm.subst(t, atoms)
        atoms = {x: TRUE if fl else FALSE for x in tm.subterms(t) if filled(x)}
        return K.lift(tm.subst(t, atoms))

    valid = {e.val for e in K.events if e.kind == "assert"}
    about = lambda g: any(exists(x) or listing(x) for x in tm.subterms(g))
    for e in K.events:
        if e.kind == "raise" and e.guards and not about(tm.conj(list(e.guards))):
            valid |= {tm.neg(tm.conj(list(e.guards))), tm.neg(e.guards[-1])}
    harmless = lambda g: g in valid
    where = S.init.where()
    saves = [(d[3], d[5]) for d in dumps] + [(e.guards, e.where) for e in K.events if e.kind == "ext" and e.fn.startswith("np.save")]
    for gs, w in saves:
        cond = tm.conj([subst(g, True, True) for g in gs if about(g)])
        rep.ob("refuses-filled", w, verdict(cond is FALSE, cond if cond is not TRUE else ZERO), w, "a simulation does not refuse to run when its state directory contains files")
    raises = [e for e in K.events if e.kind == "raise"]
    makes = [e for e in K.events if e.kind == "ext" and e.fn in ("os.makedirs", "os.mkdir", "mkdir")]
    for what, ex in (("missing", False), ("empty", True)):
        bad = []
        for e in raises:
            gs = [subst(g, ex, False) for g in e.guards if not harmless(g)]
            if about(tm.conj(list(e.guards))) and tm.conj(gs) is not FALSE and not K.unsat(gs):
                bad.append(e)
        rep.ob("accepts-free", what, verdict(not bad, *[subst(g, ex, False) for e in bad for g in e.guards if about(g)]), bad[0].where if bad else where, f"a simulation refuses to start when its state directory is {what}")
        made = []
        for e in makes:
            t = e.val
            target, kw = (t[1], dict(t[4])) if t[0] == "mcall" else (t[2][0] if t[2] else NONE, dict(t[3]))
            pos = t[3] if t[0] == "mcall" else t[2][1:]
            if not isdir(target):
                continue
            gs = [subst(g, ex, False) for g in e.guards if not harmless(g)]
            c = tm.conj(gs)
            if c is FALSE:
                continue
            lenient = kw.get("exist_ok") is TRUE or len(pos) > (2 if t[0] == "mcall" else 1) and pos[2 if t[0] == "mcall" else 1] is TRUE
            if ex and not lenient:
                rep.ob("accepts-free", f"empty {e.where}", verdict(False, c if c is not TRUE else ZERO), e.where, "an existing empty state directory makes the simulation fail, as it is created again")
            made.append(c is TRUE)
        if not ex:
            rep.ob("directory-made", "missing", any(made) or (None if made else False), where, "a missing state directory is not created")
    gone = [e for e in K.events if e.kind == "ext" and e.fn in ("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "unlink", "rmdir")]
    rep.ob("never-deletes", "states", not gone, gone[0].where if gone else where, "a simulation deletes files")


# ---------------------------------------------------------------- files
def file_of(t):
    """(file setting, parent, step) of a file name made from a wildcard path."""
    parent = None
    if t[0] == "call" and t[1] == "os.path.join" and len(t[2]) == 2:
        parent, t = t[2]
    if t[0] == "call" and t[1] in ("builtins.str", "os.fspath"):
        t = t[2][0]
    if t[0] == "mcall" and t[2] == "fill":
        kw = dict(t[4])
        if t[3]:
            kw["parent"] = t[3][0]
        if parent is None:
            parent = kw.get("parent")
        w = t[1]
        if w[0] == "call" and w[1].endswith("WildcardPath)") and len(w[2]) == 1:
            return w[2][0], parent, kw.get("step"), set(kw) - {"parent", "step"}
    return None


def saving(prog, rep):
    f = prog.func(R + "dump_buffers.dump_buffers")
    names = [p.arg for p in f.node.args.args]
    if len(names) < 6:
        raise AnalysisError("saving of buffers takes fewer arguments")
    K = Kernel(prog)
    K.run(f, {names[0]: ("arr", 3), names[1]: ("arr", 2), names[2]: ("arr", 2)})
    rep.use(K)
    P = lambda n: mk("p", n)
    bufs = [mk("base", n, "") for n in names[:3]]
    rec = {r.key: r for r in K.loop_recs}
    seen = {k: 0 for k in KINDS}
    for e in K.events:
        if e.kind != "ext":
            continue
        if e.fn != "np.save":
            rep.ob("saved-data", e.where, None, e.where, f"states are saved by {e.fn}")
            continue
        args = dict(zip(("file", "arr"), e.val[2]))
        args.update(dict(e.val[3]))
        fo = file_of(args["file"])
        if fo is None:
            rep.ob("saved-under-name", e.where, None, e.where, f"the file name {tm.show(args['file'])[:80]} is not made from a wildcard path")
            continue
        setting, parent, step, rest = fo
        kind = next((k for k in KINDS if setting is mk("sel", mk("attr", P(names[4]), "paths"), (const(k + "_file"),))), None)
        rep.ob("saved-under-name", f"{kind} {e.where}", verdict(kind is not None, setting), e.where, f"the file name comes from {tm.show(setting)[:60]}")
        if kind is None:
            continue
        data = args["arr"]
        b = bufs[KINDS.index(kind)]
        got = strip(data)
        rows = got[0] == "sel" and got[1] is b and len(got[2]) == 1
        el = got[0] == "elem" and got[1] is b
        rep.ob("saved-data", f"{kind} {e.where}", verdict(rows or el, data), e.where, f"saved in the {kind} file: {tm.show(data)[:80]}")
        if not (rows or el):
            continue
        row = got[2][0] if rows else got[2]
        rep.ob("saved-in-folder", f"{kind} {e.where}", verdict(parent is P(names[3]), parent if parent is not None else ZERO), e.where, "the file is not saved in the given directory")
        rep.ob("saved-step", f"{kind} {e.where}", verdict(step is not None and step is tm.add(row, P(names[5])), step if step is not None else ZERO), e.where,
               f"row {tm.show(row)[:40]} of the {kind} buffer is saved as step {tm.show(step)[:60] if step is not None else '?'}")
        r = rec.get(e.loops[0]) if e.loops else None
        sizes = {x for y in bufs for x in (tm.length(y), mk("sel", mk("attr", y, "shape"), (ZERO,)))}
        ok = r is not None and r.index is row and r.count in sizes and not r.breaks
        if r is not None and r.count is not None and r.count[0] == "call" and r.count[1] in ("min", "max"):
            ok = r.index is row and set(r.count[2]) <= sizes and not r.breaks
        rep.ob("saved-all-rows", f"{kind} {e.where}", verdict(ok, row, *([r.count] if r is not None and r.count is not None else [])), e.where, f"not all rows of the {kind} buffer are saved")
        gs = [K.lift(g) for g in e.guards if not (r is not None and any(g is tm.cmp("<", r.index, s) for s in sizes))]
        rep.ob("saved-always", f"{kind} {e.where}", verdict(not gs, *gs), e.where, f"rows of the {kind} buffer are saved only under a condition")
        seen[kind] += 1
    for k, c in seen.items():
        rep.ob("saved-data", f"{k} saved", c == 1, f.where(), f"the {k} buffer is saved {c} times")


def reading(prog, rep):
    f = prog.func(R + "dump_buffers.read_buffers")
    names = [p.arg for p in f.node.args.args]
    K = Kernel(prog)
    out, rets = K.run(f, {})
    rep.use(K)
    if len(rets) != 1 or rets[0][1][0] != "tuple" or len(rets[0][1][1]) != 3:
        raise AnalysisError("reading does not return three buffers")
    rec = {r.key: r for r in K.loop_recs}
    for kind, v in zip(KINDS, rets[0][1][1]):
        found = []
        if v[0] == "ref":
            root = K.roots[v[1]]
            found = [(e.idx, e.val, rec.get(e.loops[-1]) if e.loops else None, e.guards, e.where) for e in K.events if e.root is root and e.kind == "store" and e.idx]
            v2 = rets[0][0].arr.get(root)
            if not found and v2 is not None:
                v = v2
        if v[0] == "head":
            for r in K.loop_recs:
                for m in r.mods:
                    if m[0] == "e" and mk("head", (r.key + ("post",)), *v[2:]) is v and K.head_sym(r.key, m)[2:] == v[2:]:
                        end = K.get(r.end, m)
                        if end[0] == "upd":
                            gs = [g for e in K.events if e.kind == "store" and e.loops and e.loops[-1] == r.key and e.val is end[3] for g in e.guards]
                            found.append((end[2], end[3], r, gs, r.where))
                            shapes = [K.roots[k].shape for k in K.roots if K.roots[k].name == m[1][1] and K.roots[k].shape is not None]
                            for sh in shapes:
                                n = sh[1][0] if sh[0] == "tuple" and sh[1] else sh
                                rep.ob("read-size", kind, verdict(n is r.count, n), r.where, f"the {kind} buffer has {tm.show(n)[:60]} rows, not one for each step")
        w = strip2(v)
        if w[0] == "gen":
            found.append(((w[1],), w[2], None, [], f.where()))
        if not found:
            rep.ob("read-rows", kind, None, f.where(), f"the rows of the {kind} buffer were not found")
            continue
        for idx, val, r, gs, where in found:
            count = r.count if r is not None else (w[3] if w[0] == "gen" else None)
            index = r.index if r is not None else (w[1] if w[0] == "gen" else None)
            new = [g for g in gs if r is not None and g not in r.head.guards and g is not tm.cmp("<", r.index, r.count)]
            rep.ob("read-always", kind, verdict(not new, *new), where, f"rows of the {kind} buffer are read only under a condition")
            if val[0] == "sel" and val[1][0] == "tuple":
                val = val[1]
            if not (val[0] == "call" and val[1] == "np.load" and val[2]):
                rep.ob("read-data", kind, verdict(False, val), where, f"a row of the {kind} buffer is {tm.show(val)[:80]}")
                continue
            fo = file_of(val[2][0])
            name = val[2][0]
            if fo is None and name[0] == "elem" and (matches(name[1]) or name[1][0] == "call" and name[1][1] in ("builtins.sorted", "builtins.list") and matches(name[1][2][0]) and not name[1][3]):
                rep.ob("read-order", kind, False, where, f"the rows of the {kind} buffer are read in the order of the file names, not of the steps")
                continue
            if fo is None:
                rep.ob("read-data", kind, None, where, f"the file name {tm.show(val[2][0])[:80]} is not made from a wildcard path")
                continue
            setting, parent, step, rest = fo
            ok = setting is mk("sel", mk("attr", mk("p", names[1]), "paths"), (const(kind + "_file"),))
            rep.ob("read-data", kind, verdict(ok, setting), where, f"the {kind} buffer is read from {tm.show(setting)[:60]}")
            rep.ob("read-folder", kind, verdict(parent is mk("p", names[0]), parent if parent is not None else ZERO), where, "the file is not read from the given directory")
            ordered = step is not None and step[0] == "elem" and step[1][0] in ("call", "mcall") and sorted_steps(step[1]) and idx[0] is index
            ok = step is not None and (step is idx[0] and idx[0] is index or ordered)
            rep.ob("read-order", kind, verdict(ok, idx[0], step if step is not None else ZERO), where, f"row {tm.show(idx[0])[:40]} of the {kind} buffer is read from step {tm.show(step)[:60] if step is not None else '?'}")
            okc = count is not None and (all_steps(count) or ordered and count[0] == "len")
            rep.ob("read-all", kind, verdict(okc and not (r is not None and r.breaks), count if count is not None else ZERO), where, f"the number of steps read is {tm.show(count)[:100] if count is not None else '?'}")
            for k, x in enumerate(idx[1:]):
                hi = x[2] if x[0] == "slice" else None
                full = x[0] == "slice" and x[1] in (NONE, ZERO) and x[3] is NONE and (hi is NONE or hi is const(3) or hi[0] == "sel" and hi[1][0] == "attr" and hi[1][2] == "shape")
                rep.ob("read-row-whole", f"{kind} axis {k + 1}", verdict(full, x), where, f"only the part {tm.show(x)[:50]} of a row is read")


def strip2(t):
    while t[0] == "call" and t[1] in ("np.array", "np.asarray", "np.stack") and t[2]:
        t = t[2][0]
    return t


def steps_of(t):
    """The steps of the matching files: one number for each of them."""
    while t[0] == "call" and t[1] in ("builtins.list", "builtins.set", "builtins.tuple") and t[2]:
        t = t[2][0]
    if t[0] == "gen":
        b = t[2]
        ok = b[0] == "sel" and b[2] == (const("step"),) or b[0] == "get" and b[2] is const("step") or b[0] == "attr" and b[2] == "step"
        d = next((x for x in tm.subterms(b) if matches(x)), None)
        return ok and d is not None and t[3] is tm.length(d)
    return False


def matches(t):
    return t[0] == "mcall" and t[2] in ("get_matching_paths_dict_values", "get_matching_paths_namedtuple_keys", "get_matching_paths")


def all_steps(t):
    if t[0] == "len":
        return matches(t[1]) or steps_of(t[1])
    t = tm.sub(t, ONE)
    return (t[0] == "call" and t[1] in ("builtins.max", "np.max") and t[2] and steps_of(t[2][0])) or t[0] == "mcall" and t[2] == "max" and steps_of(strip2(t[1]))


def sorted_steps(t):
    return t[0] == "call" and t[1] == "builtins.sorted" and len(t[2]) == 1 and not t[3] and steps_of(t[2][0])
