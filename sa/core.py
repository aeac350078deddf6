"""Obligations, known findings, evidence and exit codes shared by all checks."""
from __future__ import annotations

import json
import os
import time

from . import canon
from . import terms as tm

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# kinds of terms on which no verdict is based
VAGUE = {"opq", "flux", "out", "lv", "exit", "st", "undef", "mutated", "pos", "listver", "dictver", "setver", "ver"}


def vague(t):
    return tm.contains(t, lambda x: x[0] in VAGUE)


# functions that change the numbers they are given
ALTERING = {"round", "np.round", "np.around", "np.rint", "int", "np.float32", "np.float16", "np.trunc", "np.floor", "np.ceil",
            "abs", "np.abs", "np.sort", "np.unique", "sorted", "set", "lower", "upper", "strip", "title", "casefold", "astype",
            "min", "max", "replace", "lstrip", "rstrip", "format", "reverse", "sort", "rev", "T", "transpose",
            "np.transpose", "swapaxes", "np.roll", "np.flip", "np.flipud"}


def fun_names(t):
    out = set()
    for x in tm.subterms(t):
        if x[0] == "call":
            out.add(x[1])
        elif x[0] == "mcall":
            out.add(x[2])
        elif x[0] == "ext":
            out.add(x[1])
        elif x[0] == "attr" and x[2] == "T":
            out.add("T")
        elif x[0] in ("sorted", "rev", "setof", "str"):
            out.add(x[0])
    return out


def root(t):
    while t[0] in ("attr", "item"):
        t = t[1]
    return t


def sources(t):
    """What a value is computed from: parameters and their fields, names of fields, and whatever is handed whole to a function."""
    chains, names, whole = set(), set(), set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, tm.T):
            k = x[0]
            if k == "attr":
                names.add(x[2])
            if k == "p" or k == "attr" and root(x)[0] == "p":
                chains.add(x)
            if k in ("call", "mcall"):
                a = x[2] + tuple(v for _, v in x[3]) if k == "call" else (x[1],) + x[3] + tuple(v for _, v in x[4])
                whole.update(a)
        todo.extend(x)
    return chains, names, whole


CONTAINERS = {"zones", "solids", "walls", "polygons", "children", "parent", "_parent"}


def may_reach(w):
    """Whether a function given w could get at fields not mentioned."""
    if not isinstance(w, tm.T) or w[0] in ("c", "ext", "call", "mcall", "fn", "cls"):
        return False
    return not (w[0] == "attr" and w[2] not in CONTAINERS)


def independent(got, exp):
    """Whether got cannot depend on something exp is computed from."""
    cg, ng, wg = sources(got)
    ce, ne, we = sources(exp)
    for c in ce - cg:
        x, inside = c, False
        while True:
            if x in wg:
                inside = True
            if x[0] not in ("attr", "item"):
                break
            x = x[1]
        if not inside:
            return True
    return bool(ne - ng) and not any(may_reach(w) for w in wg - we)


def shape_differs(got, exp):
    """Whether two descriptions of object trees have a different number of parts, whatever the unknown values in them are."""
    if not isinstance(got, tm.T) or not isinstance(exp, tm.T) or got[0] != "node" or exp[0] != "node":
        return False
    if got[1] != exp[1]:
        return True
    a, b = got[3], exp[3]
    fixed = lambda p: all(x[0] in ("node", "rec") for x in p)
    many = lambda p: any(x[0] == "red" and x[1] == "list" and (x[3][2] if x[3][0] == "phi" else x[3])[0] in ("node", "rec") for x in p)
    if fixed(a) and many(b) or fixed(b) and many(a):
        return True
    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == "red" and a[0][2] is b[0][2]:
        return shape_differs(a[0][3], b[0][3])
    return False


def fills(t):
    """What containers are filled with that the value depends on."""
    out = []
    tm.contains(t, lambda x: out.append(x) and False if x[0] == "put" else False)
    return sorted(out, key=repr)


def differs(got, exp):
    """False when two different normal forms mean different values, None when that is not certain."""
    if not isinstance(got, tm.T):
        return False
    if shape_differs(got, exp):
        return False
    if vague(got):
        return None
    if isinstance(exp, tm.T):
        a, b = fills(got), fills(exp)
        if a and b and a != b and [x[3] for x in a] == [x[3] for x in b]:
            return None                   # the same things are collected, under conditions written differently
    if isinstance(exp, tm.T) and tm.contains(got, lambda x: x[0] == "dedupe") and not tm.contains(exp, lambda x: x[0] == "dedupe"):
        return False
    if isinstance(exp, tm.T) and independent(got, exp):
        return False
    new = fun_names(got) - (fun_names(exp) if isinstance(exp, tm.T) else set())
    new -= {"any", "all", "len"}
    top = root(got)
    if isinstance(exp, tm.T) and top[0] == "call" and top[1].startswith("building3d.") and top[1] in new and root(exp)[0] in ("p", "elem", "bv"):
        return False  # the result of one of the program's own functions in place of what was given
    if new and not (new & ALTERING):
        return None
    return False


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []            # (rule, instance, status, where, detail)
        self.funcs = set()
        self.call_sites = 0
        self.notes = []
        self.samples = []
        self.counts = {}
        self.assumptions = []

    def ob(self, rule, instance, ok, where="", detail=""):
        self.obs.append((rule, instance, ok, where, detail))
        return ok

    def same(self, rule, instance, got, exp, where="", facts=((), ())):
        """got must be the expected value; differing values are reported unless they are not understood."""
        if got is exp or isinstance(got, tm.T) and isinstance(exp, tm.T) and canon.equal(got, exp, *facts):
            return self.ob(rule, instance, True, where)
        d = f"expected {tm.show(exp)}; found {tm.show(got)}" if isinstance(got, tm.T) else f"expected {exp}; found {got}"
        return self.ob(rule, instance, differs(got, exp), where, d)

    def use(self, interp):
        self.funcs |= interp.seen_funcs
        self.call_sites += interp.call_sites

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = {}
                head, _, text = line[len("finding:"):].partition("|")
                for part in head.split(";"):
                    k, _, v = part.strip().partition("=")
                    f[k] = v
                f["text"] = text.strip()
                out.append(f)
    return out


def finish(rep: Report, explanation, t0, tier, seed):
    viol = [o for o in rep.obs if o[2] is False]
    unk = [o for o in rep.obs if o[2] is None]
    kf = [f for f in known_findings() if f.get("property") == rep.pid]
    new, known = [], []
    for o in viol:
        m = [f for f in kf if f.get("rule") == o[0] and f.get("instance") == o[1]]
        (known if m else new).append((o, m[0] if m else None))
    rules = {}
    for r, i, ok, w, d in rep.obs:
        c = rules.setdefault(r, {"obligations": 0, "discharged": 0})
        c["obligations"] += 1
        c["discharged"] += 1 if ok else 0
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(rep.obs),
            "discharged": sum(1 for o in rep.obs if o[2] is True),
            "undecided": len(unk),
            "known_findings_matched": len(known),
            "functions_analysed": len(rep.funcs),
            "call_sites_resolved": rep.call_sites,
            "rules": rules,
            "functions": sorted(rep.funcs)[:200],
            "samples": [{"rule": r, "instance": i, "where": w, "verdict": {True: "holds", False: "violated", None: "undecided"}[ok]}
                        for r, i, ok, w, d in rep.obs[:40]],
            **rep.counts,
        },
        "assumptions": rep.assumptions,
        "violations": [{"rule": o[0], "instance": o[1], "where": o[3], "detail": o[4][:2000]} for o, _ in new],
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{rep.pid}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    for o, f in known:
        print(f"KNOWN-FINDING: property={rep.pid} {o[0]} at {o[3]}: {f['text']}")
    if new:
        vp = os.path.join("evidence", f"{rep.pid}.violation.json")
        with open(os.path.join(HERE, vp), "w") as f:
            json.dump(ev["violations"], f, indent=1)
        for o, _ in new[:20]:
            print(f"  {o[3]}: [{o[0]}] {o[1]}: {o[4][:1500]}")
        print(f"VIOLATION property={rep.pid} replay={vp}")
        return 1
    if unk:
        for o in unk[:20]:
            print(f"  undecided {o[3]}: [{o[0]}] {o[1]}: {o[4][:1500]}")
        print(f"UNDECIDED property={rep.pid}: the analysis cannot interpret {len(unk)} obligation(s)")
        return 2
    print(f"OK property={rep.pid} obligations={len(rep.obs)} functions={len(rep.funcs)} "
          f"call_sites={rep.call_sites} wall={ev['wall_s']}s")
    return 0
