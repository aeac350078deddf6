"""Writes DESIGN.md from tools/design_head.md, the properties, the check modules, their mutants and the planted bugs."""
import importlib
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ORACLE = {
    "C01": "the stated order and conditions of writes (no model of the code): every write of a name, parent or child map in the package",
    "C02": "the chain of names joined by the separator; 25 lookups of an arbitrary chain; nested loops over all children",
    "C03": "a structural copy of the input building",
    "C04": "a structural copy of the input building",
    "C05": "specification of the text layout; per kind of line, what has to be stored and what comes next",
    "C06": "specification functions that number points, faces and objects in nesting order",
    "C07": "row position = rows of earlier parts + own row; index shift = points of earlier parts",
    "C08": "the stated link condition; both directions; coverage of both loops",
    "C09": "the answer for the request's own level and flags",
    "C10": "pair of the facing graph, both in one zone",
    "C11": "absence of cross-iteration dependences",
    "C12": "the stated energy law",
    "C13": "row k holds the state after k steps; file number = steps made before + row",
    "C14": "the setting named like the purpose",
    "C15": "cells a box touches; strictly-apart implication; 27 cells",
    "C16": "nearest of the opaque polygons hit; mirror law; move by velocity times time step",
    "C17": "table of permitted effects (which argument an operation may change)",
    "C18": "specification functions for derived fields; who-writes rule",
    "C20": "sums and quantifiers over all children at every level",
    "C24": "the stated replacement and pairing rules",
    "C26": "previous children without the named one plus the replacements; no raise after the first change",
    "C27": "textbook definitions written in the check",
    "C28": "the cycle of corners of each face as polynomials of the parameters",
    "C21": "the condition that makes the input invalid, as a specification over the same arguments; what is known on normal exit must contradict it",
    "C35": "the series k times the time step, and the buffer over its largest column total, in exact arithmetic",
    "C25": "the few forms of prefix, suffix, group and loop update that mean 'any directory before', 'nothing after', 'digits', 'once per occurrence'; specification functions for listing and filling",
    "C37": "the colour of a mesh must be the energies selected exactly as its points are; specification functions for the layout of lines and for plotted objects",
    "C36": "a table over all combinations of 'given point lies in this part'; the location of a point as a specification function",
    "C29": "the stated criterion as a specification function",
}


def load(path):
    sp = importlib.util.spec_from_file_location("m", path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
    caught = {}
    p = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(p):
        caught = json.load(open(p))
    out.append("## Properties\n")
    for d in props:
        i = d["id"]
        out.append(f"### {i} {d['title']}\n")
        if i in na:
            out.append(f"Not applicable: {na[i]}\n")
            continue
        m = importlib.import_module(f"sa.props.{i.lower()}")
        muts = load(os.path.join(HERE, "tools", "mutants", f"{i.lower()}.py")).MUT
        ev = os.path.join(HERE, "evidence", f"{i}.json")
        cost = ""
        if os.path.exists(ev):
            e = json.load(open(ev))
            cost = f"{e['wall_s']:.1f} s, {e['coverage'].get('obligations', '?')} obligations"
        out.append(f"* Decided by: {m.EXPLANATION}")
        out.append(f"* Analysed: {', '.join(d['anchors']['files'])} and everything they call ({'; '.join(x['name'] + ': ' + x['where'] for x in d['anchors']['mechanism'])}).")
        out.append(f"* Oracle: {ORACLE.get(i) or getattr(m, 'ORACLE', '')}.")
        note = getattr(m, "NOTE", "")
        out.append(f"* Bounds: none on sizes, counts or values ({d['quantifier']['text']}). {note}")
        out.append(f"* Beyond tests: {d['why_tests_cant']}")
        out.append(f"* Cost: {cost}. Tried on {sum(x[0] == 'bug' for x in muts)} breaking and {sum(x[0] == 'ok' for x in muts)} behaviour-preserving changes.\n")
    out.append("## Planted bugs\n\n| bug | property | breaks | checks that report it |\n|---|---|---|---|")
    s = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(s)):
        meta = json.load(open(os.path.join(s, b, "meta.json")))
        out.append(f"| {b} | {meta['property']} | {meta['what_it_breaks']} | {', '.join(caught.get(b, [])) or '?'} |")
    out.append("\nc28-one-axis was answered 'undecided' at first; the check now tells the signs of the single components of a translation apart. No check reads seeded/.\n")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
