"""C25: file patterns match exactly the names they generate."""
from __future__ import annotations

import re

from .. import terms as tm
from ..core import vague
from ..interp import Interp
from ..spec import equal
from ..terms import FALSE, NONE, ONE, TRUE, ZERO, mk

EXPLANATION = (
    "Making a pattern from a text and listing the files that match it are analysed as one piece by value-provenance dataflow. "
    "The text handed to the regular expression library is taken apart: what precedes and follows the pattern, the escaped pattern itself, and the loop updates that put a group in place of each placeholder. "
    "Each piece is compared with the forms that mean 'any directory before', 'nothing after', 'every other character stands for itself', 'one group of digits for each occurrence'. "
    "Which files are tried and how the digits become numbers, and the filled-in name, are compared in normal form with specification functions; repeated placeholders must be compared with the value found first.")
TECHNIQUE = "value-provenance dataflow, structural decomposition of the generated expression, normal-form comparison with specification functions"
NOTE = "Holds for all patterns, directories, files and values; placeholder names must not end in an underscore and a number; the regular expression library is taken to do what it documents."
MIN_OBLIGATIONS = 13

W = "building3d.paths.wildcardpath.WildcardPath"
SPEC = r'''
import os
import re
from pathlib import Path
from building3d.paths.wildcardpath import WildcardPath
def got(path, parent):
    return WildcardPath(path).get_matching_paths_dict_values(parent)
def found(path, parent):
    r = re.compile(path)
    paths = {}
    for f in Path(parent).glob("**/*"):
        m = r.match(str(f))
        if m:
            vals = {}
            for gr, val in m.groupdict().items():
                w = re.sub(r"_\d+$", "", gr)
                if w not in vals:
                    vals[w] = int(val)
                else:
                    assert int(val) == vals[w]
            paths[str(f)] = vals
    return paths
def listed0(w, parent):
    return w.get_matching_paths(parent)
def listed1(w, parent, x):
    return w.get_matching_paths(parent, a=x)
def listed2(w, parent, x, y):
    return w.get_matching_paths(parent, b=x, a=y)
def list0(w, parent):
    return [f for f in w.get_matching_paths_dict_values(parent)]
def list1(w, parent, x):
    return [f for f, v in w.get_matching_paths_dict_values(parent).items() if "a" in v and v["a"] == x]
def list2(w, parent, x, y):
    return [f for f, v in w.get_matching_paths_dict_values(parent).items() if "a" in v and v["a"] == y and "b" in v and v["b"] == x]
def names(path):
    return sorted(set(re.findall("<([^<>]+)>", path)))
def filled2(path, parent, x, y):
    return WildcardPath(path).fill(parent=parent, a=x, b=y)
def filled1(path, parent, x):
    return WildcardPath(path).fill(parent=parent, a=x)
def filled0(path, x):
    return WildcardPath(path).fill(b=x)
def fill2(path, parent, x, y):
    if len(names(path)) != 2:
        raise ValueError
    if "a" not in names(path):
        raise KeyError
    if "b" not in names(path):
        raise KeyError
    out = path.replace("<a>", str(x)).replace("<b>", str(y))
    return os.path.join(parent, out) if len(parent) > 0 else out
def fill1(path, parent, x):
    if len(names(path)) != 1:
        raise ValueError
    if "a" not in names(path):
        raise KeyError
    out = path.replace("<a>", str(x))
    return os.path.join(parent, out) if len(parent) > 0 else out
def fill0(path, x):
    if len(names(path)) != 1:
        raise ValueError
    if "b" not in names(path):
        raise KeyError
    return path.replace("<b>", str(x))
'''
BEFORE = re.compile(r"(\^|\\A)?\((\?:|\?s:)?\.\*/\)\?")
NAMES = "<([^<>]+)>"
SYM = mk("p", "<expression>")
DIGITS = (r"\d+", "[0-9]+")


def check(prog, rep):
    S = prog.spec(SPEC)
    c = prog.cls(W)
    at = prog.method(c, "get_matching_paths_dict_values").where()
    args = lambda *ns: lambda I: (None, [I.param(n, ("str",) if n[0] == "p" else ("int",)) for n in ns])
    runs = []

    def post(I, st, v):
        v, xs, how = expression(v)
        runs.append((I, xs, how, v))
        return tm.subst(v, {x: mk("p", "<so far>") for x in subterms(v) if x[0] == "flux"})
    equal(prog, rep, "found", W, S["got"], S["found"], args("path", "parent"), post=post, at=at, guards=False)
    if runs:
        I, xs, how, v = runs[0]
        agree(rep, I, at)
        selected(rep, v, at)
        rep.ob("one-expression", W, True if len(xs) == 1 else None, at, f"{len(xs)} regular expressions are used")
        for x in xs:
            expression_of(rep, I, x, how, at)
    fill = prog.method(c, "fill").where()
    for n, ns in (("2", ("path", "parent", "x", "y")), ("1", ("path", "parent", "x")), ("0", ("path", "x"))):
        equal(prog, rep, "filled", f"{W} [{n}]", S["filled" + n], S["fill" + n], args(*ns), at=fill)
    lst = prog.method(c, "get_matching_paths").where()
    for n, ns in (("0", "p"), ("1", "px"), ("2", "pxy")):
        equal(prog, rep, "listed", f"{W} [{n}]", S["listed" + n], S["list" + n], lambda I, ns=ns: (None, [I.obj_param("w", c)] + [I.param(x, ("str",) if x == "p" else ("int",)) for x in ns]),
              opaque=[f"{W}.get_matching_paths_dict_values"], at=lst, post=lambda I, st, v: tallied(v))


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and id(x) not in seen:
            seen.add(id(x))
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def expression(v):
    """The value with the expression replaced by a symbol, the expressions, the ways in which they are applied."""
    sym = SYM
    for x in list(subterms(v)):
        if x[0] == "call" and x[1] in ("re.match", "re.fullmatch", "re.search") and len(x[2]) == 2:
            v = tm.subst(v, {x: mk("mcall", mk("call", "re.compile", (x[2][0],), ()), x[1][3:], (x[2][1],), ())})
    xs = sorted({x[2][0] for x in subterms(v) if x[0] == "call" and x[1] == "re.compile"}, key=tm.tkey)
    v = tm.subst(v, {x: sym for x in xs})
    how = set()
    for x in list(subterms(v)):
        if x[0] == "mcall" and x[1] == mk("call", "re.compile", (sym,), ()):
            how.add(x[2])
            if x[2] == "fullmatch":
                v = tm.subst(v, {x: mk("mcall", x[1], "match", *x[3:])})
    none = {x: tm.neg(y) for x in subterms(v) if x[0] == "cmp" and x[1] == "is" and NONE in x[2:4]
            for y in x[2:4] if y[0] == "mcall" and y[2] == "match"}
    return tm.subst(v, none), xs, how


def tallied(v):
    """Comparisons of the number of entries that satisfy a condition, entries taken key by key."""
    key = mk("bv", 0, "key")
    for x in list(subterms(v)):
        if x[0] != "cmp":
            continue
        n, r = [[y for y in x[2:4] if y[0] == k] for k in ("c", "red")]
        if len(n) != 1 or len(r) != 1 or r[0][1] != "sum" or tm.contains(r[0][3], lambda y: y[0] == "bv" and y[1] > 0):
            continue
        d, body = r[0][2:4]
        tests = {y: text([z for z in y[2:4] if z is not key][0]) for y in subterms(body) if y[0] == "cmp" and y[1] == "==" and key in y[2:4]}
        if None in tests.values() or tm.subst(body, {y: FALSE for y in tests}) is not ZERO:
            continue
        conds = []
        for w in sorted(set(tests.values())):
            b = tm.subst(body, {y: TRUE if t == w else FALSE for y, t in tests.items()})
            if b[0] == "phi" and b[2:4] == (ONE, ZERO):
                conds.append(tm.conj([tm.cmp("in", tm.const(w), d), tm.instantiate(b[1], mk("item", d, tm.const(w)), tm.const(w))]))
        if len(conds) < len(set(tests.values())):
            continue
        yes = [k for k in range(len(conds) + 1) if tm.subst(x, {r[0]: tm.const(k)}) is TRUE]
        no = [k for k in range(len(conds) + 1) if k not in yes]
        for k, what in (([len(conds)], tm.conj(conds)), (list(range(1, len(conds) + 1)), tm.disj(conds))):
            if k in (yes, no):
                v = tm.subst(v, {x: what if k == yes else tm.neg(what)})
                break
    return v


def atoms(t):
    if t[0] in ("and", "or", "not"):
        return [a for x in t[1:] for y in (x if x and not isinstance(x[0], str) else (x,)) for a in atoms(y)]
    return [t]


def selected(rep, v, at):
    """Nothing but the match decides whether a file is listed."""
    extra = []
    for x in subterms(v):
        if x[0] == "red" and x[1] == "list" and x[2][0] == "mcall" and x[2][2] in ("glob", "rglob"):
            todo = [x[3]]
            while todo:
                y = todo.pop()
                if y[0] == "phi":
                    extra += [a for a in atoms(y[1]) if not any(z == SYM for z in subterms(a))]
                    todo += y[2:4]
    rep.ob("every-file-tried", W, not extra, at, f"a file is listed depending on {'; '.join(tm.show(x)[:200] for x in extra)}")


def agree(rep, I, at):
    """Values of a placeholder that is used more than once must be compared."""
    ok = False
    for e in I.effects:
        if e.kind in ("raise", "assert"):
            mine = False
            for t in (e.args[0] if e.kind == "assert" else e.cond(), e.cond()):
                for x in subterms(t) if isinstance(t, tuple) else ():
                    if x[0] == "cmp" and x[1] in ("==", "!=") and any(y[0] == "call" and y[1] == "int" for y in x[2:4]) \
                            and any(z[0] == "flux" for y in x[2:4] for z in subterms(y)):
                        ok = mine = True
            if e.kind == "raise":
                rep.ob("found-errors", f"{W} {e.where}", mine or (None if vague(e.cond()) else False), e.where, f"listing files is refused when {tm.show(e.cond())[:200]}")
    rep.ob("repeated-agree", W, ok, at, "different numbers for the same placeholder are not refused")


def text(t):
    return t[2] if t[0] == "c" and t[1] == "str" else None


def parts(t):
    """Pieces of a text, neighbouring constants joined."""
    out = []
    for x in t[1] if t[0] == "cat" else (t,):
        if x[0] == "cat":
            sub = parts(x)
        elif x[0] == "str" and len(x) > 2 and not x[2] and text(x[1]) is not None:
            sub = [x[1][2]]
        else:
            sub = [text(x) if text(x) is not None else x]
        for y in sub:
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            elif y != "":
                out.append(y)
    return out


def plain(t):
    """The text behind str(...), a joined single piece."""
    while True:
        if t[0] == "str" and len(t) > 2 and not t[2]:
            t = t[1]
        elif t[0] == "cat" and len(parts(t)) == 1 and not isinstance(parts(t)[0], str):
            t = parts(t)[0]
        elif t[0] == "call" and t[1] == "str" and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def is_pattern(t):
    """The pattern itself, possibly as a path."""
    t = plain(t)
    if t == mk("p", "path"):
        return True
    if t[0] == "call" and t[1] in ("pathlib.Path", "pathlib.PurePath", "os.path.normpath") and len(t[2]) == 1:
        return is_pattern(t[2][0])
    if t[0] == "mcall" and t[2] == "rstrip" and len(t[3]) == 1 and text(t[3][0]) == "/":
        return is_pattern(t[1])
    return False


def found_names(t):
    return any(x[0] == "call" and x[1] == "re.findall" and len(x[2]) == 2 and text(x[2][0]) == NAMES and is_pattern(x[2][1]) for x in subterms(t))


def expression_of(rep, I, x, how, at):
    ps = parts(x)
    core = [p for p in ps if not isinstance(p, str)]
    if len(core) != 1:
        rep.ob("expression", W, None, at, f"the expression is {tm.show(x)[:300]}")
        return
    i = ps.index(core[0])
    before, after = "".join(ps[:i]), "".join(ps[i + 1:])
    whole = how == {"fullmatch"}
    rep.ob("whole-parts-before", W, None if not how <= {"match", "fullmatch"} and not before.startswith(("^", r"\A")) and before != ".*" and how != {"search"} else
           bool(BEFORE.fullmatch(before)) and (how <= {"match", "fullmatch"} or before.startswith(("^", r"\A"))) if before in ("", ".*", ".*?", "^.*") or BEFORE.fullmatch(before) else None,
           at, f"{before!r} before the pattern lets a name start in the middle of a part, or allows no directory")
    end = after in (r"\Z", r"/?\Z", r"/*\Z") or (whole and after in ("", "$", "/*", "/?"))
    rep.ob("nothing-after", W, True if end else False if after in ("", "$", "/*", "/*$", "/?$", ".*", ".*$", "/?") else None, at,
           f"{after!r} after the pattern lets a name go on behind it")
    t = core[0]
    if t[0] != "last":
        rep.ob("literal", W, None, at, f"the expression is {tm.show(t)[:300]}")
        return
    init = plain(t[4])
    esc = init[0] == "call" and init[1] == "re.escape" and len(init[2]) == 1
    rep.ob("literal", W, True if esc and is_pattern(init[2][0]) else False if is_pattern(init) else None, at,
           "characters of the pattern that mean something in a regular expression do not stand for themselves")
    rep.ob("every-placeholder", W, True if found_names(t[1]) and t[2] == tm.TRUE else None if vague(t[1]) or not any(x[0] == "call" and x[1] == "re.findall" for x in subterms(t[1])) else False, at,
           f"placeholders are taken from {tm.show(t[1])[:200]}")
    upd, inner = follow(I, t[3])
    if upd is None or upd[0] != "mcall" or upd[2] != "replace" or len(upd[3]) < 2:
        rep.ob("group-of-digits", W, None, at, f"the placeholder is replaced by {tm.show(upd)[:200] if upd else 'an unknown value'}")
        return
    old, new, times = upd[3][0], upd[3][1], upd[3][2] if len(upd[3]) > 2 else None
    if old[0] == "call" and old[1] == "re.escape":
        old = old[2][0]
    o = parts(old)
    named = len(o) == 3 and o[0] == "<" and o[2] == ">" and not isinstance(o[1], str)
    rep.ob("placeholder-replaced", W, True if named and plain(o[1])[0] == "elem" else None, at, f"what is replaced is {tm.show(old)[:200]}")
    n = parts(new)
    ok = len(n) >= 3 and n[0] == "(?P<" and isinstance(n[-1], str) and n[-1][:1] == ">" and n[-1][-1:] == ")"
    body = n[-1][1:-1] if ok else ""
    rep.ob("group-of-digits", W, True if ok and body in DIGITS else False if ok else None, at, f"a placeholder is matched by {body or tm.show(new)[:200]!r} instead of one or more digits")
    per = [x for x in subterms(new) if x[0] == "idx"]
    same = ok and named and plain(n[1]) == plain(o[1]) and len(n) == 5 and n[2] == "_"
    rep.ob("group-name", W, True if same and per else None, at, f"the group is called {tm.show(new)[:200]}")
    rep.ob("one-at-a-time", W, True if times == ONE else False if times is None or times[0] == "c" else None, at,
           "one group stands for several occurrences of a placeholder")
    counted(rep, I, inner, plain(o[1]) if named else None, at)


def follow(I, t):
    """The update behind loop results, and the loop it happens in."""
    for _ in range(6):
        if t[0] != "out":
            return None, None
        rec = I.loop_recs.get(t[1])
        if rec is None:
            return None, None
        new = [v for k, v in rec.updates.items() if k[0] == "e" and k[-1] == t[2]]
        if len(new) != 1:
            return None, None
        t = new[0]
        if t[0] != "out":
            return t, rec
    return None, None


def counted(rep, I, rec, name, at):
    """There are as many groups as occurrences."""
    L = rec.L[1] if rec is not None and isinstance(rec.L, tuple) and rec.L[0] == "L" else None
    if L is None or L[0] != "range" or L[1] != ZERO or L[3] != ONE:
        rep.ob("every-occurrence", W, None, at, f"groups are made for {tm.show(L)[:200] if L else 'an unknown range'}")
        return
    n = L[2]
    listed = lambda t: t[0] == "call" and t[1] == "re.findall" and found_names(t)
    ok, why = None, f"the number of groups is {tm.show(n)[:200]}"
    one = tm.sub(n, ONE)
    if one[0] == "item" and one[1][0] == "flux" and one[2][0] == "elem" and any(x[0] == "call" and x[1] == "set" for x in subterms(one[2])):
        ok = False
    elif n[0] == "mcall" and n[2] == "count" and listed(n[1]) and n[3] == (name,):
        ok = True
    elif n[0] == "item" and n[1][0] == "call" and n[1][1] == "collections.Counter":
        ok = True if listed(n[1][2][0]) else None
    elif n[0] == "item" and n[1][0] == "st":
        obj = n[1][1]
        stores = [e for e in I.effects if e.kind == "store" and e.args[0] == obj]
        if stores:
            ok = True
            for e in stores:
                key, val = e.args[1], e.args[2]
                if key[0] != "elem" or not listed(key[1][1]):
                    ok = False if key[0] == "elem" and found_names(key[1][1]) and any(x[0] == "call" and x[1] == "set" for x in subterms(key[1][1])) else None
                elif not (tm.sub(val, ONE)[0] == "item" and tm.sub(val, ONE)[1][0] == "flux" and tm.sub(val, ONE)[2] == key):
                    ok = False if val[0] == "c" else None
    rep.ob("every-occurrence", W, ok, at, why)
