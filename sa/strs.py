"""Simplifies string operations on lines of text of which the words are known or named.

A line is ("line", words, before, after): words separated by single blanks, and whether blanks may stand around them.
"""
from __future__ import annotations

from . import terms as tm
from .terms import FALSE, NONE, TRUE, const, mk


def line(words, before=False, after=False):
    return mk("line", tuple(words), before, after)


def is_line(t):
    return t[0] == "line"


def head(t):
    """Constant text the line starts with, and whether that is all of it."""
    out = ""
    for n, w in enumerate(t[1]):
        if not tm.is_str(w):
            return out, False
        out += w[2] + (" " if n + 1 < len(t[1]) else "")
    return out, not t[3]


def as_line(t):
    if is_line(t):
        return t
    if tm.is_str(t):
        return line([const(w) for w in t[2].split()], t[2][:1].isspace(), t[2][-1:].isspace()) if t[2].strip() == t[2] else None
    return None


def norm(t):
    if is_line(t) and not t[2] and not t[3]:
        if all(tm.is_str(w) for w in t[1]):
            return const(" ".join(w[2] for w in t[1]))
        if len(t[1]) == 1:
            return t[1][0]
    return t


def cut(t, n):
    """The line without its first n characters."""
    h, full = head(t)
    if t[2] or n > len(h):
        return None
    rest = h[n:]
    if full:
        return const(rest)
    k = 0
    while k < len(t[1]) and tm.is_str(t[1][k]):
        k += 1
    words = [const(w) for w in rest.split()] + list(t[1][k:])
    return line(words, rest[:1] == " " or (rest == "" and n < 0), t[3])


def word_num(t):
    return t[0] == "num"


def step(t):
    """One simplification of a term whose parts are simplified."""
    k = t[0]
    if k == "mcall" and (is_line(t[1]) or t[1][0] in ("num", "word")):
        b, name, args = t[1], t[2], t[3]
        if not is_line(b):
            b = line([b])
        if name in ("strip", "rstrip", "lstrip") and not args:
            return norm(line(b[1], b[2] and name == "rstrip", b[3] and name == "lstrip"))
        if name == "startswith" and len(args) == 1 and tm.is_str(args[0]) and not b[2]:
            h, full = head(b)
            p = args[0][2]
            if len(p) <= len(h):
                return const(h.startswith(p))
            if full or not p.startswith(h):
                return FALSE
        if name == "endswith" and len(args) == 1:
            return t
        if name == "split":
            if not args or args[0] is NONE or (args[0] is const(" ") and not b[2] and not b[3]):
                if len(args) < 2:
                    return tm.tup([w for w in b[1]])
            if args and tm.is_str(args[0]) and len(args) == 1 and args[0] in b[1]:
                i = b[1].index(args[0])
                rest = b[1][i + 1:]
                if args[0] not in rest:
                    return tm.tup([line(b[1][:i], b[2], True), line(rest, True, b[3])])
            if len(args) == 2 and (args[0] is NONE or args[0] is const(" ")) and args[1] is const(1) and len(b[1]) > 1:
                return tm.tup([b[1][0], norm(line(b[1][1:], False, b[3]))])
        if name in ("removeprefix",) and tm.is_str(args[0]) and not b[2]:
            h, full = head(b)
            if h.startswith(args[0][2]):
                r = cut(b, len(args[0][2]))
                return t if r is None else r
    if k == "mcall" and tm.is_str(t[1]) and t[2] in ("split", "strip", "startswith") and all(tm.is_str(a) for a in t[3]) and not t[4]:
        r = getattr(t[1][2], t[2])(*[a[2] for a in t[3]])
        return tm.tup([const(x) for x in r]) if isinstance(r, list) else const(r)
    if k == "slice" and is_line(t[1]) and not t[1][2] and t[4] in (NONE, const(1)):
        lo, hi = t[2], t[3]
        if tm.is_int(lo) and lo[2] == 0 and tm.is_int(hi) and hi[2] >= 0:
            h, full = head(t[1])
            if hi[2] <= len(h) or full:
                return const(h[:hi[2]])
        if tm.is_int(lo) and lo[2] >= 0 and hi is NONE:
            r = cut(t[1], lo[2])
            return t if r is None else norm(r)
    if k == "slice" and tm.is_str(t[1]) and all(x is NONE or tm.is_int(x) for x in t[2:5]):
        f = lambda x: None if x is NONE else x[2]
        return const(t[1][2][f(t[2]):f(t[3]):f(t[4])])
    if k == "slice" and t[1][0] == "tuple" and all(x is NONE or tm.is_int(x) for x in t[2:5]):
        f = lambda x: None if x is NONE else x[2]
        return tm.tup(list(t[1][1][f(t[2]):f(t[3]):f(t[4])]))
    if k == "item" and t[1][0] == "tuple" and tm.is_int(t[2]) and -len(t[1][1]) <= t[2][2] < len(t[1][1]):
        return t[1][1][t[2][2]]
    if k == "call" and t[1] in ("float", "np.float64") and len(t[2]) == 1 and t[2][0][0] == "num":
        return t[2][0]
    if k == "str" and t[1][0] == "num" and not t[2]:
        return t[1]
    if k == "red" and t[1] == "list" and t[2][0] == "tuple":
        return tm.tup([simp(tm.instantiate(t[3], x, const(i), const(i))) for i, x in enumerate(t[2][1])])
    if k == "call" and t[1] == "np.array" and len(t[2]) == 1 and t[2][0][0] == "tuple" and \
            all(n == "dtype" and v is mk("ext", "np.float64") for n, v in t[3]):
        return t[2][0]
    if k == "len" and t[1][0] == "tuple":
        return const(len(t[1][1]))
    if k == "cmp" and t[1] in ("==", "!="):
        a, b = t[2], t[3]
        if tm.is_str(b):
            a, b = b, a
        if tm.is_str(a) and (is_line(b) or b[0] in ("word", "num")):
            l = b if is_line(b) else line([b])
            h, full = head(l)
            eq = None
            if full:
                eq = a[2] == h if not l[2] else None
            elif not l[2]:
                if not a[2].startswith(h) or len(a[2]) <= len(h):
                    eq = False
            if a[2].strip() == "" and l[1]:
                eq = False
            if eq is not None:
                return const(eq == (t[1] == "=="))
    if k == "cmp" and t[1] == "in" and tm.is_str(t[2]) and is_line(t[3]):
        h, full = head(t[3])
        if t[2][2] in h:
            return TRUE
        if full:
            return FALSE
    if k == "cmp" and t[1] in ("is", "is not") and NONE in (t[2], t[3]):
        o = t[3] if t[2] is NONE else t[2]
        if is_line(o) or o[0] in ("num", "word", "tuple") or tm.is_str(o):
            return const(t[1] == "is not")
    return t


def simp(t, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t[0] in ("line", "num", "word"):
        return t
    r = tm.rebuild(t, lambda x: simp(x, memo))
    for _ in range(8):
        n = step(r)
        if n is r:
            break
        r = n
    memo[t] = r
    return r
