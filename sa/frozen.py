"""Snapshots of nested dictionaries and lists as immutable terms: what a JSON file holds.

A dictionary is ("J", parts); a part is a (key, value) pair, a pair under a condition, or a reduction "jmap" of
pairs over a collection.
"""
from __future__ import annotations

from . import terms as tm
from .state import SKIP
from .terms import FALSE, TRUE, mk


class Frozen:
    def freeze(self, st, t, depth=0):
        if depth > 15:
            return t
        if t[0] == "tuple":
            return tm.tup([self.freeze(st, x, depth + 1) for x in t[1]])
        if t[0] == "phi":
            return tm.phi(t[1], self.freeze(st, t[2], depth + 1), self.freeze(st, t[3], depth + 1))
        inf = self.info(t)
        ty = self.type_of(t)
        if (inf is not None and inf.kind == "dict") or (inf is None and ty and ty[0] == "dict" and self.log(st, t)):
            return self.freeze_dict(st, t, depth)
        if inf is not None and inf.kind == "list":
            if self.in_flux(st, t):
                return self.val(st, t)
            ents, ren = self.entries(st, t)
            if any(e.kind != "app" for e in ents):
                return self.val(st, t)
            parts = self.val_group(st, ents, ren, 0, depth, self.freeze)
            if not parts:
                return tm.tup([])
            return parts[0] if len(parts) == 1 else mk("concat", tuple(parts))
        return self.val(st, t)

    def freeze_dict(self, st, o, depth):
        keep, ren = self.dict_groups(st, o)
        if keep is None:
            return mk("opq", "frozen", o)
        f = (lambda x: tm.subst(x, ren)) if ren else (lambda x: x)
        parts = []
        for loops, g, key, e in keep:
            key, val, g = f(key), f(e.val), f(g)
            if e.kind == "set":
                val = self._stored(st, o, e, val, f)
            body = tm.tup([key, self.freeze(st, val, depth + 1)])
            g = self.implied(st, g)
            if g is not TRUE:
                body = tm.phi(g, body, SKIP)
            for l, _ in reversed(loops):
                l = f(l)
                body = mk("red", "jmap", l[1], tm.abstract(body, l))
            parts.append(body)
        return mk("J", tuple(parts))

    def _stored(self, st, o, e, val, f):
        """The value under the key of entry e; later entries with the same key win."""
        ents, _ = self.entries(st, o)
        for x in reversed(ents):
            if x.key is e.key and x.loops == e.loops:
                return f(x.val)
        return val

    # ------------------------------------------------------------------ reading
    def j_get(self, st, b, i):
        for p in reversed(b[1]):
            r = self._j_match(st, p, i)
            if r is False:
                continue
            if r is None:
                self.unknown(st, f"lookup of {tm.show(i)} in a file")
                return mk("item", b, i)
            g, v = r
            if g is not TRUE:
                self.effect(st, "missing", b, i, g)
            return v
        self.effect(st, "missing", b, i, FALSE)
        return mk("item", b, i)

    def _j_match(self, st, p, i):
        """(condition, value) when part p holds key i, False when it does not, None when unknown."""
        if p[0] == "phi":
            r = self._j_match(st, p[2], i)
            return r if not r else (tm.conj([self.implied(st, p[1]), r[0]]), r[1])
        if p[0] == "tuple":
            if p[1][0] is i:
                return TRUE, p[1][1]
            return False if self.keys_differ(st, p[1][0], i) else None
        if p[0] == "red":
            ls = sorted({l for l, _ in st.loops if l[1] is p[2]}, key=lambda l: -l[2])
            for l in ls:
                r = self._j_match(st, tm.instantiate(p[3], *self.loop_terms(l), loop=l), i)
                if r:
                    return r
            # a key of another kind
            l = tm.loop_id(p[2], 96)
            b = tm.instantiate(p[3], *self.loop_terms(l), loop=l)
            k = b[2] if b[0] == "phi" else b
            if k[0] == "tuple" and tm.is_const(i) and tm.is_const(k[1][0]) and i is not k[1][0]:
                return False
        return None

    def j_iterate(self, st, b, mode, body, node):
        return self._j_parts(st, b[1], mode, body, node)

    def j_list(self, st, t, body, node):
        """Runs body for the elements of a list made by nested loops."""
        L = self.open_id(st, t[2])
        b = tm.instantiate(t[3], *self.loop_terms(L), loop=L)

        def one(s, x):
            if x[0] == "phi" and x[3] is SKIP:
                return self.branch(s, x[1], lambda s2: one(s2, x[2]), lambda s2: s2)
            if t[1] == "flat":
                return self.iterate(s, x, body, node)
            return body(s, x, mk("opq", "list position"), mk("opq", "list position"))
        return self.run_loop(st, L, lambda s: one(s, b), node)

    def _j_parts(self, st, parts, mode, body, node):
        for p in parts:
            if st.dead:
                return st
            st = self._j_part(st, p, mode, body, node)
        return st

    def _j_part(self, st, p, mode, body, node):
        if p[0] == "phi":
            g = self.implied(st, p[1])
            if g is TRUE:
                return self._j_part(st, p[2], mode, body, node)
            if g is FALSE:
                return st
            return self.branch(st, g, lambda s: self._j_part(s, p[2], mode, body, node), lambda s: s)
        if p[0] == "red":
            L = self.open_id(st, p[2])
            b = tm.instantiate(p[3], *self.loop_terms(L), loop=L)
            return self.run_loop(st, L, lambda s: self._j_part(s, b, mode, body, node), node)
        key, val = p[1]
        item = {"keys": key, "vals": val, "items": p}[mode]
        return body(st, item, key, mk("opq", "dict position"))

    def j_has(self, st, b, i):
        out = []
        for p in b[1]:
            r = self._j_match(st, p, i)
            if r is None:
                return None
            if r:
                out.append(r[0])
        return tm.disj(out)
