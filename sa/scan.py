"""Syntactic who-may-write and call-graph helpers over the whole package."""
from __future__ import annotations

import ast

from .loader import dotted

MUT_METHODS = {"pop", "popitem", "update", "clear", "setdefault", "append", "extend", "insert", "remove", "sort", "reverse",
               "add", "discard", "__setitem__", "__delitem__"}


def functions(prog, include_spec=False):
    for q, f in prog.funcs.items():
        if include_spec or f.module.relpath != "spec":
            yield f


def all_nodes(f):
    for st in (f.node.body if isinstance(f.node.body, list) else [f.node.body]):
        yield from ast.walk(st)


def aliases(f, names):
    """Local names bound to an attribute in names (x = obj.zones)."""
    out = set()
    for n in all_nodes(f):
        v = t = None
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
        elif isinstance(n, ast.NamedExpr) or isinstance(n, ast.AnnAssign):
            t, v = n.target, n.value
        if isinstance(t, ast.Name) and isinstance(v, ast.Attribute) and v.attr in names:
            out.add(t.id)
    return out


def container_writes(f, names):
    """(node, kind, attribute) of writes to containers held in attributes called names."""
    al = aliases(f, names)

    def hit(e):
        if isinstance(e, ast.Attribute) and e.attr in names:
            return e.attr
        if isinstance(e, ast.Name) and e.id in al:
            return e.id
        return None
    for n in all_nodes(f):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and hit(n.value):
            yield n, "item", hit(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS and hit(n.func.value):
            yield n, n.func.attr, hit(n.func.value)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in names:
            yield n, "attr", n.attr
        elif isinstance(n, ast.Call) and dotted(n.func) == "setattr" and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value in names:
            yield n, "setattr", n.args[1].value


def attr_writes(f, name):
    for n in all_nodes(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == name:
            yield n
        elif isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) > 2 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
            yield n


def callers(prog, name):
    """Functions containing a call of something called name."""
    out = []
    for f in functions(prog):
        for n in all_nodes(f):
            if isinstance(n, ast.Call):
                d = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else None)
                if d == name:
                    out.append((f, n))
    return out
