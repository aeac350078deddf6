"""State that outlives a call: module-level containers, memoising decorators, mutable defaults, function attributes."""
from __future__ import annotations

import ast

from .loader import dotted
from .scan import MUT_METHODS, all_nodes, functions

MEMO = ("cache", "lru_cache", "cached_property", "memoize", "memoise", "cached")


def local_names(f):
    a = f.node.args
    out = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    shared = set()
    for n in all_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            shared.update(n.names)
    return out - shared


def changes(f):
    """(node, name) of in-place changes of names that are not local to f."""
    local = local_names(f)
    for n in all_nodes(f):
        x = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
            x = n.func.value
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            x = n.value
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in local:
            yield n, x.id
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            for name in n.names:
                yield n, name


def changing_globals(prog):
    """Names per module that some function of the package changes in place or rebinds."""
    out = {}
    for f in functions(prog):
        for _, name in changes(f):
            out.setdefault(name, set()).add(f.module.name)
    return out


def outliving(prog, f, changing):
    """(node, text) of uses of state that outlives a call of f."""
    local = local_names(f)
    for d in f.node.decorator_list:
        name = dotted(d.func if isinstance(d, ast.Call) else d) or ""
        if name.split(".")[-1] in MEMO:
            yield d, f"memoised by {name}"
    top = set(f.module.names)
    for n in all_nodes(f):
        if isinstance(n, ast.Name) and n.id not in local and n.id in changing and n.id in top:
            yield n, f"uses {n.id} of the module, which calls change"
    for n, name in changes(f):
        yield n, f"changes {name} of the module"
    a = f.node.args
    pos = a.posonlyargs + a.args
    defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for arg, d in defaults:
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and dotted(d.func) in ("list", "dict", "set", "defaultdict"):
            yield d, f"keeps the default of {arg.arg} between calls"
