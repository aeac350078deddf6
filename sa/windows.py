"""Lists that hold a sliding pair of values in a loop, rewritten as two variables.

    w = [a]                          w0 = a
    for x in xs:                     for x in xs:
        w.append(x)                      w1 = x
        ... w[0] ... w[1] ...            ... w0 ... w1 ...
        w.pop(0)                         w0 = w1

and counters kept by hand, rewritten as ranges.

    i = a                            for i in range(a, n):
    while i < n:                         ...
        ...
        i += 1

The rewriting happens on the syntax tree, only where every use of the list or the counter has one of these forms.
"""
from __future__ import annotations

import ast


def rewrite(tree):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for name in candidates(f):
                window(f, name)
            counters(f)
    return tree


def counters(f):
    for n in list(ast.walk(f)):
        for part in ("body", "orelse", "finalbody"):
            block = getattr(n, part, None)
            if not isinstance(block, list):
                continue
            for i, st in enumerate(block):
                if isinstance(st, ast.While) and not st.orelse:
                    new = counted(f, block[:i], st)
                    if new is not None:
                        block[i] = new


def step_of(st, name):
    """name += 1, name = name + 1"""
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and st.target.id == name:
        return isinstance(st.value, ast.Constant) and st.value.value == 1 and type(st.value.value) is int
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name \
            and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
        a, b = st.value.left, st.value.right
        if isinstance(a, ast.Constant):
            a, b = b, a
        return isinstance(a, ast.Name) and a.id == name and isinstance(b, ast.Constant) and b.value == 1 and type(b.value) is int
    return False


def continues(body, name):
    """Blocks in which a continue of this loop stands; None if one is not directly preceded by the step."""
    out = []
    for i, st in enumerate(body):
        if isinstance(st, ast.Continue):
            if i == 0 or not step_of(body[i - 1], name):
                return None
            out.append(body)
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if leaves(getattr(st, "orelse", [])):
                return None
            continue
        parts = [getattr(st, p, None) or [] for p in ("body", "orelse", "finalbody")] + [h.body for h in getattr(st, "handlers", [])]
        for p in parts:
            sub = continues(p, name)
            if sub is None:
                return None
            out += sub
    return out


def counted(f, before, loop):
    t = loop.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    for v, o, bound in ((a, op, b), (b, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(type(op), ast.NotEq)(), a)):
        if isinstance(v, ast.Name) and isinstance(o, (ast.Lt, ast.LtE)) and step_of(loop.body[-1], v.id):
            break
    else:
        return None
    name, body = v.id, loop.body[:-1]
    if not body or not any(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name
                           for x in before):
        return None
    conts = continues(body, name)
    if conts is None:
        return None
    steps = [x for c in conts for i, x in enumerate(c[:-1]) if isinstance(c[i + 1], ast.Continue) and step_of(x, name)]
    stored = [x for st in body for x in uses(st, name) if isinstance(x.ctx, (ast.Store, ast.Del))]
    if len(stored) != len(steps):
        return None
    for x in ast.walk(bound):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
            return None
        if isinstance(x, ast.Subscript) and not (isinstance(x.value, ast.Attribute) and x.value.attr == "shape"):
            return None
        if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await)):
            return None
    names = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
    if name in names:
        return None
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and any(y.id in names for y in ast.walk(x.func) if isinstance(y, ast.Name)):
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
    inside = {id(x) for x in uses(loop, name)}
    others = {id(x) for w in ast.walk(f) if isinstance(w, (ast.While, ast.For)) and w is not loop and starts(f, w, name) for x in uses(w, name)}
    if any(isinstance(x.ctx, ast.Load) and id(x) not in inside and id(x) not in others for x in uses(f, name)):
        return None
    for c in {id(c): c for c in conts}.values():
        c[:] = [x for i, x in enumerate(c) if not (i + 1 < len(c) and isinstance(c[i + 1], ast.Continue) and step_of(x, name))]
    hi = bound if isinstance(o, ast.Lt) else ast.BinOp(bound, ast.Add(), ast.Constant(1))
    rng = ast.Call(ast.Name("range", ast.Load()), [ast.Name(name, ast.Load()), hi], [])
    first = [x for x in before if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name][-1]
    between = before[before.index(first) + 1:]
    if isinstance(first.value, ast.Constant) and not any(uses(x, name) for x in between):
        rng.args[0] = first.value
    new = ast.For(ast.Name(name, ast.Store()), rng, body, [])
    for x in ast.walk(new):
        if not hasattr(x, "lineno") and hasattr(x, "_attributes") and x._attributes:
            ast.copy_location(x, t)
    return ast.copy_location(new, loop)


def starts(f, loop, name):
    """Is the counter set anew by the loop, or in the block of the loop before it?"""
    if isinstance(loop, ast.For):
        return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(loop.target))
    for n in ast.walk(f):
        for part in ("body", "orelse", "finalbody"):
            block = getattr(n, part, None)
            if isinstance(block, list) and loop in block:
                return any(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name
                           for x in block[:block.index(loop)])
    return False


def candidates(f):
    return sorted({n.func.value.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                   and n.func.attr == "pop" and isinstance(n.func.value, ast.Name)})


def call_on(st, name, attr):
    if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute)):
        return None
    c = st.value
    if c.func.attr == attr and isinstance(c.func.value, ast.Name) and c.func.value.id == name and len(c.args) == 1 and not c.keywords:
        return c.args[0]
    return None


def leaves(body):
    """Does a break or continue in body belong to the loop around it?"""
    for st in body:
        if isinstance(st, (ast.Break, ast.Continue)):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if leaves(getattr(st, "orelse", [])):
                return True
            continue
        for part in ("body", "orelse", "finalbody"):
            if leaves(getattr(st, part, None) or []):
                return True
        if any(leaves(h.body) for h in getattr(st, "handlers", [])):
            return True
    return False


def uses(n, name):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == name]


def window(f, name):
    for n in ast.walk(f):
        for part in ("body", "orelse"):
            block = getattr(n, part, None)
            if not isinstance(block, list):
                continue
            for i, st in enumerate(block):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name \
                        and isinstance(st.value, ast.List) and len(st.value.elts) == 1:
                    loops = [x for x in block[i + 1:] if uses(x, name)]
                    if len(loops) == 1 and isinstance(loops[0], ast.For):
                        return apply(f, name, st, loops[0])
    return False


def apply(f, name, init, loop):
    body = loop.body
    adds = [i for i, st in enumerate(body) if call_on(st, name, "append") is not None]
    pops = [i for i, st in enumerate(body) if call_on(st, name, "pop") is not None]
    if len(adds) != 1 or len(pops) != 1 or adds[0] > pops[0] or leaves(body):
        return False
    a, p = adds[0], pops[0]
    zero = call_on(body[p], name, "pop")
    if not (isinstance(zero, ast.Constant) and zero.value == 0) or uses(call_on(body[a], name, "append"), name):
        return False
    reads = [x for st in body[a + 1:p] for x in ast.walk(st) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name
             and isinstance(x.slice, ast.Constant) and x.slice.value in (0, 1, -1) and isinstance(x.ctx, ast.Load)]
    if len(uses(f, name)) != 3 + len(reads):
        return False
    first, second = f"{name}.0", f"{name}.1"
    put = lambda st, to, val: ast.copy_location(ast.Assign([ast.copy_location(ast.Name(to, ast.Store()), st)], val), st)
    init.targets[0].id, init.value = first, init.value.elts[0]
    body[a] = put(body[a], second, call_on(body[a], name, "append"))
    body[p] = put(body[p], first, ast.copy_location(ast.Name(second, ast.Load()), body[p]))
    old = {id(x): first if x.slice.value == 0 else second for x in reads}

    class Swap(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if id(n) in old:
                return ast.copy_location(ast.Name(old[id(n)], ast.Load()), n)
            return self.generic_visit(n)
    for i in range(a + 1, p):
        body[i] = Swap().visit(body[i])
    ast.fix_missing_locations(f)
    return True
