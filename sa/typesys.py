"""Light-weight types from annotations, used to resolve attributes and methods."""
from __future__ import annotations

import ast

from .loader import Class, Module, Program, dotted

STR, INT, FLOAT, BOOL, ARR = ("str",), ("int",), ("float",), ("bool",), ("arr",)

SIMPLE = {"str": STR, "int": INT, "float": FLOAT, "bool": BOOL, "PointType": ARR, "VectorType": ARR,
          "IndexType": ARR, "ndarray": ARR, "FloatDataType": ARR, "IntDataType": ARR, "Any": None}


def parse(prog: Program, m: Module, node, owner: Class | None = None):
    """Annotation expression -> type or None."""
    if node is None:
        return None
    if isinstance(node, ast.Constant):
        if isinstance(node.value, str):
            try:
                return parse(prog, m, ast.parse(node.value, mode="eval").body, owner)
            except SyntaxError:
                return None
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        parts = [parse(prog, m, x, owner) for x in (node.left, node.right)]
        parts = [p for p in parts if p is not None]
        return parts[0] if len(parts) == 1 else (parts[0] if parts and all(p == parts[0] for p in parts) else None)
    if isinstance(node, (ast.Name, ast.Attribute)):
        name = dotted(node)
        if name is None:
            return None
        last = name.split(".")[-1]
        if last == "Self" and owner is not None:
            return ("cls", owner)
        r = prog.lookup(m, name.split(".")[0])
        for p in name.split(".")[1:]:
            if r and r[0] == "module":
                r = prog.lookup_in(r[1], p)
            elif r and r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                r = None
        if r and r[0] == "class":
            return ("cls", r[1])
        if last in SIMPLE:
            return SIMPLE[last]
        if last == "set":
            return ("set", None)
        if last in ("list", "Sequence", "Iterable"):
            return ("list", None)
        if last == "dict":
            return ("dict", None, None)
        if last == "tuple":
            return ("tuple", None)
        if r and r[0] == "const":
            return parse(prog, r[1], r[2], owner) if not isinstance(r[2], ast.Constant) else None
        return None
    if isinstance(node, ast.Subscript):
        base = (dotted(node.value) or "").split(".")[-1]
        sl = node.slice
        args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if base in ("dict", "Dict", "defaultdict", "Mapping"):
            if len(args) == 2:
                return ("dict", parse(prog, m, args[0], owner), parse(prog, m, args[1], owner))
            return ("dict", None, None)
        if base in ("list", "List", "Sequence", "Iterable", "Iterator", "Generator"):
            return ("list", parse(prog, m, args[0], owner))
        if base in ("set", "Set", "frozenset"):
            return ("set", parse(prog, m, args[0], owner))
        if base in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return ("list", parse(prog, m, args[0], owner))
            return ("tuple", tuple(parse(prog, m, a, owner) for a in args))
        if base == "Optional":
            return parse(prog, m, args[0], owner)
        if base in ("NDArray", "ndarray", "Array"):
            return ARR
    return None
