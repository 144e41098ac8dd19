"""Call graph with name-based resolution of unknown receivers, plus argument binding."""
from __future__ import annotations

import ast

from .project import ClassInfo, External, FuncInfo, Module, Project
from .names import FN, ModBody, contexts, ext_name, resolve, scope_locals, single_assign, walk_own

# attribute names that are overwhelmingly methods of builtin/numpy/pandas/xarray
# objects: never resolved by name alone
COMMON = {"get", "items", "keys", "values", "append", "extend", "pop", "update", "copy", "sort", "index", "insert", "remove",
          "format", "join", "split", "strip", "lower", "upper", "replace", "find", "count", "startswith", "endswith", "write", "add", "clear", "sum", "mean", "max", "min",
          "reshape", "astype", "tolist", "sel", "isel", "to_numpy", "text", "iter", "set"}


def constructor(cls):
    return cls.find_method("__init__")


def callees(p: Project, ctx, call: ast.Call):
    """(FuncInfo, has_bound_self) candidates of a call."""
    e = resolve(p, ctx, call.func)
    if isinstance(e, FuncInfo):
        bound = e.cls is not None and e.parent is None and not e.is_static and isinstance(call.func, ast.Attribute)
        if bound and isinstance(resolve(p, ctx, call.func.value), ClassInfo) and not e.is_classmethod:
            bound = False
        # overriding methods of subclasses when called through self
        out = [(e, bound)]
        if bound and e.cls is not None:
            for c in p.subclasses(e.cls, strict=True):
                if e.name in c.methods and c.methods[e.name] is not e:
                    out.append((c.methods[e.name], bound))
        return out
    if isinstance(e, ClassInfo):
        i = constructor(e)
        out = [(i, True)] if i is not None else []
        pi = e.find_method("model_post_init")
        return out
    if isinstance(e, External):
        return []
    if isinstance(call.func, ast.Attribute):
        v = call.func.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and getattr(ctx, "cls", None) is not None:
            for c in ctx.cls.project_mro()[1:]:
                if call.func.attr in c.methods:
                    return [(c.methods[call.func.attr], True)]
            return []
        if call.func.attr in COMMON:
            return []
        return [(m, not m.is_static) for m in p.methods_named(call.func.attr)]
    return []


def bind(f: FuncInfo, call: ast.Call, bound: bool):
    """param name -> argument expression (only what is syntactically evident)."""
    out = {}
    pos = f.positional
    if bound and not f.is_static:
        pos = pos[1:]
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            break
        if i < len(pos):
            out[pos[i]] = a
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


def parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out
