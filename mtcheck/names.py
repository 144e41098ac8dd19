"""Scope-aware name resolution and per-function node walks."""
from __future__ import annotations

import ast
import builtins

from .project import (ClassInfo, External, FuncInfo, GlobalVar, Module, Project, dotted)

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__class__", "__annotations__", "__builtins__"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def walk_own(node, into_lambda=True):
    """Nodes executed as part of `node` itself.

    Nested function bodies are skipped (their decorators, defaults and
    annotations are kept); lambda bodies are kept unless into_lambda=False.
    """
    whole = isinstance(node, FN + (ast.Module,))
    if whole:
        hit = _walks.get((id(node), into_lambda))
        if hit is not None and hit[0] is node:
            return list(hit[1])
    stack = list(node.body) if whole else [node]
    out = []
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, FN):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda) and not into_lambda:
            stack.extend(n.args.defaults)
            continue
        stack.extend(ast.iter_child_nodes(n))
    if whole:
        _walks[(id(node), into_lambda)] = (node, list(out))
    return out


_walks = {}
_cache = {}
_single = {}


def scope_locals(f):
    """Names bound in the function scope (not comprehension targets)."""
    k = id(f.node)
    if k in _cache and _cache[k][0] is f.node:
        return _cache[k][1]
    names = set(f.params) if isinstance(f, FuncInfo) else set()
    glob = set()
    comp_targets = set()
    nodes = walk_own(f.node)
    for n in nodes:
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        comp_targets.add(id(t))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp_targets:
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, FN + (ast.ClassDef,)) and n is not f.node:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
    names -= glob
    _cache[k] = (f.node, names)
    return names


class ModBody:
    """A module's top-level code (class bodies included), as a context."""

    def __init__(self, m):
        self.module = m
        self.node = m.tree
        self.cls = None
        self.parent = None
        self.qual = m.name + ".<module>"
        self.short = self.qual.split("mt_metadata.", 1)[-1]
        self.name = "<module>"
        self.params = []
        self.nested = {}
        self.local_imports = {}

    def loc(self, node=None):
        return f"{self.module.rel}:{getattr(node, 'lineno', 1)}"


def contexts(p: Project):
    """Every code context: functions (nested too) and module bodies."""
    for m in p.modules.values():
        yield ModBody(m)
    yield from p.functions


def single_assign(f, name):
    """The unique expression assigned to local `name`, or None."""
    k = (id(f.node), name)
    hit = _single.get(k)
    if hit is None or hit[0] is not f.node:
        hit = _single[k] = (f.node, _single_assign(f, name))
    return hit[1]


def _single_assign(f, name):
    found = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    found.append(n.value)
                elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                    return None
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
            if n.value is not None:
                found.append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.For)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            return None
        elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
            return None
    return found[0] if len(found) == 1 else None


def resolve(p: Project, f, expr, depth=0):
    """Entity denoted by expr in context f, following one-shot local aliases."""
    if depth > 6:
        return None
    if isinstance(expr, ast.Name):
        g = f
        while g is not None and isinstance(g, FuncInfo):
            if expr.id in scope_locals(g):
                if expr.id in g.nested:
                    return g.nested[expr.id]
                if expr.id in g.local_imports:
                    return p.resolve_import(g.local_imports[expr.id])
                if expr.id in g.params:
                    return None
                v = single_assign(g, expr.id)
                if v is not None and isinstance(v, (ast.Name, ast.Attribute)):
                    return resolve(p, g, v, depth + 1)
                return None
            g = g.parent
        e = p.resolve_name(f.module, expr.id)
        if e is not None:
            if isinstance(e, GlobalVar) and isinstance(e.value, (ast.Name, ast.Attribute)):
                r = resolve(p, ModBody(e.module), e.value, depth + 1)
                return r if r is not None else e
            return e
        if expr.id in BUILTINS:
            return External("builtins." + expr.id)
        return None
    if isinstance(expr, ast.Attribute):
        base = resolve(p, f, expr.value, depth + 1)
        if isinstance(base, External):
            return External(f"{base.dotted}.{expr.attr}")
        if isinstance(base, (Module, ClassInfo)):
            return p.member(base, expr.attr)
        if base is None and isinstance(expr.value, ast.Name) and isinstance(f, FuncInfo) and f.cls is not None:
            pos = f.positional
            if pos and expr.value.id == pos[0] and not f.is_static and f.parent is None:
                return f.cls.find_method(expr.attr)
        return None
    if isinstance(expr, ast.Call):
        # __import__("x") / importlib.import_module("x") with a constant
        fn = resolve(p, f, expr.func, depth + 1)
        if isinstance(fn, External) and fn.dotted in ("importlib.import_module", "builtins.__import__") and expr.args and isinstance(expr.args[0], ast.Constant):
            return External(str(expr.args[0].value))
        if isinstance(fn, External) and fn.dotted == "builtins.getattr" and len(expr.args) >= 2 and isinstance(expr.args[1], ast.Constant):
            base = resolve(p, f, expr.args[0], depth + 1)
            if isinstance(base, External):
                return External(f"{base.dotted}.{expr.args[1].value}")
    return None


def ext_name(e):
    return e.dotted if isinstance(e, External) else None


def const_str(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def kwarg(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def txt(node, n=70):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."
