"""Whole-program model of the mt_metadata package, built from source text only.

Provides modules, import resolution (through re-exports), classes with C3 MRO,
the pydantic field model, functions (including nested ones), and name lookup.
Nothing is imported or executed.
"""
from __future__ import annotations

import ast
import os
import hashlib
from dataclasses import dataclass, field
from typing import Optional, Union

from .normalize import normalize

REPO = os.environ.get("MTCHECK_REPO", "/repo")
PKG = "mt_metadata"


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (vanished anchor, parse error...)."""


@dataclass(eq=False)
class External:
    dotted: str

    def __repr__(self):
        return f"<ext {self.dotted}>"

    def __eq__(self, o):
        return isinstance(o, External) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


@dataclass(eq=False)
class GlobalVar:
    module: "Module"
    name: str
    node: ast.AST  # defining statement
    value: Optional[ast.expr]

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<global {self.qual}>"


@dataclass(eq=False)
class FieldInfo:
    name: str
    cls: "ClassInfo"
    node: ast.AnnAssign
    annotation: ast.expr          # the T of Annotated[T, ...] or the annotation
    default: Optional[ast.expr]
    default_factory: Optional[ast.expr]
    kwargs: dict                  # Field(...) keyword -> expr
    is_private: bool
    is_field_call: bool
    is_classvar: bool = False

    @property
    def line(self):
        return self.node.lineno


@dataclass(eq=False)
class FuncInfo:
    name: str
    qual: str
    module: "Module"
    cls: Optional["ClassInfo"]
    node: Union[ast.FunctionDef, ast.Lambda]
    parent: Optional["FuncInfo"] = None
    decorators: list = field(default_factory=list)
    local_imports: dict = field(default_factory=dict)
    nested: dict = field(default_factory=dict)
    accessor: str = ""            # "", "getter", "setter", "deleter"

    @property
    def line(self):
        return self.node.lineno

    @property
    def params(self):
        a = self.node.args
        out = [p.arg for p in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [p.arg for p in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def positional(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def param_node(self, name):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            if p.arg == name:
                return p
        return None

    def defaults(self):
        """param name -> default expr"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def deco_names(self):
        out = []
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            out.append(dotted(t) or "")
        return out

    @property
    def is_static(self):
        return "staticmethod" in self.deco_names

    @property
    def is_classmethod(self):
        return "classmethod" in self.deco_names

    @property
    def is_property(self):
        return self.accessor == "getter"

    @property
    def short(self):
        return self.qual[len(PKG) + 1:] if self.qual.startswith(PKG + ".") else self.qual

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', self.node.lineno)}"

    def __repr__(self):
        return f"<fn {self.qual}>"


@dataclass(eq=False)
class ClassInfo:
    name: str
    qual: str
    module: "Module"
    node: ast.ClassDef
    bases: list = field(default_factory=list)       # entities
    methods: dict = field(default_factory=dict)     # name -> FuncInfo (last non-accessor or getter)
    setters: dict = field(default_factory=dict)
    own_fields: dict = field(default_factory=dict)  # name -> FieldInfo
    class_attrs: dict = field(default_factory=dict)  # plain class-level Assign name -> expr
    _mro: Optional[list] = None

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def project_mro(self):
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def external_bases(self):
        return [c for c in self.mro() if isinstance(c, External)]

    def is_subclass_of(self, name_or_cls):
        for c in self.mro():
            if c is name_or_cls:
                return True
            if isinstance(c, ClassInfo) and isinstance(name_or_cls, str) and (c.qual == name_or_cls or c.name == name_or_cls):
                return True
            if isinstance(c, External) and isinstance(name_or_cls, str) and (c.dotted == name_or_cls):
                return True
        return False

    def find_method(self, name):
        for c in self.project_mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.project_mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def fields(self):
        out = {}
        for c in reversed(self.project_mro()):
            for n, f in c.own_fields.items():
                out[n] = f
        return out

    def find_class_attr(self, name):
        for c in self.project_mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    @property
    def is_model(self):
        return any(isinstance(c, External) and c.dotted.split(".")[0] == "pydantic" for c in self.mro())

    @property
    def is_enum(self):
        return any(isinstance(c, External) and c.dotted.split(".")[-1] in ("Enum", "StrEnum", "IntEnum") for c in self.mro())

    @property
    def short(self):
        return self.qual[len(PKG) + 1:]

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{n.lineno}"

    def __repr__(self):
        return f"<class {self.qual}>"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    rel: str
    is_pkg: bool
    src: str
    tree: ast.Module
    imports: dict = field(default_factory=dict)   # local -> ("mod", dotted) | ("from", dotted, attr)
    star: list = field(default_factory=list)
    classes: dict = field(default_factory=dict)
    functions: dict = field(default_factory=dict)
    globals: dict = field(default_factory=dict)

    def __repr__(self):
        return f"<module {self.name}>"


def dotted(node) -> Optional[str]:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


def _c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    base_mros = []
    for b in cls.bases:
        base_mros.append(b.mro() if isinstance(b, ClassInfo) else [b])
    return [cls] + merge(base_mros + [list(cls.bases)])


class Project:
    def __init__(self, root=None, sources=None, keep=None):
        """root: directory holding the package; sources: {rel path: text} for
        the built-in self-test samples (same pipeline, in memory).
        keep: see normalize(), or "raw" to analyse the code as written."""
        self.root = root or REPO
        self.keep = keep
        self.sources = sources
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.functions: list[FuncInfo] = []
        self.consulted: set[str] = set()
        self._load()
        self._methods_by_name = {}
        for f in self.functions:
            if f.cls is not None and f.parent is None:
                self._methods_by_name.setdefault(f.name, []).append(f)

    # -- loading ---------------------------------------------------------
    def _files(self):
        if self.sources is not None:
            yield from sorted(self.sources.items())
            return
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    with open(p, "r", encoding="utf-8") as fid:
                        yield os.path.relpath(p, self.root), fid.read()

    def _load(self):
        for rel, src in self._files():
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            try:
                tree = ast.parse(src, filename=rel)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}")
            m = Module(".".join(parts), os.path.join(self.root, rel), rel, is_pkg, src, tree)
            self.modules[m.name] = m
        if self.keep != "raw":          # "raw": the code exactly as written
            normalize([m.tree for m in self.modules.values()], keep=self.keep)
        for m in self.modules.values():
            self._index_module(m)
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                e = self.resolve_expr(c.module, b)
                c.bases.append(e if e is not None else External(dotted(b) or "?"))

    def _import_target(self, m, node):
        if node.level:
            base = m.name.split(".")
            if not m.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (node.level - 1)]
            return ".".join(base + ([node.module] if node.module else []))
        return node.module or ""

    def _record_import(self, m, node, table, star):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            tgt = self._import_target(m, node)
            for a in node.names:
                if a.name == "*":
                    star.append(tgt)
                else:
                    table[a.asname or a.name] = ("from", tgt, a.name)

    def _index_module(self, m):
        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self._record_import(m, s, m.imports, m.star)
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s, m.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._index_func(m, s, m.name, None, None)
                    m.functions[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                if n.id not in m.imports:
                                    m.globals[n.id] = GlobalVar(m, n.id, s, s.value if isinstance(t, ast.Name) else None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.globals[s.target.id] = GlobalVar(m, s.target.id, s, s.value)
                elif isinstance(s, ast.If):
                    top(s.body)
                    top(s.orelse)
                elif isinstance(s, ast.Try):
                    top(s.body)
                    for h in s.handlers:
                        top(h.body)
                    top(s.orelse)
                    top(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    top(s.body)
        top(m.tree.body)

    def _index_class(self, m, node, prefix):
        c = ClassInfo(node.name, f"{prefix}.{node.name}", m, node)
        m.classes.setdefault(node.name, c)
        self.classes[c.qual] = c

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._index_func(m, s, c.qual, c, None)
                    if f.accessor == "setter":
                        c.setters[s.name] = f
                    elif f.accessor == "deleter":
                        pass
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.own_fields[s.target.id] = self._field(c, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = s.value
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s, c.qual)
                elif isinstance(s, (ast.If, ast.Try)):
                    body(s.body)
        body(node.body)
        return c

    def _field(self, c, s):
        ann = s.annotation
        call = None
        T = ann
        if isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] == "Annotated":
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            T = elts[0]
            for e in elts[1:]:
                if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in ("Field", "PrivateAttr"):
                    call = e
        default = s.value
        if isinstance(s.value, ast.Call) and (dotted(s.value.func) or "").split(".")[-1] in ("Field", "PrivateAttr"):
            call = s.value
            default = None
        kwargs = {}
        dfac = None
        if call is not None:
            kwargs = {k.arg: k.value for k in call.keywords if k.arg}
            if call.args:
                default = call.args[0]
            if "default" in kwargs:
                default = kwargs["default"]
            dfac = kwargs.get("default_factory")
        is_cv = isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] == "ClassVar"
        return FieldInfo(s.target.id, c, s, T, default, dfac, kwargs, s.target.id.startswith("_"), call is not None, is_cv)

    def _index_func(self, m, node, prefix, cls, parent):
        f = FuncInfo(node.name, f"{prefix}.{node.name}", m, cls, node, parent, list(node.decorator_list))
        for d in f.deco_names:
            if d in ("property", "cached_property", "functools.cached_property", "computed_field") or d.endswith(".getter"):
                f.accessor = f.accessor or ("getter" if d != "computed_field" else "")
            elif d.endswith(".setter"):
                f.accessor = "setter"
            elif d.endswith(".deleter"):
                f.accessor = "deleter"
        self.functions.append(f)
        self._scan_nested(f, node.body)
        return f

    def _scan_nested(self, f, stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = self._index_func(f.module, s, f.qual + ".<locals>", f.cls, f)
                f.nested[s.name] = g
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self._record_import(f.module, s, f.local_imports, [])
            elif isinstance(s, ast.ClassDef):
                pass
            else:
                for sub in ("body", "orelse", "finalbody"):
                    v = getattr(s, sub, None)
                    if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                        self._scan_nested(f, v)
                for h in getattr(s, "handlers", []) or []:
                    self._scan_nested(f, h.body)
                for cse in getattr(s, "cases", []) or []:
                    self._scan_nested(f, cse.body)

    # -- resolution --------------------------------------------------------
    def resolve_import(self, imp, seen=None):
        if imp[0] == "mod":
            if imp[1] in self.modules:
                return self.modules[imp[1]]
            return External(imp[1])
        _, mod, attr = imp
        if mod in self.modules:
            r = self.resolve_name(self.modules[mod], attr, seen)
            if r is not None:
                return r
            if f"{mod}.{attr}" in self.modules:
                return self.modules[f"{mod}.{attr}"]
            return None if mod.split(".")[0] == PKG else External(f"{mod}.{attr}")
        return External(f"{mod}.{attr}")

    def resolve_name(self, m, name, seen=None):
        """Entity bound to `name` at the top level of module m, or None."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes and m.classes[name].qual == f"{m.name}.{name}":
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            r = self.resolve_import(m.imports[name], seen)
            if r is not None:
                return r
        if name in m.globals:
            return m.globals[name]
        for s in m.star:
            if s in self.modules:
                r = self.resolve_name(self.modules[s], name, seen)
                if r is not None:
                    return r
        if m.is_pkg and f"{m.name}.{name}" in self.modules:
            return self.modules[f"{m.name}.{name}"]
        return None

    def lookup(self, ctx, name):
        """Resolve a bare name in a function (or module) context, ignoring locals."""
        if isinstance(ctx, FuncInfo):
            f = ctx
            while f is not None:
                if name in f.nested:
                    return f.nested[name]
                if name in f.local_imports:
                    return self.resolve_import(f.local_imports[name])
                f = f.parent
            m = ctx.module
        elif isinstance(ctx, ClassInfo):
            m = ctx.module
        else:
            m = ctx
        return self.resolve_name(m, name)

    def resolve_expr(self, ctx, expr):
        """Resolve Name / dotted attribute to an entity (module, class, func, global, external)."""
        if isinstance(expr, ast.Name):
            return self.lookup(ctx, expr.id)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(ctx, expr.value)
            return self.member(base, expr.attr)
        return None

    def member(self, base, attr):
        if isinstance(base, Module):
            return self.resolve_name(base, attr)
        if isinstance(base, External):
            return External(f"{base.dotted}.{attr}")
        if isinstance(base, ClassInfo):
            m = base.find_method(attr)
            if m is not None:
                return m
            return None
        return None

    # -- helpers ---------------------------------------------------------
    def cls(self, short):
        q = f"{PKG}.{short}"
        if q in self.classes:
            return self.classes[q]
        hits = [c for c in self.classes.values() if c.name == short or c.qual.endswith("." + short)]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisBroken(f"anchor class {short} not found ({len(hits)} matches)")

    def func(self, short):
        q = f"{PKG}.{short}"
        hits = [f for f in self.functions if f.qual == q and f.accessor != "setter"]
        if len(hits) >= 1:
            return hits[-1]
        raise AnalysisBroken(f"anchor function {short} not found")

    def methods_named(self, name):
        return self._methods_by_name.get(name, [])

    def subclasses(self, cls, strict=False):
        return [c for c in self.classes.values() if c.is_subclass_of(cls) and (not strict or c is not cls)]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()
