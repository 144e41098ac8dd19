"""Internal programming errors: names, locals, attributes, imports, call signatures, unpacking."""
from __future__ import annotations

import ast
import re

from .. import external
from ..project import ClassInfo, External, FuncInfo, GlobalVar, Module, Project, dotted
from ..names import BUILTINS, FN, ModBody, const_str, contexts, resolve, scope_locals, txt, walk_own
from ..callgraph import parents
from ..effects import Effects
from ..flow import Assigned
from ..report import Result
from .environment import must_fire, must_not_fire

MODEL_ATTRS = set("""construct copy dict from_orm json parse_file parse_obj parse_raw schema schema_json update_forward_refs validate""".split())
# attributes every builtin container, string, array, series, frame or element may have: too generic to blame on a typed object
GENERIC = set(dir(str)) | set(dir(dict)) | set(dir(list)) | set(dir(set)) | {"shape", "size", "dtype", "tag", "text", "attrib", "tail", "find", "findall", "iter", "tolist", "value", "values", "name", "mean"}
GENERIC -= {"copy", "update"}
PLAIN_BASES = {"abc.ABC", "builtins.object", "object"}


# --------------------------------------------------------------------------
# which attributes a class declares
# --------------------------------------------------------------------------
class Members:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def own(self, c):
        """(names, patterns, open) declared by class c itself."""
        k = id(c)
        if k in self.memo:
            return self.memo[k]
        names, pats, opened = set(c.methods) | set(c.setters) | set(c.own_fields) | set(c.class_attrs), [], False
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            opened = True
        for n in ast.walk(c.node):
            if isinstance(n, ast.ClassDef) and n is not c.node:
                names.add(n.name)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and (not c.is_model or n.attr.startswith("_")):
                names.add(n.attr)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
            elif isinstance(n, ast.Call) and len(n.args) >= 2:
                fn = dotted(n.func) or ""
                if fn in ("setattr", "object.__setattr__") and isinstance(n.args[0], ast.Name) and n.args[0].id in ("self", "cls") or fn == "super().__setattr__":
                    a = n.args[1]
                    if const_str(a):
                        names.add(a.value)
                    elif isinstance(a, ast.JoinedStr) and any(isinstance(v, ast.Constant) for v in a.values):
                        pats.append("".join(re.escape(v.value) if isinstance(v, ast.Constant) else r"\w+" for v in a.values))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and n.args and const_str(n.args[0]):
                names.add(n.args[0].value)
        # a flag set to True/False on self is declared by that
        for n in ast.walk(c.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                names |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        # setattr with the keys of a literal: for n in ("a", "b"): setattr(self, n, ...)
        for n in ast.walk(c.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
                if any(isinstance(k, ast.Call) and dotted(k.func) == "setattr" and len(k.args) > 1 and isinstance(k.args[1], ast.Name) and k.args[1].id == n.target.id for k in ast.walk(n)):
                    names |= {e.value for e in n.iter.elts if const_str(e)}
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__slots__":
                names |= {e.value for e in ast.walk(n.value) if const_str(e)}
        self.memo[k] = names, pats, opened
        return self.memo[k]

    def known(self, c):
        """Are all the members of class c visible in the source?"""
        for b in c.external_bases():
            d = b.dotted
            if d in PLAIN_BASES or d.split(".")[0] == "pydantic" or c.is_enum:
                continue
            return False
        return not any(self.own(k)[2] for k in c.project_mro())

    def declares(self, c, attr):
        if attr.startswith("__") and attr.endswith("__"):
            return True
        if not self.known(c):
            return True
        for k in c.project_mro():
            names, pats, _ = self.own(k)
            if attr in names or any(re.fullmatch(x, attr) for x in pats):
                return True
        if c.is_model and (attr in MODEL_ATTRS or attr.startswith("model_") or attr in ("_copy_and_set_values",)):
            return True
        if c.is_enum and (attr in ("name", "value", "_value_", "_name_") or attr in GENERIC):
            return True
        return False


# --------------------------------------------------------------------------
# rule 1: undefined names; rule 2: locals read before they are set
# --------------------------------------------------------------------------
def _module_names(p, m):
    names = set(m.classes) | set(m.functions) | set(m.imports) | set(m.globals)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            names |= set(n.names)
    for n in walk_own(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names |= {(a.asname or a.name).split(".")[0] for a in n.names}
    for s in m.star:
        if s in p.modules:
            names |= _module_names(p, p.modules[s])
        else:
            names.add("*")
    return names


def _undefined_rule(p, res):
    for m in p.modules.values():
        mn = _module_names(p, m)
        if "*" in mn:
            res.count("modules with an external star import (names not decided)")
            continue

        def scope(node, outer, f):
            """Names visible in node: outer scopes plus its own."""
            own = set(outer)
            for n in ast.walk(node):
                # generous: any name bound anywhere inside the function counts for it
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    own.add(n.id)
                elif isinstance(n, ast.arg):
                    own.add(n.arg)
                elif isinstance(n, FN + (ast.ClassDef,)):
                    own.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    own.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    own |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    own.add(n.name)
                elif isinstance(n, ast.MatchMapping) and n.rest:
                    own.add(n.rest)
            return own
        tops = [f for f in p.functions if f.module is m and f.parent is None]
        inside = set()
        for f in tops:
            vis = scope(f.node, mn, f)
            skip = {id(k) for a in _annotations(f.node) for k in ast.walk(a)}
            for n in ast.walk(f.node):
                inside.add(id(n))
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    res.count("obligations: names read")
                    if id(n) in skip and n.id not in vis | BUILTINS:
                        continue
                    if n.id not in vis and n.id not in BUILTINS:
                        res.add("undefined-name", f"{f.short}:{n.id}", f.loc(n), f"name '{n.id}' is not defined in {f.short} nor in its module: NameError when reached")
        ctx = ModBody(m)
        cls_names = {}
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                s = scope(c, set(), None)
                for n in ast.walk(c):
                    cls_names.setdefault(id(n), set()).update(s)
        lam = {}
        for l in ast.walk(m.tree):
            if isinstance(l, ast.Lambda) or isinstance(l, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                s = scope(l, set(), None)
                for n in ast.walk(l):
                    lam.setdefault(id(n), set()).update(s)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                res.count("obligations: names read")
                if n.id not in mn and n.id not in BUILTINS and n.id not in cls_names.get(id(n), ()) and n.id not in lam.get(id(n), ()):
                    res.add("undefined-name", f"{m.name}:{n.id}", ctx.loc(n), f"name '{n.id}' is not defined in module {m.name}: NameError on import")


def _annotations(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, FN):
            out += [a for a in [n.returns] + [x.annotation for x in ast.walk(n.args) if isinstance(x, ast.arg)] if a is not None]
        elif isinstance(n, ast.AnnAssign):
            out.append(n.annotation)
    return out


def _unbound_rule(p, res):
    for f in p.functions:
        a = Assigned(f)
        for u in a.run():
            res.add("unset-variable", f"{f.short}:{u.id}", f.loc(u), f"'{u.id}' is read in {f.short} on a path where it was never assigned: UnboundLocalError")
        res.count("obligations: local variable reads", a.uses)


# --------------------------------------------------------------------------
# rule 3: attributes; rule 4: imports and module attributes
# --------------------------------------------------------------------------
def _guarded(f, node, attr, cache):
    """Is the access protected by hasattr / isinstance on the same expression or by a handler for AttributeError?"""
    k = id(f.node)
    if k not in cache:
        par = parents(f.node)
        tests = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "isinstance", "type", "issubclass", "callable") and n.args:
                tests.setdefault(txt(n.args[0], 300), set()).add(const_str(n.args[1]) or "*" if n.func.id == "hasattr" and len(n.args) > 1 else "*")
        cache[k] = par, tests
    par, tests = cache[k]
    v = txt(node.value, 300)
    if v in tests and (tests[v] & {"*", attr}):
        return True
    if isinstance(node.value, ast.Attribute) or isinstance(node.value, ast.Subscript):
        root = node.value
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
            if txt(root, 300) in tests and isinstance(root, ast.Name) and root.id != "self":
                return True
    n = node
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, ast.Try) and n in up.body and any(_catches(h, ("AttributeError", "Exception", "BaseException")) for h in up.handlers):
            return True
        if isinstance(up, ast.With) and any("suppress" in txt(i.context_expr) for i in up.items):
            return True
        n = up
    return False


def _catches(h, names):
    if h.type is None:
        return True
    return any((dotted(t) or "").split(".")[-1] in names for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))


CTX_BOOL = (ast.If, ast.While, ast.IfExp, ast.Assert)


def _value_use(par, node):
    """Is the value itself (not a call of it) tested, compared, iterated or computed with?"""
    up = par.get(id(node))
    if isinstance(up, CTX_BOOL) and getattr(up, "test", None) is node:
        return True
    if isinstance(up, ast.UnaryOp) or isinstance(up, ast.BoolOp) or isinstance(up, ast.Compare) or isinstance(up, ast.BinOp) or isinstance(up, ast.FormattedValue):
        return not (isinstance(up, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in up.ops))
    if isinstance(up, (ast.For, ast.comprehension)) and up.iter is node:
        return True
    return isinstance(up, ast.Subscript) and up.value is node


def _attribute_rules(p, res, engine=None):
    mem = Members(p)
    subs = {}
    cache, pcache, inits = {}, {}, {}

    def family(c):
        if id(c) not in subs:
            subs[id(c)] = [c] + p.subclasses(c, strict=True)
        return subs[id(c)]

    def on(f, kind, node, b, attr, extra):
        if kind in ("load", "store"):
            if not b.ty or attr.startswith("__"):
                return
            if any(not mem.known(k) for c in b.ty for k in family(c)):
                return
            res.count("obligations: attribute accesses on known classes")
            if any(mem.declares(k, attr) for c in b.ty for k in family(c)):
                if kind == "load":
                    ms = [c.find_method(attr) for c in b.ty]
                    if all(m is not None for m in ms):
                        if id(f.node) not in pcache:
                            pcache[id(f.node)] = parents(f.node)
                        if extra is None and not any(m.is_property or "computed_field" in m.deco_names for m in ms) and isinstance(node.ctx, ast.Load) and _value_use(pcache[id(f.node)], node) \
                                and not any(_shadowed(c, attr) for c in b.ty) and not _guarded(f, node, attr, cache):
                            res.add("method-not-called", f"{f.short}:{attr}", f.loc(node), f"'{txt(node)}' is a method of {', '.join(sorted(c.name for c in b.ty))}, its value is used without calling it")
                        if extra is not None and all(m.is_property or any(d.split(".")[-1] == "computed_field" for d in m.deco_names) for m in ms) and not any(_returns_callable(m) for m in ms):
                            res.add("property-called", f"{f.short}:{attr}", f.loc(node), f"'{txt(node)}' is a property of {', '.join(sorted(c.name for c in b.ty))}, its result is not callable")
                return
            if kind == "load" and attr in GENERIC and not (isinstance(node.value, ast.Name) and node.value.id == "self"):
                return
            if _guarded(f, node, attr, cache):
                return
            names = ", ".join(sorted(c.name for c in b.ty))
            if kind == "load":
                res.add("undeclared-attribute", f"{f.short}:{_tail(node)}", f.loc(node), f"'{txt(node)}': {names} declares no attribute '{attr}': AttributeError when reached")
            elif any(c.is_model for c in b.ty) or not (isinstance(node.value, ast.Name) and node.value.id == "self"):
                res.add("undeclared-attribute", f"{f.short}:{_tail(node)}=", f.loc(node), f"'{txt(node)} = ...': {names} declares no attribute '{attr}', the value is stored where nothing reads it")
        elif kind == "new":
            c = next(iter(b.ty))
            _construct(p, res, f, node, c)
        elif kind == "call":
            _signature(res, f, node, attr, extra)
    eng = engine or Effects(p)
    eng.observe(on)
    res.counts["classes with declared members"] = len(p.classes)


def _tail(node):
    return f"{txt(node.value, 40)}.{node.attr}"


def _shadowed(c, attr):
    return attr in c.fields()


def _returns_callable(m):
    """A property may hand out a function; only plain data results are decided."""
    r = txt(m.node.returns) if m.node.returns is not None else ""
    if "Callable" in r or "type" in r.lower():
        return True
    return any(isinstance(n, ast.Return) and isinstance(n.value, (ast.Lambda, ast.Name, ast.Attribute)) and not m.node.returns for n in walk_own(m.node)) and \
        any(isinstance(n, FN + (ast.Lambda,)) for n in walk_own(m.node))


OPAQUE_DECOS = re.compile(r"(^|\.)(staticmethod|classmethod|property|requires|deprecated|computed_field|field_validator|model_validator|field_serializer|model_serializer|abstractmethod|override|overload|cached_property|lru_cache|cache|contextmanager|wraps|njit|jit|validate_call|typing_extensions\.\w+|\w+\.setter)$")


def _spread(call):
    return any(isinstance(a, ast.Starred) for a in call.args), any(k.arg is None for k in call.keywords)


def _reject(g, call, nbound):
    """Why a call does not fit the signature of g (None when it does)."""
    a = g.node.args
    if any(not OPAQUE_DECOS.search(d) for d in g.deco_names):
        return None
    star, dstar = _spread(call)
    pos = [x.arg for x in a.posonlyargs + a.args]
    given = pos[:nbound]
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if nbound + npos > len(pos) and a.vararg is None:
        return f"takes {len(pos) - nbound} positional argument(s) but {npos} are given"
    given += pos[nbound:nbound + npos]
    names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and a.kwarg is None:
            return f"has no parameter '{k.arg}'"
        if k.arg in given and k.arg in names:
            return f"gets two values for '{k.arg}'"
        given.append(k.arg)
    if not star and not dstar:
        need = pos[nbound:len(pos) - len(a.defaults)] if a.defaults else pos[nbound:]
        missing = [n for n in need if n not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        if missing:
            return f"needs '{missing[0]}'"
    return None


def _signature(res, f, call, name, cands):
    why = [_reject(g, call, nb) for g, nb in cands]
    res.count("obligations: calls of project functions with known signature")
    if all(why):
        res.add("call-signature", f"{f.short}:{txt(call.func, 60)}", f.loc(call), f"'{txt(call)}': {cands[0][0].short} {why[0]}: TypeError when reached")


def _construct(p, res, f, call, c):
    res.count("obligations: constructor calls")
    if c.is_enum:
        return
    init = c.find_method("__init__")
    new = c.find_method("__new__")
    if init is None and new is None:
        ext = [b for b in c.external_bases() if b.dotted not in PLAIN_BASES]
        if c.is_model:
            if any(not isinstance(a, ast.Starred) for a in call.args):
                res.add("call-signature", f"{f.short}:{txt(call.func, 60)}", f.loc(call), f"'{txt(call)}': {c.name} is built from keywords only, a positional argument is a TypeError")
        elif not ext and (call.args or any(k.arg for k in call.keywords)) and not any("dataclass" in (dotted(d.func if isinstance(d, ast.Call) else d) or "") for d in c.node.decorator_list):
            res.add("call-signature", f"{f.short}:{txt(call.func, 60)}", f.loc(call), f"'{txt(call)}': {c.name} takes no arguments")
        if not c.is_model:
            return
    if init is not None:
        why = _reject(init, call, 1)
        if why:
            res.add("call-signature", f"{f.short}:{txt(call.func, 60)}", f.loc(call), f"'{txt(call)}': {init.short} {why}: TypeError when reached")
    if c.is_model:
        fields = c.fields()
        aliases = {const_str(fi.kwargs.get("alias")) for fi in fields.values()} | {const_str(fi.kwargs.get("validation_alias")) for fi in fields.values()}
        for k in call.keywords:
            if k.arg and k.arg not in fields and k.arg not in aliases and not (init is not None and k.arg in init.params) and c.find_setter(k.arg) is None and not any(k.arg in s.fields() for s in p.subclasses(c, strict=True)) \
                    and not (c.find_method(k.arg) is not None and c.find_method("__setattr__") is not None and any(const_str(x) == k.arg for x in ast.walk(c.find_method("__setattr__").node))):
                res.add("unknown-field", f"{f.short}:{c.name}({k.arg}=)", f.loc(call), f"'{txt(call)}': {c.name} has no field '{k.arg}', the value is stored where nothing reads it")


BUILTIN_ARITY = {"hasattr": (2, 2), "getattr": (2, 3), "setattr": (3, 3), "delattr": (2, 2), "isinstance": (2, 2), "issubclass": (2, 2), "len": (1, 1), "callable": (1, 1), "id": (1, 1), "abs": (1, 1),
                 "any": (1, 1), "all": (1, 1), "repr": (1, 1), "hash": (1, 1), "ord": (1, 1), "chr": (1, 1), "divmod": (2, 2), "range": (1, 3), "enumerate": (1, 2), "sorted": (1, 1), "reversed": (1, 1),
                 "sum": (1, 2), "round": (1, 2), "filter": (2, 2), "next": (1, 2), "float": (0, 1), "bool": (0, 1), "str": (0, 3), "int": (0, 2), "list": (0, 1), "tuple": (0, 1), "set": (0, 1), "iter": (1, 2)}
# names numpy and the standard library no longer have in the supported versions
REMOVED = {"numpy." + n for n in ("NAN", "NaN", "Inf", "Infinity", "infty", "PINF", "NINF", "float_", "complex_", "int", "float", "object", "str", "unicode_", "string_", "product", "cumproduct", "sometrue", "alltrue", "in1d_", "asfarray", "round_", "cast", "source", "mat", "singlecomplex", "longfloat", "msort", "trapezoid_")} | \
    {"collections.Mapping", "collections.MutableMapping", "collections.Iterable", "time.clock", "inspect.getargspec", "datetime.datetime.utcnow_"}


def _call_rule(p, res):
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in BUILTIN_ARITY:
                e = resolve(p, ctx, n.func)
                if isinstance(e, External) and e.dotted == "builtins." + n.func.id and not any(_spread(n)):
                    res.count("obligations: builtin calls")
                    lo, hi = BUILTIN_ARITY[n.func.id]
                    k = len(n.args) + (len(n.keywords) if n.func.id not in ("sorted",) else 0)
                    if not lo <= k <= hi:
                        res.add("call-signature", f"{ctx.short}:{txt(n.func)}", ctx.loc(n), f"'{txt(n)}': {n.func.id} takes {lo}-{hi} arguments, {k} given: TypeError when reached")
            elif isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if isinstance(e, ast.Constant) or isinstance(e, ast.Name) and e.id == "NotImplemented":
                    res.add("raise-non-exception", f"{ctx.short}:{txt(n.exc)}", ctx.loc(n), f"'{txt(n)}' raises something that is no exception: TypeError when reached")


def _format_rule(p, res):
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and const_str(n.func.value) is not None:
                if any(_spread(n)):
                    continue
                import string
                try:
                    fields = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
                except ValueError:
                    continue
                res.count("obligations: format templates")
                auto, kw = 0, {k.arg for k in n.keywords}
                for fl in fields:
                    head = re.split(r"[.\[]", fl)[0]
                    i = auto if head == "" else int(head) if head.isdigit() else None
                    if head == "":
                        auto += 1
                    if i is not None and i >= len(n.args) or i is None and head not in kw:
                        res.add("format-arguments", f"{ctx.short}:{txt(n.func.value, 40)}", ctx.loc(n), f"template {txt(n.func.value, 60)} needs '{head or i}', which the call does not give")
                        break
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and const_str(n.left) is not None:
                t = re.findall(r"%(?:\((\w+)\))?[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z%])", n.left.value)
                need = [x for x in t if x[1] != "%"]
                if any(x[0] for x in need) or "*" in n.left.value:
                    continue
                res.count("obligations: format templates")
                if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
                    k = len(n.right.elts)
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr)):
                    k = 1
                else:
                    continue
                if k != len(need):
                    res.add("format-arguments", f"{ctx.short}:{txt(n.left, 40)}", ctx.loc(n), f"template {txt(n.left, 60)} takes {len(need)} values, {k} given")


def _unpack_rule(p, res):
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], (ast.Tuple, ast.List))):
                continue
            t = n.targets[0]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                continue
            e = resolve(p, ctx, n.value.func)
            if not isinstance(e, FuncInfo) or e.is_property:
                continue
            cands = [e] + ([c.methods[e.name] for c in p.subclasses(e.cls, strict=True) if e.name in c.methods and c.methods[e.name] is not e] if e.cls is not None and e.parent is None else [])
            res.count("obligations: unpacked results")
            bad = {}
            for g in cands:
                if any(isinstance(k, (ast.Yield, ast.YieldFrom)) for k in walk_own(g.node)):
                    continue
                for r in walk_own(g.node):
                    if isinstance(r, ast.Return):
                        if isinstance(r.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.value.elts) and len(r.value.elts) != len(t.elts):
                            bad[g] = f"returns {len(r.value.elts)} values at {g.loc(r)}"
                        elif r.value is None or isinstance(r.value, ast.Constant) and not isinstance(r.value.value, (str, bytes)):
                            bad[g] = f"returns {txt(r.value) if r.value is not None else 'None'} at {g.loc(r)}"
            if len(bad) == len(cands) or e in bad:
                g = next(iter(bad))
                res.add("unpack-count", f"{ctx.short}:{txt(n.value.func, 60)}", ctx.loc(n), f"'{txt(n)}' unpacks {len(t.elts)} values but {g.short} {bad[g]}")


def _import_rule(p, res):
    pk = "mt_metadata"
    for ctx in contexts(p):
        m = ctx.module
        par = None
        for n in walk_own(ctx.node):
            if isinstance(n, ast.ImportFrom):
                tgt = p._import_target(m, n)
                if tgt.split(".")[0] != pk and not any(tgt == k for k in p.modules):
                    if external.find(tgt) and not n.level:
                        if par is None:
                            par = parents(ctx.node)
                        for a in n.names:
                            res.count("obligations: imports from libraries")
                            if a.name != "*" and external.missing(f"{tgt}.{a.name}") and not _import_guarded(par, n):
                                res.add("missing-import", f"{ctx.short}:{tgt}.{a.name}", ctx.loc(n), f"module {tgt} defines no '{a.name}': ImportError")
                    continue
                if par is None:
                    par = parents(ctx.node)
                if _import_guarded(par, n):
                    continue
                for a in n.names:
                    if a.name == "*":
                        if tgt not in p.modules:
                            res.add("missing-import", f"{ctx.short}:{tgt}.*", ctx.loc(n), f"no module {tgt}")
                        continue
                    res.count("obligations: imports from the package itself")
                    if tgt not in p.modules:
                        res.add("missing-import", f"{ctx.short}:{tgt}.{a.name}", ctx.loc(n), f"no module {tgt}: ImportError")
                    elif p.resolve_import(("from", tgt, a.name)) is None and a.name not in _module_names(p, p.modules[tgt]) and "*" not in _module_names(p, p.modules[tgt]):
                        res.add("missing-import", f"{ctx.short}:{tgt}.{a.name}", ctx.loc(n), f"module {tgt} defines no '{a.name}': ImportError")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == pk:
                        res.count("obligations: imports from the package itself")
                        if a.name not in p.modules:
                            res.add("missing-import", f"{ctx.short}:{a.name}", ctx.loc(n), f"no module {a.name}: ImportError")
                    elif a.name in REMOVED:
                        if par is None:
                            par = parents(ctx.node)
                        if not _import_guarded(par, n):
                            res.add("missing-import", f"{ctx.short}:{a.name}", ctx.loc(n), f"{a.name} no longer exists: ImportError")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                b = resolve(p, ctx, n.value)
                if isinstance(b, Module):
                    res.count("obligations: attributes of the package's modules")
                    mn = _module_names(p, b)
                    if p.member(b, n.attr) is None and n.attr not in mn and "*" not in mn and not n.attr.startswith("__") and f"{b.name}.{n.attr}" not in p.modules:
                        res.add("missing-import", f"{ctx.short}:{txt(n)}", ctx.loc(n), f"module {b.name} defines no '{n.attr}': AttributeError when reached")
                elif isinstance(b, External):
                    if external.find(b.dotted):
                        res.count("obligations: attributes of library modules")
                    if f"{b.dotted}.{n.attr}" in REMOVED or external.missing(f"{b.dotted}.{n.attr}") and not _guarded(ctx, n, n.attr, {}):
                        res.add("missing-import", f"{ctx.short}:{txt(n)}", ctx.loc(n), f"{b.dotted}.{n.attr} no longer exists: AttributeError when reached")
                elif isinstance(b, ClassInfo):
                    mem = _members(p)
                    if mem.known(b) and not mem.declares(b, n.attr) and n.attr not in ("mro",) and not (b.is_enum and n.attr in ("__members__", "_missing_", "_value2member_map_", "_member_map_", "_member_names_")):
                        res.count("obligations: class attributes")
                        if not (ctx.cls is None and isinstance(ctx, ModBody)):
                            res.add("undeclared-attribute", f"{ctx.short}:{txt(n)}", ctx.loc(n), f"class {b.name} declares no '{n.attr}': AttributeError when reached")
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Assign) and isinstance(ctx, ModBody) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
                mn = _module_names(p, m)
                for e in n.value.elts:
                    if const_str(e):
                        res.count("obligations: exported names")
                        if e.value not in mn and f"{m.name}.{e.value}" not in p.modules:
                            res.add("missing-import", f"{m.name}:__all__:{e.value}", ctx.loc(e), f"__all__ of {m.name} lists '{e.value}', which it does not define: AttributeError on 'from {m.name} import *'")


_mem = {}


def _members(p):
    if id(p) not in _mem:
        _mem.clear()
        _mem[id(p)] = Members(p)
    return _mem[id(p)]


def _import_guarded(par, n):
    k = n
    while id(k) in par:
        up = par[id(k)]
        if isinstance(up, ast.Try) and k in up.body and any(_catches(h, ("ImportError", "ModuleNotFoundError", "Exception")) for h in up.handlers):
            return True
        if isinstance(up, ast.If) and "TYPE_CHECKING" in txt(up.test):
            return True
        k = up
    return False


BAD = '''
from mt_metadata.nowhere import thing
import numpy as np
from pydantic import BaseModel
class A(BaseModel):
    x: int = 0
    def m(self):
        return self.y
    def flag(self):
        return True
    def use(self):
        if self.flag:
            return helper(1)
        self.zzz = 4
        return self.flag(1)
def helper(a, b):
    if a:
        v = 1
    return v
def other():
    q = A(3)
    k, l = pair()
    for i in range(a_name):
        pass
    hasattr(q)
    A(w=4)
    return np.NaN, "{} {}".format(1), "%s" % (1, 2)
def pair():
    return 1, 2, 3
'''
GOOD = '''
import numpy as np
from pydantic import BaseModel
class A(BaseModel):
    x: int = 0
    _c: dict = {}
    def m(self):
        return self.x
    def flag(self):
        return True
    def use(self, other: "A", z=None):
        if self.flag() and z is not None:
            v = 1
        for k in ("a", "b"):
            w = k
        if z is not None and self.flag():
            pass
        try:
            r = self.maybe
        except AttributeError:
            r = None
        return helper(1, b=w), r, other.x
def helper(a, b):
    if a:
        v = 1
    else:
        raise ValueError("no")
    return v
def use(a):
    flag = a is None
    if not flag:
        t = 1
    elif flag:
        t = 2
    x, y = pair()
    return t, "{} {}".format(1, 2), "%s %s" % (1, 2), np.nan, A(x=1), x, y
def pair():
    return 1, 2
'''


def _all(p, res):
    _undefined_rule(p, res)
    _unbound_rule(p, res)
    _attribute_rules(p, res)
    _call_rule(p, res)
    _format_rule(p, res)
    _unpack_rule(p, res)
    _import_rule(p, res)


def c16(p, tier):
    res = Result("C16", "every name, local, attribute, import, call signature, format template and unpacking in the package resolves to something that exists and fits")
    _all(p, res)
    for rule, n in (("undefined-name", 1), ("unset-variable", 1), ("undeclared-attribute", 2), ("method-not-called", 1), ("call-signature", 4), ("unknown-field", 1), ("format-arguments", 2), ("unpack-count", 1), ("missing-import", 2)):
        must_fire(res, rule, _all, BAD, n)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: names read": 20000, "obligations: local variable reads": 12000, "obligations: attribute accesses on known classes": 2500,
                  "obligations: calls of project functions with known signature": 700, "obligations: constructor calls": 300, "obligations: imports from the package itself": 600}
    res.assumptions = ["attribute accesses are decided where the class of the object follows from annotations, constructor calls and declared fields; accesses on values of unknown class are not counted",
                       "repeated tests of the same unchanged expression give the same answer"]
    return res


CHECKS = {"C16": c16}
