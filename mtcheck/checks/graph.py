"""Call-graph and import-graph rules: network opt-in, optional dependency, determinism."""
from __future__ import annotations

import ast
import os
import re
import sys

from ..project import AnalysisBroken, ClassInfo, External, FuncInfo, GlobalVar, Module, Project, dotted
from ..names import FN, ModBody, const_str, contexts, ext_name, kwarg, resolve, scope_locals, single_assign, txt, walk_own
from ..callgraph import bind, callees, parents
from ..report import Result
from .environment import must_fire, must_not_fire, sample_project

# --------------------------------------------------------------------------
# network only on opt-in
# --------------------------------------------------------------------------
NET_PREFIX = ("urllib.request.", "urllib3.", "requests.", "httpx.", "aiohttp.", "http.client.", "socket.", "ftplib.", "smtplib.", "xmlrpc.",
              "obspy.clients", "pyproj.network.", "pyproj.sync.", "webbrowser.", "paramiko.", "boto3.", "fsspec.")
NET_OK = {"urllib.request.Request", "socket.gethostname", "urllib.request.pathname2url", "urllib.request.url2pathname", "requests.exceptions", "socket.timeout"}
LOOKUPS = {"transfer_functions.io.tools.get_nm_elev"}   # the documented explicit lookup


def _net_refs(p, ctx):
    for n in walk_own(ctx.node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            d = ext_name(resolve(p, ctx, n))
            if d and d not in NET_OK and (d.startswith(NET_PREFIX)):
                yield n, d
        if isinstance(n, ast.Call):
            d = ext_name(resolve(p, ctx, n.func)) or ""
            if d.startswith("pandas.read_") and n.args and (const_str(n.args[0]) or "").startswith(("http:", "https:", "ftp:")):
                yield n, d + "(url)"


def _falsy_default(f, name):
    d = f.defaults().get(name) if isinstance(f, FuncInfo) else None
    return isinstance(d, ast.Constant) and not d.value


def _conjuncts(f, t, depth=0):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for v in t.values:
            yield from _conjuncts(f, v, depth)
    elif isinstance(t, ast.Name) and depth < 4 and t.id not in f.params:
        v = single_assign(f, t.id)
        if v is not None:
            yield from _conjuncts(f, v, depth + 1)
    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and len(t.args) == 1:
        yield from _conjuncts(f, t.args[0], depth)
    elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is True:
        yield from _conjuncts(f, t.left, depth)
    else:
        yield t


def _neg_params(f, t):
    """params certainly truthy when `t` is False (t = `not p`, or an Or containing it)."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return {c.id for c in _conjuncts(f, t.operand) if isinstance(c, ast.Name)}
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return set().union(*[_neg_params(f, v) for v in t.values])
    if isinstance(t, ast.Name) and t.id not in f.params:
        v = single_assign(f, t.id)
        return _neg_params(f, v) if v is not None else set()
    return set()


def guards(f, node, par):
    """Names of params of f known truthy at node (lexical dominance)."""
    out = set()
    cur = node
    while id(cur) in par:
        up = par[id(cur)]
        if isinstance(up, (ast.If, ast.IfExp, ast.While)):
            body = up.body if isinstance(up.body, list) else [up.body]
            orelse = up.orelse if isinstance(up.orelse, list) else [up.orelse]
            if any(cur is b for b in body):
                out |= {c.id for c in _conjuncts(f, up.test) if isinstance(c, ast.Name)}
            elif any(cur is b for b in orelse):
                out |= _neg_params(f, up.test)
        if isinstance(up, ast.BoolOp) and isinstance(up.op, ast.And):
            i = [k for k, v in enumerate(up.values) if v is cur]
            for v in up.values[: (i[0] if i else 0)]:
                out |= {c.id for c in _conjuncts(f, v) if isinstance(c, ast.Name)}
        for a in ("body", "orelse", "finalbody"):
            blk = getattr(up, a, None)
            if isinstance(blk, list) and any(cur is b for b in blk):
                for b in blk:
                    if b is cur:
                        break
                    if isinstance(b, ast.If) and b.body and isinstance(b.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and not b.orelse:
                        out |= _neg_params(f, b.test)
        cur = up
        if cur is f.node:
            break
    params = set(f.params)
    stored = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return {n for n in out if n in params and n not in stored}


def _network_rule(p, res):
    direct, par = {}, {}
    ctxs = list(contexts(p))
    gated = {}       # FuncInfo -> set of opt-in params (all network behind one of them)
    unguarded = {}   # ctx -> (node, why)
    calls = {}
    for c in ctxs:
        calls[c] = [n for n in walk_own(c.node) if isinstance(n, ast.Call)]
        refs = list(_net_refs(p, c))
        if refs:
            direct[c] = refs

    def pmap(c):
        if c not in par:
            par[c] = parents(c.node)
        return par[c]

    def optin(c, node):
        if not isinstance(c, FuncInfo):
            return set()
        return {g for g in guards(c, node, pmap(c)) if _falsy_default(c, g)}

    for c, refs in direct.items():
        for n, d in refs:
            res.count("network primitives referenced")
            g = optin(c, n)
            if g:
                gated.setdefault(c, set()).update(g)
            else:
                unguarded.setdefault(c, (n, d))
    resolved = {c: [(n, callees(p, c, n)) for n in calls[c]] for c in ctxs}
    callers = {}
    for c in ctxs:
        for n, cs in resolved[c]:
            for f, b in cs:
                callers.setdefault(f, set()).add(c)
    changed = True
    while changed:
        changed = False
        for c in ctxs:
            for n, cs in resolved[c]:
                for f, b in cs:
                    if f is c:
                        continue
                    if f in unguarded:
                        g = optin(c, n)
                        if g:
                            if not g <= gated.get(c, set()):
                                gated.setdefault(c, set()).update(g)
                                changed = True
                        elif c not in unguarded:
                            unguarded[c] = (n, f.short)
                            changed = True
                    if f in gated:
                        args = bind(f, n, b)
                        for q in gated[f]:
                            a = args.get(q)
                            if a is None or (isinstance(a, ast.Constant) and not a.value):
                                continue
                            names = [x.id for x in _conjuncts(c, a) if isinstance(x, ast.Name)] if isinstance(c, FuncInfo) else []
                            own = [x for x in names if x in c.params and _falsy_default(c, x)]
                            if own or (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("get", "pop") and isinstance(a.func.value, ast.Name) and isinstance(c, FuncInfo) and c.node.args.kwarg is not None and a.func.value.id == c.node.args.kwarg.arg and (len(a.args) == 1 or (isinstance(a.args[1], ast.Constant) and not a.args[1].value))):
                                if own and not set(own) <= gated.get(c, set()):
                                    gated.setdefault(c, set()).update(own)
                                    changed = True
                                continue
                            if optin(c, n):
                                continue
                            if c not in unguarded:
                                unguarded[c] = (n, f"{f.short}({q}={txt(a)})")
                                changed = True
    for c in ctxs:
        for n, cs in resolved[c]:
            if any(f in unguarded or f in gated for f, b in cs):
                res.count("obligations: call sites leading to the network")
                res.sample(f"{c.loc(n)} {c.short}: {txt(n)}")
    for c, (n, why) in unguarded.items():
        if c.short in LOOKUPS:
            res.count("explicit lookup functions")
            continue
        special = not isinstance(c, FuncInfo) or c.is_property or c.accessor or (c.name.startswith("__")) or any("validator" in d or "serializer" in d for d in c.deco_names)
        ups = [u for u in callers.get(c, ()) if u is not c]
        if not special and ups and all(u in unguarded or u in gated for u in ups):
            continue      # helper: judged at its callers
        res.add("network-without-opt-in", f"{c.short}", c.loc(n), f"{c.short} can reach the network ({why}) although the caller did not ask for it")


def check_network(p, tier):
    res = Result("C02", "every call path from a public entry point, property, validator or module body to a network primitive passes through a test of (or forwards) an opt-in parameter whose default is False; "
                 "only the documented elevation lookup itself is unconditional")
    _network_rule(p, res)
    must_fire(res, "network-without-opt-in", _network_rule, "import urllib.request as ur\ndef look(u):\n    return ur.urlopen(u)\ndef _h(self):\n    return look(1)\ndef read(fn, elev=True):\n    if elev:\n        return _h(fn)\nclass A:\n    @property\n    def e(self):\n        return look(2)\n", 2)
    must_not_fire(res, _network_rule, "import urllib.request as ur\ndef _look(u):\n    return ur.urlopen(u)\ndef _fill(u):\n    return _look(u)\ndef read(fn, e=0, elev=False, **kw):\n    go = elev and e == 0\n    if go:\n        return _fill(fn)\ndef rd(fn, elev=False):\n    if not elev:\n        return\n    read(fn, elev=elev)\ndef k(fn):\n    read(fn)\n")
    res.floors = {"network primitives referenced": 1, "obligations: call sites leading to the network": 8, "explicit lookup functions": 1}
    return res


# --------------------------------------------------------------------------
# optional dependency
# --------------------------------------------------------------------------
TRANSITIVE = {"dateutil", "pydantic_core", "annotated_types", "email_validator", "packaging", "typing_extensions", "pytz", "tzdata", "six", "certifi"}
NEEDS_OPTIONAL = ("mt_metadata.timeseries.stationxml", "mt_metadata.timeseries.filters.obspy_stages", "mt_metadata.timeseries.tools",
                  "mt_metadata.utils.converters")   # last one: developer script that runs a code formatter


def _required(p):
    if p.sources is not None:
        return {"numpy"}
    fn = os.path.join(p.root, "pyproject.toml")
    try:
        import tomllib
        with open(fn, "rb") as f:
            data = tomllib.load(f)
        deps = data["project"]["dependencies"]
    except Exception as e:
        raise AnalysisBroken(f"cannot read required dependencies from pyproject.toml: {e}")
    return {re.split(r"[\[<>=!~; ]", d.strip())[0].replace("-", "_").lower() for d in deps}


def _import_sites(m):
    """(node, guarded) for imports executed when module m is imported."""
    def walk(stmts, guarded):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                yield s, guarded
            elif isinstance(s, ast.If):
                t = dotted(s.test) or ""
                if t.split(".")[-1] == "TYPE_CHECKING":
                    yield from walk(s.orelse, guarded)
                else:
                    yield from walk(s.body, guarded)
                    yield from walk(s.orelse, guarded)
            elif isinstance(s, ast.Try):
                g = guarded
                for h in s.handlers:
                    names = [dotted(x) or "" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else [])]
                    catches = h.type is None or any(x.split(".")[-1] in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException") for x in names)
                    if catches and not any(isinstance(k, ast.Raise) for b in h.body for k in ast.walk(b)):
                        g = True
                yield from walk(s.body, g)
                for h in s.handlers:
                    yield from walk(h.body, guarded)
                yield from walk(s.orelse, g)
                yield from walk(s.finalbody, guarded)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                yield from walk(s.body, guarded)
            elif isinstance(s, ast.ClassDef):
                yield from walk(s.body, guarded)
    yield from walk(m.tree.body, False)


def _targets(p, m, node):
    """Project modules / external top-level names an import statement loads."""
    out = []
    if isinstance(node, ast.Import):
        for a in node.names:
            parts = a.name.split(".")
            if parts[0] == "mt_metadata":
                for i in range(1, len(parts) + 1):
                    out.append((".".join(parts[:i]), None))
            else:
                out.append((None, parts[0]))
    else:
        t = p._import_target(m, node)
        if t.split(".")[0] == "mt_metadata":
            parts = t.split(".")
            for i in range(1, len(parts) + 1):
                out.append((".".join(parts[:i]), None))
            for a in node.names:
                if f"{t}.{a.name}" in p.modules:
                    out.append((f"{t}.{a.name}", None))
        else:
            out.append((None, t.split(".")[0]))
    return out


def _optional_rule(p, res, allowed=NEEDS_OPTIONAL):
    req = _required(p) | TRANSITIVE
    std = set(sys.stdlib_module_names)
    hard = {}       # module -> reason
    edges = {}
    soft_names = {}  # module -> {local name}
    soft_modules = {}
    for m in p.modules.values():
        for node, guarded in _import_sites(m):
            res.count("obligations: import-time imports")
            for mod, ext in _targets(p, m, node):
                if ext is not None:
                    if ext in std or ext.lower() in req:
                        continue
                    if guarded:
                        for a in node.names:
                            soft_names.setdefault(m, {})[(a.asname or a.name).split(".")[0]] = ext
                    elif m.name not in hard:
                        hard[m.name] = (node, f"imports {ext}, which is not a required dependency")
                elif mod in p.modules and not guarded and not m.name.startswith(mod + ".") and mod != m.name:
                    edges.setdefault(m.name, []).append((mod, node))
                elif mod in p.modules and guarded:
                    for a in node.names:
                        soft_modules.setdefault(m, {})[a.asname or a.name] = mod
    # importing a.b.c first imports packages a and a.b
    for n in p.modules:
        parts = n.split(".")
        for i in range(1, len(parts)):
            pk = ".".join(parts[:i])
            if pk in p.modules:
                edges.setdefault(n, []).append((pk, None))
    changed = True
    while changed:
        changed = False
        for n, es in edges.items():
            if n in hard:
                continue
            for mod, node in es:
                if mod in hard:
                    hard[n] = (node, f"imports {mod}, which needs an optional dependency")
                    changed = True
                    break
    for n, (node, why) in sorted(hard.items()):
        if n.startswith(allowed):
            res.count("modules that need the optional dependency")
            continue
        m = p.modules[n]
        res.add("hard-optional-import", n, f"{m.rel}:{getattr(node, 'lineno', 1)}", f"importing {n} fails without the optional dependency: it {why}")
    # soft names: local project names that stand for optional stuff
    for m, d in soft_modules.items():
        for nm, mod in d.items():
            if mod in hard:
                soft_names.setdefault(m, {})[nm] = mod
    for m, names in soft_names.items():
        if m.name in hard:
            continue
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
        bound = set()
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    for k in ast.walk(h):
                        if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store):
                            bound.add(k.id)
        # import-time uses
        for expr, kind in _import_time_exprs(m, future):
            for k in ast.walk(expr):
                if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id in names:
                    if isinstance(k.ctx, ast.Load):
                        res.add("optional-at-import", f"{m.name}|{txt(k)}", f"{m.rel}:{k.lineno}", f"{m.name} evaluates {txt(k)} while being imported ({kind}); without the optional dependency that fails")
                elif isinstance(k, ast.Name) and k.id in names and k.id not in bound:
                    res.add("optional-at-import", f"{m.name}|{k.id}", f"{m.rel}:{k.lineno}", f"{m.name} uses {k.id} while being imported ({kind}) but the import fallback does not bind it")
        # run-time uses
        prot = {}
        fns = [f for f in p.functions if f.module is m]

        def decorated(f):
            out = set()
            decs = list(f.decorators)
            if f.cls is not None:
                decs += f.cls.node.decorator_list
            for d in decs:
                if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "requires":
                    out |= {k.id for kw in d.keywords for k in ast.walk(kw.value) if isinstance(k, ast.Name)}
            if f.parent is not None:
                out |= decorated(f.parent)
            return out
        uses = {}
        for f in fns:
            loc = scope_locals(f)
            u = {k.id for k in walk_own(f.node) if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Load) and k.id in names and k.id not in loc}
            # uses inside annotations / isinstance-guards against None count too, unless the function tests the name
            tested = {k.id for n in walk_own(f.node) if isinstance(n, (ast.If, ast.IfExp)) for k in ast.walk(n.test) if isinstance(k, ast.Name)}
            if u:
                for nm in u:
                    res.count("obligations: uses of an optional import")
                dec = decorated(f)
                src = {names[x] for x in dec if x in names} | dec
                missing = {x for x in u if x not in dec and names[x] not in {names.get(y) for y in dec} and not (names[x] in hard and any(True for y in dec)) and x not in tested}
                if missing:
                    uses[f] = missing
        # helpers called only from protected functions are fine
        callers = {}
        for f in fns:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    for g, b in callees(p, f, n):
                        callers.setdefault(g, set()).add(f)
        for f, missing in uses.items():
            ups = callers.get(f, set())
            if ups and all(decorated(u) for u in ups):
                continue
            for x in sorted(missing):
                res.add("optional-undeclared", f"{f.short}|{x}", f.loc(), f"{f.short} uses the optional import {x} without the requires guard, so a missing dependency is not reported as an ImportError")


def _import_time_exprs(m, future):
    def walk(stmts, in_fn):
        for s in stmts:
            if isinstance(s, FN):
                for d in s.decorator_list:
                    if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "requires":
                        for kw in d.keywords:
                            yield kw.value, "requires argument"
                    else:
                        yield d, "decorator"
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                    yield d, "default value"
                if not future:
                    for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                        if a.annotation is not None:
                            yield a.annotation, "annotation"
                    if s.returns is not None:
                        yield s.returns, "annotation"
            elif isinstance(s, ast.ClassDef):
                for d in s.decorator_list:
                    yield d, "decorator"
                for b in s.bases:
                    yield b, "base class"
                yield from walk(s.body, in_fn)
            elif isinstance(s, ast.AnnAssign):
                if not future:
                    yield s.annotation, "annotation"
                if s.value is not None:
                    yield s.value, "assignment"
            elif isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)):
                yield s.value, "statement"
            elif isinstance(s, ast.If):
                if (dotted(s.test) or "").split(".")[-1] != "TYPE_CHECKING" and not ("__name__" in ast.unparse(s.test)):
                    yield from walk(s.body, in_fn)
                yield from walk(s.orelse, in_fn)
            elif isinstance(s, ast.Try):
                # the guarded import block itself: body/else run only when the import worked
                imp = any(isinstance(k, (ast.Import, ast.ImportFrom)) for k in s.body)
                if not imp:
                    yield from walk(s.body, in_fn)
                    yield from walk(s.orelse, in_fn)
                for h in s.handlers:
                    yield from walk(h.body, in_fn)
                yield from walk(s.finalbody, in_fn)
    yield from walk(m.tree.body, False)


def check_optional(p, tier):
    res = Result("C03", "import-time import graph: only the StationXML bridge (and the obspy stage parser / multi-file tool) may need a dependency that pyproject.toml does not require; "
                 "elsewhere optional imports are guarded, never dereferenced at import time, and functions using them carry the requires guard")
    _optional_rule(p, res)
    must_fire(res, "hard-optional-import", _optional_rule, "import obspy\n", 1)
    must_fire(res, "optional-at-import", _optional_rule, "try:\n    from obspy.core import inventory\nexcept ImportError:\n    inventory = None\ndef f(x: inventory.Channel):\n    return x\n", 1)
    must_fire(res, "optional-undeclared", _optional_rule, "try:\n    from obspy.core import inventory\nexcept ImportError:\n    inventory = None\ndef f(x):\n    return inventory.Channel(x)\n", 1)
    must_not_fire(res, _optional_rule, "from __future__ import annotations\ntry:\n    from obspy.core import inventory\nexcept ImportError:\n    inventory = None\ndef requires(**k):\n    return lambda f: f\n"
                  "@requires(obspy=inventory)\ndef f(x: inventory.Channel):\n    return _g(x)\ndef _g(x):\n    return inventory.Channel(x)\ndef lazy():\n    import obspy\n    return obspy\n")
    res.floors = {"obligations: import-time imports": 900, "modules that need the optional dependency": 5, "obligations: uses of an optional import": 5}
    return res


# --------------------------------------------------------------------------
# determinism
# --------------------------------------------------------------------------
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
LIST_METHODS = {"glob", "rglob", "iterdir"}
INSENSITIVE = {"builtins.sorted", "builtins.len", "builtins.min", "builtins.max", "builtins.sum", "builtins.any", "builtins.all", "builtins.set", "builtins.frozenset", "builtins.isinstance",
               "builtins.bool", "numpy.unique", "numpy.sort", "builtins.type", "collections.Counter", "builtins.str", "builtins.repr", "builtins.print", "builtins.id"}
ORDERING = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.iter", "builtins.next", "builtins.zip", "builtins.map", "builtins.filter", "builtins.reversed", "builtins.dict",
            "numpy.array", "numpy.asarray", "numpy.fromiter", "pandas.Series", "pandas.DataFrame", "pandas.Index", "itertools.chain", "itertools.chain.from_iterable", "builtins.dict.fromkeys", "collections.deque", "collections.OrderedDict", "functools.reduce"}
NONDET = ("uuid.uuid1", "uuid.uuid4", "random.", "secrets.", "os.getpid", "os.urandom", "numpy.random.", "tempfile.mktemp")


class _Unordered:
    def __init__(self, p):
        self.p = p
        self.returns = {}     # FuncInfo -> "set"/"listing"
        ctxs = [f for f in p.functions]
        for _ in range(4):
            n0 = len(self.returns)
            for f in ctxs:
                if f in self.returns:
                    continue
                for n in walk_own(f.node, into_lambda=False):
                    if isinstance(n, ast.Return) and n.value is not None:
                        k = self.kind(f, n.value)
                        if k:
                            self.returns[f] = k
            if len(self.returns) == n0:
                break

    def kind(self, ctx, e, depth=0):
        p = self.p
        if e is None or depth > 8:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(e, ast.Name):
            if isinstance(ctx, FuncInfo) and e.id in scope_locals(ctx):
                if e.id in ctx.params:
                    d = ctx.param_node(e.id)
                    a = d.annotation if d is not None else None
                    if a is not None and (dotted(a.value if isinstance(a, ast.Subscript) else a) or "") in ("set", "frozenset", "Set", "typing.Set"):
                        return "set"
                for n in walk_own(ctx.node):
                    v = None
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        v = n.value
                    elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                        v = n.value
                    if v is not None and v is not e:
                        if isinstance(v, ast.Name) and v.id == e.id:
                            continue
                        k = self.kind(ctx, v, depth + 1)
                        if k:
                            # flow: a later re-assignment from sorted() wins only if single
                            return k
                return None
            g = p.lookup(ctx if isinstance(ctx, FuncInfo) else ctx.module, e.id) if not isinstance(ctx, ModBody) else p.resolve_name(ctx.module, e.id)
            if isinstance(g, GlobalVar) and g.value is not None and g.value is not e:
                return self.kind(ModBody(g.module), g.value, depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(ctx, FuncInfo) and ctx.cls is not None and isinstance(e.value, ast.Name) and ctx.positional and e.value.id == ctx.positional[0]:
                m = ctx.cls.find_method(e.attr)
                if m is not None and m.is_property:
                    return self.returns.get(m)
                ca = ctx.cls.find_class_attr(e.attr)
                if ca is not None:
                    return self.kind(ModBody(ca[0].module), ca[1], depth + 1)
                fi = ctx.cls.fields().get(e.attr)
                if fi is not None and (dotted(fi.annotation.value if isinstance(fi.annotation, ast.Subscript) else fi.annotation) or "") in ("set", "frozenset"):
                    return "set"
            return None
        if isinstance(e, ast.IfExp):
            return self.kind(ctx, e.body, depth + 1) or self.kind(ctx, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                k = self.kind(ctx, v, depth + 1)
                if k:
                    return k
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            for v in (e.left, e.right):
                if self.kind(ctx, v, depth + 1) == "set":
                    return "set"
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("keys", "items") and not v.args:
                    return "set"
            return None
        if isinstance(e, (ast.Starred, ast.NamedExpr)):
            return self.kind(ctx, e.value, depth + 1)
        if isinstance(e, ast.Call):
            ent = resolve(p, ctx, e.func)
            d = ext_name(ent)
            if d in ("builtins.set", "builtins.frozenset"):
                return "set" if e.args or e.keywords else "set"
            if d in ("glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk"):
                return "listing"
            if d in ("builtins.list", "builtins.tuple", "builtins.iter") and e.args:
                return "listing" if self.kind(ctx, e.args[0], depth + 1) else None
            if isinstance(ent, FuncInfo):
                return self.returns.get(ent)
            if isinstance(e.func, ast.Attribute):
                a = e.func.attr
                if a in SET_METHODS and (self.kind(ctx, e.func.value, depth + 1) == "set" or ext_name(resolve(p, ctx, e.func.value)) in ("builtins.set", "builtins.frozenset")):
                    return "set"
                if a == "copy" and self.kind(ctx, e.func.value, depth + 1) == "set":
                    return "set"
                if a in LIST_METHODS and d is None:
                    return "listing"
                if ent is None:
                    ms = p.methods_named(a)
                    if ms and all(m in self.returns for m in ms):
                        return self.returns[ms[0]]
        return None


def _order_free_body(stmts):
    vals = {}
    for s in stmts:
        for k in ast.walk(s):
            if isinstance(k, ast.Assign) and isinstance(k.value, ast.Constant):
                for t in k.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, set()).add(repr(k.value.value))
            if isinstance(k, ast.Return) and isinstance(k.value, ast.Constant):
                vals.setdefault("return", set()).add(repr(k.value.value))
    return all(len(v) == 1 for v in vals.values()) and _order_free(stmts)


def _order_free(stmts):
    for s in stmts:
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break, ast.Raise)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("add", "discard", "remove", "debug", "info", "warning", "error"):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If) and _order_free(s.body) and _order_free(s.orelse):
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd)) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets):
            continue
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Delete):
            continue
        return False
    return True


def _determinism_rule(p, res):
    U = _Unordered(p)
    for ctx in contexts(p):
        nodes = walk_own(ctx.node)
        par = None
        res.count("code contexts")
        for n in nodes:
            if isinstance(n, (ast.Set, ast.SetComp, ast.Call)) and U.kind(ctx, n):
                res.count("obligations: unordered expressions tracked")
                res.sample(f"{ctx.loc(n)} {ctx.short}: {txt(n)}")

        def flag(n, what, e):
            res.add("unordered", f"{ctx.short}|{what}|{txt(e, 40)}", ctx.loc(n), f"{ctx.short}: the order of {txt(e)} ({what}) depends on the hash seed or on the directory listing")

        def consumed_insensitively(n):
            """n (an ordering of an unordered value) only feeds order-free consumers."""
            nonlocal par
            if par is None:
                par = parents(ctx.node)
            up = par.get(id(n))
            if isinstance(up, ast.Starred):
                return consumed_insensitively(up)
            if isinstance(up, ast.Call) and any(n is a for a in up.args):
                d = ext_name(resolve(p, ctx, up.func))
                if d in INSENSITIVE:
                    return True
                if d in ("builtins.list", "builtins.tuple", "builtins.iter", "numpy.array", "numpy.asarray", "builtins.map", "builtins.filter"):
                    return consumed_insensitively(up)
                if isinstance(up.func, ast.Attribute) and up.func.attr in SET_METHODS | {"issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update", "symmetric_difference_update"}:
                    return True
                return False
            if isinstance(up, ast.Compare):
                return all(isinstance(o, (ast.In, ast.NotIn)) for o in up.ops) and n is not up.left
            if isinstance(up, (ast.FormattedValue,)):
                return True
            if isinstance(up, ast.Assign) and up.value is n and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name) and isinstance(ctx, FuncInfo):
                nm = up.targets[0].id
                loads = [k for k in nodes if isinstance(k, ast.Name) and k.id == nm and isinstance(k.ctx, ast.Load)]
                for k in loads:
                    u2 = par.get(id(k))
                    if isinstance(u2, ast.Attribute) and u2.attr == "sort":
                        return True
                return bool(loads) and all(consumed_insensitively(k) for k in loads)
            if isinstance(up, (ast.If, ast.While)) and up.test is n:
                return True
            return False

        for n in nodes:
            if isinstance(n, (ast.For, ast.AsyncFor)):
                k = U.kind(ctx, n.iter)
                if k:
                    res.count("order-sensitive consumers checked")
                    if not _order_free_body(n.body):
                        flag(n, f"iteration over a {k}", n.iter)
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    k = U.kind(ctx, g.iter)
                    if k:
                        res.count("order-sensitive consumers checked")
                        if not consumed_insensitively(n):
                            flag(n, f"comprehension over a {k}", g.iter)
            elif isinstance(n, ast.Call):
                d = ext_name(resolve(p, ctx, n.func))
                if d:
                    if d == "builtins.hash" and getattr(ctx, "name", "") != "__hash__":
                        res.add("unordered", f"{ctx.short}|hash()", ctx.loc(n), f"{ctx.short}: {txt(n)} differs from process to process")
                    if d.startswith(NONDET) or d in NONDET:
                        res.add("unordered", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short}: {txt(n)} gives a different value on each call")
                if d in ("os.walk",):
                    continue
                if d in ORDERING or (isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "fromkeys", "concat", "concatenate")):
                    for a in n.args:
                        k = U.kind(ctx, a.value if isinstance(a, ast.Starred) else a)
                        if k:
                            res.count("order-sensitive consumers checked")
                            if not consumed_insensitively(n):
                                flag(n, f"{txt(n.func, 20)}() of a {k}", a)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and U.kind(ctx, n.func.value) == "set":
                    res.count("order-sensitive consumers checked")
                    flag(n, "pop() from a set", n.func.value)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "update" and n.args and isinstance(n.args[0], ast.Set):
                    v = n.func.value
                    if U.kind(ctx, v) != "set":
                        flag(n, "update() with a set display", n.args[0])
                for a in n.args:
                    if isinstance(a, ast.Starred) and U.kind(ctx, a.value) and d not in INSENSITIVE and not (d in ORDERING):
                        flag(n, "unpacking", a.value)
            elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load):
                for e in n.elts:
                    if isinstance(e, ast.Starred) and U.kind(ctx, e.value) and not consumed_insensitively(n):
                        flag(n, "unpacking", e.value)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and U.kind(ctx, n.value):
                flag(n, "unpacking", n.value)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(ctx, FuncInfo) and not ctx.name.startswith("_"):
                srt = isinstance(n.value, ast.Name) and any(isinstance(k, ast.Attribute) and k.attr == "sort" and isinstance(k.value, ast.Name) and k.value.id == n.value.id for k in nodes)
                if U.kind(ctx, n.value) == "listing" and not isinstance(n.value, ast.Call) and not srt:
                    flag(n, "returned listing", n.value)
                elif isinstance(n.value, ast.Call) and U.kind(ctx, n.value) == "listing" and ext_name(resolve(p, ctx, n.value.func)) not in ORDERING:
                    flag(n, "returned listing", n.value)
            if isinstance(n, ast.Call):
                for kw in n.keywords:
                    if kw.arg == "key" and ext_name(resolve(p, ctx, kw.value)) in ("builtins.id", "builtins.hash"):
                        flag(n, "sort key", kw.value)


def check_determinism(p, tier):
    res = Result("C04", "values of set type and unsorted directory listings are tracked through locals, attributes and returns; each consumer that fixes an order "
                 "(iteration with ordered effects, list/tuple/join/unpacking/pop, public return of a listing) must be order-free or sorted; hash(), random and uuid values are not used")
    _determinism_rule(p, res)
    must_fire(res, "unordered", _determinism_rule, "import os\ndef _s(a):\n    return set(a)\ndef a(x):\n    return list(set(x))\ndef b(x):\n    out = []\n    for k in _s(x):\n        out.append(k)\n    return out\ndef c(p):\n    return [f for f in p.rglob('*')]\ndef d(x, y):\n    return ','.join(x.keys() - y.keys())\ndef e(p):\n    fs = os.listdir(p)\n    return fs\ndef g(x):\n    return hash(x)\n", 6)
    must_not_fire(res, _determinism_rule, "def a(x):\n    return sorted(list(set(x)))\ndef b(x):\n    s = set(x)\n    n = 0\n    for k in s:\n        n += 1\n    return n, 3 in s, max(s), sorted(k.lower() for k in s)\ndef c(p):\n    fs = list(p.glob('*'))\n    fs.sort()\n    return fs\ndef d(x):\n    return list(dict.fromkeys(x))\n")
    res.floors = {"code contexts": 900, "obligations: unordered expressions tracked": 5}
    return res


CHECKS = {"C02": check_network, "C03": check_optional, "C04": check_determinism}
