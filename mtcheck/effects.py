"""Side-effect analysis.

A flow-sensitive abstract interpretation of every function with interprocedural
summaries.  A value carries the roots it may alias (``sh``: the object itself;
``dp``: anything reachable from it).  Roots are parameters, mutable defaults,
module-level mutables and class-level mutables; each with depth 0 (the very
object) or 1 (something inside it).  A summary lists which roots a function may
mutate, what it returns and which roots it hands out or stores.
"""
from __future__ import annotations

import ast
import re
from dataclasses import dataclass, field
from typing import Optional

from .project import ClassInfo, External, FieldInfo, FuncInfo, GlobalVar, Module, Project, dotted
from .names import FN, ModBody, const_str, contexts, ext_name, kwarg, resolve, scope_locals, txt, walk_own
from .callgraph import COMMON, bind

E = frozenset()


@dataclass(frozen=True)
class Val:
    sh: frozenset = E
    dp: frozenset = E
    ty: frozenset = E          # ClassInfo candidates
    el: frozenset = E          # element ClassInfo candidates (containers)

    def join(self, o):
        if o is self:
            return self
        return Val(self.sh | o.sh, self.dp | o.dp, self.ty | o.ty, self.el | o.el)

    @property
    def all(self):
        return self.sh | self.dp


FRESH = Val()

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse",
            "fill", "put", "resize", "move_to_end", "appendleft", "popleft", "partition_inplace", "itemset", "setflags", "__setitem__", "__delitem__", "__setattr__", "intersection_update", "difference_update", "symmetric_difference_update", "subtract"}
ALIAS_METHODS = {"reshape", "ravel", "squeeze", "view", "transpose", "swapaxes", "get", "setdefault", "pop", "popitem", "__getitem__", "find", "findall", "getroot", "iter"}
DEEP_ITER_METHODS = {"items", "values", "keys", "__iter__", "findall", "iter", "elements"}
SHALLOW_COPY_METHODS = {"isel", "sel", "copy", "union", "intersection", "difference", "assign"}
ALIAS_FUNCS = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "numpy.transpose", "numpy.reshape", "builtins.next", "builtins.max", "builtins.min", "typing.cast", "numpy.asanyarray", "numpy.expand_dims", "numpy.swapaxes", "xarray.DataArray", "numpy.broadcast_to"}
CONTAINER_FUNCS = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.dict", "builtins.sorted", "builtins.reversed", "builtins.enumerate", "builtins.zip", "builtins.filter", "builtins.iter",
                   "collections.OrderedDict", "collections.deque", "copy.copy", "collections.defaultdict", "itertools.chain"}
MUTATING_FUNCS = {"builtins.setattr": 0, "builtins.delattr": 0, "numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0,
                  "xml.etree.ElementTree.SubElement": 0, "xml.etree.cElementTree.SubElement": 0, "xml.etree.ElementTree.indent": 0, "builtins.object.__setattr__": 0, "operator.setitem": 0, "object.__setattr__": 0}
MUTABLE_CTORS = {"builtins.list", "builtins.dict", "builtins.set", "collections.OrderedDict", "collections.defaultdict", "collections.deque", "numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "collections.Counter", "builtins.bytearray"}


@dataclass
class Effect:
    root: tuple       # (kind, key)
    depth: int
    node: ast.AST
    desc: str
    ctx: object
    attr: str = ""    # attribute written, when the effect is an attribute store
    guard: str = ""
    origin: Optional["Effect"] = None    # the store this effect comes from

    @property
    def src(self):
        return self.origin or self


@dataclass
class Summary:
    mut: dict = field(default_factory=dict)       # (root, depth) -> Effect (first witness)
    muts: dict = field(default_factory=dict)      # (root, depth, attr) -> Effect
    ret: Val = FRESH
    stores: dict = field(default_factory=dict)    # shared roots stored into objects / returned: root -> Effect
    pstores: dict = field(default_factory=dict)   # (param, depth) kept by reference in an object: -> Effect

    def key(self):
        return (frozenset(self.muts), self.ret, frozenset(self.stores), frozenset(self.pstores))


def is_mutable_expr(p, ctx, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        ent = resolve(p, ctx, e.func)
        if isinstance(ent, ClassInfo):
            return not ent.is_enum
        return ext_name(ent) in MUTABLE_CTORS
    return False


def ann_types(p, module, ann, depth=0):
    """(types, element types) named by an annotation expression."""
    if ann is None or depth > 6:
        return E, E
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return E, E
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        a, b = ann_types(p, module, ann.left, depth + 1), ann_types(p, module, ann.right, depth + 1)
        return a[0] | b[0], a[1] | b[1]
    if isinstance(ann, ast.Subscript):
        h = (dotted(ann.value) or "").split(".")[-1]
        elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if h in ("Optional", "Union", "Annotated", "ClassVar", "Final"):
            if h == "Annotated":
                elts = elts[:1]
            r = (E, E)
            for x in elts:
                t = ann_types(p, module, x, depth + 1)
                r = (r[0] | t[0], r[1] | t[1])
            return r
        if h in ("list", "List", "Sequence", "Iterable", "tuple", "Tuple", "set", "Set", "SerializeAsAny"):
            r = E
            for x in elts:
                r |= ann_types(p, module, x, depth + 1)[0]
            return (r, E) if h == "SerializeAsAny" else (E, r)
        if h in ("dict", "Dict", "OrderedDict", "Mapping"):
            return E, ann_types(p, module, elts[-1], depth + 1)[0] if len(elts) > 1 else E
        t = ann_types(p, module, ann.value, depth + 1)
        return t
    if isinstance(ann, (ast.Name, ast.Attribute)):
        ent = p.resolve_expr(module, ann)
        if isinstance(ent, ClassInfo):
            return (E, E) if ent.is_enum else (frozenset([ent]), E)
        if isinstance(ent, GlobalVar) and ent.value is not None and not isinstance(ent.value, ast.Call):
            return ann_types(p, ent.module, ent.value, depth + 1)
    return E, E


CONTAINER_ATTRS = set(dir(list)) | set(dir(dict)) | {"name", "values", "data", "shape", "size", "attrs", "coords", "dims", "index", "columns", "dtype", "T", "real", "imag", "period", "frequency", "frequencies", "units", "tag", "text", "attrib", "tail", "type", "code"}

SCALARS = {"str", "int", "float", "bool", "complex", "bytes", "None", "Path"}


def ann_is_scalar(ann):
    """Annotation that only admits immutable scalars."""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant):
        if ann.value is None:
            return True
        if isinstance(ann.value, str):
            try:
                return ann_is_scalar(ast.parse(ann.value, mode="eval").body)
            except SyntaxError:
                return False
        return False
    if isinstance(ann, ast.BinOp):
        return ann_is_scalar(ann.left) and ann_is_scalar(ann.right)
    if isinstance(ann, ast.Subscript):
        h = (dotted(ann.value) or "").split(".")[-1]
        elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if h in ("Optional", "Union"):
            return all(ann_is_scalar(x) for x in elts)
        return h == "Literal"
    return (dotted(ann) or "") in SCALARS


COPYING = {"copy", "__copy__", "__deepcopy__", "__add__", "__sub__", "__or__", "__and__", "merge"}


class Effects:
    def __init__(self, p: Project):
        self.p = p
        self.sums: dict = {}
        self.all_ctx = list(p.functions)
        self._nested_done = set()
        self._mutglobals = {}
        for m in p.modules.values():
            mb = ModBody(m)
            for n, g in m.globals.items():
                if g.value is not None and is_mutable_expr(p, mb, g.value):
                    self._mutglobals[id(g)] = g
        for f in self.all_ctx:
            self.sums[f] = Summary()
        self.spec_now, self.spec_prev, self._flags = {}, {}, {}
        for rnd in range(7):
            changed = 0
            self.spec_prev, self.spec_now = self.spec_now, {}
            for f in self.all_ctx:
                old = self.sums[f].key()
                s = _Interp(self, f).run()
                self.sums[f] = s
                if s.key() != old:
                    changed += 1
            if not changed:
                break
        self.rounds = rnd + 1

    observer = None

    def observe(self, fn):
        """One more pass over every function, calling fn(ctx, kind, node, type set, name, value) at each
        attribute access ("load"/"store"), constructor call ("new") and known project call ("call")."""
        self.observer = fn
        try:
            for f in self.all_ctx:
                _Interp(self, f).run()
        finally:
            self.observer = None

    def summary(self, f):
        return self.sums.get(f, Summary())

    def flag_params(self, f):
        """Parameters whose truth value alone decides a branch of f."""
        if f not in self._flags:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                    for t in ast.walk(n.test):
                        if isinstance(t, ast.Name) and t.id in f.params:
                            out.add(t.id)
                elif isinstance(n, ast.keyword) and n.arg == "deep" and isinstance(n.value, ast.Name) and n.value.id in f.params:
                    out.add(n.value.id)
            for n in ast.walk(f.node):     # a reassigned parameter is no constant
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.discard(n.id)
            self._flags[f] = out
        return self._flags[f]

    def special(self, f, consts):
        """Summary of f when some boolean parameters have known values."""
        consts = {k: v for k, v in consts.items() if k in self.flag_params(f)}
        if not consts:
            return self.summary(f)
        k = (f, frozenset(consts.items()))
        if k not in self.spec_now:
            self.spec_now[k] = self.spec_prev.get(k, Summary())
            self.spec_now[k] = _Interp(self, f, consts).run()
        return self.spec_now[k]


class _Interp:
    def __init__(self, eng: Effects, f: FuncInfo, consts=None):
        self.eng, self.p, self.f = eng, eng.p, f
        self.consts = consts or {}
        self.s = Summary()
        self.env: dict = {}

    # -- entry ------------------------------------------------------------
    jumps = ()
    _arrays = None

    def run(self):
        self.jumps = []
        f = self.f
        dfl = f.defaults()
        pos = f.positional
        a = f.node.args
        for i, n in enumerate(f.params):
            if i == 0 and pos and n == pos[0] and f.cls is not None and f.parent is None and not f.is_static:
                ty = frozenset([f.cls])
                if f.is_classmethod or "validator" in " ".join(f.deco_names) and "model_validator" not in " ".join(f.deco_names):
                    self.env[n] = FRESH
                    continue
                self.env[n] = Val(frozenset([(("p", n), 0)]), frozenset([(("p", n), 1)]), ty)
                continue
            pn = f.param_node(n)
            ty, el = ann_types(self.p, f.module, pn.annotation) if pn is not None else (E, E)
            if n == "other" and pn is not None and pn.annotation is None and f.cls is not None and f.parent is None:
                ty = frozenset([f.cls])      # the other operand of a method
            if (a.vararg and n == a.vararg.arg):
                self.env[n] = Val(E, frozenset([(("p", n), 1)]), E, ty)
                continue
            if (a.kwarg and n == a.kwarg.arg):
                self.env[n] = Val(E, frozenset([(("p", n), 1)]))
                continue
            sh, dp = {(("p", n), 0)}, {(("p", n), 1)}
            d = dfl.get(n)
            if d is not None and is_mutable_expr(self.p, f, d):
                sh.add((("d", n), 0))
                dp.add((("d", n), 1))
            elif d is not None and isinstance(d, (ast.Name, ast.Attribute)):
                g = resolve(self.p, ModBody(f.module), d)
                if isinstance(g, GlobalVar) and id(g) in self.eng._mutglobals:
                    sh.add((("g", g.qual), 0))
                    dp.add((("g", g.qual), 1))
            self.env[n] = Val(frozenset(sh), frozenset(dp), ty, el)
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body)
            self.ret(v, f.node)
            self.handout(v, f.node, f"returned by {self.f.short}", stored=False)
        else:
            self.block(f.node.body)
        return self.s

    # -- effects ----------------------------------------------------------
    def see(self, kind, node, b, name, extra):
        if self.eng.observer:
            self.eng.observer(self.f, kind, node, b, name, extra)

    def mutate(self, v: Val, node, desc, attr="", deep=False):
        for r, d in (v.dp if deep else v.sh):
            k = (r, d, attr)
            if k not in self.s.muts:
                eff = Effect(r, d, node, desc, self.f, attr)
                self.s.muts[k] = eff
                self.s.mut.setdefault((r, d), eff)

    def handout_literal(self, x, node, desc):
        """Elements of shared tables placed in a container display that leaves the function."""
        if isinstance(x, ast.Dict):
            xs = [v for k, v in zip(x.keys, x.values) if k is not None]
        elif isinstance(x, (ast.List, ast.Tuple)):
            xs = [v for v in x.elts if not isinstance(v, ast.Starred)]
        else:
            return
        for e in xs:
            self.handout_literal(e, node, desc)
            self.handout(Val(frozenset((r, d) for r, d in self.ev(e).sh if r[0] in ("g", "c") and d == 1)), node, desc, stored=False)

    def inside(self, x):
        """Does the expression denote a part of an object that existed before this call?"""
        root = x
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        return root is not x and isinstance(root, ast.Name) and root.id in self.env and bool(self.env[root.id].sh)

    def handout(self, v: Val, node, desc, stored=True, origin=None):
        for r, d in v.sh:
            if r[0] in ("d", "g", "c") and (r, d) not in self.s.stores:
                self.s.stores[(r, d)] = Effect(r, d, node, desc, self.f, origin=origin)
            elif stored and r[0] == "p" and (r[1], d) not in self.s.pstores:
                self.s.pstores[(r[1], d)] = Effect(r, d, node, desc, self.f, origin=origin)

    def ret(self, v, node):
        # roots other than parameters are reported where they are returned and
        # also visible to callers
        self.s.ret = self.s.ret.join(v)

    # -- statements -------------------------------------------------------
    def block(self, stmts):
        """Run statements; True when control certainly leaves the block early."""
        for s in stmts:
            if self.stmt(s):
                return True
        return False

    def loop_body(self, s):
        pre, keep = dict(self.env), self.jumps
        self.jumps = []
        left = self.block(s.body)
        self.env = self.joinenv([pre] + ([] if left else [self.env]) + self.jumps)
        self.jumps = keep

    def branch(self, *blocks):
        base = dict(self.env)
        outs = []
        for b in blocks:
            self.env = dict(base)
            if not self.block(b):
                outs.append(self.env)
        self.env = self.joinenv(outs) if outs else base
        return not outs

    def joinenv(self, envs):
        out = {}
        keys = set().union(*envs)
        for k in keys:
            if "." in k and not all(k in e for e in envs):
                # path known on one branch only: join with the generic value
                v = FRESH
                for e in envs:
                    v = v.join(e[k] if k in e else self._generic(k, e))
                out[k] = v
                continue
            v = None
            for e in envs:
                if k in e:
                    v = e[k] if v is None else v.join(e[k])
            out[k] = v
        return out

    def _generic(self, path, env):
        base = path.split(".")[0]
        v = env.get(base, FRESH)
        return Val(v.dp, v.dp)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value)
                ty, el = ann_types(self.p, self.f.module, s.annotation)
                self.assign(s.target, Val(v.sh, v.dp, v.ty | ty, v.el | el), s)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.env.get(s.target.id, FRESH)
                if isinstance(s.value, (ast.List, ast.ListComp)) and isinstance(s.op, ast.Add) or old.sh and s.target.id in self.arrays():
                    self.mutate(old, s, f"{txt(s)}")
                self.env[s.target.id] = old.join(Val(E, v.dp))
            else:
                self.ev(s.target)
                self.assign(s.target, v, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                if isinstance(s.value, ast.Name) and self.f.name in COPYING:
                    pre = s.value.id + "."
                    for k, w in self.env.items():
                        if k.startswith(pre) and not self.scalar_path(k, v):
                            v = Val(v.sh, v.dp | w.sh, v.ty, v.el)
                self.ret(v, s)
                self.handout(v, s, f"returned by {self.f.short}", stored=False)
                self.handout_literal(s.value, s, f"returned inside a new container by {self.f.short}")
            return True
        elif isinstance(s, (ast.If,)):
            self.ev(s.test)
            tv = self.truth(s.test)
            if tv is not None:
                return self.block(s.body if tv else s.orelse)
            return self.narrow_branch(s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            self.see("iter", s, it, "", None)
            for _ in range(2):
                e = self.element(it, s.iter)
                self.assign(s.target, e, s, loop=True)
                self.loop_body(s)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.ev(s.test)
                self.loop_body(s)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            pre = dict(self.env)
            left = self.block(s.body)
            mid = self.env
            left = left or self.block(s.orelse)
            outs = [] if left else [self.env]
            for h in s.handlers:
                self.env = self.joinenv([pre, mid])
                if h.name:
                    self.env[h.name] = FRESH
                if not self.block(h.body):
                    outs.append(self.env)
            self.env = self.joinenv(outs) if outs else mid
            return self.block(s.finalbody) or not outs
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.kill(t.id)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value), s, txt(s), t.attr)
                elif isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), s, txt(s))
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
            return True
        elif isinstance(s, (ast.Continue, ast.Break)):
            self.jumps.append(self.env)
            return True
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch(*([c.body for c in s.cases] + [[]]))

    def truth(self, t):
        """Truth value of a test under the known parameter values, or None."""
        if not self.consts:
            return None
        if isinstance(t, ast.Name):
            return self.consts.get(t.id)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.truth(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(v) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.consts and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, bool):
            same = self.consts[t.left.id] is t.comparators[0].value
            return same if isinstance(t.ops[0], (ast.Is, ast.Eq)) else (not same if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) else None)
        return None

    def const_args(self, g, node, nbound):
        """Known boolean arguments of a call, defaults included."""
        fl = self.eng.flag_params(g)
        if not fl or not isinstance(node, ast.Call) or any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            return {}
        out = {}
        for n, d in g.defaults().items():
            if n in fl and isinstance(d, ast.Constant) and isinstance(d.value, bool):
                out[n] = d.value
        pos = g.positional[nbound:]
        given = dict(zip(pos, node.args))
        given.update({k.arg: k.value for k in node.keywords})
        for n, v in given.items():
            if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                if n in fl:
                    out[n] = v.value
            elif isinstance(v, ast.Name) and v.id in self.consts and n in fl:
                out[n] = self.consts[v.id]
            else:
                out.pop(n, None)
        return out

    def narrow_branch(self, s):
        """if isinstance(x, T): narrows the static type of x in the branch."""
        nm, ty, fresh = None, E, None
        t = s.test
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            nm = t.args[0].id
            for x in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]):
                e = resolve(self.p, self.f, x)
                if isinstance(e, ClassInfo):
                    ty |= {e}
                elif (dotted(x) or "").endswith("Element") and not self.elements_kept():
                    nm, ty = None, E       # metadata fields hold no XML elements: an element is the exporter's own
                    fresh = t.args[0].id
        base = dict(self.env)
        outs = []
        for i, b in enumerate((s.body, s.orelse)):
            self.env = dict(base)
            if i == 0 and nm and nm in self.env and ty:
                v = self.env[nm]
                self.env[nm] = Val(v.sh, v.dp, ty, v.el)
            if i == 0 and fresh in self.env and fresh not in self.f.params:
                self.env[fresh] = FRESH
            if not self.block(b):
                outs.append(self.env)
        self.env = self.joinenv(outs) if outs else base
        return not outs

    def scalar_path(self, path, v):
        """x.attr is a declared scalar field of x's class: holds no alias worth following."""
        parts = path.split(".")
        if len(parts) != 2 or not v.ty:
            return False
        for c in v.ty:
            fi = c.fields().get(parts[1]) if c.is_model else None
            if fi is None or not ann_is_scalar(getattr(fi, "annotation", None)):
                return False
        return True

    def elements_kept(self):
        """Does any model field hold XML elements?"""
        k = self.eng.__dict__.get("_elements_kept")
        if k is None:
            k = self.eng._elements_kept = any("Element" in txt(a.annotation) for c in self.p.classes.values() if c.is_model
                                              for a in c.node.body if isinstance(a, ast.AnnAssign))
        return k

    def kill(self, name):
        self.env.pop(name, None)
        for k in [k for k in self.env if k.startswith(name + ".")]:
            del self.env[k]

    def killpaths(self, path):
        for k in [k for k in self.env if k.startswith(path + ".")]:
            del self.env[k]

    def assign(self, t, v, node, loop=False):
        if isinstance(t, ast.Name):
            self.kill(t.id)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            src = node.value if isinstance(node, ast.Assign) else None
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(src.elts)) and not loop:
                vals = [self.ev(x) for x in src.elts]
                for x, vv in zip(t.elts, vals):
                    self.assign(x, vv, node, loop=True)
                return
            e = Val(v.dp, v.dp, v.el)
            for i, x in enumerate(t.elts):
                if i == 0 and len(t.elts) == 2 and self.over_items(node):
                    self.assign(x, FRESH, node, loop=True)       # dictionary keys are hashable values
                    continue
                self.assign(x.value if isinstance(x, ast.Starred) else x, e, node, loop=True)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.see("store", t, b, t.attr, v)
            self.mutate(b, node, f"{txt(t)} = ...", t.attr)
            for c in b.ty:
                st = c.find_setter(t.attr)
                if st is not None:
                    self.apply(st, [b, v], node, f"{txt(t)} = ...", {})
            if not (b.ty and all(c.find_setter(t.attr) or (c.is_model and t.attr in c.fields()) for c in b.ty)):
                self.handout(v, node, f"stored in {txt(t)}")
            path = dotted(t)
            if path:
                self.killpaths(path)
                if not any(c.find_setter(t.attr) for c in b.ty):
                    self.env[path] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.mutate(b, node, f"{txt(t)} = ...")
            self.flow_into(t.value, b, v)
            if b.sh:
                self.handout(v, node, f"stored in {txt(t)}")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def over_items(self, node):
        it = getattr(node, "iter", None)
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("sorted", "list", "tuple", "reversed") and it.args:
            it = it.args[0]
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args

    def flow_into(self, target_expr, b, v):
        """v becomes reachable from the local fresh container denoted by target_expr."""
        path = dotted(target_expr)
        if path and path in self.env and not b.sh:
            old = self.env[path]
            self.env[path] = Val(old.sh, old.dp | v.all, old.ty, old.el | v.ty)

    # -- expressions --------------------------------------------------------
    def element(self, v: Val, expr=None):
        sh = v.dp
        return Val(sh, sh, v.el, E)

    def name(self, n):
        if n in self.env:
            return self.env[n]
        if n in scope_locals(self.f):
            return FRESH
        g = self.f.parent
        while g is not None:
            if n in scope_locals(g):
                return Val(frozenset([(("f", f"{g.qual}:{n}"), 0)]), frozenset([(("f", f"{g.qual}:{n}"), 1)]))
            g = g.parent
        e = self.p.resolve_name(self.f.module, n)
        if isinstance(e, GlobalVar) and isinstance(e.value, (ast.Name, ast.Attribute)):
            e2 = resolve(self.p, ModBody(e.module), e.value)
            e = e2 if isinstance(e2, GlobalVar) else e
        return self.glob(e)

    def glob(self, e):
        if isinstance(e, GlobalVar):
            ty = E
            if isinstance(e.value, ast.Call):
                c = resolve(self.p, ModBody(e.module), e.value.func)
                if isinstance(c, ClassInfo):
                    ty = frozenset([c])
            if id(e) in self.eng._mutglobals:
                return Val(frozenset([(("g", e.qual), 0)]), frozenset([(("g", e.qual), 1)]), ty)
        return FRESH

    def ev(self, e) -> Val:
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for v in e.values:
                    if isinstance(v, ast.FormattedValue):
                        self.ev(v.value)
            return FRESH
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.value, ast.Attribute) and e.value.attr in ("loc", "iloc"):
                return Val(E, b.dp)         # a new view object
            if isinstance(e.slice, ast.Slice):
                return Val(E, b.dp, b.ty, b.el) if not self._arrayish(e.value) else b
            return Val(b.dp, b.dp, b.el)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            dp, el, mixed = E, E, False
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value)
                    dp |= v.dp
                    el |= v.el
                else:
                    v = self.ev(x)
                    dp |= v.all
                    el |= v.ty
                    mixed = mixed or not v.ty and bool(v.all)      # an element whose class is not known
            return Val(E, dp, E, E if mixed and isinstance(e, ast.Tuple) else el)
        if isinstance(e, ast.Dict):
            dp, el = E, E
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    dp |= v.dp
                else:
                    self.ev(k)
                    dp |= v.all
                    el |= v.ty
            return Val(E, dp, E, el)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, self.element(it, g.iter), e, loop=True)
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = saved
            return Val(E, v.all, E, v.ty)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            tv = self.truth(e.test)
            if tv is not None:
                return self.ev(e.body if tv else e.orelse)
            return self.ev(e.body).join(self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            v = FRESH
            for x in e.values:
                v = v.join(self.ev(x))
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e)
            return v
        if isinstance(e, ast.Lambda):
            return FRESH
        if isinstance(e, (ast.BinOp,)):
            a, b = self.ev(e.left), self.ev(e.right)
            # list + list keeps elements
            return Val(E, (a.dp | b.dp) if isinstance(e.op, ast.Add) and (a.el or b.el) else E, E, a.el | b.el)
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.ev(e.value)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                v = self.ev(e.value)
                self.ret(Val(E, v.all), e)
            return FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def _arrayish(self, e):
        return False

    def attr(self, e):
        path = dotted(e)
        if path and path in self.env:
            return self.env[path]
        # module attribute or class attribute?
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in self.env and root.id not in scope_locals(self.f):
            ent = resolve(self.p, self.f, e)
            if isinstance(ent, GlobalVar):
                return self.glob(ent)
            if isinstance(ent, (External, Module, ClassInfo, FuncInfo)):
                return FRESH
            own = resolve(self.p, self.f, e.value)
            if isinstance(own, ClassInfo):
                return self.classattr(own, e.attr)
        b = self.ev(e.value)
        self.see("load", e, b, e.attr, None)
        if isinstance(e.value, ast.Name) and self.f.is_classmethod and self.f.positional and e.value.id == self.f.positional[0]:
            return self.classattr(self.f.cls, e.attr)
        ty, el, out = E, E, None
        for c in b.ty:
            m = c.find_method(e.attr)
            if m is not None and m.is_property:
                r = self.apply(m, [b], e, txt(e), {})
                t2, e2 = ann_types(self.p, m.module, m.node.returns)
                if m.node.returns is None:
                    # an alias: return self.field
                    rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return)]
                    x = rets[0] if len(rets) == 1 else None
                    fi = c.fields().get(x.attr) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and m.positional and x.value.id == m.positional[0] else None
                    if fi is not None:
                        t2, e2 = ann_types(self.p, fi.cls.module, fi.annotation)
                r = Val(r.sh, r.dp, r.ty | t2, r.el | e2)
                out = r if out is None else out.join(r)
                continue
            if m is not None:
                continue
            fi = c.fields().get(e.attr)
            if fi is not None:
                t2, e2 = ann_types(self.p, fi.cls.module, fi.annotation)
                ty |= t2
                el |= e2
                if fi.is_classvar and fi.default is not None and is_mutable_expr(self.p, ModBody(fi.cls.module), fi.default):
                    r = (("c", f"{fi.cls.qual}.{e.attr}"))
                    out = (out or FRESH).join(Val(frozenset([(r, 0)]), frozenset([(r, 1)])))
                continue
            ca = self.classattr(c, e.attr)
            if ca is not FRESH:
                # an instance attribute of the same name hides it
                if not self._instance_assigned(c, e.attr):
                    out = (out or FRESH).join(ca)
                continue
            it = self._instance_type(c, e.attr)
            ty |= it
        v = Val(b.dp, b.dp, ty, el)
        if out is not None:
            plain = [c for c in b.ty if not (c.find_method(e.attr) is not None and c.find_method(e.attr).is_property) and self.classattr(c, e.attr) is FRESH]
            return out.join(v) if plain else Val(out.sh, out.dp, out.ty | ty, out.el | el)
        return v

    def _instance_assigned(self, c, attr):
        for k in c.project_mro():
            for m in list(k.methods.values()) + list(k.setters.values()):
                for n in walk_own(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and m.positional and n.value.id == m.positional[0]:
                        return True
        return False

    def _instance_type(self, c, attr):
        """Types assigned to self.attr in __init__-like methods of plain classes."""
        key = (id(c), attr)
        cache = self.eng.__dict__.setdefault("_itype", {})
        if key in cache:
            return cache[key]
        out = E
        for k in c.project_mro():
            for m in k.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and m.positional and t.value.id == m.positional[0]:
                                ent = resolve(self.p, m, n.value.func)
                                if isinstance(ent, ClassInfo):
                                    out |= {ent}
        cache[key] = out
        return out

    def classattr(self, c, attr):
        ca = c.find_class_attr(attr)
        if ca is not None and is_mutable_expr(self.p, ModBody(ca[0].module), ca[1]):
            r = ("c", f"{ca[0].qual}.{attr}")
            return Val(frozenset([(r, 0)]), frozenset([(r, 1)]))
        fi = c.fields().get(attr)
        if fi is not None and fi.is_classvar and fi.default is not None and is_mutable_expr(self.p, ModBody(fi.cls.module), fi.default):
            r = ("c", f"{fi.cls.qual}.{attr}")
            return Val(frozenset([(r, 0)]), frozenset([(r, 1)]))
        return FRESH

    # -- calls --------------------------------------------------------------
    def apply(self, g: FuncInfo, args, node, desc, kw, bound=True):
        """Apply summary of g with positional values args (self first when a method)."""
        s = self.eng.summary(g)
        if isinstance(node, ast.Call):
            c = self.const_args(g, node, max(0, len(args) - len(node.args)))
            if c:
                s = self.eng.special(g, c)
        env = {}
        pos = g.positional
        for n, v in zip(pos, args):
            env[n] = v
        extra = args[len(pos):]
        va = g.node.args.vararg
        if va is not None and extra:
            d = E
            for v in extra:
                d |= v.all
            env[va.arg] = Val(E, d)
        for n, v in kw.items():
            if n in g.params:
                env[n] = v
            elif g.node.args.kwarg is not None:
                k = g.node.args.kwarg.arg
                env[k] = env.get(k, FRESH).join(Val(E, v.all))

        def sub(r, d):
            if r[0] == "p":
                v = env.get(r[1])
                if v is None:
                    return E
                return v.sh if d == 0 else v.dp
            if r[0] == "d":
                # default only in play when the argument is omitted
                if r[1] in env:
                    return E
                return frozenset([(("d", f"{g.short}:{r[1]}") if ":" not in r[1] else r, d)])
            if r[0] == "f":
                return E
            return frozenset([(r, d)])
        for (r, d, attr), eff in s.muts.items():
            for rr, dd in sub(r, d):
                if rr[0] == "d" and ":" in rr[1]:
                    continue     # reported in the callee
                k = (rr, dd, attr)
                if k not in self.s.muts:
                    e2 = Effect(rr, dd, node, f"{desc} -> {eff.ctx.short if hasattr(eff.ctx, 'short') else ''}: {eff.desc}"[:240], self.f, attr, "", eff.src)
                    self.s.muts[k] = e2
                    self.s.mut.setdefault((rr, dd), e2)
        for (pn, d), eff in s.pstores.items():
            v = env.get(pn)
            if v is not None:
                self.handout(Val(v.sh if d == 0 else v.dp), node, f"{desc} -> {eff.desc}"[:200], origin=eff.src)
        rv = s.ret
        sh = E.union(*[sub(r, d) for r, d in rv.sh]) if rv.sh else E
        dp = E.union(*[sub(r, d) for r, d in rv.dp]) if rv.dp else E
        return Val(sh, dp, rv.ty, rv.el)

    def call(self, e):
        p = self.p
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                args.append(Val(v.dp, v.dp))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg:
                kw[k.arg] = v
            else:
                kw["**"] = Val(v.dp, v.dp)
        ent = None
        fn = e.func
        # resolve, unless the head is a local value
        head = fn
        while isinstance(head, ast.Attribute):
            head = head.value
        if isinstance(head, ast.Name) and (head.id in self.env) and isinstance(fn, ast.Attribute):
            ent = None
        else:
            ent = resolve(p, self.f, fn)
        if isinstance(fn, ast.Name) and fn.id in self.f.nested:
            ent = self.f.nested[fn.id]
        if ent is None and self.f.cls is not None and self.is_own_class(fn):
            ent = self.f.cls
        if isinstance(ent, ClassInfo):
            self.see("new", e, Val(E, E, frozenset([ent])), "", (args, kw))
            init = ent.find_method("__init__")
            if init is not None:
                self.apply(init, [FRESH] + args, e, txt(e.func), {k: v for k, v in kw.items() if k != "**"})
            el = E
            return Val(E, E, frozenset([ent]), el)
        if isinstance(ent, FuncInfo):
            self.see("call", e, FRESH, ent.name, [(ent, 1 if ent.cls is not None and ent.parent is None and ent.is_classmethod else 0)])
            if ent.parent is not None:
                r = self.apply(ent, args, e, txt(e.func), kw)
                self.nested_effects(ent, e)
                return r
            if ent.cls is not None and not ent.is_static:
                if ent.is_classmethod:
                    return self.typed_ret(ent, self.apply(ent, [FRESH] + args, e, txt(e.func), kw))
                return self.typed_ret(ent, self.apply(ent, args, e, txt(e.func), kw))     # Class.method(obj, ...)
            return self.typed_ret(ent, self.apply(ent, args, e, txt(e.func), kw))
        d = ext_name(ent)
        if d is not None:
            return self.external(d, e, args, kw)
        if isinstance(fn, ast.Attribute):
            return self.method(e, fn, args, kw)
        self.ev(fn)
        return FRESH

    def is_own_class(self, fn):
        """type(self), self.__class__, __class__ or the cls of a classmethod."""
        me = self.f.positional[0] if self.f.positional and not self.f.is_static else None
        if isinstance(fn, ast.Name):
            return fn.id == "__class__" or (self.f.is_classmethod and fn.id == me)
        if isinstance(fn, ast.Attribute):
            return fn.attr == "__class__" and isinstance(fn.value, ast.Name) and fn.value.id == me
        return isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id == "type" and len(fn.args) == 1 and isinstance(fn.args[0], ast.Name) and fn.args[0].id == me

    def nested_effects(self, g, e):
        """Effects of a nested function on variables of this function."""
        for (r, d, attr), eff in self.eng.summary(g).muts.items():
            if r[0] == "f":
                owner, nm = r[1].rsplit(":", 1)
                if owner == self.f.qual and nm in self.env:
                    v = self.env[nm]
                    self.mutate(v, e, f"{txt(e.func)} -> {eff.desc}", attr, deep=(d == 1))

    def typed_ret(self, g, r):
        t2, e2 = ann_types(self.p, g.module, g.node.returns) if not isinstance(g.node, ast.Lambda) else (E, E)
        nm = dotted(g.node.returns) if getattr(g.node, "returns", None) is not None else None
        if nm in ("Self", "typing.Self", "typing_extensions.Self") and g.cls is not None:
            t2 = frozenset([g.cls])
        return Val(r.sh, r.dp, r.ty | t2, r.el | e2)

    def arrays(self):
        """Names that hold an array, list or series somewhere in the function: += and friends change them in place."""
        if self._arrays is None:
            out = set()
            f = self.f
            if isinstance(f, FuncInfo) and not isinstance(f.node, ast.Lambda):
                for a in f.node.args.args + f.node.args.kwonlyargs:
                    if a.annotation is not None and re.search(r"ndarray|NDArray|ArrayLike|\blist\b|List\[|Series|DataFrame|DataArray", ast.unparse(a.annotation)):
                        out.add(a.arg)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, ast.Call) and (ext_name(resolve(self.p, f, v.func)) or '').startswith("numpy.") or isinstance(v, ast.Attribute) and v.attr in ("data", "values") or isinstance(v, (ast.List, ast.ListComp)) or self.returns_array(v):
                        out.add(n.targets[0].id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[0], ast.Name) and re.search(r"ndarray|\blist\b|Series|DataArray", ast.unparse(n.args[1])):
                    out.add(n.args[0].id)
            self._arrays = out
        return self._arrays

    def returns_array(self, v):
        """A call of a project function, or a field of the object, declared to hold an array, list or series."""
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and isinstance(self.f, FuncInfo) and self.f.cls is not None and self.f.cls.is_model and self.f.positional and v.value.id == self.f.positional[0]:
            fi = self.f.cls.fields().get(v.attr)
            ann = getattr(fi, "annotation", None)
            if isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] == "Annotated":
                ann = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) else ann.slice
            return ann is not None and bool(re.match(r"(list|List|(np\.)?ndarray|NDArray)\b", ast.unparse(ann)))
        if not isinstance(v, ast.Call):
            return False
        g = resolve(self.p, self.f, v.func)
        if not isinstance(g, FuncInfo) and isinstance(v.func, ast.Attribute) and self.f.cls is not None and isinstance(v.func.value, ast.Name) and self.f.positional and v.func.value.id == self.f.positional[0]:
            g = self.f.cls.find_method(v.func.attr)
        ann = getattr(g.node, "returns", None) if isinstance(g, FuncInfo) else None
        return ann is not None and bool(re.search(r"ndarray|NDArray|ArrayLike|\blist\b|List\[|Series|DataFrame|DataArray", ast.unparse(ann)))

    def external(self, d, e, args, kw):
        if d.startswith("numpy."):
            if "out" in kw:
                self.mutate(kw["out"], e, txt(e))
            c = kwarg(e, "copy")
            if isinstance(c, ast.Constant) and c.value is False and args:
                if d == "numpy.nan_to_num":
                    self.mutate(args[0], e, txt(e))
                return args[0]
            if "out" in kw:
                return kw["out"]
        if d in ("builtins.setattr", "builtins.getattr") and args:
            self.see("arg", e.args[0], args[0], None, None)
        if d in MUTATING_FUNCS and args:
            a = ""
            if d in ("builtins.setattr", "builtins.delattr") and len(e.args) > 1:
                a = const_str(e.args[1]) or "*"
            self.mutate(args[0], e, txt(e), a)
            if d == "builtins.setattr" and len(args) > 2 and e.args:
                if self.f.name in ("__deepcopy__", "__copy__"):
                    self.flow_into(e.args[0], args[0], args[2])
                self.handout(args[2], e, f"stored by {txt(e)}")
            if d.endswith("SubElement"):
                return Val(args[0].sh and E, E)
            return FRESH
        if d == "builtins.getattr" and args:
            nm = const_str(e.args[1]) if len(e.args) > 1 else None
            if nm and len(e.args) > 2 and self.eng.observer:
                return args[2]      # a default makes a missing attribute harmless
            if nm:
                return self.attr(ast.copy_location(ast.Attribute(value=e.args[0], attr=nm, ctx=ast.Load()), e)).join(args[2] if len(args) > 2 else FRESH)
            return Val(args[0].dp, args[0].dp)
        if d == "builtins.super":
            return self.env.get(self.f.positional[0], FRESH) if self.f.positional else FRESH
        if d == "builtins.vars" and args:
            return Val(args[0].sh, args[0].dp)
        if d in ALIAS_FUNCS and args:
            if d == "builtins.next":
                return Val(args[0].dp, args[0].dp, args[0].el)
            if d in ("builtins.max", "builtins.min"):
                return FRESH
            if d in ("numpy.reshape",):
                return args[0]
            return args[0]
        if d in CONTAINER_FUNCS:
            dp, el, ty = E, E, E
            for v in args:
                dp |= v.dp
                el |= v.el
                if d == "copy.copy":
                    ty |= v.ty
            for v in kw.values():
                dp |= v.all
            return Val(E, dp, ty, el)
        if d == "copy.deepcopy" and args:
            return Val(E, E, args[0].ty, args[0].el)
        if "out" in kw:
            self.mutate(kw["out"], e, txt(e))
        return FRESH

    def method(self, e, fn, args, kw):
        p, name = self.p, fn.attr
        # super().m()
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
            me = self.env.get(self.f.positional[0], FRESH) if self.f.positional else FRESH
            for c in self.f.cls.project_mro()[1:]:
                if name in c.methods:
                    m = c.methods[name]
                    self.see("call", e, me, name, [(m, 0 if m.is_static else 1)])
                    return self.typed_ret(c.methods[name], self.apply(c.methods[name], [me] + args, e, txt(fn), kw))
            if name in ("append", "extend", "insert", "pop", "remove", "clear", "update", "__setitem__", "__delitem__", "__setattr__", "__init__"):
                self.mutate(me, e, txt(e), "*")
            return FRESH
        b = self.ev(fn.value)
        self.see("load", fn, b, fn.attr, e)
        self.see("given", e, b, name, (args, kw))
        path = dotted(fn.value)
        cands = []
        for c in b.ty:
            m = c.find_method(name)
            if m is not None and not m.is_property:
                cands.append(m)
                for sc in p.subclasses(c, strict=True):
                    if name in sc.methods and not sc.methods[name].is_property:
                        cands.append(sc.methods[name])
        out = None
        known = bool(cands) or bool(b.ty and all(c.is_model for c in b.ty))
        if cands:
            self.see("call", e, b, name, [(m, 0 if m.is_static else 1) for m in dict.fromkeys(cands)])
            for m in dict.fromkeys(cands):
                recv = [] if m.is_static else [FRESH if m.is_classmethod else b]
                r = self.typed_ret(m, self.apply(m, recv + args, e, txt(fn), kw))
                if name in ("copy", "__copy__", "__deepcopy__") and r.ty:      # a copy is of the receiver's own class
                    r = Val(r.sh, r.dp, b.ty, r.el)
                if b.el and not r.ty and not r.el and r.dp & b.dp:
                    r = Val(r.sh, r.dp, r.ty, b.el)
                out = r if out is None else out.join(r)
            if path and any((("p", m.positional[0]), dd) in self.eng.summary(m).mut for m in cands if m.positional for dd in (0, 1)):
                self.killpaths(path)
            return self.flow_args(fn, b, args, kw, name, out)
        if name in MUTATORS and not (b.ty and all(c.is_model for c in b.ty)):
            # builtin container mutators; pop/get-style names also alias an element
            self.mutate(b, e, txt(e))
            if path:
                self.killpaths(path)
            for v in args:
                if name not in ("pop", "remove", "discard", "extend", "update"):
                    self.handout(v, e, f"stored by {txt(fn)}()") if b.sh or self.inside(fn.value) else None
            return self.flow_args(fn, b, args, kw, name, Val(b.dp, b.dp, b.el) if name in ("pop", "popitem", "setdefault") else FRESH)
        if name == "set" and len(args) == 2 and not b.ty:
            self.mutate(b, e, txt(e))
            return FRESH
        kwi = kwarg(e, "inplace")
        if kwi is not None and isinstance(kwi, ast.Constant) and kwi.value is True:
            self.mutate(b, e, txt(e))
        deep = kwarg(e, "deep")
        if isinstance(deep, ast.Constant) and deep.value is False or isinstance(deep, ast.Name) and self.truth(deep) is False:
            deep = None
            if name in SHALLOW_COPY_METHODS:      # said to share its parts
                return Val(b.dp, b.dp, b.ty, b.el)
        if name == "model_copy":
            return Val(E, E if deep is not None else b.dp, b.ty, b.el)
        if name in SHALLOW_COPY_METHODS:
            if deep is not None:
                return Val(E, E, b.ty)
            if b.ty and all(c.is_model for c in b.ty):
                return Val(E, E, b.ty)
            if name == "copy" and not b.ty and self.looks_like_model(fn.value):
                return FRESH
            return Val(E, b.dp, b.ty, b.el)
        if name in DEEP_ITER_METHODS and not args:
            return Val(E, b.dp, E, b.el)
        if name in ALIAS_METHODS:
            d = Val(b.dp, b.dp, b.el)
            if name in ("reshape", "ravel", "squeeze", "view", "transpose", "swapaxes"):
                return b
            for v in args[1:]:
                d = d.join(v)
            return d
        if name in COMMON:
            return FRESH
        if not known:
            ms = [m for m in p.methods_named(name) if not m.is_property and m.parent is None]
            if ms:
                # unknown receiver: only effects shared by every candidate
                common = None
                for m in ms:
                    pm = {("p", n) for n in m.positional[:1]} if not m.is_static else set()
                    hit = {(d, a) for (r, d, a) in self.eng.summary(m).muts if r in pm}
                    any_ = bool(hit)
                    common = any_ if common is None else (common and any_)
                if common:
                    self.mutate(b, e, f"{txt(e)}")
                # argument effects: same rule, by position
                for i, v in enumerate(args):
                    if not v.all:
                        continue
                    for dd, part in ((0, v.sh), (1, v.dp)):
                        allm = True
                        for m in ms:
                            pos = m.positional[(0 if m.is_static else 1):]
                            if i >= len(pos) or (("p", pos[i]), dd) not in self.eng.summary(m).mut:
                                allm = False
                        if allm:
                            self.mutate(Val(part, part), e, f"{txt(e)}")
                tys = E
                ret = None
                for m in ms:
                    recv = [] if m.is_static else [b]
                    s = self.eng.summary(m)
                    tys |= ann_types(p, m.module, getattr(m.node, "returns", None))[0]
                if len(ms) <= 2:
                    return Val(E, E, tys)
        return FRESH

    def looks_like_model(self, x):
        """A local whose attributes are metadata fields (no dict, list or array has them)."""
        if not isinstance(x, ast.Name):
            return False
        fields = self.eng.__dict__.get("_fieldnames")
        if fields is None:
            fields = self.eng._fieldnames = {n for c in self.p.classes.values() if c.is_model for n in c.fields()} - CONTAINER_ATTRS
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == x.id and n.attr in fields:
                return True
        return False

    def flow_args(self, fn, b, args, kw, name, out):
        if name in ("append", "extend", "insert", "update", "add", "setdefault", "__setitem__", "appendleft"):
            v = FRESH
            for a in args:
                v = v.join(a if name not in ("extend", "update") else Val(E, a.dp, a.el))
            path = dotted(fn.value)
            if path and path in self.env and not b.sh:
                old = self.env[path]
                self.env[path] = Val(old.sh, old.dp | v.all, old.ty, old.el | v.ty)
        return out if out is not None else FRESH
