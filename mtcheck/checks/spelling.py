"""C23: a name kept in a string or a table is the name of something that exists.

Attribute names travel through this package as text: setattr/getattr, update_attribute("a.b"),
translation tables between formats, key lists of readers and writers.  The models accept any extra
attribute, so a misspelt or outdated name is stored where nothing reads it or looked up where nothing
is stored.  Every such name is followed from its literal to the object it is applied to and looked up
among that object's declared members.
"""
import ast
import itertools

from ..constprop import Prop, UNKNOWN, MayRaise, EnumVal
from ..effects import Effects, ann_types, ann_is_scalar
from ..names import const_str, ModBody, resolve, txt, walk_own
from ..project import ClassInfo, FuncInfo, GlobalVar, dotted
from .environment import Result, must_fire, must_not_fire
from .schema import literal
from .soundness import MODEL_ATTRS, Members

SETTERS = {"update_attribute", "set_attr_from_name"}
GETTERS = {"get_attr_from_name", "__getattribute__"}
CHANGES = {"update", "append", "extend", "insert", "pop", "popitem", "remove", "clear", "setdefault", "sort", "reverse", "add", "discard"}
E0 = frozenset()


class Choice:
    """One of several known values."""
    def __init__(self, vals):
        self.vals = list(vals)


class Types:
    """An object of one of these classes (value not known)."""
    def __init__(self, ty):
        self.ty = ty


def plain(v):
    """literal() result with its unknown parts as UNKNOWN."""
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return UNKNOWN


def known(v):
    if isinstance(v, (list, tuple)):
        return all(known(x) for x in v)
    if isinstance(v, dict):
        return all(known(x) for x in v.values())
    return v is None or isinstance(v, (str, int, float, bool))


class Walk(Prop):
    """Walks one function with every known string, list and table in place; reports calls to hook."""

    def __init__(self, p, f, tables, hook):
        super().__init__(p, lambda p, c, e: plain(literal(p, c, e)))
        self.f, self.tables, self.hook, self.fuel = f, tables, hook, 20000

    def run(self):
        env = {x: UNKNOWN for x in self.f.params}
        for q, ty in (self.hook.param_types(self.f) if self.hook is not None else {}).items():
            env[q] = Types(ty)
        body = self.f.node.body if isinstance(self.f.node.body, list) else [ast.Expr(self.f.node.body)]
        self.seq(env, body)

    # ---- expressions -----------------------------------------------------
    def ev(self, ctx, env, e):
        try:
            return self._ev(ctx, env, e)
        except Exception:           # certainly raises, or beyond this evaluator
            return UNKNOWN

    def _static(self, ctx, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.f.cls is not None and self.f.positional and e.value.id == self.f.positional[0] and not self.f.is_static:
            return self.tables.of(self.f.cls, e.attr)
        r = resolve(self.p, ctx, e)
        if isinstance(r, GlobalVar):
            return self.tables.glob(r)
        return super()._static(ctx, e)

    def _ev(self, ctx, env, e):
        if isinstance(e, (ast.List, ast.Tuple)):
            v = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = self.ev(ctx, env, x.value)
                    if not isinstance(s, (list, tuple)):
                        return UNKNOWN
                    v += list(s)
                else:
                    v.append(self.one(self.ev(ctx, env, x)))
            return v if isinstance(e, ast.List) else tuple(v)
        if isinstance(e, ast.Dict):
            out = {}
            for k, x in zip(e.keys, e.values):
                if k is None:
                    s = self.ev(ctx, env, x)
                    if not isinstance(s, dict):
                        return UNKNOWN
                    out.update(s)
                    continue
                kk = self.ev(ctx, env, k)
                if not isinstance(kk, (str, int, float, bool, type(None))):
                    return UNKNOWN
                out[kk] = self.one(self.ev(ctx, env, x))
            return out
        if isinstance(e, ast.Name) and e.id in env and isinstance(env[e.id], (Choice, Types)):
            return UNKNOWN
        if isinstance(e, ast.JoinedStr):
            out = ""
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out += str(v.value)
                    continue
                x = self.ev(ctx, env, v.value)
                if not isinstance(x, (str, int)) or v.format_spec is not None or v.conversion != -1:
                    return UNKNOWN
                out += str(x)
            return out
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            a, b = self.ev(ctx, env, e.left), self.ev(ctx, env, e.comparators[0])
            if a is UNKNOWN or b is UNKNOWN or not isinstance(b, (list, tuple, dict, str)):
                return UNKNOWN
            if not isinstance(b, (dict, str)) and not known(b) and a not in [x for x in b if known(x)]:
                return UNKNOWN
            try:
                r = a in b
            except TypeError:
                return UNKNOWN
            return r if isinstance(e.ops[0], ast.In) else not r
        if isinstance(e, ast.Subscript):
            b = self.ev(ctx, env, e.value)
            if isinstance(e.slice, ast.Slice):
                lo, hi = (self.ev(ctx, env, x) if x is not None else None for x in (e.slice.lower, e.slice.upper))
                if isinstance(b, (str, list, tuple)) and e.slice.step is None and lo is not UNKNOWN and hi is not UNKNOWN:
                    return b[lo:hi]
                return UNKNOWN
            i = self.ev(ctx, env, e.slice)
            if isinstance(b, dict) and i is UNKNOWN:
                return Choice([x for x in b.values() if known(x)])
            if isinstance(b, (list, tuple, dict, str)) and i is not UNKNOWN:
                try:
                    return b[i]
                except (KeyError, IndexError, TypeError):
                    return UNKNOWN
            return UNKNOWN
        if isinstance(e, ast.Call):
            return self._call(ctx, env, e)
        if isinstance(e, ast.BoolOp):
            v = super()._ev(ctx, env, e)
            return UNKNOWN if isinstance(v, (dict, list)) else v
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            it = self.ev(ctx, env, e.generators[0].iter)
            if isinstance(it, (list, tuple)) and len(it) < 60:
                return [self.one(self.ev(ctx, dict(env, **{e.generators[0].target.id: x}), e.elt)) for x in it]
            return UNKNOWN
        return super()._ev(ctx, env, e)

    @staticmethod
    def one(v):
        return UNKNOWN if isinstance(v, (Choice, Types)) else v

    def _call(self, ctx, env, e):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id in ("OrderedDict", "dict", "list", "tuple", "sorted", "reversed", "enumerate", "zip", "set"):
            args = [self.one(self.ev(ctx, env, a)) for a in e.args]
            if fn.id in ("OrderedDict", "dict"):
                if not e.args and not any(k.arg is None for k in e.keywords):
                    return {k.arg: self.one(self.ev(ctx, env, k.value)) for k in e.keywords}
                if len(args) == 1 and isinstance(args[0], dict):
                    return dict(args[0])
                if len(args) == 1 and isinstance(args[0], (list, tuple)) and all(isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], str) for x in args[0]):
                    return dict(args[0])
                return UNKNOWN
            if any(a is UNKNOWN for a in args):
                if fn.id == "zip" and any(isinstance(a, (list, tuple)) for a in args):
                    n = min(len(a) for a in args if isinstance(a, (list, tuple)))
                    return list(zip(*[a if isinstance(a, (list, tuple)) else [UNKNOWN] * n for a in args]))
                return UNKNOWN
            if fn.id == "enumerate":
                return list(enumerate(args[0])) if args and isinstance(args[0], (list, tuple, dict)) else UNKNOWN
            if fn.id == "zip":
                return list(zip(*args)) if all(isinstance(a, (list, tuple, dict)) for a in args) else UNKNOWN
            if fn.id in ("list", "tuple", "sorted", "reversed", "set") and len(args) == 1 and isinstance(args[0], (list, tuple, dict)):
                return list(args[0])
            return UNKNOWN
        if isinstance(fn, ast.Attribute) and fn.attr in ("items", "keys", "values", "copy", "get") :
            b = self.ev(ctx, env, fn.value)
            if isinstance(b, dict):
                if fn.attr == "get":
                    i = self.ev(ctx, env, e.args[0]) if e.args else UNKNOWN
                    if i is UNKNOWN:
                        return Choice([x for x in b.values() if known(x)])
                    if i in b:
                        return b[i]
                    return self.ev(ctx, env, e.args[1]) if len(e.args) > 1 else None
                return {"items": lambda: [tuple(x) for x in b.items()], "keys": lambda: list(b), "values": lambda: list(b.values()), "copy": lambda: dict(b)}[fn.attr]()
            if isinstance(b, list) and fn.attr == "copy":
                return list(b)
            return UNKNOWN
        if isinstance(fn, ast.Attribute) and fn.attr in ("lower", "upper", "strip", "split", "replace", "capitalize", "title", "format", "startswith", "endswith", "rsplit", "removeprefix", "removesuffix"):
            b = self.ev(ctx, env, fn.value)
            args = [self.ev(ctx, env, a) for a in e.args]
            if isinstance(b, str) and all(isinstance(a, (str, int, tuple)) and known(a) for a in args) and not e.keywords:
                return getattr(b, fn.attr)(*args)
            return UNKNOWN
        r = resolve(self.p, ctx, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if r is None and self.hook is not None:
            r = self.hook.own_method(self.f, e)
        if isinstance(r, FuncInfo) and not r.is_property:
            ks = self.tables.returned_keys(r)
            if ks is not None:
                return {k: UNKNOWN for k in ks}
        v = super()._call(ctx, env, e)
        return v if known(v) or isinstance(v, (Choice,)) else UNKNOWN

    def vals(self, env, e):
        """Every value the expression can have here, or None when it cannot be told."""
        names = sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(env.get(n.id), Choice)})
        out = []
        combos = itertools.product(*[env[n].vals for n in names])
        for c in itertools.islice(combos, 400):
            v = self.ev(self.f, dict(env, **dict(zip(names, c))), e)
            if isinstance(v, Choice):
                out += v.vals
            elif v is UNKNOWN or isinstance(v, Types):
                return None
            else:
                out.append(v)
        return out

    @staticmethod
    def _havoc(env, stmts):
        env = dict(env)
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    env[n.id] = UNKNOWN
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in env:
                    env[n.value.id] = UNKNOWN
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in CHANGES:
                    if isinstance(env.get(n.func.value.id), (list, dict, Choice)):
                        env[n.func.value.id] = UNKNOWN
        return env

    # ---- statements: one joined state, rows of known loops kept apart ------
    def seq(self, env, stmts):
        """State after the block or None when it never falls through."""
        for s in stmts:
            if env is None:
                return None
            self.fuel -= 1
            if self.fuel < 0:
                return None
            env = self.st(env, s)
        return env

    def look(self, env, *exprs):
        for x in exprs:
            if x is None:
                continue
            for n in self.inside(env, x):
                self.hook(self, n[1], n[0])

    def inside(self, env, x):
        """(call, env) pairs in an expression; comprehensions over known lists give one env per row."""
        stack = [(x, env)]
        while stack:
            n, en = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                envs = [en]
                for g in n.generators:
                    if not envs:
                        break
                    stack.append((g.iter, envs[0]))
                    nxt = []
                    for e2 in envs[:80]:
                        for row in self.rows(e2, g.target, g.iter):
                            keep = True
                            for t in g.ifs:
                                v = self.ev(self.f, row, t)
                                if v is not UNKNOWN and not isinstance(v, (Choice, Types)) and not v:
                                    keep = False
                            if keep:
                                nxt.append(row)
                    envs = nxt
                for e2 in envs[:200]:
                    for part in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                        stack.append((part, e2))
                    for g in n.generators:
                        for t in g.ifs:
                            stack.append((t, e2))
                continue
            if isinstance(n, ast.IfExp):
                stack.append((n.test, en))
                v = self.ev(self.f, en, n.test)
                opaque = v is UNKNOWN or isinstance(v, (Choice, Types))
                if opaque or v:
                    stack.append((n.body, en))
                if opaque or not v:
                    stack.append((n.orelse, en))
                continue
            if isinstance(n, ast.Call) or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
                yield n, en
            for c in ast.iter_child_nodes(n):
                stack.append((c, en))

    def rows(self, env, target, it):
        """One state per known row of the iterable, or one with the targets unknown."""
        vs = self.vals(env, it)
        if vs and all(isinstance(v, (list, tuple, dict)) for v in vs) and sum(len(v) for v in vs) <= 300:
            out = []
            for v in vs:
                for x in v:
                    e2 = dict(env)
                    if self.bind(e2, target, x):
                        out.append(e2)
            return out
        e2 = dict(env)
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                e2[n.id] = UNKNOWN
        return [e2]

    def bind(self, env, t, v):
        if isinstance(t, ast.Name):
            env[t.id] = v
            for k in [k for k in env if isinstance(k, str) and k.startswith(t.id + ".")]:
                del env[k]
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)) and len(v) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                return all([self.bind(env, a, b) for a, b in zip(t.elts, v)])
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = UNKNOWN
            return True
        return True

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a:
            if k not in b:
                continue
            x, y = a[k], b[k]
            if x is y:
                out[k] = x
                continue
            if isinstance(x, Types) and isinstance(y, Types):
                out[k] = Types(x.ty | y.ty)
                continue
            xs = x.vals if isinstance(x, Choice) else [x]
            ys = y.vals if isinstance(y, Choice) else [y]
            if all(known(v) for v in xs + ys):
                m = []
                for v in xs + ys:
                    if not any(type(v) is type(w) and v == w for w in m):
                        m.append(v)
                out[k] = m[0] if len(m) == 1 else Choice(m) if len(m) <= 80 else UNKNOWN
            else:
                out[k] = UNKNOWN
        for k in list(a) + list(b):
            if k not in out:
                out[k] = UNKNOWN
        return out

    def st(self, env, s):
        if isinstance(s, ast.If):
            self.look(env, s.test)
            names = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and isinstance(env.get(n.id), Choice)]
            if names:
                out = None
                for v in env[names[0]].vals:
                    out = self.join(out, self.branch(dict(env, **{names[0]: v}), s))
                return out
            return self.branch(env, s)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.look(env, s.iter)
            base = self._havoc(env, [s])
            out = dict(base)
            for row in self.rows(base, s.target, s.iter):
                r = self.seq(row, s.body)
            if s.orelse:
                self.seq(dict(base), s.orelse)
            return out
        if isinstance(s, ast.While):
            base = self._havoc(env, [s])
            self.look(base, s.test)
            self.seq(dict(base), s.body)
            return base
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            b = self.seq(dict(env), s.body)
            hav = self._havoc(env, s.body)
            # a handler runs with what was known before the body where nothing was rebound
            outs = self.seq(b, s.orelse) if b is not None else None
            for h in s.handlers:
                outs = self.join(outs, self.seq(dict(hav), h.body))
            if s.finalbody:
                return self.seq(outs if outs is not None else dict(hav), s.finalbody) if outs is not None else (self.seq(dict(hav), s.finalbody), None)[1]
            return outs
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.look(env, i.context_expr)
            return self.seq(self._havoc(env, [ast.Module(body=[ast.Assign(targets=[i.optional_vars], value=i.context_expr) for i in s.items if i.optional_vars is not None], type_ignores=[])]), s.body)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.look(env, getattr(s, "value", None), getattr(s, "exc", None))
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            self.look(env, s.value)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.look(env, t)
            if s.value is None:
                return env
            v = self.value(env, s.value)
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), dict):
                    k = self.ev(self.f, env, t.slice)
                    if isinstance(k, (str, int)) and known(k):
                        env[t.value.id] = dict(env[t.value.id], **{k: self.one(v)}) if isinstance(k, str) else UNKNOWN
                    else:
                        env[t.value.id] = UNKNOWN
                    continue
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    env[t.value.id] = UNKNOWN
                    continue
                self.bind(env, t, v)
            return env
        if isinstance(s, ast.AugAssign):
            self.look(env, s.value)
            env = dict(env)
            if isinstance(s.target, ast.Name):
                a, b = self.one(env.get(s.target.id, UNKNOWN)), self.one(self.ev(self.f, env, s.value))
                env[s.target.id] = a + b if isinstance(s.op, ast.Add) and isinstance(a, (list, str)) and type(a) is type(b) else UNKNOWN
            return env
        if isinstance(s, ast.Expr):
            self.look(env, s.value)
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and isinstance(env.get(c.func.value.id), (dict, list)):
                env = dict(env)
                cur, nm = env[c.func.value.id], c.func.value.id
                args = [self.one(self.ev(self.f, env, a)) for a in c.args]
                if c.func.attr == "update" and isinstance(cur, dict) and len(args) == 1 and isinstance(args[0], dict):
                    env[nm] = {**cur, **args[0]}
                elif c.func.attr == "append" and isinstance(cur, list) and len(args) == 1:
                    env[nm] = cur + [args[0]]
                elif c.func.attr == "extend" and isinstance(cur, list) and len(args) == 1 and isinstance(args[0], list):
                    env[nm] = cur + args[0]
                else:
                    env[nm] = UNKNOWN
            return env
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return dict(env, **{s.name: UNKNOWN})
        if isinstance(s, ast.Match):
            self.look(env, s.subject)
            out = env
            for c in s.cases:
                out = self.join(out, self.seq(self._havoc(env, []), c.body))
            return out
        return env

    def branch(self, env, s):
        t = self.ev(self.f, env, s.test)
        opaque = t is UNKNOWN or isinstance(t, (Choice, Types))
        out = None
        yes, no = dict(env), dict(env)
        for n, ty, pos in self.tested(s.test):
            if ty and not isinstance(env.get(n), (str, list, tuple, dict, int, float, Choice)):
                (yes if pos else no)[n] = Types(ty)
        if opaque or t:
            out = self.seq(yes, s.body)
        if opaque or not t:
            out = self.join(out, self.seq(no, s.orelse))
        return out

    def tested(self, t):
        """(name, classes, holds when true) decided by an isinstance test."""
        neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
        c = t.operand if neg else t
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "isinstance" and len(c.args) == 2 and isinstance(c.args[0], ast.Name):
            ks = c.args[1].elts if isinstance(c.args[1], ast.Tuple) else [c.args[1]]
            rs = [resolve(self.p, self.f, k) if isinstance(k, (ast.Name, ast.Attribute)) else None for k in ks]
            if all(isinstance(r, ClassInfo) for r in rs):
                return [(c.args[0].id, frozenset(rs), not neg)]
        return []

    def value(self, env, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) == 2:
            ks = self.vals(env, e.args[1])
            if ks and all(isinstance(k, str) for k in ks):
                ty = self.hook.types(self, env, e)
                if ty:
                    return Types(ty)
        if isinstance(e, ast.Call) and self.hook is not None:
            c = resolve(self.p, self.f, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if isinstance(c, ClassInfo) and not c.is_enum:
                return Types(frozenset([c]))
            a = None
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("model_copy", "copy", "__deepcopy__", "__copy__") and not (isinstance(e.func.value, ast.Name) and e.func.value.id == "copy"):
                a = e.func.value
            elif (dotted(e.func) or "").split(".")[-1] in ("deepcopy", "copy") and len(e.args) == 1:
                a = e.args[0]
            elif isinstance(e.func, ast.Attribute):
                a = self.hook.passed(self, e)
            if a is not None:
                ty = self.hook.types(self, env, a)
                if ty:
                    return Types(ty)
        if isinstance(e, ast.Name) and self.hook is not None:
            ty = self.hook.types(self, env, e)
            if ty:
                return Types(ty)
        vs = self.vals(env, e)
        if vs is None or not vs:
            return UNKNOWN
        return vs[0] if len(vs) == 1 else Choice(vs)


class Tables:
    """Constant lists and tables kept in class attributes, in self.X built by __init__, in module variables."""

    def __init__(self, p):
        self.p, self.memo = p, {}

    def glob(self, g):
        k = ("g", g.module.name, g.name)
        if k not in self.memo:
            self.memo[k] = UNKNOWN
            stores = 0
            for n in ast.walk(g.module.tree):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == g.name:
                    stores += 1
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == g.name and n.func.attr in ("update", "append", "extend", "pop", "remove", "clear", "setdefault", "insert"):
                    stores += 1
            if not stores:
                w = Walk(self.p, _Mod(self.p, g.module), self, None)
                try:
                    v = w.ev(ModBody(g.module), {}, g.value) if g.value is not None else UNKNOWN
                except MayRaise:
                    v = UNKNOWN
                if not isinstance(v, (Choice, Types)) and (v is UNKNOWN or isinstance(v, (str, int, float, bool, list, tuple, dict, EnumVal)) or v is None):
                    self.memo[k] = v
        return self.memo[k]

    def returned_keys(self, g):
        """Keys of the dictionary a function returns, when every return is a literal with constant keys."""
        k = ("r", id(g.node))
        if k not in self.memo:
            rets = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return)]
            ok = bool(rets) and all(isinstance(r, ast.Dict) and r.keys and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in r.keys) for r in rets)
            if ok and (g.is_generator if hasattr(g, "is_generator") else any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node))):
                ok = False
            self.memo[k] = sorted({x.value for r in rets for x in r.keys}) if ok else None
        return self.memo[k]

    def of(self, c, attr):
        k = (c.qual, attr)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = UNKNOWN
        self.memo[k] = self._of(c, attr)
        return self.memo[k]

    def _of(self, c, attr):
        m = c.find_method(attr)
        if m is not None:
            if m.is_property:
                rets = [n for n in walk_own(m.node) if isinstance(n, ast.Return)]
                if len(rets) == 1 and rets[0].value is not None and rets[0] in m.node.body:
                    return self._in(m, rets[0].value)
            return UNKNOWN
        if attr in c.fields() and not attr.startswith("_"):
            f = c.fields()[attr]
            if not f.is_classvar:
                return UNKNOWN
        stores = []
        for k in reversed(c.project_mro()):
            for mm in list(k.methods.values()) + list(k.setters.values()):
                if k is not c and c.find_method(mm.name) is not mm and mm.name != "__init__" and mm.name not in k.setters:
                    continue
                mine = [n for n in walk_own(mm.node) if _is_self_attr(mm, n, attr)]
                stores += [(mm, n) for n in sorted(mine, key=lambda n: (n.lineno, n.col_offset))]
        events = []
        for mm, n in stores:
            par = _parents(mm)
            up = par.get(id(n))
            if isinstance(n.ctx, ast.Store):
                if isinstance(up, (ast.Assign, ast.AnnAssign)) and up.value is not None and (isinstance(up, ast.AnnAssign) or n in up.targets):
                    events.append((mm, up, "set", up.value))
                else:
                    return UNKNOWN
            elif isinstance(n.ctx, ast.Del):
                return UNKNOWN
            elif isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, (ast.Store, ast.Del)):
                a = par.get(id(up))
                if isinstance(a, ast.Assign) and up in a.targets:
                    events.append((mm, a, "item", (up.slice, a.value)))
                else:
                    return UNKNOWN
            elif isinstance(up, ast.Attribute) and isinstance(par.get(id(up)), ast.Call) and par[id(up)].func is up and up.attr in ("update", "append", "extend", "insert", "pop", "remove", "clear", "setdefault", "popitem"):
                if up.attr != "update" or len(par[id(up)].args) != 1:
                    return UNKNOWN
                events.append((mm, par.get(id(par[id(up)])), "update", par[id(up)].args[0]))
        if not events:
            ca = c.find_class_attr(attr)
            fi = c.fields().get(attr) if not attr.startswith('_') else None
            if ca is None:
                for k in c.project_mro():
                    for n in k.node.body:
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr and n.value is not None and fi is None:
                            ca = ca or (k, n.value)
            if ca is not None:
                v = ca[1]
                if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "PrivateAttr":
                    kw = {k.arg: k.value for k in v.keywords}
                    d = v.args[0] if v.args else kw.get("default")
                    if d is None and isinstance(kw.get("default_factory"), ast.Lambda):
                        d = kw["default_factory"].body
                    if d is None:
                        return UNKNOWN
                    ca = (ca[0], d)
            if ca is None and fi is not None and fi.is_classvar and fi.default is not None:
                return plain(literal(self.p, ModBody(fi.cls.module), fi.default))
            if ca is None or any(isinstance(n.ctx, ast.Store) for _, n in stores):
                return UNKNOWN
            w = Walk(self.p, _Mod(self.p, ca[0].module), self, None)
            v = w.ev(ModBody(ca[0].module), {}, ca[1])
            return UNKNOWN if isinstance(v, (Choice, Types)) else v
        cur = UNKNOWN
        for mm, stmt, kind, x in events:
            if mm.name != "__init__" or stmt not in mm.node.body:
                return UNKNOWN
            if kind == "set":
                cur = self._in(mm, x)
            elif not isinstance(cur, dict):
                return UNKNOWN
            elif kind == "update":
                v = self._in(mm, x)
                if not isinstance(v, dict):
                    return UNKNOWN
                cur = {**cur, **v}
            else:
                kk, v = self._in(mm, x[0]), self._in(mm, x[1])
                if not isinstance(kk, str):
                    return UNKNOWN
                cur = {**cur, kk: v}
        return cur

    def _in(self, m, e):
        w = Walk(self.p, m, self, None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and m.positional and e.func.value.id == m.positional[0] and m.cls is not None:
            g = m.cls.find_method(e.func.attr)
            if g is not None:
                a = [w.ev(m, {}, x) for x in e.args]
                if all(known(x) for x in a):
                    return fold(self.p, g, a if g.is_static else [UNKNOWN] + a, self)
            return UNKNOWN
        try:
            v = w.ev(m, {x: UNKNOWN for x in m.params}, e)
        except MayRaise:
            return UNKNOWN
        return UNKNOWN if isinstance(v, (Choice, Types)) else v


class _Mod:
    """Just enough of a function for evaluating a module level expression."""
    def __init__(self, p, module):
        self.module, self.cls, self.positional, self.params, self.is_static = module, None, [], [], True


def _is_self_attr(f, n, attr):
    return isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and f.positional and n.value.id == f.positional[0]


_PAR = {}


def _parents(f):
    if id(f.node) not in _PAR:
        d = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                d[id(c)] = n
        _PAR[id(f.node)] = (f.node, d)
    return _PAR[id(f.node)][1]


class Stop(Exception):
    pass


def fold(p, g, args, tables):
    """Value of a table-building function for constant arguments; UNKNOWN when anything in it is not constant."""
    w = Walk(p, g, tables, None)
    env = dict(zip(g.params, args))
    fuel = [20000]

    def ex(e):
        v = w.ev(g, env, e)
        if v is UNKNOWN or isinstance(v, (Choice, Types)):
            raise Stop
        return v

    class Ret(Exception):
        pass

    class Flow(Exception):
        pass

    def blk(stmts):
        for s in stmts:
            fuel[0] -= 1
            if fuel[0] < 0:
                raise Stop
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                v = ex(s.value)
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), dict):
                    env[t.value.id][ex(t.slice)] = v
                else:
                    raise Stop
            elif isinstance(s, ast.If):
                blk(s.body if ex(s.test) else s.orelse)
            elif isinstance(s, ast.For) and not s.orelse:
                for x in ex(s.iter):
                    e2 = dict(env)
                    w.bind(e2, s.target, x)
                    env.update(e2)
                    try:
                        blk(s.body)
                    except Flow as f:
                        if f.args[0] == "break":
                            break
            elif isinstance(s, ast.Continue):
                raise Flow("continue")
            elif isinstance(s, ast.Break):
                raise Flow("break")
            elif isinstance(s, ast.Return):
                raise Ret(ex(s.value) if s.value is not None else None)
            else:
                raise Stop
    try:
        blk(g.node.body)
        return None
    except Ret as r:
        return r.args[0]
    except (Stop, MayRaise):
        return UNKNOWN


def _results(e):
    """The expressions whose value the expression may have."""
    if isinstance(e, ast.IfExp):
        return _results(e.body) + _results(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in _results(v)]
    return [e]


class Hook:
    def __init__(self, p, res, eng):
        self.p, self.res, self.mem = p, res, Members(p)
        self.seen_types, self.subs, self.guards, self.choices = {}, {}, {}, {}
        self.named = name_params(p)
        self.own_tables = own_name_tables(p)
        self.table_methods = {f.name for f in p.functions if id(f.node) in self.own_tables}
        self.thru, self.incoming, self.incoming2, self.quiet = {}, {}, {}, True
        eng.observe(self.on)

    def on(self, f, kind, node, b, attr, extra):
        if kind == "load" and b.ty:
            k = id(node.value)
            self.seen_types[k] = self.seen_types.get(k, E0) | b.ty
        elif kind == "arg" and b.ty:
            self.seen_types[id(node)] = self.seen_types.get(id(node), E0) | b.ty

    def family(self, c):
        if id(c) not in self.subs:
            self.subs[id(c)] = [c] + self.p.subclasses(c, strict=True)
        return self.subs[id(c)]

    # ---- what an expression is ------------------------------------------
    def types(self, w, env, e):
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), Types):
            return env[e.id].ty
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2:
            ks = w.vals(env, e.args[1])
            if ks and all(isinstance(k, str) for k in ks):
                base = self.types(w, env, e.args[0])
                out = E0
                for k in ks:
                    t = self.attr_types(base, k)
                    if not t:
                        return E0
                    out |= t
                return out
            return E0
        if isinstance(e, ast.Name) and e.id in self.made_by_choice(w.f):
            return E0
        t = self.seen_types.get(id(e), E0)
        if t:
            return t
        if isinstance(e, ast.Name) and w.f.cls is not None and w.f.positional and not w.f.is_static and e.id == w.f.positional[0] and not w.f.is_classmethod:
            return frozenset([w.f.cls])
        return E0

    def made_by_choice(self, f):
        """Names given the result of calling a value looked up at run time: their class is not known."""
        if id(f.node) not in self.choices:
            local = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(f.params)
            out = set()
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(c, ast.Call) and (isinstance(c.func, (ast.Subscript, ast.Call, ast.IfExp, ast.BoolOp)) or isinstance(c.func, ast.Name) and c.func.id in local)
                                                     for c in _results(n.value)):
                    out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            self.choices[id(f.node)] = out
        return self.choices[id(f.node)]

    def passed(self, w, call):
        """The argument a self.method(...) call always hands back, if it does."""
        g = self.own_method(w.f, call)
        if g is None:
            return None
        if id(g.node) not in self.thru:
            rets = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return)]
            nm = {r.id for r in rets if isinstance(r, ast.Name)}
            ok = rets and all(isinstance(r, ast.Name) for r in rets) and len(nm) == 1 and nm <= set(g.params)
            if ok:
                q = next(iter(nm))
                for n in walk_own(g.node):
                    if isinstance(n, ast.Name) and n.id == q and isinstance(n.ctx, ast.Store):
                        ok = False
            self.thru[id(g.node)] = next(iter(nm)) if ok else None
        q = self.thru[id(g.node)]
        return bind_arg(g, call, q) if q else None

    def own_method(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.positional and fn.value.id == f.positional[0] and not f.is_static:
            g = f.cls.find_method(fn.attr)
            if g is not None and not g.is_property:
                return g
        return None

    def param_types(self, f):
        return {q: frozenset(t) for q, t in self.incoming.get(id(f.node), {}).items() if t and None not in t}

    def collect(self, w, env, call):
        g = self.own_method(w.f, call)
        if g is None or not g.name.startswith("_") or g.name.startswith("__"):
            return
        d = self.incoming2.setdefault(id(g.node), {})
        for q in g.params[0 if g.is_static else 1:]:
            a = bind_arg(g, call, q)
            ty = self.types(w, env, a) if a is not None else E0
            d.setdefault(q, set()).update(ty or {None})

    def attr_types(self, base, name):
        out = E0
        for c in base:
            for k in [c]:
                fi = k.fields().get(name)
                if fi is not None:
                    out |= ann_types(self.p, fi.cls.module, fi.annotation)[0]
                    continue
                m = k.find_method(name)
                if m is not None and m.is_property:
                    out |= ann_types(self.p, m.module, m.node.returns)[0]
                    continue
                for mro in k.project_mro():
                    for mm in mro.methods.values():
                        for n in walk_own(mm.node):
                            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(_is_self_attr(mm, t, name) for t in n.targets):
                                ent = resolve(self.p, mm, n.value.func)
                                if isinstance(ent, ClassInfo):
                                    out |= {ent}
        return out

    def declares(self, c, name):
        if not c.is_model:
            return self.mem.declares(c, name)
        if name.startswith("__") and name.endswith("__") or name in MODEL_ATTRS or name.startswith("model_") or not self.mem.known(c):
            return True
        for k in c.project_mro():
            if name in k.methods or name in k.setters or name in k.own_fields or name in k.class_attrs:
                return True
            if name.startswith("_") and name in self.mem.own(k)[0]:
                return True
        return False

    def scalar(self, c, name):
        fi = c.fields().get(name)
        return fi is not None and ann_is_scalar(_inner(fi.annotation))

    def missing(self, ty, path):
        """The first part of the dotted name none of the classes declares, with those classes; or None."""
        parts = path.split(".")
        cur = ty
        for i, part in enumerate(parts):
            fam = {k for c in cur for k in self.family(c)}
            if not fam or any(not self.mem.known(k) for k in fam):
                return None
            if not any(self.declares(k, part) for k in fam):
                return part, cur
            if i + 1 < len(parts):
                if any(k.find_method(part) is not None for k in fam):
                    nxt = self.attr_types(fam, part)
                    if not nxt:
                        return None
                elif all(self.scalar(k, part) for k in fam if self.declares(k, part)):
                    return f"{part}.{parts[i + 1]}", cur
                else:
                    nxt = self.attr_types(fam, part)
                cur = nxt
        return None

    def judge(self, w, env, call, recv, names, what):
        ty = self.types(w, env, recv)
        f = w.f
        if not ty:
            self.res.count("names applied to an object whose class is not known (not decided)")
            return
        for nm in names:
            if not isinstance(nm, str) or not nm:
                continue
            self.res.count("obligations: names looked up in a declared class")
            bad = self.missing(ty, nm)
            if bad is None:
                continue
            fake = ast.copy_location(ast.Attribute(value=recv, attr=nm.split(".")[0], ctx=ast.Load()), call)
            if self.protected(f, call, recv, nm):
                continue
            cls = ", ".join(sorted(c.name for c in bad[1]))
            self.res.add("no-such-name", f"{f.short}:{nm}", f.loc(call), f"'{txt(call, 90)}' {what} '{nm}', but {cls} declares no '{bad[0]}'")

    def lookup(self, w, env, node):
        """table["key"] with table and key both known."""
        if isinstance(node.value, ast.Name) and node.value.id in w.f.params:
            return
        tabs, keys = w.vals(env, node.value), w.vals(env, node.slice)
        if not tabs or not keys or not all(isinstance(t, dict) and t for t in tabs) or not all(isinstance(k, (str, int, type(None))) for k in keys):
            return
        self.res.count("obligations: keys looked up in a known table")
        for k in keys:
            if all(k not in t for t in tabs) and not self.protected(w.f, node, node.value, str(k)):
                self.res.add("no-such-key", f"{w.f.short}:{k}", w.f.loc(node), f"'{txt(node, 90)}' looks up {k!r}, the table only has {', '.join(map(repr, list(tabs[0])[:8]))}")

    def protected(self, f, call, recv, nm):
        """hasattr on the same object, or a handler for the failure, makes the missing name harmless."""
        r = txt(recv, 300)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and n.args and txt(n.args[0], 300) == r:
                return True
        par = _parents(f)
        n = call
        while id(n) in par:
            up = par[id(n)]
            if isinstance(up, ast.Try) and n in up.body:
                for h in up.handlers:
                    hs = [dotted(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["Exception"]
                    if any((x or "").split(".")[-1] in ("AttributeError", "KeyError", "Exception", "BaseException") for x in hs) and not _reraises(h):
                        return True
            n = up
        return False

    def __call__(self, w, env, call):
        f = w.f
        if isinstance(call, ast.Subscript):
            if not self.quiet:
                self.lookup(w, env, call)
            return
        fn = call.func
        if self.quiet:
            self.collect(w, env, call)
            return
        if isinstance(fn, ast.Name) and fn.id in ("setattr", "getattr") and len(call.args) >= 2:
            if fn.id == "getattr" and len(call.args) > 2:
                return
            names = w.vals(env, call.args[1])
            self.res.count("sites: attribute named by text")
            if names is None:
                self.res.count("sites: name not known at the site (not decided)")
                names = _put_in(f, call.args[1])
            self.judge(w, env, call, call.args[0], names, "stores" if fn.id == "setattr" else "reads")
            return
        if isinstance(fn, ast.Attribute) and fn.attr in SETTERS | GETTERS and call.args:
            names = w.vals(env, call.args[0])
            self.res.count("sites: attribute named by text")
            if names is None:
                self.res.count("sites: name not known at the site (not decided)")
                names = _put_in(f, call.args[0])
            self.judge(w, env, call, fn.value, names, "stores" if fn.attr in SETTERS else "reads")
            return
        if isinstance(fn, ast.Attribute) and fn.attr == "from_dict" and call.args:
            v = w.ev(f, env, call.args[0])
            if isinstance(v, dict) and v and all(isinstance(k, str) for k in v):
                self.res.count("sites: object filled from a literal dictionary")
                if len(v) == 1:
                    v = next(iter(v.values()))
                    if not isinstance(v, dict):
                        return
                names = []

                def flat(d, pre):
                    for k, x in d.items():
                        if isinstance(k, str):
                            if isinstance(x, dict) and x:
                                flat(x, pre + k + ".")
                            else:
                                names.append(pre + k)
                flat(v, "")
                self.judge(w, env, call, fn.value, names, "fills")
            return
        self.tabled(w, env, call)
        r = resolve(self.p, f, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(r, FuncInfo) and id(r.node) in self.named:
            for recv, nm in self.named[id(r.node)]:
                a = bind_arg(r, call, recv)
                b = bind_arg(r, call, nm)
                if a is None or b is None:
                    continue
                vs = w.vals(env, b)
                self.res.count("sites: list of attribute names handed to a function")
                if vs is None:
                    self.res.count("sites: name not known at the site (not decided)")
                    continue
                names = []
                for v in vs:
                    names += [x for x in v if isinstance(x, str)] if isinstance(v, (list, tuple)) else [v] if isinstance(v, str) else []
                self.judge(w, env, call, a, names, "names")


    def tabled(self, w, env, call):
        """obj.method(target) where the method applies the names in a table of obj to target."""
        fn = call.func
        if not isinstance(fn, ast.Attribute) or fn.attr not in self.table_methods:
            return
        for c in self.types(w, env, fn.value):
            g = c.find_method(fn.attr)
            for q, attr in self.own_tables.get(id(g.node), ()) if g is not None else ():
                a = bind_arg(g, call, q)
                t = w.tables.of(c, attr)
                if a is None:
                    continue
                self.res.count("sites: list of attribute names handed to a function")
                names, st = [], list(t) if isinstance(t, (list, tuple)) else []
                while st:
                    x = st.pop()
                    if isinstance(x, dict):
                        st += list(x.values())
                    elif isinstance(x, (list, tuple)):
                        st += x
                    elif isinstance(x, str):
                        names.append(x)
                if not names:
                    self.res.count("sites: name not known at the site (not decided)")
                    continue
                self.judge(w, env, call, a, sorted(names), "reads")


def _put_in(f, e):
    """Constants the function itself writes into the variable before it uses it as a name: key = "latitude" in some branch."""
    if not isinstance(e, ast.Name):
        return []
    out, asked = [], set()
    for n in walk_own(f.node):
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(n, fld, None) if n is not f.node else None
            if isinstance(blk, list) and not any(isinstance(s, (ast.Continue, ast.Return, ast.Break, ast.Raise)) for s in blk):
                out += [const_str(s.value) for s in blk if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id and const_str(s.value)]
        if isinstance(n, ast.Compare):
            asked |= {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return [x for x in dict.fromkeys(out) if x not in asked]


def _inner(ann):
    if isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] == "Annotated" and isinstance(ann.slice, ast.Tuple):
        return ann.slice.elts[0]
    return ann


def _reraises(h):
    return any(isinstance(n, ast.Raise) for n in ast.walk(h))


def bind_arg(g, call, param):
    for k in call.keywords:
        if k.arg == param:
            return k.value
    pos = list(g.positional)
    if g.cls is not None and not g.is_static and isinstance(call.func, ast.Attribute) and pos:
        if param == pos[0]:
            return call.func.value
        pos = pos[1:]
    if param in pos:
        i = pos.index(param)
        if i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return call.args[i]
    return None


def name_params(p):
    """{function: [(object parameter, parameter holding the name or list of names)]}"""
    out = {}
    for f in p.functions:
        ps = set(f.params)
        if len(ps) < 2:
            continue
        loops = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Name) and n.iter.id in ps:
                loops[n.target.id] = n.iter.id
        stored = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        got = set()
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr") and len(n.args) >= 2 and not (n.func.id == "getattr" and len(n.args) > 2):
                o, k = n.args[0], n.args[1]
            elif isinstance(n.func, ast.Attribute) and n.func.attr in SETTERS | GETTERS and n.args:
                o, k = n.func.value, n.args[0]
            else:
                continue
            if isinstance(o, ast.Name) and o.id in ps and o.id not in stored and isinstance(k, ast.Name):
                kk = loops.get(k.id, k.id if k.id in ps and k.id not in stored else None)
                if kk and not any(isinstance(c, ast.Compare) and any(isinstance(x, ast.Name) and x.id == k.id for x in ast.walk(c)) for c in walk_own(f.node)):
                    got.add((o.id, kk))        # (a name the function tests first may be one it does not apply)
        if got and f.name not in SETTERS | GETTERS:
            out[id(f.node)] = sorted(got)
    return out


def own_name_tables(p):
    """{method: [(object parameter, attribute of self listing the names applied to it)]}"""
    out = {}
    for f in p.functions:
        if f.cls is None or f.is_static or len(f.positional) < 2:
            continue
        me = f.positional[0]
        src = {}

        def table(e):
            while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sorted", "list", "tuple", "set", "reversed") and len(e.args) == 1:
                e = e.args[0]
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                return e.attr
            if isinstance(e, ast.Subscript):
                e = e.value
            return src.get(e.id) if isinstance(e, ast.Name) else None
        for _ in range(3):
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    t = table(n.value)
                    if t:
                        src[n.targets[0].id] = t
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    t = table(n.iter)
                    if t:
                        src[n.target.id] = t
        stored = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        got = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SETTERS | GETTERS and n.args:
                o, k = n.func.value, n.args[0]
                if isinstance(o, ast.Name) and o.id in f.params[1:] and o.id not in stored and isinstance(k, ast.Name) and k.id in src:
                    got.add((o.id, src[k.id]))
        if got:
            out[id(f.node)] = sorted(got)
    return out


READERS = {"len", "list", "sorted", "str", "repr", "print", "dict", "tuple", "set", "isinstance", "bool", "any", "all", "enumerate", "zip", "iter", "json.dumps", "copy.deepcopy", "deepcopy", "OrderedDict"}


def _closed_keys(f, name, par, results=None, p=None):
    """Every key local dictionary `name` can ever have, or None when that is not visible in the function."""
    if name in f.params:
        return None
    keys, born = set(), False
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return None
        if isinstance(n, ast.NamedExpr) and n.target.id == name:
            return None
        if not (isinstance(n, ast.Name) and n.id == name):
            continue
        up = par.get(id(n))
        if isinstance(n.ctx, ast.Store):
            v = up.value if isinstance(up, (ast.Assign, ast.AnnAssign)) and not isinstance(n, ast.Tuple) else None
            got = dict_keys(v)
            if got is None and results is not None and isinstance(v, ast.Call):
                got = results(f, v)
            if got is None:
                return None
            born = True
            keys |= got
        elif isinstance(n.ctx, ast.Del):
            continue
        elif isinstance(up, ast.Subscript) and up.value is n:
            if isinstance(up.ctx, ast.Store):
                if not (isinstance(up.slice, ast.Constant)):
                    return None
                keys.add(up.slice.value)
            elif isinstance(up.ctx, ast.Load) and False:
                return None
        elif isinstance(up, ast.Attribute):
            call = par.get(id(up))
            if not isinstance(call, ast.Call) or call.func is not up:
                return None
            if up.attr in ("get", "items", "keys", "values", "copy", "pop", "popitem", "clear"):
                continue
            if up.attr == "update" and not call.args and all(k.arg for k in call.keywords):
                keys |= {k.arg for k in call.keywords}
            elif up.attr == "update" and len(call.args) == 1 and not call.keywords and dict_keys(call.args[0]) is not None:
                keys |= dict_keys(call.args[0])
            elif up.attr == "setdefault" and call.args and isinstance(call.args[0], ast.Constant):
                keys.add(call.args[0].value)
            else:
                return None
        elif isinstance(up, ast.keyword) and up.arg is None or isinstance(up, (ast.Compare, ast.For, ast.comprehension, ast.FormattedValue, ast.Return, ast.If, ast.BoolOp, ast.UnaryOp, ast.Expr)):
            continue
        elif isinstance(up, ast.Dict) and any(k is None and v is n for k, v in zip(up.keys, up.values)):
            continue
        elif isinstance(up, ast.Call) and n in up.args and dotted(up.func) in READERS:
            continue
        else:
            return None
    return keys if born else None


def dict_keys(v):
    """Keys of a dictionary display, or None."""
    if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
        return {k.value for k in v.keys}
    if isinstance(v, ast.Call) and dotted(v.func) in ("dict", "OrderedDict", "collections.OrderedDict") and not v.args and all(k.arg for k in v.keywords):
        return {k.arg for k in v.keywords}
    return None


def _local_keys_rule(p, res):
    """d = {}; d["a"] = ...; d["b"]: a local dictionary is only read with the keys it is given."""
    memo = {}

    def parents_of(f):
        if id(f.node) not in memo:
            memo[id(f.node)] = {id(c): n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
        return memo[id(f.node)]

    rmemo = {}

    def result(f, call):
        g = resolve(p, f, call.func)
        if not isinstance(g, FuncInfo) or g.is_property or g.deco_names and set(g.deco_names) - {"staticmethod", "classmethod"}:
            return None
        if g.cls is not None and any(g.name in c.methods for c in p.subclasses(g.cls, strict=True)):
            return None
        if id(g.node) not in rmemo:
            rmemo[id(g.node)] = None
            out = set()
            rets = [n for n in walk_own(g.node) if isinstance(n, ast.Return)]
            for r in rets:
                k = dict_keys(r.value) if not isinstance(r.value, ast.Name) else _closed_keys(g, r.value.id, parents_of(g))
                if k is None:
                    out = None
                    break
                out |= k
            if rets and out is not None and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node)):
                rmemo[id(g.node)] = out
        return rmemo[id(g.node)]

    for f in p.functions:
        if f.parent is not None:
            continue
        par = parents_of(f)
        memo_keys = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                d = n.value.id
                if d not in memo_keys:
                    memo_keys[d] = _closed_keys(f, d, par, result, p)
                if memo_keys[d] is None:
                    continue
                res.count("obligations: keys read from a local dictionary")
                if n.slice.value not in memo_keys[d] and not _caught(par, n, d):
                    res.add("no-such-key", f"{f.short}:{d}[{n.slice.value!r}]", f.loc(n), f"'{txt(n, 90)}' looks up {n.slice.value!r}, {d} is only ever given {', '.join(map(repr, sorted(map(str, memo_keys[d]))[:10]))}")


def _caught(par, n, d):
    while id(n) in par:
        up = par[id(n)]
        if isinstance(up, ast.Try) and n in up.body and any(h.type is None or any(x in txt(h.type) for x in ("KeyError", "LookupError", "Exception")) for h in up.handlers):
            return True
        if isinstance(up, ast.If) and n is not up.test and any(isinstance(c, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops) and any(isinstance(x, ast.Name) and x.id == d for x in ast.walk(c)) for c in ast.walk(up.test)):
            return True
        n = up
    return False


def _all(p, res, engine=None):
    _local_keys_rule(p, res)
    hook = Hook(p, res, engine or Effects(p))
    tables = Tables(p)
    todo = [f for f in p.functions if any(isinstance(n, ast.Call) for n in walk_own(f.node))]
    # what the private helpers are called with is learnt first
    for f in todo:
        if f.cls is not None:
            Walk(p, f, tables, hook).run()
    hook.incoming, hook.quiet = hook.incoming2, False
    for f in todo:
        Walk(p, f, tables, hook).run()
    res.count("functions walked", len(todo))


BAD = '''
from typing import Annotated
from pydantic import BaseModel, Field
class Place(BaseModel):
    latitude: Annotated[float, Field(default=0.0)]
    longitude: Annotated[float, Field(default=0.0)]
    label: str = ""
    _order: list = ["latitude", "longitud"]
    def update_attribute(self, name, value):
        pass
    def write(self):
        for k in self._order:
            yield getattr(self, k)
class Site(BaseModel):
    place: Place = Place()
    name: str = ""
    def update_attribute(self, name, value):
        pass
    def get_attr_from_name(self, name):
        pass
TABLE = {"lat": "place.latitude", "lon": "place.longitude", "nm": "nam"}
def put(site, key, order):
    for o in order:
        getattr(site, o)
class Base:
    names = []
    def comments(self, element):
        keys = sorted(self.names)
        for k in keys:
            element.get_attr_from_name(k)
class Reader(Base):
    def __init__(self):
        self.names = ["name", "nome"]
        self.table = {"a": "place.lat"}
        self.table.update({"b": "name", "c": None})
        self.back = self.flip(self.table)
    @staticmethod
    def flip(d):
        out = {}
        for k, v in d.items():
            if v is None:
                continue
            out[v] = k
        return out
    def read(self, line):
        site = Site()
        key, value = line.split("=")
        site.update_attribute(TABLE[key], value)
        for k, v in self.table.items():
            if v is not None:
                site.update_attribute(v, value)
        for k in self.back:
            site.get_attr_from_name(k)
        for comp in ["x", "name"]:
            setattr(site, comp, 1)
        site.update_attribute("name.first", 1)
        put(site, "k", order=["name", "naam"])
        self.comments(site)
        row = {"first": 1}
        row["second"] = 2
        row["frist"]
        return TABLE["long"]
'''
GOOD = '''
from typing import Annotated
from pydantic import BaseModel, Field
class Place(BaseModel):
    latitude: Annotated[float, Field(default=0.0)]
    longitude: Annotated[float, Field(default=0.0)]
    def update_attribute(self, name, value):
        pass
class Site(BaseModel):
    place: Place = Place()
    name: str = ""
    def update_attribute(self, name, value):
        pass
TABLE = {"lat": "place.latitude", "lon": "place.longitude", "nm": "name", "skip": "special"}
def read(site, line):
    if not isinstance(site, Site):
        raise TypeError(site)
    for k, v in TABLE.items():
        if v == "special":
            continue
        site.update_attribute(v, k)
    key, value = line.split("=")
    if key == "comment":
        target = "name"
    elif key in ["lat", "lon"]:
        target = f"place.{key}itude"
        target = target.replace("lonitude", "longitude")
    else:
        target = None
    if target is not None:
        site.update_attribute(target, value)
    if hasattr(site, "old"):
        setattr(site, "old", 1)
    try:
        site.update_attribute("legacy", 1)
    except AttributeError:
        pass
    local = {}
    local[key] = 1
    return local["later"], TABLE["lat"]
'''


def c23(p, tier):
    res = Result("C23", "every attribute name kept as text (constant, loop over a literal, translation table, key list, dictionary handed to from_dict) is followed to the object it is applied to; "
                 "each part of the dotted name must be declared by that object's class; a constant key looked up in a constant table must be in it")
    _all(p, res)
    must_fire(res, "no-such-name", _all, BAD, 7)
    must_fire(res, "no-such-key", _all, BAD, 2)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: names looked up in a declared class": 300, "obligations: keys looked up in a known table": 10}
    res.assumptions = ["names assembled from file content, and objects whose class is not known, are counted as not decided", "hasattr on the same object or a handler for the failure makes a missing name harmless"]
    return res


CHECKS = {"C23": c23}
