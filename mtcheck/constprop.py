"""Conditional constant propagation through one function for a known argument.

Values are Python constants or UNKNOWN.  A branch whose test is unknown is followed both ways, a
loop body is followed once with everything it assigns unknown, a try body whose success is not
certain also reaches its handlers.  The result is the set of possible ends of the function:
("raise", None), ("return", value) - so "every end is a raise" is a definite statement.
"""
import ast

from .names import resolve
from .project import ClassInfo, External, FuncInfo, GlobalVar

SAFE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "startswith", "endswith", "title", "capitalize", "count", "isspace", "isdigit", "join", "find"}
TYPES = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.list": list,
         "builtins.tuple": tuple, "builtins.dict": dict, "builtins.set": set, "builtins.complex": complex}


class _U:
    def __repr__(self):
        return "?"


UNKNOWN = _U()


class MayRaise(Exception):
    """The expression certainly raises."""


class Prop:
    def __init__(self, p, literal, depth=0):
        self.p, self.literal, self.depth = p, literal, depth
        self.uncertain = False

    # ---- expressions ---------------------------------------------------
    def ev(self, ctx, env, e):
        try:
            return self._ev(ctx, env, e)
        except MayRaise:
            raise
        except Exception:
            self.uncertain = True
            return UNKNOWN

    def _ev(self, ctx, env, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self._static(ctx, e)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            v = [self.ev(ctx, env, x) for x in e.elts]
            return UNKNOWN if any(x is UNKNOWN for x in v) else (v if isinstance(e, ast.List) else tuple(v))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(ctx, env, e.operand)
            if v is UNKNOWN:
                return UNKNOWN
            return {ast.Not: lambda x: not x, ast.USub: lambda x: -x, ast.UAdd: lambda x: +x}.get(type(e.op), lambda x: UNKNOWN)(v)
        if isinstance(e, ast.BoolOp):
            out = None
            unk = False
            for x in e.values:
                v = self.ev(ctx, env, x)
                if v is UNKNOWN:
                    unk = True
                    continue
                if isinstance(e.op, ast.And) and not v:
                    return False if unk else v
                if isinstance(e.op, ast.Or) and v:
                    return UNKNOWN if unk and not isinstance(v, bool) else v
                out = v
            return UNKNOWN if unk else out
        if isinstance(e, ast.Compare):
            left = self.ev(ctx, env, e.left)
            res = True
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(ctx, env, c)
                if left is UNKNOWN or right is UNKNOWN:
                    return UNKNOWN
                try:
                    r = self._cmp(op, left, right)
                except TypeError:
                    raise MayRaise()
                if r is UNKNOWN:
                    return UNKNOWN
                if not r:
                    return False
                left = right
            return res
        if isinstance(e, ast.IfExp):
            t = self.ev(ctx, env, e.test)
            if t is UNKNOWN:
                return UNKNOWN
            return self.ev(ctx, env, e.body if t else e.orelse)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = self.ev(ctx, env, e.left), self.ev(ctx, env, e.right)
            if a is UNKNOWN or b is UNKNOWN:
                return UNKNOWN
            try:
                return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
            except TypeError:
                raise MayRaise()
        if isinstance(e, ast.Subscript):
            b = self.ev(ctx, env, e.value)
            i = self.ev(ctx, env, e.slice) if not isinstance(e.slice, ast.Slice) else UNKNOWN
            if isinstance(b, EnumNS) and isinstance(i, str):
                if i in b.members:
                    return EnumVal(b.members[i])
                raise MayRaise()
            if b is UNKNOWN or i is UNKNOWN:
                return UNKNOWN
            if isinstance(b, (list, tuple, dict, str)):
                try:
                    return b[i]
                except (KeyError, IndexError, TypeError):
                    raise MayRaise()
            return UNKNOWN
        if isinstance(e, ast.Attribute):
            b = self.ev(ctx, env, e.value)
            if isinstance(b, EnumVal) and e.attr == "value":
                return b.value
            if isinstance(b, EnumNS):
                if e.attr == "__members__":
                    return b.members
                if e.attr in b.members:
                    return EnumVal(b.members[e.attr])
                return UNKNOWN
            if b is UNKNOWN:
                return self._static(ctx, e)
            if b is None and not hasattr(None, e.attr):
                raise MayRaise()
            return UNKNOWN
        if isinstance(e, ast.JoinedStr):
            return UNKNOWN
        if isinstance(e, ast.Call):
            return self._call(ctx, env, e)
        self.uncertain = True
        return UNKNOWN

    @staticmethod
    def _cmp(op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            else:
                return UNKNOWN
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = a in b
            return r if isinstance(op, ast.In) else not r
        f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]
        return f()

    def _static(self, ctx, e):
        r = resolve(self.p, ctx, e)
        if isinstance(r, ClassInfo) and r.is_enum:
            if any(kw.arg == "metaclass" for k in r.project_mro() for kw in k.node.keywords):
                return UNKNOWN          # members are made at import time
            mem = {}
            for k in reversed(r.project_mro()):
                for n, v in k.class_attrs.items():
                    if isinstance(v, ast.Constant):
                        mem[n] = v.value
            return EnumNS(mem)
        v = self.literal(self.p, ctx, e)
        return v if v is None or isinstance(v, (str, int, float, bool, list, tuple, dict)) and not _has_odd(v) else UNKNOWN

    def _call(self, ctx, env, e):
        fn = e.func
        args = [self.ev(ctx, env, a) for a in e.args]
        r = resolve(self.p, ctx, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(r, External):
            if r.dotted == "builtins.isinstance" and len(args) == 2:
                if args[0] is UNKNOWN:
                    return UNKNOWN
                return self._isinstance(ctx, args[0], e.args[1])
            if r.dotted == "builtins.len" and args and args[0] is not UNKNOWN:
                try:
                    return len(args[0])
                except TypeError:
                    raise MayRaise()
            if r.dotted in ("builtins.float", "builtins.int", "builtins.str") and len(args) == 1:
                if args[0] is UNKNOWN:
                    self.uncertain = True
                    return UNKNOWN
                try:
                    return {"float": float, "int": int, "str": str}[r.dotted.split(".")[1]](args[0])
                except (ValueError, TypeError):
                    raise MayRaise()
        if isinstance(r, ClassInfo) and r.is_enum and len(args) == 1 and args[0] is not UNKNOWN and isinstance(self._static(ctx, fn), EnumNS):
            mem = self._static(ctx, fn).members
            if args[0] in mem.values():
                return EnumVal(args[0])
            if r.find_method("_missing_") is None and r.find_method("__new__") is None and all(k.find_method("_missing_") is None for k in r.project_mro()):
                raise MayRaise()
            self.uncertain = True
            return UNKNOWN
        if isinstance(r, FuncInfo) and self.depth < 3 and not r.cls and not e.keywords:
            ends = run(self.p, r, dict(zip(r.params, args)), self.literal, self.depth + 1)
            if ends and all(k == "raise" for k, _ in ends):
                raise MayRaise()
            self.uncertain = self.uncertain or any(k == "raise" for k, _ in ends)
            vals = [v for k, v in ends if k == "return"]
            if len(vals) == len(ends) == 1:
                return vals[0]
            return UNKNOWN
        if isinstance(fn, ast.Attribute) and fn.attr in SAFE_STR and not e.keywords:
            b = self.ev(ctx, env, fn.value)
            if b is None:
                raise MayRaise()
            if isinstance(b, str) and all(a is not UNKNOWN for a in args):
                return getattr(b, fn.attr)(*args)
        if isinstance(fn, ast.Attribute):
            b = self.ev(ctx, env, fn.value) if not isinstance(r, (External, FuncInfo, ClassInfo)) else UNKNOWN
            if b is None:
                raise MayRaise()
        self.uncertain = True
        return UNKNOWN

    def _isinstance(self, ctx, v, t):
        if isinstance(t, ast.Tuple):
            rs = [self._isinstance(ctx, v, x) for x in t.elts]
            return True if any(x is True for x in rs) else (UNKNOWN if any(x is UNKNOWN for x in rs) else False)
        if isinstance(t, ast.BinOp):
            return self._isinstance(ctx, v, ast.Tuple(elts=[t.left, t.right], ctx=ast.Load()))
        if isinstance(t, ast.Constant) and t.value is None:
            return v is None
        r = resolve(self.p, ctx, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        if isinstance(r, External):
            if r.dotted in TYPES:
                return isinstance(v, TYPES[r.dotted])
            if r.dotted.split(".")[0] in ("numpy", "pandas", "pydantic", "pathlib", "xarray", "datetime", "collections"):
                return False if v is None or isinstance(v, (str, int, float, bool, list, tuple)) else UNKNOWN
        if isinstance(r, ClassInfo):
            return False if v is None or isinstance(v, (str, int, float, bool, list, tuple)) else UNKNOWN
        return UNKNOWN

    # ---- statements ----------------------------------------------------
    def block(self, ctx, env, stmts):
        """[(kind, payload)]: raise / return value / fall env / loop (break, continue)."""
        states, ends = [env], []
        for s in stmts:
            nxt = []
            for st in states:
                for k, v in self.stmt(ctx, st, s):
                    (nxt if k == "fall" else ends).append(v if k == "fall" else (k, v))
            states = nxt[:64]
            if not states:
                break
        return ends + [("fall", st) for st in states]

    def stmt(self, ctx, env, s):
        try:
            return self._stmt(ctx, env, s)
        except MayRaise:
            return [("raise", None)]

    def _stmt(self, ctx, env, s):
        if isinstance(s, ast.Return):
            return [("return", self.ev(ctx, env, s.value) if s.value is not None else None)]
        if isinstance(s, ast.Raise):
            return [("raise", None)]
        if isinstance(s, ast.Assert):
            t = self.ev(ctx, env, s.test)
            return [("fall", env)] if t is not False else [("raise", None)]
        if isinstance(s, ast.If):
            t = self.ev(ctx, env, s.test)
            out = []
            if t is UNKNOWN or t:
                out += self.block(ctx, dict(env), s.body)
            if t is UNKNOWN or not t:
                out += self.block(ctx, dict(env), s.orelse)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = self.ev(ctx, env, s.value) if s.value is not None else UNKNOWN
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        env[n.id] = v if n is t else UNKNOWN
            return [("fall", env)]
        if isinstance(s, ast.Try):
            u, self.uncertain = self.uncertain, False
            out, body = [], self.block(ctx, dict(env), s.body)
            doubt, self.uncertain = self.uncertain, u
            raised = any(k == "raise" for k, _ in body)
            for k, v in body:
                if k == "raise":
                    if not s.handlers:
                        out.append((k, v))
                elif k == "fall":
                    out += self.block(ctx, v, s.orelse)
                else:
                    out.append((k, v))
            if raised or doubt:
                e2 = self._havoc(env, s.body)
                for h in s.handlers:
                    out += self.block(ctx, dict(e2), h.body)
                if doubt and raised:
                    out.append(("raise", None))
            if s.finalbody:
                out = [x for k, v in out for x in (self.block(ctx, v, s.finalbody) if k == "fall" else [(k, v)])]
            return out
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
            it = self.ev(ctx, env, s.iter)
            if isinstance(it, (list, tuple)) and len(it) <= 20 and not s.orelse:
                states, out = [dict(env)], []
                for x in it:
                    nxt = []
                    for st in states:
                        for k, v in self.block(ctx, dict(st, **{s.target.id: x}), s.body):
                            if k == "fall":
                                nxt.append(v)
                            elif k == "loop":
                                nxt.append(self._havoc(st, [s]))
                            else:
                                out.append((k, v))
                    states = nxt[:16]
                return out + [("fall", st) for st in states]
        if isinstance(s, (ast.For, ast.While)):
            e2 = self._havoc(env, [s])
            out = [("fall", e2)]
            out += [(k, v) for k, v in self.block(ctx, dict(e2), s.body) if k in ("return", "raise")]
            return out
        if isinstance(s, ast.With):
            return self.block(ctx, self._havoc(env, []), s.body)
        if isinstance(s, (ast.Break, ast.Continue)):
            return [("loop", None)]
        if isinstance(s, ast.Expr):
            self.ev(ctx, env, s.value)
            return [("fall", self._havoc(env, [s]))]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return [("fall", env)]
        return [("fall", self._havoc(env, [s]))]

    @staticmethod
    def _havoc(env, stmts):
        env = dict(env)
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    env[n.id] = UNKNOWN
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if isinstance(env.get(n.func.value.id), (list, dict)):
                        env[n.func.value.id] = UNKNOWN
        return env


class EnumNS:
    def __init__(self, members):
        self.members = members


class EnumVal:
    def __init__(self, value):
        self.value = value


def _has_odd(v):
    if isinstance(v, (list, tuple)):
        return any(_has_odd(x) for x in v)
    if isinstance(v, dict):
        return any(_has_odd(x) for x in v.values())
    return not (v is None or isinstance(v, (str, int, float, bool)))


def run(p, func, args, literal, depth=0):
    """Possible ends of func called with the given parameter values (others unknown)."""
    env = {x: UNKNOWN for x in func.params}
    env.update({k: v for k, v in args.items() if k in env})
    for k, d in func.defaults().items() if callable(func.defaults) else ():
        if k not in args:
            v = literal(p, func, d)
            env[k] = v if v is None or isinstance(v, (str, int, float, bool)) else UNKNOWN
    pr = Prop(p, literal, depth)
    ends = pr.block(func, env, func.node.body if isinstance(func.node.body, list) else [])
    out = []
    for k, v in ends:
        if k == "fall":
            out.append(("return", None))
        elif k in ("return", "raise"):
            out.append((k, v))
    return out
