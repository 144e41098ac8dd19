"""C24: every alternative that is written can take effect.

For each test in the package the values its subject can have are represented by a finite set of
samples built from the constants of the tests involved (every constant and its spellings, values
between and around the numbers, instances of the classes named, and something unrelated to all of
them). These samples tell apart everything the supported comparisons can tell apart, so a test no
sample can pass, given the tests that hold on the way to it, can never hold at run time.
The code is analysed exactly as written; nothing of it is executed.
"""
import ast
import builtins
import copy
import difflib
import itertools

from ..effects import Effects
from ..names import const_str, contexts, resolve, txt, walk_own
from ..project import ClassInfo, External, FuncInfo, GlobalVar, dotted
from ..report import Result
from .environment import must_fire, must_not_fire

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "startswith", "endswith", "casefold"}
NORMS = ("lower", "upper", "casefold")
PURE = {"len", "str", "abs", "int", "float", "hasattr", "type", "getattr", "bool", "repr", "round", "callable", "min", "max", "sum"}


class Err(Exception):
    """Evaluating would raise."""


class _U:
    def __repr__(self):
        return "U"


U = _U()


class Inst:
    """Some instance of a class; its truth is part of the sample."""
    def __init__(self, tag, true):
        self.tag, self.true = tag, true

    def __repr__(self):
        return f"<{self.tag} {self.true}>"


OTHER = "something else"
BUILTIN_SUB = {("bool", "int"), ("OrderedDict", "dict"), ("defaultdict", "dict"), ("Counter", "dict"), ("datetime", "date"), ("Timestamp", "datetime"), ("Timestamp", "date"), ("float64", "float"), ("str_", "str"),
               ("PosixPath", "Path"), ("WindowsPath", "Path"), ("Path", "PurePath")}
ALL_KINDS = {"object"}


def _cores(e, out):
    """Sub-expressions the test is about: what is left below the operations this evaluator knows."""
    if isinstance(e, ast.Constant):
        return
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            _cores(v, out)
        return
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.USub)):
        return _cores(e.operand, out)
    if isinstance(e, ast.Compare):
        for v in [e.left] + e.comparators:
            _cores(v, out)
        return
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        for v in e.elts:
            _cores(v, out)
        return
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return _cores(e.args[0], out)
        if isinstance(e.func, ast.Attribute) and e.func.attr in STR_METHODS and not e.keywords:
            return _cores(e.func.value, out)
    if isinstance(e, ast.Subscript) and _index(e.slice) is not None:
        return _cores(e.value, out)
    out.setdefault(ast.dump(e), e)


def _index(s):
    if isinstance(s, ast.Slice):
        if s.step is not None:
            return None
        b = []
        for x in (s.lower, s.upper):
            if x is None:
                b.append(None)
            else:
                v = _int(x)
                if v is None:
                    return None
                b.append(v)
        return slice(*b)
    return _int(s)


def _int(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = _int(e.operand)
        return None if v is None else -v
    return e.value if isinstance(e, ast.Constant) and type(e.value) is int else None


def _steady(e):
    """Evaluating the expression twice in a row gives the same value."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in PURE):
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
    return True


class World:
    """Evaluates tests of one context."""

    def __init__(self, p, ctx):
        self.p, self.ctx = p, ctx

    def kinds(self, e):
        """Names of the classes in an isinstance test, or None."""
        out = []
        for x in e.elts if isinstance(e, ast.Tuple) else _union(e):
            if isinstance(x, ast.Constant) and x.value is None:
                out.append("None")
                continue
            if not isinstance(x, (ast.Name, ast.Attribute)):
                return None
            r = resolve(self.p, self.ctx, x)
            if isinstance(r, ClassInfo):
                out.append(r)
            elif isinstance(r, External):
                out.append(r.dotted.removeprefix("builtins."))
            elif isinstance(x, ast.Name) and isinstance(getattr(builtins, x.id, None), type) and (r is None or isinstance(r, External)):
                out.append(x.id)
            else:
                return None
        return out

    def is_a(self, v, kind):
        if isinstance(v, Inst):
            if v.tag == OTHER:
                return False if kind not in ("object", "builtins.object") else True
            return self.sub(v.tag, kind)
        name = "None" if v is None else type(v).__name__
        return self.sub(name, kind)

    def sub(self, a, b):
        if a is b or a == b:
            return True
        if isinstance(a, ClassInfo):
            if isinstance(b, ClassInfo):
                return a.is_subclass_of(b)
            return U if any(not isinstance(x, ClassInfo) for x in a.mro()) and not _plain_base(a) else False
        if isinstance(b, ClassInfo):
            return False
        sa, sb = a.split(".")[-1], b.split(".")[-1]
        if sb == "object":
            return True
        if sa == sb:
            return True
        if sa == "None":
            return sb == "NoneType"
        if (sa, sb) in BUILTIN_SUB:
            return True
        ta, tb = getattr(builtins, sa, None), getattr(builtins, sb, None)
        if isinstance(ta, type) and isinstance(tb, type):
            return issubclass(ta, tb)
        if sa in ("None", "str", "int", "float", "bool", "list", "dict", "tuple", "set", "bytes", "complex") and sb in ("ndarray", "DataArray", "Dataset", "DataFrame", "Series", "datetime", "date", "Timestamp", "Path", "Element"):
            return False
        return U

    def ev(self, e, core, v):
        d = self.dumps.get(id(e))
        if d is None:
            d = self.dumps[id(e)] = (ast.dump(e), e)      # the node is kept, so that its id is not used again
        if d[0] == core:
            return v
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.BoolOp):
            res, unknown = None, False
            for x in e.values:
                t = self.truth(self.ev(x, core, v))
                if t is U:
                    unknown = True
                elif t is isinstance(e.op, ast.Or):
                    # decided, unless an earlier unknown operand ended it with the same truth anyway
                    return t
                res = t
            return U if unknown else res
        if isinstance(e, ast.UnaryOp):
            x = self.ev(e.operand, core, v)
            if isinstance(e.op, ast.Not):
                t = self.truth(x)
                return U if t is U else not t
            return -x if isinstance(e.op, ast.USub) and isinstance(x, (int, float)) else U
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [self.ev(x, core, v) for x in e.elts]
        if isinstance(e, ast.Compare):
            left, out = self.ev(e.left, core, v), True
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(c, core, v)
                r = self.compare(op, left, right)
                if r is False:
                    return False
                if r is U:
                    out = U
                left = right
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
                x = self.ev(e.args[0], core, v)
                ks = self.kinds(e.args[1])
                if x is U or isinstance(x, list) or ks is None:
                    return U
                rs = [self.is_a(x, k) for k in ks]
                return True if True in rs else U if U in rs else False
            if isinstance(e.func, ast.Attribute) and e.func.attr in STR_METHODS and not e.keywords:
                x = self.ev(e.func.value, core, v)
                args = [self.ev(a, core, v) for a in e.args]
                if x is U or isinstance(x, list) or any(a is U or isinstance(a, Inst) for a in args):
                    return U
                if isinstance(x, Inst):
                    if x.tag == OTHER or x.tag in ("list", "dict", "tuple"):
                        raise Err
                    return U
                if not isinstance(x, str):
                    raise Err
                args = [tuple(a) if isinstance(a, list) else a for a in args]
                if any(isinstance(a, tuple) and not all(isinstance(i, str) for i in a) for a in args):
                    return U
                try:
                    return getattr(x, e.func.attr)(*args)
                except TypeError:
                    return U
        if isinstance(e, ast.Subscript):
            i = _index(e.slice)
            if i is not None:
                x = self.ev(e.value, core, v)
                if isinstance(x, str):
                    try:
                        return x[i]
                    except IndexError:
                        raise Err
                if x is None or isinstance(x, (bool, int, float)):
                    raise Err
                return U
        if isinstance(e, ast.Name):
            r = resolve(self.p, self.ctx, e)
            if isinstance(r, GlobalVar) and r.value is not None and sum(isinstance(n, ast.Name) and n.id == r.name and isinstance(n.ctx, ast.Store) for n in ast.walk(r.module.tree)) == 1:
                try:
                    x = ast.literal_eval(r.value)
                except (ValueError, SyntaxError, TypeError):
                    return U
                if isinstance(x, (str, int, float, bool)) or isinstance(x, (tuple, frozenset)):
                    return list(x) if isinstance(x, (tuple, frozenset)) else x
        return U

    dumps = None

    def truth(self, x):
        if x is U:
            return U
        if isinstance(x, Inst):
            return x.true
        return bool(x)

    def compare(self, op, a, b):
        if a is U or b is U:
            return U
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, list) or isinstance(b, list):
                r = False
            elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            else:
                return U
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, list):
                rs = [self.equal(a, x) for x in b]
                r = True if True in rs else U if U in rs else False
            elif isinstance(b, str):
                if isinstance(a, str):
                    r = a in b
                elif isinstance(a, Inst) and a.tag != OTHER or isinstance(a, list):
                    return U
                else:
                    raise Err
            elif isinstance(b, Inst):
                return U
            else:
                raise Err
            return r if r is U or isinstance(op, ast.In) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if r is U or isinstance(op, ast.Eq) else not r
        if isinstance(a, list) or isinstance(b, list):
            return U
        if isinstance(a, Inst) or isinstance(b, Inst):
            t, o = (a, b) if isinstance(a, Inst) else (b, a)
            if t.tag == OTHER or t.tag in ("list", "dict", "tuple") and (o is None or isinstance(o, (str, int, float))):
                raise Err
            return U
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError:
            raise Err

    @staticmethod
    def equal(a, b):
        if a is U or b is U or isinstance(a, list) or isinstance(b, list):
            return U
        if isinstance(a, Inst) or isinstance(b, Inst):
            if a is b:
                return True
            for t in (a, b):
                if isinstance(t, Inst) and t.tag != OTHER and (isinstance(t.tag, ClassInfo) or t.tag.split(".")[-1] not in ("list", "dict", "tuple", "set", "int", "float", "str", "bool", "bytes", "complex")):
                    return U          # may define its own equality
                if isinstance(t, Inst) and t.tag != OTHER:
                    o = b if t is a else a
                    if isinstance(o, Inst):
                        return U
                    return False if t.tag in ("list", "dict", "tuple", "set") or isinstance(o, (str, type(None))) else U
            return False
        return a == b

    # ---- samples ---------------------------------------------------------
    def samples(self, core, e, tests):
        strs, nums, kinds, offs = set(), set(), [], {0}
        sizes = False
        for t in tests:
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str):
                        strs.add(n.value)
                    elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        nums |= {n.value, -n.value}
                elif isinstance(n, ast.Name):
                    x = self.ev(n, "", None)
                    for y in x if isinstance(x, list) else [x]:
                        if isinstance(y, str):
                            strs.add(y)
                        elif isinstance(y, (int, float)) and not isinstance(y, bool):
                            nums.add(y)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
                    kinds += self.kinds(n.args[1]) or []
                elif isinstance(n, ast.Slice) or isinstance(n, ast.Subscript):
                    i = _index(n if isinstance(n, ast.Slice) else n.slice)
                    for k in (i.start, i.stop) if isinstance(i, slice) else (i,):
                        if isinstance(k, int) and abs(k) < 40:
                            offs |= {abs(k), max(0, abs(k) - 1)}
                elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
                    sizes = True
        size = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len"
        text = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("str", "repr")
        out = []
        if not size and not text:
            out += [None, True, False, Inst(OTHER, True), Inst(OTHER, False)]
        if not size:
            base = set()
            for s in strs:
                base |= {s, s.lower(), s.upper(), s.title(), s.capitalize(), s.strip(), s.casefold()}
            words = {"", "~", "zq~", "Q~"} | base
            for s in base:
                for k in offs:
                    words |= {"~" * k + s, "~" * k + s + "~", s + "~" * k}
            parts = sorted(_inside(tests))
            heads = sorted(x for t in tests for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "startswith" for x in _texts(n.args))
            for r in range(2, len(parts) + 1 if len(parts) <= 9 else 3):
                for c in itertools.combinations(parts, r):
                    w = "~".join(c)
                    words |= {w, w.lower(), w.upper()}
            words |= {h + "~" + w for h in heads[:8] for w in list(words)[:400]}
            out += sorted(words)
        if not text:
            ns = sorted(nums | {0, 1})
            pts = set(ns) | {(a + b) / 2 for a, b in zip(ns, ns[1:])} | {ns[0] - 1, ns[-1] + 1, ns[0] - .5, ns[-1] + .5}
            if size:
                pts = {int(x) for x in pts if x >= 0} | {0, 1, 2}
            out += sorted(pts)
        if not size and not text:
            out += [Inst(k, t) for k in ("list", "dict", "tuple") for t in (True, False)]
            for k in kinds:
                if k in ("str", "None", "bool", "list", "dict", "tuple", "NoneType", "int", "float"):
                    continue
                out += [Inst(k, True), Inst(k, False)]
        return out


def _plain_base(c):
    """External bases known not to be data classes of the standard library or numpy."""
    return all(isinstance(x, ClassInfo) or x.dotted.split(".")[0] in ("pydantic", "pydantic_core", "abc", "enum", "typing", "object", "builtins", "?") for x in c.mro())


def _texts(args):
    return [n.value for a in args for n in ast.walk(a) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


def _inside(tests):
    """Pieces of text looked for inside something."""
    return {n.left.value for t in tests for n in ast.walk(t) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn))
            and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and n.left.value and not isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set))}


def _union(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return _union(e.left) + _union(e.right)
    return [e]


# --------------------------------------------------------------------------
class Walk:
    def __init__(self, p, ctx, res):
        self.p, self.ctx, self.res = p, ctx, res
        self.w = World(p, ctx)
        self.w.dumps, self.w.made = {}, []

    def run(self):
        if isinstance(self.ctx, FuncInfo):
            body = self.ctx.node.body
            if isinstance(body, list):
                self.block(body, ())
        else:
            self.block(self.ctx.node.body, ())

    # facts: tuple of (test, polarity)
    def block(self, stmts, facts):
        """Facts after the block, or None when it does not fall through."""
        dead = False
        for s in stmts:
            if facts is None:
                if not dead and _acts(s):
                    self.res.add("never-reached", f"{self.ctx.short}:{txt(s, 50)}", self.ctx.loc(s), "this statement follows one that always leaves the block")
                    dead = True
                facts = ()
            facts = self.stmt(s, facts)
        return facts

    def stmt(self, s, facts):
        if isinstance(s, ast.If):
            return self.chain(s, facts)
        if isinstance(s, ast.ClassDef):
            self.block(s.body, ())
            return _forget(facts, s)
        if isinstance(s, FN):
            return facts
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.exprs(s.iter, facts)
            f2 = _forget(facts, s)
            self.block(s.body, f2)
            self.block(s.orelse, f2)
            return f2
        if isinstance(s, ast.While):
            f2 = _forget(facts, s)
            self.exprs(s.test, f2)
            if not isinstance(s.test, ast.Constant):
                self.judge(s.test, f2, s, "loop")
            self.block(s.body, f2 + ((s.test, True),))
            self.block(s.orelse, f2)
            always = isinstance(s.test, ast.Constant) and s.test.value
            if always and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return None
            return f2
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            self.handlers(s)
            f2 = _forget(facts, *s.body)
            a = self.block(s.body, facts)
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            outs = [a]
            for h in s.handlers:
                outs.append(self.block(h.body, f2))
            if s.finalbody:
                b = self.block(s.finalbody, _forget(facts, *s.body, *s.orelse, *s.handlers))
                if b is None:
                    return None
            if all(o is None for o in outs):
                return None
            return _forget(facts, s)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.exprs(i.context_expr, facts)
            f2 = _forget(facts, *[i.context_expr for i in s.items], *[i.optional_vars for i in s.items if i.optional_vars is not None])
            a = self.block(s.body, f2)
            return _forget(facts, s) if a is not None or not any(isinstance(n, ast.Return) for n in ast.walk(s)) or True else None
        if isinstance(s, ast.Match):
            self.exprs(s.subject, facts)
            for c in s.cases:
                self.block(c.body, _forget(facts, *c.body, c.pattern))
            return _forget(facts, s)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.exprs(x, facts)
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return None
        f2 = _forget(facts, s)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            for op in _normal_form(s.value):
                n = ast.Name(s.targets[0].id, ast.Load())
                f2 += ((ast.Compare(n, [ast.Eq()], [ast.Call(ast.Attribute(n, op, ast.Load()), [], [])]), True),)
        return f2

    def chain(self, s, facts):
        """An if/elif chain."""
        here, after = facts, facts
        falls = []
        cur = s
        while True:
            self.exprs(cur.test, here)
            self.judge(cur.test, here, cur, "branch")
            r = self.block(cur.body, _forget_calls(here, cur.test) + ((cur.test, True),))
            falls.append((r is not None, cur.test))
            here = _forget_calls(here, cur.test) + ((cur.test, False),)
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            break
        other = self.block(cur.orelse, here) if cur.orelse else here
        if other is None and not any(f for f, _ in falls):
            return None
        out = facts
        for f, t in falls:
            out = _forget_calls(out, t)
            if not f:
                out += ((t, False),)
        return _forget(out, *[x for x in _arms(s)], keep=[t for f, t in falls if not f and not _touches(t, s)])

    def exprs(self, e, facts):
        """Tests inside an expression: conditional expressions, comprehension filters, and/or."""
        for n in ast.walk(e):
            if isinstance(n, ast.IfExp):
                self.judge(n.test, facts, n, "alternative")
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for t in g.ifs:
                        self.judge(t, _forget(facts, g.target), t, "filter")
            elif isinstance(n, ast.Dict):
                self.table(n)

    # ---- rules -----------------------------------------------------------
    def judge(self, test, facts, node, what):
        if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(test)):
            return
        self.res.count("obligations: tests that must be able to hold")
        cores = {}
        _cores(test, cores)
        for d, e in cores.items():
            if not _steady(e):
                continue
            about = [(t, pol) for t, pol in facts if _mentions(t, d)]
            vs = self.w.samples(d, e, [test] + [t for t, _ in about])
            free = self.run_all(test, d, vs)
            norm = [(t, pol) for t, pol in about if not hasattr(t, "lineno") or pol and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance"]
            key = f"{self.ctx.short}:{txt(test, 60)}"
            if free and all(r is True for _, r in free):
                self.res.add("always-true", key, self.ctx.loc(node), f"'{txt(test, 90)}' holds whatever {txt(e, 40)} is: this {what} excludes nothing")
                return
            ok = [r for v, _ in free if self.allowed(v, d, about) for r in self.possible(v, test, d, about)]
            if True not in ok:
                why = "" if not any(r is True or r is U for _, r in free) else ": the tests before it leave no such value"
                self.res.add("never-true", key, self.ctx.loc(node), f"'{txt(test, 90)}' can never hold{why}, so this {what} is never taken")
                return
            if False not in ok and isinstance(node, ast.If) and any(_acts(x) for x in node.orelse):
                self.res.add("never-reached", f"{key}:else", self.ctx.loc(node), f"'{txt(test, 90)}' always holds here: the tests before it leave no other value, so what follows 'else' is never reached")
                return
            for x in self.parts(test):
                sub = {}
                _cores(x, sub)
                if d not in sub:
                    continue
                got = [r for v, r in self.run_all(x, d, vs) if self.allowed(v, d, norm)]
                if not any(r is True or r is U for r in got):
                    self.res.add("never-true", f"{key}:{txt(x, 50)}", self.ctx.loc(node), f"in '{txt(test, 90)}' the alternative '{txt(x, 60)}' can never hold")
                    return

    def parts(self, test):
        """The alternatives inside a test: operands of or/and, and each member of a list compared with."""
        for n in ast.walk(test):
            if isinstance(n, ast.BoolOp):
                yield from n.values
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set)):
                for x in n.comparators[0].elts:
                    if isinstance(x, ast.Constant):
                        yield ast.Compare(n.left, [ast.Eq()], [x])
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith") and len(n.args) == 1 and isinstance(n.args[0], ast.Tuple):
                for x in n.args[0].elts:
                    yield ast.Call(n.func, [x], [])

    def tri(self, e, d, v, env, seen):
        """Truth of a test; what is unknown is looked up in env, or noted in seen."""
        if isinstance(e, ast.BoolOp):
            stop, res = isinstance(e.op, ast.Or), not isinstance(e.op, ast.Or)
            for x in e.values:
                t = self.tri(x, d, v, env, seen)
                if t is stop:
                    return stop
                if t is U:
                    res = U
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.tri(e.operand, d, v, env, seen)
            return U if t is U else not t
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotIn, ast.NotEq, ast.IsNot)):
            pos = {ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.IsNot: ast.Is}[type(e.ops[0])]
            self.w.made.append(e := ast.Compare(e.left, [pos()], e.comparators))
            neg = True
        t = self.w.truth(self.w.ev(e, d, v))
        if t is U and _steady(e):
            k = ast.dump(e)
            seen.add(k)
            t = env.get(k, U)
        return t if t is U or not neg else not t

    def possible(self, v, test, d, facts):
        """The truths the test can have for this value where the facts hold."""
        seen, fresh = set(), [(t, pol) for t, pol in facts if not getattr(t, "stale", False)]
        try:
            r = self.tri(test, d, v, {}, seen)
        except Err:
            return set()
        if r is not U:
            return {r}
        for t, _ in fresh:
            try:
                self.tri(t, d, v, {}, seen)
            except Err:
                return set()
        if not fresh or len(seen) > 6:
            return {True, False}
        out, names = set(), sorted(seen)
        for bits in itertools.product((True, False), repeat=len(names)):
            env = dict(zip(names, bits))
            try:
                if all(self.tri(t, d, v, env, set()) in (pol, U) for t, pol in fresh):
                    r = self.tri(test, d, v, env, set())
                    out |= {True, False} if r is U else {r}
            except Err:
                continue
        return out

    def run_all(self, test, d, vs):
        out = []
        for v in vs:
            try:
                out.append((v, self.w.truth(self.w.ev(test, d, v))))
            except Err:
                continue
        return out

    def allowed(self, v, d, facts):
        for t, pol in facts:
            try:
                r = self.w.truth(self.w.ev(t, d, v))
            except Err:
                return False
            if r is not U and r is not pol:
                return False
        return True

    def handlers(self, s):
        seen = []
        for h in s.handlers:
            self.res.count("obligations: handlers that must be reachable")
            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            mine = []
            for t in ts:
                c = "BaseException" if t is None else self.exc(t)
                if c is None:
                    continue
                for b in seen:
                    if self.exc_sub(c, b):
                        nm = "everything" if t is None else txt(t)
                        self.res.add("handler-shut-out", f"{self.ctx.short}:{nm}", self.ctx.loc(h), f"{nm} is already handled by the handler for {b if isinstance(b, str) else b.name} before it")
                        break
                mine.append(c)
            seen += mine

    def exc(self, t):
        r = resolve(self.p, self.ctx, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        if isinstance(r, ClassInfo):
            return r
        n = dotted(t)
        if isinstance(r, External):
            n = r.dotted.replace("builtins.", "")
        return n

    @staticmethod
    def exc_sub(a, b):
        if a is b or a == b:
            return True
        if isinstance(a, ClassInfo):
            return any((m.dotted.split(".")[-1] if isinstance(m, External) else m) == b for m in a.mro())
        if isinstance(b, ClassInfo):
            return False
        ta, tb = getattr(builtins, a, None), getattr(builtins, b, None)
        if isinstance(tb, type) and isinstance(ta, type):
            return issubclass(ta, tb)
        return b in ("Exception", "BaseException") and a not in ("BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit")

    def table(self, n):
        seen = {}
        for k in n.keys:
            if isinstance(k, ast.Constant) and isinstance(k.value, (str, int, float)):
                self.res.count("obligations: table rows")
                if k.value in seen:
                    self.res.add("row-overwritten", f"{self.ctx.short}:{k.value!r}", self.ctx.loc(k), f"the table has two rows {k.value!r}: the first can never be found")
                seen[k.value] = k


def _acts(s):
    """The statement would do something if it were reached (a lone yield only marks a generator)."""
    if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
        return False
    return any(isinstance(n, (ast.Call, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Return) and n.value is not None
               or isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(s))


def _arms(s):
    out = []
    cur = s
    while True:
        out += cur.body
        if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
            cur = cur.orelse[0]
            continue
        return out + cur.orelse


def _stored(nodes):
    names, deep = set(), False
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, FN + (ast.ClassDef,)):
                names.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.alias):
                names.add((n.asname or n.name).split(".")[0])
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                deep = True
            elif isinstance(n, (ast.Call, ast.Await, ast.Yield)):
                deep = deep or not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in STR_METHODS or (dotted(n.func) or "").startswith(("logger.", "self.logger."))))
    return names, deep


def _fragile(t):
    """The fact is about something a call or a store through a reference may change."""
    bare = []

    def go(e, tested):
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                go(v, True)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            go(e.operand, True)
        elif tested and isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            bare.append(e)
    go(t, True)
    if bare:
        return True
    cores = {}
    _cores(t, cores)
    return any(not isinstance(e, ast.Name) for e in cores.values())


def _forget(facts, *nodes, keep=()):
    names, deep = _stored(nodes)
    out = []
    for t, pol in facts:
        if any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(t)):
            continue
        if deep and _fragile(t):
            continue
        if deep and not getattr(t, "stale", False):
            t = copy.copy(t)
            t.stale = True        # a container it is about may have changed
        out.append((t, pol))
    return tuple(out)


def _forget_calls(facts, test):
    return _forget(facts, test)


def _touches(t, s):
    names, deep = _stored(_arms(s))
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(t))


def _mentions(t, d):
    sub = {}
    _cores(t, sub)
    return d in sub


def _normal_form(e):
    """Normalising methods that leave the value as it is: x = y.strip().lower() makes x == x.lower()."""
    ops = set()
    chain = []
    cur = e
    while True:
        if isinstance(cur, ast.Call) and isinstance(cur.func, ast.Attribute):
            chain.append((cur.func.attr, cur))
            cur = cur.func.value
        elif isinstance(cur, ast.Subscript) and _index(cur.slice) is not None:
            chain.append(("[]", cur))
            cur = cur.value
        else:
            break
    for name, c in reversed(chain):
        if name in NORMS and not c.args:
            ops = {name}
        elif name in ("strip", "lstrip", "rstrip", "split", "rsplit", "removeprefix", "removesuffix", "[]"):
            pass
        elif name == "replace" and len(c.args) == 2 and const_str(c.args[1]) is not None:
            ops = {o for o in ops if getattr(const_str(c.args[1]), o)() == const_str(c.args[1])}
        else:
            ops = set()
    if chain and chain[0][0] in ("split", "rsplit"):
        return set()
    return ops


MANY = {"setter", "getter", "deleter", "overload", "register", "singledispatch", "dispatch", "typing.overload"}


def _twice(p, res):
    """Two definitions of one name in one body: the first can never be used."""
    for m in p.modules.values():
        for body, where in [(m.tree.body, m.name)] + [(c.body, f"{m.name}.{c.name}") for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)]:
            seen = {}
            for s in body:
                nm = s.name if isinstance(s, FN + (ast.ClassDef,)) else s.target.id if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) else None
                if nm is None or nm == "_":
                    continue
                decos = [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in getattr(s, "decorator_list", [])]
                if any(d.split(".")[-1] in MANY for d in decos):
                    continue
                res.count("obligations: definitions that must stay in force")
                short = where.split("mt_metadata.", 1)[-1]
                if nm in seen and not (isinstance(s, ast.AnnAssign) and isinstance(seen[nm], ast.AnnAssign) and s.value is None):
                    used = any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) for x in body[body.index(seen[nm]) + 1: body.index(s) + 1] for n in ast.walk(x))
                    if not used:
                        res.add("defined-twice", f"{short}:{nm}", f"{m.rel}:{s.lineno}", f"{nm} is defined twice in {short}: the first definition (line {seen[nm].lineno}) is never used")
                seen[nm] = s


def _values(p, module, ann, depth=0):
    """Every text value an annotation admits, or None when it admits others too."""
    if ann is None or depth > 4:
        return None
    if isinstance(ann, ast.Constant) and ann.value is None:
        return set()
    if isinstance(ann, ast.BinOp):
        a, b = _values(p, module, ann.left, depth + 1), _values(p, module, ann.right, depth + 1)
        return None if a is None or b is None else a | b
    if isinstance(ann, ast.Subscript):
        h = (dotted(ann.value) or "").split(".")[-1]
        elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if h == "Literal":
            return {const_str(x) for x in elts if const_str(x) is not None}
        if h in ("Optional", "Union"):
            vs = [_values(p, module, x, depth + 1) for x in elts]
            return None if None in vs else set().union(*vs)
        return None
    r = p.resolve_expr(module, ann) if isinstance(ann, (ast.Name, ast.Attribute)) else None
    if isinstance(r, ClassInfo) and r.is_enum:
        vs = [const_str(v) for c in r.mro() if isinstance(c, ClassInfo) for v in c.class_attrs.values()]
        return None if not vs or None in vs else set(vs)
    return None


def _alias(f, name):
    """What a local name assigned exactly once stands for."""
    if name in {a.arg for a in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs}:
        return None
    vals = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name]
    stores = sum(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))
    return vals[0] if len(vals) == 1 and stores == 1 else None


def _declared(p, res):
    """A field that only admits listed words is compared with a word that is not among them."""
    seen = {}

    def on(f, kind, node, b, attr, extra):
        if kind == "load" and b.ty:
            seen.setdefault(id(node), set()).update(b.ty)
    Effects(p).observe(on)
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if not isinstance(n, ast.Compare) or len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                continue
            e, op = n.left, None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in NORMS and not e.args:
                e, op = e.func.value, e.func.attr
            if isinstance(e, ast.Name) and isinstance(ctx, FuncInfo):
                e = _alias(ctx, e.id)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in NORMS and not e.args and op is None:
                    e, op = e.func.value, e.func.attr
            if not isinstance(e, ast.Attribute) or not seen.get(id(e)):
                continue
            words = set()
            for c in seen[id(e)]:
                fi = c.fields().get(e.attr)
                vs = _values(p, fi.cls.module, fi.annotation) if fi is not None else None
                if vs is None:
                    words = None
                    break
                words |= vs
            if not words:
                continue
            words = {getattr(w, op)() if op else w for w in words}
            r = n.comparators[0]
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and not isinstance(r, (ast.List, ast.Tuple, ast.Set)):
                continue
            asked = [const_str(x) for x in ([r] if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) else r.elts)]
            for w in asked:
                if w is None or w == "":
                    continue
                res.count("obligations: words compared with a field that admits listed words only")
                # in a list with words that do fit, one more word is surplus unless it stands for one that is missing
                if w not in words and (not words & set(asked) or difflib.get_close_matches(w, words - set(asked), 1, 0.8)):
                    res.add("no-such-value", f"{ctx.short}:{txt(n, 60)}:{w}", ctx.loc(n), f"'{txt(n, 80)}': {txt(e, 40)} only admits {', '.join(sorted(words))}, so it is never {w!r}")


def _all(p, res):
    _declared(p, res)
    for ctx in contexts(p):
        res.count("functions and modules")
        Walk(p, ctx, res).run()
    _twice(p, res)


_all.keep = "raw"

BAD = '''
from enum import Enum
from pydantic import BaseModel
class Mode(str, Enum):
    low = "low cut"
    high = "high cut"
class Taper(BaseModel):
    mode: Mode = Mode.low
    def weight(self, x):
        if self.mode == "lowcut":
            return x
        return 1 - x
def kind(name):
    key = name.strip().lower()
    if key == "Impedance":
        return 1
    elif key in ("tipper", "Tip"):
        return 2
    return 0
def order(x, y):
    if x.startswith("site"):
        return 1
    elif x.startswith("sitename"):
        return 2
    if isinstance(y, int):
        return 3
    if isinstance(y, bool):
        return 4
def bounds(v):
    if v < -90 and v > 90:
        raise ValueError(v)
    if v != 1 or v != 2:
        return None
    return v
def fill(c):
    if c.a:
        return 1
    elif c.b:
        return 2
    elif c.a:
        return 3
def read(f):
    try:
        return f()
    except Exception:
        return 1
    except KeyError:
        return 2
def gone(x):
    return x
    x += 1
TABLE = {"a": 1, "b": 2, "a": 3}
class K:
    def one(self):
        return 1
    def one(self):
        return 2
'''
GOOD = '''
from enum import Enum
from pydantic import BaseModel
class Mode(str, Enum):
    low = "low cut"
    high = "high cut"
class Taper(BaseModel):
    mode: Mode = Mode.low
    def weight(self, x):
        if self.mode.upper() in ("LOW CUT", "HIGH CUT"):
            return x
        return 1 - x
def kind(name):
    key = name.strip().lower()
    if key == "impedance":
        return 1
    elif key in ("tipper", "tip"):
        return 2
    elif name == "Tipper":
        return 3
    return 0
def order(x, y, items, c):
    if x.startswith("sitename"):
        return 2
    elif x.startswith("site"):
        return 1
    if isinstance(y, bool):
        return 4
    if isinstance(y, int):
        return 3
    if not items:
        items.append(x)
    if not items:
        return 5
    if c.ready is None:
        c.load()
        if c.ready is not None:
            return 6
    while x is None:
        x = c.next()
        if x is not None:
            break
    if x[0] == ">":
        return 7
    for k in items:
        if k < 0 or k > 90:
            continue
        elif 0 <= k <= 90:
            return 8
def bounds(v):
    if v < -90 or v > 90:
        raise ValueError(v)
    if v == 0:
        v = None
    if v is None:
        return 0
    return v
class K:
    @property
    def one(self):
        return 1
    @one.setter
    def one(self, v):
        self.v = v
def read(f):
    try:
        return f()
    except KeyError:
        return 2
    except (ValueError, TypeError):
        return 3
    except Exception:
        return 1
'''


def c24(p, tier):
    res = Result("C24", "no test is unsatisfiable given the tests that hold on the way to it, none is always true, no handler follows a broader one, no statement follows one that leaves the block, no table row or definition is overwritten")
    _all(p, res)
    for rule, n in (("never-true", 5), ("always-true", 1), ("handler-shut-out", 1), ("never-reached", 1), ("row-overwritten", 1), ("defined-twice", 1), ("no-such-value", 1)):
        must_fire(res, rule, _all, BAD, n)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: tests that must be able to hold": 1000, "obligations: handlers that must be reachable": 100}
    res.assumptions = ["an object of a class none of the tests names is equal to none of the constants it is compared with", "a property read twice in a row without a call or store in between gives the same value"]
    return res


c24.keep = "raw"
CHECKS = {"C24": c24}
