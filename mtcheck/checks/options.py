"""C19: an option given to a call takes effect.

Every parameter with a default (and every **kwargs) of every function is followed through the body:
its incoming value must be read for something other than the log, it must be handed on where the
function calls a part of the package that has the same option, and a numeric option that may be left
out is not confused with zero.
"""
import ast

from ..callgraph import bind, callees
from ..names import resolve, walk_own, txt
from ..project import ClassInfo, FuncInfo, dotted
from ..report import Result
from .environment import must_fire, must_not_fire

# Options a method accepts only because its callers treat all classes with that method alike; the class
# itself has nothing the option could change.
_VALUES = {"Comment", "MTime", "MDate"}
_LEAVES = {"Comment", "TransferFunction", "Dipole", "Electric", "Electrode", "Estimate", "Instrument", "Location", "Magnetic", "Orientation", "PeriodRange", "RemoteRef"}
_CLOSED_FORM = {"CoefficientFilter", "FIRFilter", "PoleZeroFilter", "TimeDelayFilter", "ChannelResponse"}
DICTATED = [
    (_VALUES, ("to_dict", "nested")), (_VALUES, ("to_dict", "single")), (_VALUES, ("to_dict", "required")), (_VALUES, ("from_dict", "skip_none")),
    (_LEAVES, ("to_xml", "required")),
    (_CLOSED_FORM, ("complex_response", "kwargs")),          # interpolation only exists for tables
    ({"ChannelResponse"}, ("plot_response", "pb_tol")),      # its pass band is the property of the whole chain
    ({"FIRFilter", "FrequencyResponseTableFilter", "PoleZeroFilter"}, ("to_obspy", "sample_rate")),   # only coefficient stages carry a rate
]

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOGROOT = {"logger", "logging", "self.logger", "print"}


def is_log(call):
    d = dotted(call.func) or ""
    return d == "print" or d.rsplit(".", 1)[0] in LOGROOT


def stub(f):
    """Nothing but a docstring, pass, raise, a log message or returning a constant."""
    for s in f.node.body:
        if isinstance(s, (ast.Pass, ast.Raise, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or (isinstance(s.value, ast.Call) and is_log(s.value))):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.JoinedStr)):
            continue
        return False
    return True


def options(f):
    a = f.node.args
    out = [x for x in f.defaults() if not x.startswith("_")]
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Read:
    """Which parameters have their incoming value read for something that is not just the log."""

    def __init__(self, f, none=frozenset()):
        self.f, self.none = f, none
        self.read, self.logged = set(), set()
        if any(isinstance(n, ast.Name) and n.id in ("locals", "vars") for n in ast.walk(f.node)):
            self.read = set(f.params)
            return
        self.block(f.node.body, frozenset(f.params))

    def use(self, e, st, log=False):
        if e is None:
            return
        if isinstance(e, ast.Call) and is_log(e):
            for x in ast.iter_child_nodes(e):
                self.use(x, st, True)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in st:
                (self.logged if log else self.read).add(e.id)
            return
        for x in ast.iter_child_nodes(e):
            self.use(x, st, log)

    def given(self, t):
        """Truth of a test on an option that keeps its None default, or None if unknown."""
        if isinstance(t, ast.Name) and t.id in self.none:
            return False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.given(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.none and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return isinstance(t.ops[0], (ast.Is, ast.Eq))
        return None

    def stored(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        return frozenset().union(*xs) if xs else None

    def stmt(self, s, st):
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.use(x, st)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return st
        if isinstance(s, ast.If) and self.none:
            t = self.given(s.test)
            if t is not None:
                return self.block(s.body if t else s.orelse, st)
        if isinstance(s, ast.If):
            # a test that decides nothing (both sides the same) reads nothing
            if s.orelse and [ast.dump(x) for x in s.body] == [ast.dump(x) for x in s.orelse]:
                pass
            elif all(isinstance(x, ast.Pass) for x in s.body + s.orelse):
                pass
            else:
                self.use(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            inner = st - self.stored(s.target)
            a = self.block(s.body, inner)
            return self.join(st, a, self.block(s.orelse, self.join(st, a)))
        if isinstance(s, ast.While):
            self.use(s.test, st)
            return self.join(st, self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = st - self.stored(i.optional_vars)
            return self.block(s.body, st)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            a = self.block(s.body, st)
            if a is not None:
                a = self.block(s.orelse, a)
            outs = [a]
            for h in s.handlers:
                outs.append(self.block(h.body, st))
            j = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(st, j))
                return None if (j is None or f is None) else j
            return j
        if isinstance(s, FN + (ast.ClassDef,)):
            self.use(s, st)
            return st
        if isinstance(s, ast.Assign):
            # x = x or x = <constant> is not a use
            if not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id == s.targets[0].id):
                self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
                st = st - self.stored(t)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                st = st - self.stored(s.target)
            return st
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Name, ast.Attribute)):
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, st)
                st = st - self.stored(t)
            return st
        if hasattr(ast, "Match") and isinstance(s, ast.Match):
            self.use(s.subject, st)
            outs = [st]
            for c in s.cases:
                self.use(c.guard, st)
                outs.append(self.block(c.body, st))
            return self.join(*outs)
        for x in ast.iter_child_nodes(s):
            self.use(x, st)
        return st


def reads(f, cache={}):
    k = id(f.node)
    if k not in cache or cache[k][0] is not f.node:
        cache[k] = (f.node, Read(f))
    return cache[k][1]


def _unused_rule(p, res):
    for f in p.functions:
        if f.accessor or (f.parent is not None and f.name != "wrapper") or stub(f):
            continue
        if f.name.startswith("__") and f.name != "__init__":
            continue
        r = reads(f)
        for o in options(f):
            res.count("obligations: options read")
            if o in r.read:
                continue
            if f.cls is not None and any(f.cls.name in cs and (f.name, o) == mo for cs, mo in DICTATED):
                res.count("options dictated by a shared interface")
                continue
            how = "only shown in the log" if o in r.logged else "never used"
            res.add("option-ignored", f"{f.short}({o})", f.loc(), f"option `{o}` of {f.name} is accepted but {how}: giving it changes nothing")


def _assigned_attr(f, o):
    """The function stores the option on the object (self.o = o, self._o = o ...)."""
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Call, ast.IfExp, ast.BoolOp)):
                    if any(isinstance(x, ast.Name) and x.id == o for x in ast.walk(n.value)):
                        return True
        if isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and any(isinstance(x, ast.Name) and x.id == o for x in ast.walk(n)):
            return True
    return False


def _parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def _mentions(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def _derived(f, o):
    """Locals computed from the option."""
    names = {o}
    for _ in range(3):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and _mentions(n.value, names):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            names.add(x.id)
            if isinstance(n, (ast.For,)) and _mentions(n.iter, names):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
    return names


def _under_test_of(f, call, o, par):
    """The call is made inside a branch that the option itself decides."""
    n = call
    while id(n) in par:
        q = par[id(n)]
        if isinstance(q, (ast.If, ast.IfExp, ast.While)) and q.test is not n and _mentions(q.test, {o}):
            return True
        n = q
    return False


def _part_method(p, f, call):
    """self.Part.method(...) where the class builds the part itself: self.Part = Part()."""
    fn = call.func
    if f.cls is None or not (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id == "self"):
        return None
    kinds = set()
    for n in ast.walk(f.cls.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == fn.value.attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
            kinds.add(resolve(p, f, n.value.func) if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) else None)
    if len(kinds) == 1:
        c = kinds.pop()
        if isinstance(c, ClassInfo):
            return c.find_method(fn.attr)
    return None


def _own_receiver(p, f, call, cands):
    """The callee is certain: a project function, class, self/super method, or a name every candidate agrees on."""
    fn = call.func
    if isinstance(fn, ast.Name):
        return True
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name) and v.id in ("self", "cls"):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            return True
        if _part_method(p, f, call) is not None:
            return True
        return fn.attr.startswith(("to_", "from_", "get_", "add_", "remove_", "_")) or ("_" in fn.attr and len({g.qual for g, _ in cands}) == 1)
    return False


def _sites(p):
    """(caller, call, option, candidates, given expression or None): the caller and every callee candidate have the option."""
    for f in p.functions:
        opts = [o for o in options(f) if o in f.defaults()]
        if not opts:
            continue
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            cands = [(g, b) for g, b in callees(p, f, c) if g is not None]
            part = _part_method(p, f, c)
            if part is not None:
                cands = [(g, b) for g, b in cands if g is part] or [(part, 1)]
            if not cands or not _own_receiver(p, f, c, cands):
                continue
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                continue
            for o in opts:
                have = [(g, bind(g, c, b).get(o)) for g, b in cands if o in g.defaults()]
                if not have or len(have) * 2 < len(cands):
                    continue
                given = next((h for _, h in have if h is not None), None)
                if given is None and not any(_matters(g, o, c, b) for g, b in cands if o in g.defaults()):
                    continue
                yield f, c, o, cands, given


def _matters(g, o, call, bound):
    """The callee reads the option at all when the options it is not given stay at their None default."""
    got = bind(g, call, bound)
    none = frozenset(x for x, d in g.defaults().items() if x not in got and isinstance(d, ast.Constant) and d.value is None)
    return o in Read(g, none).read


def _tests(f, o):
    """The caller decides something with the option itself."""
    for n in walk_own(f.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and _mentions(n.test, {o}):
            return True
    return False


def _forward_rule(p, res):
    sites = list(_sites(p))
    # do callers that also test the option usually hand it on?
    vote, per = {}, {}
    for f, c, o, cands, given in sites:
        ok = given is not None and _mentions(given, _derived(f, o))
        per[f.qual, o] = per.get((f.qual, o), False) or ok
        if _tests(f, o):
            v = vote.setdefault(o, [0, 0])
            v[ok] += 1
    unread = {(f.qual, o) for f in p.functions for o in options(f) if o not in reads(f).read}
    pars = {}
    for f, c, o, cands, given in sites:
        opts = options(f)
        res.count("obligations: calls that share an option with their caller")
        if given is not None and _mentions(given, _derived(f, o)):
            continue
        if given is not None and isinstance(given, ast.Name) and given.id in opts and any(given.id in g.defaults() for g, b in cands):
            res.add("option-crossed", f"{f.short}({o})", f.loc(c), f"{txt(c.func)} has both options `{o}` and `{given.id}`, but gets `{given.id}` for `{o}`")
            continue
        if given is not None and not isinstance(given, ast.Constant):
            continue
        par = pars.setdefault(id(f.node), None) or _parents(f.node)
        pars[id(f.node)] = par
        if _under_test_of(f, c, o, par) or (f.qual, o) in unread:
            continue
        if _tests(f, o) and not per[f.qual, o]:
            v = vote.get(o, [0, 0])
            if v[1] <= v[0]:
                continue
        if given is not None:
            res.add("option-not-passed-on", f"{f.short}({o})->{txt(c.func, 40)}", f.loc(c), f"{f.name} takes option `{o}` but calls {txt(c.func)} with a fixed {o}={txt(given)}: the caller's choice is lost on this route")
            continue
        if _assigned_attr(f, o) or (f.name == "__init__" and _set_as_state(f, o)) or _bound_elsewhere(f, c, o, cands):
            continue
        res.add("option-not-passed-on", f"{f.short}({o})->{txt(c.func, 40)}", f.loc(c), f"{f.name} takes option `{o}` but calls {txt(c.func)}, which has the same option, without it: the default is used whatever the caller asked for")


def _set_as_state(f, o):
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr.lstrip("_") == o.lstrip("_") for n in walk_own(f.node))


def _bound_elsewhere(f, c, o, cands):
    """The option's value reaches the callee under another parameter, or through the receiver."""
    d = {o}
    if any(_mentions(a, d) for a in c.args) or any(_mentions(k.value, d) for k in c.keywords):
        return True
    if isinstance(c.func, ast.Attribute) and _mentions(c.func.value, d):
        return True
    return False


NUMERIC = {"int", "float", "np.number", "np.floating", "np.float64", "np.int64", "Number", "complex"}


def _numeric_ann(a, only=True):
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        parts = []
        st = [a]
        while st:
            x = st.pop()
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                st += [x.left, x.right]
            else:
                parts.append(x)
        return any((dotted(x) or "") in NUMERIC for x in parts) and not (only and any((dotted(x) or "") not in NUMERIC | {"str", "None"} and not isinstance(x, ast.Constant) for x in parts))
    if isinstance(a, ast.Subscript) and (dotted(a.value) or "").split(".")[-1] in ("Optional", "Union"):
        el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return any((dotted(x) or "") in NUMERIC for x in el)
    return (dotted(a) or "") in NUMERIC


def _truth_tested(node):
    """Expressions whose truth value decides something."""
    for n in ast.walk(node):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield from _atoms(n.test)
        elif isinstance(n, ast.BoolOp):
            yield from (v for x in n.values[:-1] for v in _atoms(x))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield from _atoms(n.operand)
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                yield from _atoms(i)


def _atoms(e):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from _atoms(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from _atoms(e.operand)
    elif isinstance(e, ast.Call) and dotted(e.func) == "bool" and len(e.args) == 1:
        yield from _atoms(e.args[0])
    else:
        yield e


def _numeric_names(p):
    """Attribute names that are declared numeric everywhere they are declared, and functions returning numbers."""
    num, other, funcs = set(), set(), {}
    for c in p.classes.values():
        for n, f in c.own_fields.items():
            (num if _numeric_ann(f.annotation) else other).add(n)
        for n, m in c.methods.items():
            if m.accessor == "getter":
                (num if _numeric_ann(m.node.returns) else other).add(n)
        for n in c.class_attrs:
            other.add(n)
    for f in p.functions:
        if f.accessor or f.parent is not None:
            continue
        funcs.setdefault(f.name, []).append(_numeric_ann(f.node.returns) or _returns_index(f))
    return num - other - FOREIGN, {n for n, v in funcs.items() if all(v)}


def _returns_index(f):
    """Every return is None or the result of .index()/len()/an enumerate counter."""
    rets = [n.value for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
    return bool(rets) and all(isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr in ("index", "find", "_get_index_from_key") for r in rets)


def _is_number(p, f, e, num, funcs, depth=0):
    if isinstance(e, ast.Attribute):
        return e.attr in num
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr == "get_attr_from_name" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            return e.args[0].value.split(".")[-1] in num
        if dotted(e.func) in ("float", "int", "len") and depth:
            return dotted(e.func) != "len"
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("index", "find", "rfind") and len(e.args) == 1 and not (e.func.attr == "find" and _element_like(f, e)):
            return True
        if isinstance(e.func, (ast.Attribute, ast.Name)):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id
            if n in funcs:
                g = [x for x in p.functions if x.name == n and x.parent is None]
                return all(not any(isinstance(r, ast.Return) and isinstance(r.value, ast.Constant) and isinstance(r.value.value, bool) for r in ast.walk(x.node)) for x in g)
        if dotted(e.func) == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            return e.args[1].value in num
        return False
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value in num
    if isinstance(e, ast.Name) and depth < 3:
        n = f.param_node(e.id) if e.id in f.params else None
        if n is not None and _numeric_ann(n.annotation):
            return True
        if n is None:
            vals = [x.value for x in walk_own(f.node) if isinstance(x, (ast.Assign, ast.NamedExpr)) and any(isinstance(t, ast.Name) and t.id == e.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
            vals = [v for v in vals if not (isinstance(v, ast.Constant) and v.value is None)]
            return bool(vals) and all(_is_number(p, f, v, num, funcs, depth + 1) for v in vals)
        d = f.defaults().get(e.id)
        return isinstance(d, ast.Constant) and type(d.value) in (int, float)
    if isinstance(e, ast.NamedExpr):
        return _is_number(p, f, e.value, num, funcs, depth + 1)
    return False


def _element_like(f, e):
    """element.find("tag") gives an element, not a position: only find on what is certainly text counts."""
    v = e.func.value
    return not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("lower", "upper", "strip", "read", "replace") or isinstance(v, ast.Call) and dotted(v.func) == "str" or isinstance(v, ast.Constant) or isinstance(v, ast.JoinedStr))


FOREIGN = {"empty", "size", "real", "imag", "T"}   # also attributes of arrays and tables

# Conventions of the package, each an explicit comparison with zero: a rate or elevation of zero is "unknown".
ZERO_MEANS_UNKNOWN = {"normalization_frequency", "sampling_rate", "sample_rate", "elevation", "elev", "latitude", "longitude", "lat", "lon"}


def _zero_rule(p, res):
    num, funcs = _numeric_names(p)
    for f in p.functions:
        if f.parent is not None:
            continue
        for e in _truth_tested(f.node):
            res.count("obligations: truth tests")
            if _is_number(p, f, e, num, funcs):
                res.add("zero-taken-for-missing", f"{f.short}({txt(e)})", f.loc(e), f"the number {txt(e)} is tested for truth: a value of 0 is treated as if it were missing")
        divisors = {id(x) for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)) for x in ast.walk(n.right)}
        for n in ast.walk(f.node):
            # x or <number>: a zero on the left is replaced
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
                for v, w in zip(n.values, n.values[1:]):
                    if _is_number(p, f, v, num, funcs):
                        continue
                    if _is_number(p, f, v, num, funcs, 1) and not isinstance(v, ast.Name) or \
                            isinstance(w, ast.Constant) and type(w.value) in (int, float) and w.value != 0 and id(n) not in divisors and \
                            (isinstance(v, (ast.IfExp, ast.Attribute, ast.Subscript)) or isinstance(v, ast.Call) and (dotted(v.func) == "getattr" or isinstance(v.func, ast.Attribute) and v.func.attr == "get") or isinstance(v, ast.Name) and v.id in f.params):
                        res.add("zero-taken-for-missing", f"{f.short}({txt(v)})", f.loc(n), f"'{txt(n)}' replaces the number {txt(v)} when it is 0 as if it were missing")
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set)):
                vals = [x.value if isinstance(x, ast.Constant) else ... for x in n.comparators[0].elts]
                if None in vals and any(type(v) in (int, float) and v == 0 for v in vals):
                    res.count("obligations: tests for zero or missing")
                    last = n.left.attr if isinstance(n.left, ast.Attribute) else (n.left.id if isinstance(n.left, ast.Name) else "")
                    if last in ZERO_MEANS_UNKNOWN or not _is_number(p, f, n.left, num, funcs) or (last == "value" and f.name.startswith("validate_") and f.name[9:] in ZERO_MEANS_UNKNOWN):
                        continue
                    res.add("zero-taken-for-missing", f"{f.short}({txt(n.left)})", f.loc(n), f"{txt(n.left)} is treated alike whether it is 0 or missing")


BAD = '''
class A:
    def plain(self, x, ascending=True):
        return sorted(x)
    def shown(self, x, tol=1.0):
        logger.debug(tol)
        return x
    def overwritten(self, flag=False):
        flag = True
        return flag
    def outer(self, x, required=True):
        return inner(x)
    def fixed(self, x, required=True):
        if x:
            return inner(x, required=False)
        return inner(x, required=required)
    def once(self, x, required=True):
        y = x.get(required)
        return inner(y)
    def cross(self, x, first=1, second=2):
        return two(x, first=second, second=second)
def inner(x, required=True):
    return [x] if required else []
def two(x, first=1, second=2):
    return x[first:second]
'''
GOOD = '''
class A:
    def plain(self, x, ascending=True):
        return sorted(x, reverse=not ascending)
    def outer(self, x, required=True):
        return inner(x, required=required)
    def positional(self, x, required=True):
        return inner(x, required)
    def branch(self, x, required=True):
        if required:
            return inner(x)
        return x
    def kw(self, x, **kwargs):
        return inner(x, **kwargs)
    def state(self, fn=None):
        if fn is not None:
            self.fn = fn
        return load(self)
    def abstract(self, fn=None):
        raise NotImplementedError
class MTime:
    def to_dict(self, nested=False):
        return str(self.x)
def load(x, fn=None):
    return fn or x.fn
def inner(x, required=True):
    return [x] if required else []
'''


def _all(p, res):
    _unused_rule(p, res)
    _forward_rule(p, res)


def c19(p, tier):
    res = Result("C19", "every option (parameter with a default, **kwargs) has its incoming value read for more than the log and is passed on to callees with the same option")
    _all(p, res)
    for rule, n in (("option-ignored", 3), ("option-not-passed-on", 1), ("option-crossed", 1)):
        must_fire(res, rule, _all, BAD, n)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: options read": 300, "obligations: calls that share an option with their caller": 60}
    res.assumptions = ["an option a method only accepts because its callers treat several classes alike (table DICTATED) is not judged on the class that has no use for it",
                       "options that shape the result of the outermost call (tested by the caller itself and not usually handed on) need not be passed on"]
    return res


BAD0 = '''
from pydantic import BaseModel
class A(BaseModel):
    latitude: float | None = None
    azimuth: float = 0
    def text(self):
        return f"{self.latitude}" if self.latitude else "unknown"
    def level(self, level: int | None = None):
        if level:
            return level
        return "all"
    def where(self, runs, run):
        i = find(runs, run)
        if not i:
            return None
        return runs[i]
    def either(self, value):
        return self.latitude or value
    def listed(self):
        if self.azimuth in (None, 0, ""):
            return {}
def find(runs, run):
    if run in runs:
        return runs.index(run)
    return None
'''
GOOD0 = '''
from pydantic import BaseModel
class A(BaseModel):
    latitude: float | None = None
    name: str = ""
    def text(self):
        return f"{self.latitude}" if self.latitude is not None else self.name or "unknown"
    def level(self, level: int | None = None, flag: bool = False):
        if level is not None and not flag:
            return level
        return "all"
    def many(self, xs):
        n = len(xs)
        return xs if n else None
'''


def c20(p, tier):
    res = Result("C20", "the truth value of a number (numeric field, option, index, numeric result) never decides whether it is there")
    _zero_rule(p, res)
    must_fire(res, "zero-taken-for-missing", _zero_rule, BAD0, 5)
    must_not_fire(res, _zero_rule, GOOD0)
    res.floors = {"obligations: truth tests": 600}
    res.assumptions = ["an expression is a number when its declaration, annotation, default or every assignment says so",
                       "explicit comparisons with zero are decisions of the package (zero rate or elevation: unknown; zero offset: not measured) and are not judged"]
    return res


CHECKS = {"C19": c19, "C20": c20}
