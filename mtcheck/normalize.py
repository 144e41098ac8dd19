"""Bring the source into one shape before it is analysed, so that how a thing is written does not matter.

Every step keeps the meaning: negated tests swap their branches, str.format and % become f-strings,
temporaries used once right away are folded back, literal tables kept in a private module constant are
put back where they are tested, `for pair in x: a, b = pair` unpacks in the loop head, and a private
helper with one call site is analysed as part of its caller.
"""
import ast
import copy
import re
import string
from collections import Counter

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.ClassDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _name(i, like, ctx=ast.Load):
    return ast.copy_location(ast.Name(id=i, ctx=ctx()), like)


def _blocks(node):
    """Every statement list below node (not into nested functions or classes)."""
    st = [node]
    while st:
        n = st.pop()
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case)) and not isinstance(c, FN + (ast.ClassDef,)):
                st.append(c)


def leaves(stmts):
    s = stmts[-1] if stmts else None
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.Try):
        return leaves(s.finalbody) or leaves(s.orelse or s.body) and all(leaves(h.body) for h in s.handlers)
    if isinstance(s, ast.With):
        return leaves(s.body)
    if isinstance(s, ast.While):
        return isinstance(s.test, ast.Constant) and bool(s.test.value) and not any(isinstance(n, ast.Break) for n in ast.walk(s))
    return isinstance(s, ast.If) and bool(s.orelse) and leaves(s.body) and leaves(s.orelse)


# --------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------
class Expressions(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = n.test.operand, n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            n.test, n.body, n.orelse = n.test.operand, n.orelse, n.body
        return n

    def visit_Assign(self, n):
        """`a, b = (x, y) if c else (u, v)` decides each name by itself."""
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(v.body, (ast.Tuple, ast.List)) and isinstance(v.orelse, (ast.Tuple, ast.List)):
            k = len(n.targets[0].elts)
            if len(v.body.elts) == len(v.orelse.elts) == k and not any(isinstance(x, ast.Starred) for x in n.targets[0].elts + v.body.elts + v.orelse.elts) and not any(isinstance(x, (ast.Call, ast.Await, ast.NamedExpr)) for x in ast.walk(v.test)):
                n.value = ast.copy_location(ast.Tuple(elts=[ast.copy_location(ast.IfExp(test=copy.deepcopy(v.test), body=x, orelse=y), v) for x, y in zip(v.body.elts, v.orelse.elts)], ctx=ast.Load()), v)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            return _fstring(n) or n
        return n


def _fstring(n):
    """"{} {x:.2f}".format(a, x=b) as an f-string (only when every value is used once)."""
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    kw = {k.arg: k.value for k in n.keywords}
    try:
        parts = list(string.Formatter().parse(n.func.value.value))
    except ValueError:
        return None
    out, used, auto = [], [], 0
    for lit, field, spec, conv in parts:
        if lit:
            out.append(ast.copy_location(ast.Constant(lit), n))
        if field is None:
            continue
        if spec and "{" in spec:
            return None
        if field == "":
            if auto >= len(n.args):
                return None
            v, auto = n.args[auto], auto + 1
        elif field.isdigit():
            if int(field) >= len(n.args):
                return None
            v = n.args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return None
        if any(v is u for u in used):
            return None
        used.append(v)
        fs = ast.copy_location(ast.JoinedStr(values=[ast.copy_location(ast.Constant(spec), n)]), n) if spec else None
        out.append(ast.copy_location(ast.FormattedValue(value=v, conversion=ord(conv) if conv else -1, format_spec=fs), n))
    if len(used) != len(n.args) + len(kw):
        return None
    return ast.copy_location(ast.JoinedStr(values=out), n)


# --------------------------------------------------------------------------
# private literal tables
# --------------------------------------------------------------------------
def _constants(tree):
    """Module names bound once to a list/tuple/set of constants and only ever read."""
    lit, bad = {}, set()
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.List, ast.Tuple, ast.Set)) and s.value.elts and all(isinstance(e, ast.Constant) for e in s.value.elts):
            if s.targets[0].id in lit:
                bad.add(s.targets[0].id)
            lit[s.targets[0].id] = s.value
    n_store = Counter(n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load))
    args = {a.arg for a in ast.walk(tree) if isinstance(a, ast.arg)}
    return {k: v for k, v in lit.items() if k.startswith("_") and k not in bad and n_store[k] == 1 and k not in args}


class PutBack(ast.NodeTransformer):
    def __init__(self, table):
        self.t = table

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            n.comparators[0] = self.lit(n.comparators[0])
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.lit(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.lit(n.iter)
        return n

    def lit(self, e):
        if isinstance(e, ast.Name) and e.id in self.t:
            return copy.deepcopy(self.t[e.id])
        return e


# --------------------------------------------------------------------------
# temporaries
# --------------------------------------------------------------------------
def _heads(s):
    """The expressions of a statement that are evaluated exactly once, right away: (owner, field)."""
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Expr)):
        return [s]
    if isinstance(s, ast.For):
        return [s.iter]
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, ast.With):
        return [s.items[0].context_expr]
    if isinstance(s, ast.Raise):
        return [s]
    return []


class Sub(ast.NodeTransformer):
    def __init__(self, nm, value):
        self.nm, self.value, self.done = nm, value, 0

    def visit_Name(self, n):
        if n.id == self.nm and isinstance(n.ctx, ast.Load):
            self.done += 1
            return self.value
        return n

    def stop(self, n):
        return n
    visit_Lambda = visit_FunctionDef = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = stop


def _params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def _fold_temps(f, keep=None):
    stores, loads = Counter(), Counter()
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            (loads if isinstance(n.ctx, ast.Load) else stores)[n.id] += 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores[x] += 9
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores[n.name] += 9
        elif isinstance(n, ast.arg):
            stores[n.arg] += 9
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                stores[(a.asname or a.name).split(".")[0]] += 9
    for owner, field, b in list(_blocks(f)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and stores[s.targets[0].id] == 1 and loads[s.targets[0].id] == 1 \
                    and not any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(s.value)):
                nm = s.targets[0].id
                if keep is not None and keep(nm):
                    i += 1
                    continue
                hs = _heads(t)
                hit = [h for h in hs if any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(h))]
                if hit:
                    sub = Sub(nm, s.value)
                    new = sub.visit(hit[0])
                    if sub.done:
                        if hit[0] is not t:
                            if isinstance(t, ast.For):
                                t.iter = new
                            elif isinstance(t, ast.If):
                                t.test = new
                            else:
                                t.items[0].context_expr = new
                        del b[i]
                        i = max(0, i - 1)
                        continue
            i += 1


def _unpack_heads(f):
    """for pair in x: a, b = pair; ...  ->  for a, b in x: ..."""
    uses = Counter(n.id for n in ast.walk(f) if isinstance(n, ast.Name))
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.body and isinstance(n.body[0], ast.Assign) and len(n.body) > 1:
            s = n.body[0]
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Name) and s.value.id == n.target.id and uses[n.target.id] == 2:
                n.target = s.targets[0]
                del n.body[0]


def _counters(f):
    """i = 0; for x in y: ...; i += 1   ->  for i, x in enumerate(y): ..."""
    stores, where = Counter(), {}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            stores[n.id] += 1
        elif isinstance(n, ast.arg):
            stores[n.arg] += 9
    for owner, field, b in list(_blocks(f)):
        j = 0
        while j < len(b):
            s = b[j]
            if isinstance(s, ast.For) and not s.orelse and len(s.body) > 1 and not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                t = s.body[-1]
                if isinstance(t, ast.AugAssign) and isinstance(t.op, ast.Add) and isinstance(t.target, ast.Name) and isinstance(t.value, ast.Constant) and t.value.value == 1 and stores[t.target.id] == 2:
                    c = t.target.id
                    init = next((i for i in range(j) if isinstance(b[i], ast.Assign) and len(b[i].targets) == 1 and isinstance(b[i].targets[0], ast.Name) and b[i].targets[0].id == c and isinstance(b[i].value, ast.Constant) and type(b[i].value.value) is int), None)
                    inside = sum(isinstance(n, ast.Name) and n.id == c for n in ast.walk(s))
                    total = sum(isinstance(n, ast.Name) and n.id == c for n in ast.walk(f))
                    if init is not None and total == inside + 1:
                        args = [s.iter] + ([b[init].value] if b[init].value.value else [])
                        s.iter = ast.copy_location(ast.Call(func=_name("enumerate", s), args=args, keywords=[]), s)
                        s.target = ast.copy_location(ast.Tuple(elts=[_name(c, s, ast.Store), s.target], ctx=ast.Store()), s)
                        s.body.pop()
                        del b[init]
                        continue
            j += 1


# --------------------------------------------------------------------------
# private helpers with one call site
# --------------------------------------------------------------------------
def _mentions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            yield n.id
        elif isinstance(n, ast.Attribute):
            yield n.attr
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            yield n.value
        elif isinstance(n, ast.alias):
            yield n.name
        elif isinstance(n, ast.keyword) and n.arg:
            yield n.arg


def _private(nm):
    return nm.startswith("_") and not (nm.startswith("__") and nm.endswith("__"))


def _body(f):
    b = f.body
    return b[1:] if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else b


class _No(Exception):
    pass


def _inlinable(f):
    a = f.args
    if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
        return False
    if any((d.id if isinstance(d, ast.Name) else "?") != "staticmethod" for d in f.decorator_list):
        return False
    for n in ast.walk(f):
        if n is not f and isinstance(n, FN + (ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await)):
            return False
        if isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__"):
            return False
    return True


def _fresh(nm, taken):
    k = nm + "__h"
    while k in taken:
        k += "h"
    return k


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            n.id = r
            return n
        return ast.copy_location(copy.deepcopy(r), n)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return n


def _tails(stmts, make):
    """Replace returns in tail position by make(value); _No when a return sits elsewhere."""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            return out + make(s.value, s)
        if isinstance(s, ast.If) and any(isinstance(n, ast.Return) for n in ast.walk(s)):
            rest = stmts[i + 1:]
            a = _tails(s.body + ([] if leaves(s.body) else copy.deepcopy(rest)), make)
            b = _tails(s.orelse + ([] if s.orelse and leaves(s.orelse) else rest), make)
            if rest and not leaves(s.body) and not (s.orelse and leaves(s.orelse)) and len(rest) > 3:
                raise _No
            out.append(ast.copy_location(ast.If(test=s.test, body=a or [ast.copy_location(ast.Pass(), s)], orelse=b), s))
            return out
        if any(isinstance(n, ast.Return) for n in ast.walk(s)):
            raise _No
        out.append(s)
    return out if leaves(out) else out + make(None, None)


def _bind(f, call, method):
    """{parameter: argument expression} or raise _No."""
    ps = [x.arg for x in f.args.args]
    if method:
        ps = ps[1:]
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(ps):
        raise _No
    got = dict(zip(ps, call.args))
    for k in call.keywords:
        if k.arg not in ps or k.arg in got:
            raise _No
        got[k.arg] = k.value
    d = f.args.defaults
    for q, v in zip([x.arg for x in f.args.args][len(f.args.args) - len(d):], d):
        if q not in got:
            if not isinstance(v, ast.Constant):
                raise _No
            got[q] = copy.deepcopy(v)
    if set(got) != set(ps):
        raise _No
    return {q: got[q] for q in ps}


def _splice(h, caller, call, stmt, method):
    """Statements equivalent to stmt with the call to helper h replaced by its body."""
    bound = _bind(h, call, method)
    body = copy.deepcopy(_body(h))
    if method:
        me = h.args.args[0].arg
        recv = call.func.value.id
    taken = {n.id for n in ast.walk(caller) if isinstance(n, ast.Name)} | set(_params(caller))
    stored = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.name for s in body for n in ast.walk(s) if isinstance(n, ast.ExceptHandler) and n.name}
    final = isinstance(stmt, ast.Return)
    ren, pre = {}, []
    if method and me != recv:
        ren[me] = recv
    for q, e in bound.items():
        if isinstance(e, ast.Name) and (q not in stored or final and e.id == q):
            if e.id != q:
                if e.id in stored:
                    raise _No
                ren[q] = e.id
            continue
        k = q
        if q in taken and not final:
            k = _fresh(q, taken)
            ren[q] = k
        elif q in taken and any(isinstance(n, ast.Name) and n.id == q for o, x in bound.items() if o != q for n in ast.walk(x)):
            k = _fresh(q, taken)
            ren[q] = k
        pre.append(ast.copy_location(ast.Assign(targets=[_name(k, e, ast.Store)], value=e), stmt))
    for v in stored - set(bound):
        if v in taken and not final:
            ren[v] = _fresh(v, taken)
    if ren:
        body = [Rename(ren).visit(s) for s in body]
    if final:
        if not leaves(body) and caller.body[-1] is not stmt:
            body.append(ast.copy_location(ast.Return(value=None), stmt))
        return pre + body
    if isinstance(stmt, ast.Expr):
        def make(v, at):
            if v is None or isinstance(v, (ast.Constant, ast.Name)):
                return []
            return [ast.copy_location(ast.Expr(value=v), at)]
    else:
        def make(v, at):
            s = copy.copy(stmt)
            s.targets = copy.deepcopy(stmt.targets)
            s.value = v if v is not None else ast.copy_location(ast.Constant(None), stmt)
            return [ast.copy_location(s, at if at is not None else stmt)]
    return pre + _tails(body, make)


def _site(f, h, cls):
    """(block, index, stmt, call, is method) of the single call of h inside function f, when it is a whole statement."""
    for owner, field, b in _blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Expr)) or isinstance(s, ast.Assign) and len(s.targets) == 1:
                c = s.value
                if isinstance(c, ast.Call):
                    fn = c.func
                    if isinstance(fn, ast.Name) and fn.id == h.name and cls is None:
                        return b, i, s, c, False
                    if isinstance(fn, ast.Attribute) and fn.attr == h.name and cls is not None and isinstance(fn.value, ast.Name):
                        static = any(isinstance(d, ast.Name) for d in h.decorator_list)
                        ps = _params(f)
                        if static and (fn.value.id in ("self", "cls", cls.name)) or not static and ps and fn.value.id == ps[0] and not f.decorator_list_static:
                            return b, i, s, c, not static
    return None


def _expr_site(f, h, cls):
    for n in ast.walk(f):
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name) and fn.id == h.name and cls is None:
                return n, False
            if isinstance(fn, ast.Attribute) and fn.attr == h.name and cls is not None and isinstance(fn.value, ast.Name):
                static = any(isinstance(d, ast.Name) for d in h.decorator_list)
                ps = _params(f)
                if static and fn.value.id in ("self", "cls", cls.name) or not static and ps and fn.value.id == ps[0] and not f.decorator_list_static:
                    return n, not static
    return None


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def _functions(tree):
    """(function, class or None) at module level and in module-level classes."""
    for s in tree.body:
        if isinstance(s, FN):
            yield s, None
        elif isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, FN):
                    yield x, s


MANY, SMALL = 4, 12        # a helper is copied into at most this many callers, and only when it is short


def _stmts(f):
    return (n for n in ast.walk(f) if isinstance(n, ast.stmt) and n is not f)


def _inline(trees):
    uses, defs, stuck = Counter(), Counter(), set()
    for t in trees:
        uses.update(_mentions(t))
        defs.update(n.name for n in ast.walk(t) if isinstance(n, FN + (ast.ClassDef,)))
    done = 0
    for t in trees:
        for f, c in _functions(t):
            f.decorator_list_static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list)
        again = True
        while again:
            again = False
            fns = list(_functions(t))
            for h, cls in fns:
                if not _private(h.name) or not 1 <= uses[h.name] <= MANY or uses[h.name] > 1 and len(list(_stmts(h))) > SMALL or h.name in stuck or defs[h.name] != 1 or not isinstance(h, ast.FunctionDef) or not _inlinable(h):
                    continue
                stuck.add(h.name)
                for f, c in fns:
                    if f is h or cls is not None and c is not cls:
                        continue
                    hit = _site(f, h, cls)
                    if hit is not None:
                        b, i, s, call, method = hit
                        try:
                            b[i:i + 1] = _splice(h, f, call, s, method) or [ast.copy_location(ast.Pass(), s)]
                        except _No:
                            break
                        again = True
                        break
                    ex = _expr_site(f, h, cls)
                    hb = _body(h)
                    if ex is not None and len(hb) == 1 and isinstance(hb[0], ast.Return) and hb[0].value is not None:
                        call, method = ex
                        try:
                            bound = _bind(h, call, method)
                        except _No:
                            break
                        n_use = Counter(n.id for n in ast.walk(hb[0].value) if isinstance(n, ast.Name))
                        if any(not isinstance(e, (ast.Name, ast.Constant)) and n_use[q] > 1 for q, e in bound.items()) or any(isinstance(n, COMPS + (ast.Lambda,)) for n in ast.walk(hb[0].value)):
                            break
                        m = dict(bound)
                        if method and h.args.args[0].arg != call.func.value.id:
                            m[h.args.args[0].arg] = call.func.value.id
                        e = Rename(m).visit(copy.deepcopy(hb[0].value))
                        Replace(call, e).visit(f)
                        again = True
                        break
                if again:
                    stuck.discard(h.name)
                    copied = Counter(x for s in _body(h) for x in _mentions(s))
                    uses.update(copied)
                    uses[h.name] -= 1
                    if uses[h.name] == 0:
                        _drop(t, cls, h)
                        uses.subtract(copied)
                    done += 1
                    break
    return done


def _drop(tree, cls, h):
    box = cls.body if cls is not None else tree.body
    box.remove(h)
    if not box:
        box.append(ast.copy_location(ast.Pass(), h))


def normalize(trees, temps=True, keep=None):
    """Normalise the modules of one package in place.
    keep(name): temporaries whose name carries meaning for the caller; they stay, and so do helpers."""
    for t in trees:
        c = _constants(t)
        if c:
            PutBack(c).visit(t)
        Expressions().visit(t)
        if temps:
            for f in ast.walk(t):
                if isinstance(f, FN):
                    _fold_temps(f, keep)
                    _unpack_heads(f)
                    _counters(f)
    if temps and keep is None:
        _inline(trees)
        for t in trees:
            for f in ast.walk(t):
                if isinstance(f, FN):
                    _fold_temps(f)
    for t in trees:
        ast.fix_missing_locations(t)
