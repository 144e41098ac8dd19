"""Definite assignment of local variables (path-sensitive in repeated guards and flags)."""
from __future__ import annotations

import ast
import functools
import re

from .names import FN, scope_locals, txt

TOP = None      # unreachable


class State:
    """d: certainly assigned; g: guard text -> assigned too when it holds; c: variable -> known constant truth;
    dom: variable -> constants it can equal; pos/neg: variable -> types an isinstance test has established / excluded."""
    __slots__ = ("d", "g", "c", "dom", "pos", "neg")

    def __init__(self, d, g=None, c=None, dom=None, pos=None, neg=None):
        self.d = frozenset(d)
        self.g = dict(g or {})
        self.c = dict(c or {})
        self.dom = dict(dom or {})
        self.pos = dict(pos or {})
        self.neg = dict(neg or {})

    def copy(self):
        return State(self.d, self.g, self.c, self.dom, self.pos, self.neg)

    def holds(self, k):
        """Assigned whenever guard k holds, None when it cannot hold."""
        if k in self.c and not self.c[k] or k.startswith("not ") and self.c.get(k[4:]) is True:
            return None
        return self.d | self.g.get(k, frozenset())


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
               ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}.get(type(t.ops[0]))
        if inv:
            return ast.Compare(left=t.left, ops=[inv()], comparators=t.comparators)
    return ast.UnaryOp(op=ast.Not(), operand=t)


def key(t):
    return txt(t, 400)


@functools.lru_cache(None)
def disjuncts(k):
    if " or " not in k:
        return frozenset()
    try:
        e = ast.parse(k, mode="eval").body
    except SyntaxError:
        return frozenset()
    return frozenset(key(v) for v in e.values) if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) else frozenset()


def join(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    d = a.d & b.d
    g = {}
    flags = {k for x in (a, b) for k in x.c}
    for k in set(a.g) | set(b.g) | flags | {f"not {k}" for k in flags}:
        x, y = a.holds(k), b.holds(k)
        v = (y if x is None else x if y is None else x & y) or frozenset()
        if v - d:
            g[k] = v - d
    c = {k: a.c[k] for k in a.c if k in b.c and a.c[k] == b.c[k]}
    return State(d, g, c, {k: a.dom[k] | b.dom[k] for k in a.dom if k in b.dom},
                 {k: a.pos[k] | b.pos[k] for k in a.pos if k in b.pos}, {k: a.neg[k] & b.neg[k] for k in a.neg if k in b.neg})


def consts(e):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and e.elts and all(isinstance(x, ast.Constant) for x in e.elts):
        return frozenset((type(x.value).__name__, x.value) for x in e.elts)
    return None


def one(e):
    return frozenset([(type(e.value).__name__, e.value)]) if isinstance(e, ast.Constant) else None


def plain(e):
    """x, x.lower(), x.strip().lower(), a.b: a stable expression text."""
    return txt(e, 200) if not any(isinstance(n, ast.Call) and (n.args or n.keywords) for n in ast.walk(e)) else None


class Assigned:
    def __init__(self, f, noreturn=lambda call: False):
        self.f = f
        self.locals = scope_locals(f)
        self.noreturn = noreturn
        self.unbound = {}       # (name, line) -> node
        self.uses = 0
        self.breaks, self.conts = [], []

    def run(self):
        st = State([n for n in self.f.params])
        self.block(self.f.node.body, st)
        return list(self.unbound.values())

    # -- expressions -------------------------------------------------------
    def use(self, e, st, bound=frozenset()):
        if e is None or st is TOP:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in bound:
                self.uses += 1
                if e.id not in st.d:
                    self.unbound.setdefault((e.id, e.lineno), e)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.use(d, st, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            for gen in e.generators:
                self.use(gen.iter, st, frozenset(b))
                for t in ast.walk(gen.target):
                    if isinstance(t, ast.Name):
                        b.add(t.id)
                for i in gen.ifs:
                    self.use(i, st, frozenset(b))
            if isinstance(e, ast.DictComp):
                self.use(e.key, st, frozenset(b))
                self.use(e.value, st, frozenset(b))
            else:
                self.use(e.elt, st, frozenset(b))
            return
        if isinstance(e, ast.BoolOp):
            s2 = st
            for v in e.values:
                self.use(v, s2, bound)
                s2 = self.enter(s2, v if isinstance(e.op, ast.And) else neg(v))
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, st, bound)
            self.use(e.body, self.enter(st, e.test), bound)
            self.use(e.orelse, self.enter(st, neg(e.test)), bound)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st, bound)
            st.d = st.d | {e.target.id}
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, st, bound)

    def enter(self, st, test):
        """State when test holds (None when it cannot)."""
        if st is TOP:
            return TOP
        st = st.copy()
        return st if self.assume(st, test) else TOP

    def assume(self, st, t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        h = st.holds(key(t))
        if h is None:
            return False
        st.d = st.d | h
        for k in st.g:
            if key(t) in disjuncts(k):
                st.d = st.d | st.g[k]
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return all(self.assume(st, v) for v in t.values)
        if isinstance(t, ast.BoolOp):
            outs = [o for o in (self.enter(st, v) for v in t.values) if o is not TOP]
            if not outs:
                return False
            r = outs[0]
            for o in outs[1:]:
                r = join(r, o)
            st.d, st.g, st.c, st.dom, st.pos, st.neg = r.d, r.g, r.c, r.dom, r.pos, r.neg
            return True
        if isinstance(t, ast.Name):
            if st.c.get(t.id) is False:
                return False
            st.c[t.id] = True
            return True
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            o = t.operand
            if isinstance(o, ast.Name):
                if st.c.get(o.id) is True:
                    return False
                st.c[o.id] = False
                return True
            if isinstance(o, ast.BoolOp) and isinstance(o.op, ast.Or):
                return all(self.assume(st, neg(v)) for v in o.values)
            if isinstance(o, ast.BoolOp):
                u = ast.BoolOp(op=ast.Or(), values=[neg(v) for v in o.values])
                return self.assume(st, u)
            if isinstance(o, ast.UnaryOp) and isinstance(o.op, ast.Not):
                return self.assume(st, o.operand)
            if isinstance(o, ast.Constant):
                return not o.value
            if isinstance(o, ast.Compare) and len(o.ops) == 1 and not isinstance(neg(o), ast.UnaryOp):
                return self.assume(st, neg(o))
            if isinstance(o, ast.Call):
                return self.types(st, o, False)
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            x, op, y = plain(t.left), t.ops[0], t.comparators[0]
            if x is None:
                return True
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(y, ast.Constant) and isinstance(y.value, bool) and isinstance(t.left, ast.Name):
                want = y.value if isinstance(op, ast.Is) else not y.value
                if x in st.c and st.c[x] != want:
                    return False
                h = st.holds(x if want else f"not {x}")
                if h is None:
                    return False
                st.d = st.d | h
                return True
            vals = consts(y) if isinstance(op, (ast.In, ast.NotIn)) else one(y) if isinstance(op, (ast.Eq, ast.NotEq)) else None
            if vals is None:
                return True
            if isinstance(op, (ast.In, ast.Eq)):
                st.dom[x] = st.dom[x] & vals if x in st.dom else vals
                return bool(st.dom[x])
            if x in st.dom:
                st.dom[x] = st.dom[x] - vals
                return bool(st.dom[x])
            return True
        if isinstance(t, ast.Call):
            return self.types(st, t, True)
        return True

    def types(self, st, t, truth):
        if not (isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2):
            return True
        x = plain(t.args[0])
        ts = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
        ts = frozenset(txt(k) for k in ts)
        if x is None:
            return True
        if truth:
            new = ts - st.neg.get(x, frozenset())
            if not new:
                return False
            st.pos[x] = st.pos.get(x, new) & new if x in st.pos and st.pos[x] & new else st.pos.get(x, new)
            return True
        st.neg[x] = st.neg.get(x, frozenset()) | ts
        if x in st.pos:
            st.pos[x] = st.pos[x] - ts
            return bool(st.pos[x])
        return True

    def kill(self, st, name):
        st.c.pop(name, None)
        pat = re.compile(rf"(?<![\w.\"']){re.escape(name)}(?![\w\"'])")
        for m in (st.g, st.dom, st.pos, st.neg):
            for k in [k for k in m if pat.search(k)]:
                del m[k]

    def bind(self, st, target):
        if isinstance(target, ast.Name):
            self.kill(st, target.id)
            st.d = st.d | {target.id}
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.bind(st, t)
        elif isinstance(target, ast.Starred):
            self.bind(st, target.value)
        else:
            for c in ast.iter_child_nodes(target):
                self.use(c, st)

    # -- statements --------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is TOP:
                return TOP
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.use(s.value, st)
            if isinstance(s.value, ast.Call) and self.noreturn(s.value):
                return TOP
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.bind(st, t)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant):
                    st.c[t.id] = bool(s.value.value)
                elif isinstance(t, ast.Name) and isinstance(s.value, ast.Tuple) and s.value.elts:
                    st.c[t.id] = True
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                self.bind(st, s.target)
            return st
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s), st)
                self.kill(st, s.target.id)
                st.d = st.d | {s.target.id}
            else:
                self.use(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            return TOP
        if isinstance(s, ast.Break):
            self.breaks[-1].append(st)
            return TOP
        if isinstance(s, ast.Continue):
            self.conts[-1].append(st)
            return TOP
        if isinstance(s, ast.If):
            self.use(s.test, st)
            a = self.enter(st, s.test)
            b = self.enter(st, neg(s.test))
            a = self.block(s.body, a) if a is not TOP else TOP
            b = self.block(s.orelse, b) if b is not TOP else TOP
            if a is not TOP and b is not TOP:
                # the guard itself remembers what its branches assigned
                out = join(a, b)
                names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
                changed = {n.id for x in s.body + s.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
                if not names & changed:
                    for k, v in ((key(s.test), a.d - out.d), (key(neg(s.test)), b.d - out.d)):
                        if v:
                            out.g[k] = out.g.get(k, frozenset()) | v
                return out
            return join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            first = st.copy()
            self.bind(first, s.target)
            i0 = s.target.elts[0] if isinstance(s.target, ast.Tuple) and s.target.elts else s.target
            it = s.iter
            if isinstance(i0, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                    (it.func.id == "enumerate" and len(it.args) == 1 and isinstance(s.target, ast.Tuple) or it.func.id == "range" and len(it.args) == 1):
                first.dom[i0.id] = frozenset([("int", 0)])

            def again(e):
                e = e.copy()
                self.bind(e, s.target)
                if isinstance(s.target, ast.Name) and consts(it) is not None:
                    e.dom[s.target.id] = consts(it)
                return e
            if isinstance(s.target, ast.Name) and consts(it) is not None:
                first.dom[s.target.id] = consts(it)
            end, brk = self.loop(s.body, first, again)
            out = end if self.nonempty(s.iter, st) else join(st, end)
            if s.orelse:
                out = self.block(s.orelse, out) if out is not TOP else TOP
            for b in brk:
                out = join(out, b)
            return out
        if isinstance(s, ast.While):
            self.use(s.test, st)
            end, brk = self.loop(s.body, self.enter(st, s.test), lambda e: self.enter(e, s.test))
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = TOP if forever else join(self.enter(st, neg(s.test)), end)
            if s.orelse and out is not TOP:
                out = self.block(s.orelse, out)
            for b in brk:
                out = join(out, b)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.use(it.context_expr, st)
                if it.optional_vars is not None:
                    self.bind(st, it.optional_vars)
            pre = st.copy()
            out = self.block(s.body, st)
            if any("suppress" in txt(it.context_expr) for it in s.items):
                return join(pre, out)
            return out
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            pre = st.copy()
            out = self.block(s.body, st)
            if out is not TOP and s.orelse:
                out = self.block(s.orelse, out)
            h0 = self.before(s.body, pre)
            ends = [out]
            for h in s.handlers:
                hs = h0.copy()
                if h.type is not None:
                    self.use(h.type, hs)
                if h.name:
                    hs.d = hs.d | {h.name}
                e = self.block(h.body, hs)
                if e is not TOP and h.name:
                    e.d = e.d - {h.name}
                ends.append(e)
            res = TOP
            for e in ends:
                res = join(res, e)
            if s.finalbody:
                fs = self.block(s.finalbody, (h0 if res is TOP else join(h0.copy(), res)).copy())
                if fs is TOP or res is TOP:
                    return TOP
                added = fs.d - h0.d
                res = res.copy()
                res.d = res.d | added
            return res
        if isinstance(s, FN + (ast.ClassDef,)):
            for d in s.decorator_list:
                self.use(d, st)
            if isinstance(s, FN):
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                    self.use(d, st)
            st.d = st.d | {s.name}
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            st.d = st.d | {(a.asname or a.name).split(".")[0] for a in s.names}
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
                    st.d = st.d - {t.id}
                else:
                    self.use(t, st)
            return st
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            return self.enter(st, s.test)
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            res, total = TOP, False
            for c in s.cases:
                cs = st.copy()
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        cs.d = cs.d | {n.name}
                if c.guard is not None:
                    self.use(c.guard, cs)
                res = join(res, self.block(c.body, cs))
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    total = True
            return res if total else join(st, res)
        return st

    def harmless(self, s):
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return True
        return isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant,)) and all(isinstance(t, ast.Name) for t in s.targets) \
            or isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Dict)) and not list(ast.iter_child_nodes(s.value))[1:] and all(isinstance(t, ast.Name) for t in s.targets)

    def before(self, body, pre):
        """What holds when the first statement that can raise is reached."""
        st = pre.copy()
        for s in body:
            if not self.harmless(s):
                break
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    st.d = st.d | {t.id}
        return st

    def loop(self, body, first, again):
        """First iteration apart, then to a fixed point: (state after an iteration, states at break)."""
        brks = []

        def once(st):
            if st is TOP:
                return TOP
            self.breaks.append([])
            self.conts.append([])
            end = self.block(body, st)
            brks.extend(self.breaks.pop())
            for c in self.conts.pop():
                end = join(end, c)
            return end
        e = once(first)
        for _ in range(4):
            if e is TOP:
                break
            nxt = join(e.copy(), once(again(e)))
            if nxt is TOP or (nxt.d == e.d and nxt.g == e.g):
                break
            e = nxt
        return e, brks

    def nonempty(self, it, st):
        if isinstance(it, ast.Name) and st.c.get(it.id):
            return True
        if isinstance(it, (ast.List, ast.Tuple, ast.Set)):
            return bool(it.elts) and not all(isinstance(x, ast.Starred) for x in it.elts)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args:
            if it.func.id == "range":
                v = [a.value for a in it.args if isinstance(a, ast.Constant) and isinstance(a.value, int)]
                if len(v) == len(it.args):
                    return len(range(*v)) > 0
                return False
            if it.func.id in ("enumerate", "sorted", "reversed", "list", "tuple"):
                return self.nonempty(it.args[0], st)
            if it.func.id == "zip":
                return all(self.nonempty(a, st) for a in it.args)
        if isinstance(it, ast.Constant) and isinstance(it.value, str):
            return bool(it.value)
        return False
