"""C18: a value that is set is kept, refused or reported - never dropped, replaced or doubled.

Every control path of every field validator, property setter and add_* method is walked with the
set of names that depend on the incoming value and the tests passed on the way.
"""
import ast

from ..names import const_str, resolve, txt
from ..project import External, GlobalVar, dotted
from ..report import Result
from .environment import must_fire, must_not_fire
from .schema import literal, value_param

NULLISH = {None, "", "none", "null", "nan", "na", "n/a", "unknown", "listdict()", "{}", "[]", "0", "none-none", "1980-01-01t00:00:00+00:00", "1980", "1980-01-01t00:00:00"}
GROW = {"append", "extend", "add", "insert", "update", "appendleft", "setdefault"}
LOGS = {"warning", "error", "exception", "critical", "warn"}
MAXPATHS = 400


def nullish(v):
    if v is None or v is False:
        return True
    if isinstance(v, str):
        return v.strip().lower() in NULLISH
    if isinstance(v, (int, float)):
        return v == 0
    if isinstance(v, (list, tuple, dict)):
        return len(v) == 0
    return False


def roots(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def about(e, taint):
    """The expression is the value itself or a plain view of it (value, value.strip(), len(value), value.size)."""
    while True:
        if isinstance(e, ast.Name):
            return e.id in taint
        if isinstance(e, ast.Call):
            f = dotted(e.func) or ""
            if f in ("len", "str", "list", "any", "all", "bool", "np.any", "np.all", "np.array", "np.asarray", "type") and e.args:
                e = e.args[0]
                continue
            if isinstance(e.func, ast.Attribute):
                e = e.func.value
                continue
            return False
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            e = e.value
            continue
        if isinstance(e, ast.NamedExpr):
            e = e.value
            continue
        return False


def whole(e, taint):
    """The iterable is the value itself (or its items, values, a copy of it), not a part of it."""
    while True:
        if isinstance(e, ast.Name):
            return e.id in taint
        if isinstance(e, ast.Call):
            f = dotted(e.func) or ""
            if f in ("enumerate", "list", "tuple", "sorted", "reversed", "zip", "iter", "np.array", "np.asarray") and e.args:
                if f == "zip":
                    return any(whole(a, taint) for a in e.args)
                e = e.args[0]
                continue
            if isinstance(e.func, ast.Attribute):
                e = e.func.value
                continue
        return False


class Walk:
    def __init__(self, p, f, params):
        self.p, self.f = p, f
        self.start = frozenset(params)
        self.self_name = f.params[0] if f.params and f.cls is not None else None

    # ---- what a passed test says about the value -----------------------
    def says(self, test, pol, taint):
        """'null' the value is empty, 'pin' it equals something named, 'kind' only its type, None."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.says(test.operand, not pol, taint)
        if isinstance(test, ast.BoolOp):
            both = isinstance(test.op, ast.And) == pol      # every part holds with this polarity
            parts = [self.says(t, pol, taint) for t in test.values]
            if both:
                return next((x for x in ("null", "same", "pin", "kind") if x in parts), None)
            if all(x == "null" for x in parts):
                return "null"
            if all(x in ("null", "pin") for x in parts):
                return "pin"
            return "kind" if any(parts) else None
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            if not about(l, taint) and about(r, taint) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                l, r = r, l
            if about(l, taint):
                pos = pol == isinstance(op, (ast.Eq, ast.Is, ast.In))
                if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    v = literal(self.p, self.f, r)
                    if isinstance(l, ast.Call) and dotted(l.func) == "type":
                        return "kind"
                    if pos:
                        return "null" if (v is None or isinstance(v, (str, int, float, list, dict, tuple))) and nullish(v) else "pin"
                    return None
                if isinstance(op, (ast.In, ast.NotIn)):
                    v = literal(self.p, self.f, r)
                    if pos:
                        if isinstance(v, (list, tuple, dict)) and v and all(nullish(x) if x is None or isinstance(x, (str, int, float, list, dict, tuple)) else False for x in v):
                            return "null"
                        return "kind" if about(r, taint) else "pin"
                    return None
                if isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                    v = literal(self.p, self.f, r)
                    if isinstance(v, int) and not isinstance(v, bool):
                        empty = {(ast.Gt, 0): False, (ast.GtE, 1): False, (ast.Lt, 1): True, (ast.LtE, 0): True}.get((type(op), v))
                        if empty is not None and empty == pol and (isinstance(l, ast.Call) or isinstance(l, ast.Attribute)):
                            return "null"
                    return None
            if isinstance(op, (ast.In, ast.NotIn)) and about(r, taint):
                return "pin" if const_str(l) and pol == isinstance(op, ast.In) else "kind"
            return None
        if isinstance(test, ast.Call):
            n = test.func.attr if isinstance(test.func, ast.Attribute) else (dotted(test.func) or "")
            if n in ("isinstance", "issubclass", "hasattr", "callable") and test.args and about(test.args[0], taint):
                return "kind"
            if n in ("isspace",) and about(test, taint):
                return "null" if pol else None
            if n in ("isnan", "isnull", "isna") and test.args and about(test.args[0], taint):
                return "null" if pol else None
            if n in ("startswith", "endswith") and about(test, taint):
                return "pin" if pol else None
            if n in ("any", "all", "array_equal", "allclose"):
                # equality with what is already there
                inner = test.args[0] if test.args else (test.func.value if isinstance(test.func, ast.Attribute) else None)
                if n in ("array_equal", "allclose") or (isinstance(inner, (ast.Compare, ast.GeneratorExp)) and
                        any(isinstance(x, ast.Compare) and isinstance(x.ops[0], ast.Eq) and (about(x.left, taint) or about(x.comparators[0], taint)) for x in ast.walk(inner))):
                    return "same" if pol else None
            if about(test, taint) and n in ("strip", "lstrip", "rstrip", "any", "all", "len", "keys", "values", "items", "lower", "upper", "bool"):
                return None if pol else "null"
            return None
        if about(test, taint):
            return "null" if not pol else None
        return None

    # ---- paths -----------------------------------------------------------
    def run(self, stmts, st):
        live, ends = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for k, y in self.stmt(s, x):
                    (nxt if k == "fall" else ends).append(y if k == "fall" else (k, y))
            live = nxt[:MAXPATHS]
            if not live:
                break
        return ends + [("fall", x) for x in live]

    def dep(self, e, st):
        return e is not None and bool(roots(e) & st["taint"])

    def effects(self, e, st):
        """Calls inside an expression: growth, stores on self, reports."""
        for c in ast.walk(e):
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                st["comps"] = st["comps"] + ((c, st["taint"]),)
            if not isinstance(c, ast.Call):
                continue
            f = dotted(c.func) or ""
            last = c.func.attr if isinstance(c.func, ast.Attribute) else f
            if last in LOGS or f.startswith("warnings.") or last == "print":
                st["told"] = True
                continue
            args = list(c.args) + [k.value for k in c.keywords]
            given = any(self.dep(a, st) for a in args)
            if last in ("setattr", "__setattr__") and args:
                r = roots(args[0])
                if given:
                    st["taint"] = st["taint"] | r
                    if self.self_name in r:
                        st["kept"] = True
                continue
            if isinstance(c.func, ast.Attribute):
                rr = c.func.value
                base = rr
                while isinstance(base, (ast.Attribute, ast.Subscript, ast.Call)):
                    base = base.func if isinstance(base, ast.Call) else base.value
                if isinstance(base, ast.Name):
                    if base.id == self.self_name or (isinstance(base, ast.Name) and base.id == "super"):
                        if given:
                            st["kept"] = True
                    elif given:
                        st["taint"] = st["taint"] | {base.id}
                        if last not in GROW and base.id in st["out"]:
                            st["kept"] = True
                if last in GROW:
                    st["grown"] = st["grown"] + ((ast.unparse(rr), ast.unparse(c.args[-1]) if c.args else "", given),)
                    if given and isinstance(base, ast.Name) and base.id == self.self_name:
                        st["kept"] = True
                # value.method(self) / value.attr changed: the value takes part in the object
                if isinstance(base, ast.Name) and base.id in st["taint"] and any(self.self_name in roots(a) for a in args):
                    st["kept"] = True

    def new(self, st, **kw):
        x = dict(st)
        x.update(kw)
        return x

    def assign(self, target, value, st, deep):
        d = deep if value is None else self.dep(value, st)
        if isinstance(target, ast.Name):
            st["taint"] = (st["taint"] | {target.id}) if d else (st["taint"] - {target.id})
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.assign(t, None, st, d)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, None, st, d)
        else:
            base = target
            keyed = False
            while isinstance(base, (ast.Attribute, ast.Subscript, ast.Call)):
                if isinstance(base, ast.Subscript):
                    keyed = keyed or self.dep(base.slice, st)
                base = base.func if isinstance(base, ast.Call) else base.value
            if isinstance(base, ast.Name):
                if d or keyed:
                    if base.id != self.self_name:
                        st["taint"] = st["taint"] | {base.id}
                    else:
                        st["kept"] = True
                    st["grown"] = st["grown"] + ((ast.unparse(target.value) if isinstance(target, (ast.Attribute, ast.Subscript)) else base.id, ast.unparse(target), True),)
                elif base.id == self.self_name:
                    st["set"] = True

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            st = self.new(st)
            if s.value is not None:
                self.effects(s.value, st)
            return [("return", self.new(st, ret=s))]
        if isinstance(s, ast.Raise):
            return [("raise", self.new(st, ret=s))]
        if isinstance(s, ast.If):
            out = []
            for pol, body in ((True, s.body), (False, s.orelse)):
                x = self.new(st)
                self.effects(s.test, x)
                x["facts"] = x["facts"] + ((s.test, pol, self.says(s.test, pol, x["taint"])),)
                out += self.run(body, x)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            st = self.new(st)
            if s.value is not None:
                self.effects(s.value, st)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(s, ast.AugAssign):
                        if self.dep(s.value, st):
                            self.assign(t, None, st, True)
                            st["grown"] = st["grown"] + ((ast.unparse(t), ast.unparse(s.value), True),)
                    else:
                        self.assign(t, s.value, st, False)
            return [("fall", st)]
        if isinstance(s, ast.Expr):
            st = self.new(st)
            self.effects(s.value, st)
            return [("fall", st)]
        if isinstance(s, (ast.For, ast.While)):
            x = self.new(st)
            head = s.iter if isinstance(s, ast.For) else s.test
            self.effects(head, x)
            looped = isinstance(s, ast.For) and self.dep(s.iter, x) and whole(s.iter, x["taint"]) and whole(s.iter, x["taint"])
            skip = self.new(x)
            inner = self.new(x, facts=(), grown=(), kept=False, told=False, set=False)
            if isinstance(s, ast.For):
                self.assign(s.target, s.iter, inner, False)
                inner["item"] = frozenset(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)) if looped else frozenset()
            body = self.run(s.body, inner)
            out, falls = [], [skip]
            paths = []
            for k, y in body:
                if k in ("fall", "continue", "break"):
                    paths.append((k, y))
                elif k == "return":
                    out.append((k, self.new(y, facts=x["facts"] + y["facts"])))
                else:
                    out.append((k, y))
            merged = self.new(x)
            if looped:
                merged["loops"] = merged["loops"] + ((s, tuple(paths), inner["item"]),)
            for _, y in paths:
                merged["taint"] = merged["taint"] | y["taint"]
                merged["comps"] = merged["comps"] + tuple(c for c in y["comps"] if c not in merged["comps"])
                merged["loops"] = merged["loops"] + tuple(l for l in y["loops"] if l not in merged["loops"])
            # one summary state: what some iteration keeps or reports counts for the whole loop
            merged["kept"] = x["kept"] or (bool(paths) and any(y["kept"] for _, y in paths))
            merged["told"] = x["told"] or any(y["told"] for _, y in paths)
            merged["set"] = x["set"] or any(y["set"] for _, y in paths)
            return out + self.run(s.orelse, merged)
        if isinstance(s, ast.Try):
            out = []
            body = self.run(s.body, self.new(st))
            told = any(y["told"] for _, y in body)
            for k, y in body:
                if k == "fall":
                    out += self.run(s.orelse, y)
                elif k == "raise":
                    if not s.handlers:
                        out.append((k, y))
                else:
                    out.append((k, y))
            for h in s.handlers:
                x = self.new(st)
                x["facts"] = x["facts"] + ((h.type or ast.Constant(value="except"), True, None),)
                out += self.run(h.body, x)
            if s.finalbody:
                out = [z for k, y in out for z in (self.run(s.finalbody, y) if k == "fall" else [(k, y)])]
            return out
        if isinstance(s, ast.With):
            x = self.new(st)
            for i in s.items:
                self.effects(i.context_expr, x)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, i.context_expr, x, False)
            return self.run(s.body, x)
        if isinstance(s, ast.Match):
            out = [("fall", st)]
            for c in s.cases:
                out += self.run(c.body, self.new(st))
            return out
        if isinstance(s, ast.Break):
            return [("break", st)]
        if isinstance(s, ast.Continue):
            return [("continue", st)]
        if isinstance(s, ast.Delete):
            return [("fall", self.new(st, set=True))]
        return [("fall", st)]

    def ends(self):
        st = dict(taint=self.start, facts=(), kept=False, told=False, set=False, grown=(), comps=(), loops=(), item=frozenset(), out=frozenset(), ret=None)
        n = self.f.node
        return self.run(n.body, st)


def known(st, w=None):
    return {x for _, _, x in st["facts"]}


def _loops(f, w, ends, res, what):
    """Elements of the incoming collection: each is kept, refused or reported, and kept once."""
    seen = {}
    for _, st in ends:
        for l in st["loops"]:
            seen.setdefault(id(l[0]), l)
        order = [l for l in st["loops"]]
        for i, a in enumerate(order):
            for b in order[i + 1:]:
                if a[0] is b[0] or ast.unparse(a[0].iter) != ast.unparse(b[0].iter):
                    continue
                for _, x in a[1]:
                    for _, y in b[1]:
                        ga = {(c, v) for c, v, d in x["grown"] if d}
                        gb = {(c, v) for c, v, d in y["grown"] if d}
                        if not ({c for c, _ in ga} & {c for c, _ in gb}):
                            continue
                        fx = {(ast.unparse(t), pol) for t, pol, _ in x["facts"]}
                        fy = {(ast.unparse(t), not pol) for t, pol, _ in y["facts"]}
                        if fx & fy:
                            continue
                        res.add("element-doubled", f"{f.short}:{ast.unparse(b[0].iter)[:40]}", f.loc(b[0]), f"{what} {f.short} adds the same element of {txt(b[0].iter)} in two loops")
    for s, paths, item in seen.values():
        res.count("obligations: element loops in validators, setters and adders")
        if not any(d for _, y in paths for _, _, d in y["grown"]) and not any(y["kept"] for _, y in paths):
            continue
        for k, y in paths:
            if k == "break":
                continue
            grown = [(c, v) for c, v, d in y["grown"]]
            dup = [g for g in set(grown) if grown.count(g) > 1 and g[1] and any(c == g[0] and v == g[1] and d for c, v, d in y["grown"])]
            if dup:
                res.add("element-doubled", f"{f.short}:{dup[0][0]}", f.loc(s), f"{what} {f.short} adds {dup[0][1]} to {dup[0][0]} twice for one element")
            if grown or y["kept"] or y["told"]:
                continue
            if known(y) & {"null", "pin", "same"} or any(isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and not _itself(t, s) for t, _, _ in y["facts"]):
                continue
            cond = "; ".join(("" if pol else "not ") + txt(t, 50) for t, pol, _ in y["facts"]) or "always"
            res.add("element-dropped", f"{f.short}:{ast.unparse(s.iter)[:40]}", f.loc(s), f"{what} {f.short} neither keeps, refuses nor reports an element of {txt(s.iter)} when {cond}")


def _itself(t, loop):
    """The element is looked up in the very collection it was taken from: that says nothing about it."""
    it = loop.iter
    while isinstance(it, ast.Call) and len(it.args) == 1 and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "list", "tuple", "sorted", "reversed", "iter"):
        it = it.args[0]
    items = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    return isinstance(t.left, ast.Name) and t.left.id in items and isinstance(it, (ast.Name, ast.Attribute)) and ast.unparse(t.comparators[0]) == ast.unparse(it)


def _comps(f, w, ends, res, what):
    done = set()
    for _, st in ends:
        for c, taint in st["comps"]:
            if id(c) in done:
                continue
            done.add(id(c))
            for g in c.generators:
                if not g.ifs or not whole(g.iter, taint):
                    continue
                res.count("obligations: filtered comprehensions over the incoming value")
                item = frozenset(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
                for t in g.ifs:
                    if w.says(t, False, item) in ("null", "pin", "same"):
                        continue
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)):
                        continue
                    if st["told"]:
                        continue
                    res.add("element-dropped", f"{f.short}:{ast.unparse(g.iter)[:40]}", f.loc(c), f"{what} {f.short} silently drops elements of {txt(g.iter)} for which {txt(t)} is false")


def _describe(st):
    return "; ".join(("" if pol else "not ") + txt(t, 50) for t, pol, _ in st["facts"]) or "always"


def _keeping(p, res):
    for f in p.functions:
        if f.parent is not None or f.cls is None or not isinstance(f.node, ast.FunctionDef):
            continue
        kind = None
        if any(n.split(".")[-1] in ("field_validator", "validator") for n in f.deco_names):
            kind = "validator"
        elif f.accessor == "setter":
            kind = "setter"
        elif f.name.startswith("add_") and not f.is_static and len(f.params) > 1:
            kind = "adder"
        if kind is None:
            continue
        q = value_param(f)
        if q is None:
            continue
        params = [q] if kind != "adder" else f.params[1:]
        w = Walk(p, f, params)
        ends = w.ends()
        res.count(f"obligations: paths through {kind}s", len(ends))
        res.count(f"{kind}s walked")
        what = {"validator": "the validator", "setter": "the setter", "adder": "the method"}[kind]
        _loops(f, w, ends, res, what)
        _comps(f, w, ends, res, what)
        if kind == "validator":
            rets = [st["ret"].value for k, st in ends if k == "return" and st["ret"].value is not None]
            same = len({ast.unparse(r) for r in rets}) == 1
            for k, st in ends:
                if k == "fall" or (k == "return" and st["ret"].value is None):
                    if not rets and k == "fall" and not st["facts"]:
                        pass
                    if known(st) & {"null"} and k == "return":
                        # an explicit "nothing" for an empty value
                        pass
                    node = st["ret"] or f.node
                    res.add("value-lost", f"{f.short}", f.loc(node), f"the validator {f.short} ends without returning a value, so the field silently becomes None, when {_describe(st)}")
                elif k == "return":
                    v = st["ret"].value
                    if w.dep(v, st) or st["told"] or known(st) & {"null", "pin", "same"}:
                        continue
                    if same and len(rets) >= 1 and not isinstance(v, ast.Constant):
                        continue
                    if same and isinstance(v, ast.Constant) and all(k2 != "fall" for k2, _ in ends) and v.value is not None:
                        continue      # a field the class fixes
                    res.add("value-replaced", f"{f.short}:{txt(v, 30)}", f.loc(st["ret"]), f"the validator {f.short} silently replaces the value by {txt(v, 40)} when {_describe(st)}")
        else:
            for k, st in ends:
                if k == "raise":
                    continue
                if st["kept"] or st["told"] or known(st) & {"null", "same"}:
                    continue
                if kind == "adder" and "pin" in known(st):
                    continue
                if "pin" in known(st) and st["set"]:
                    continue
                if k == "return" and st["ret"].value is not None and w.dep(st["ret"].value, st):
                    continue
                rule = "set-ignored"
                node = st["ret"] or f.node
                res.add(rule, f"{f.short}", f.loc(node), f"{what} {f.short} returns without storing, refusing or reporting the value when {_describe(st)}")


BAD = '''
from pydantic import BaseModel, Field, field_validator
from typing import Annotated
class M(BaseModel):
    a: Annotated[str, Field(default="")]
    @field_validator("a", mode="before")
    @classmethod
    def one(cls, value):
        if isinstance(value, str):
            return value
        elif isinstance(value, int):
            return str(value)
    @field_validator("a", mode="before")
    @classmethod
    def two(cls, value):
        try:
            return float(value)
        except ValueError:
            return 1.5
    @field_validator("a", mode="before")
    @classmethod
    def three(cls, value):
        out = []
        for item in value:
            if isinstance(item, str):
                out.append(item)
        return out
    @field_validator("a", mode="before")
    @classmethod
    def four(cls, value):
        out = []
        for item in value:
            if isinstance(item, str):
                out.append(item)
        for item in value:
            if isinstance(item, (str, int)):
                out.append(item)
            else:
                raise TypeError("no")
        return [v for v in out if isinstance(v, str)]
class S:
    @property
    def x(self):
        return self._x
    @x.setter
    def x(self, value):
        if isinstance(value, str):
            self._x = value
    def add_thing(self, thing):
        if isinstance(thing, S):
            self.things.append(thing)
        elif isinstance(thing, dict):
            t = S()
            t.load(thing)
'''

GOOD = '''
import logging
logger = logging.getLogger()
from pydantic import BaseModel, Field, field_validator
from typing import Annotated
NULLS = [None, "", "none"]
class M(BaseModel):
    a: Annotated[str, Field(default="")]
    @field_validator("a", mode="before")
    @classmethod
    def one(cls, value):
        if value in NULLS:
            return None
        if not isinstance(value, str):
            raise TypeError("no")
        if value == "e":
            return "electric"
        out = value.lower()
        return out
    @field_validator("a", mode="before")
    @classmethod
    def two(cls, value):
        out, fails = [], []
        if not isinstance(value, list):
            value = [value]
        for i, item in enumerate(value):
            if isinstance(item, str):
                out.append(item)
            elif item is None:
                continue
            elif isinstance(item, dict):
                m = M()
                m.load(item)
                out.append(m)
            else:
                fails.append(i)
        if fails:
            raise TypeError(fails)
        return out
    @field_validator("a", mode="before")
    @classmethod
    def three(cls, value):
        try:
            return float(value)
        except ValueError:
            logger.warning("bad")
            return 0.5
class S:
    @property
    def x(self):
        return self._x
    @x.setter
    def x(self, value):
        if value is None:
            return
        if (self._x == value).all():
            return
        y = S.make(value)
        self._x = y
    def add_thing(self, thing):
        if isinstance(thing, str):
            t = S()
            t.x = thing
        else:
            t = thing
        if t in self.things:
            logger.warning("there")
        else:
            self.things.append(t)
'''


def c18(p, tier):
    res = Result("C18", "every path of every field validator returns something that depends on the value, or the value is tested to be empty or equal to a named constant, or the path raises or logs; element loops do so for each element exactly once; setters and add_* methods store, refuse or report on every path")
    _keeping(p, res)
    for rule, n in (("value-lost", 1), ("value-replaced", 1), ("element-dropped", 2), ("element-doubled", 1), ("set-ignored", 2)):
        must_fire(res, rule, _keeping, BAD, n)
    must_not_fire(res, _keeping, GOOD)
    res.floors = {"obligations: paths through validators": 300, "obligations: paths through setters": 120, "obligations: paths through adders": 35, "validators walked": 100,
                  "setters walked": 45, "obligations: element loops in validators, setters and adders": 20}
    res.assumptions = ["a result computed from the value by a call keeps the value (what the called conversion does numerically is not decided)",
                       "a warning or error written to the log counts as a report"]
    return res


CHECKS = {"C18": c18}
