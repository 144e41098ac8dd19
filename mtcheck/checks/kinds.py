"""C21: every kind of filter and channel is handled wherever any kind is handled.

Families of sibling classes are read from the class hierarchy; every place that names or chooses
between members (isinstance tuples, unions, registries, if/elif chains and tables on a kind's name,
the StationXML stage bridge) must cover the whole family and lead each kind to its own class.
"""
import ast
import re

from ..names import const_str, resolve, walk_own, txt
from ..names import contexts
from ..project import AnalysisBroken, ClassInfo, External, FuncInfo, dotted
from ..report import Result
from .environment import must_fire, must_not_fire

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


class Family:
    def __init__(self, name, base, members, least):
        self.name, self.base, self.members, self.least = name, base, members, least
        self.names = {c.name for c in members}


def _snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


def _snake2(n):
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", n)).lower()


def _kind_name(c):
    """The declared default of the `type` field."""
    f = c.fields().get("type")
    if f is None:
        return None
    d = f.default
    if isinstance(d, ast.Attribute):
        return d.attr.lower()
    return const_str(d) if d is not None else None


def families(p):
    out = []
    for base, least, label in (("FilterBase", 3, "filter"), ("ChannelBase", 2, "channel")):
        cands = [c for c in p.classes.values() if c.name == base]
        if not cands:
            continue
        b = cands[0]
        subs = p.subclasses(b, strict=True)
        leaves = [c for c in subs if not any(d is not c and d.is_subclass_of(c) for d in subs)]
        names = {c.name for c in leaves}
        members = []
        for c in leaves:
            inner = {n.id for f in c.own_fields.values() for n in ast.walk(f.annotation) if isinstance(n, ast.Name)}
            if len(inner & (names - {c.name})) >= 2:      # a container of kinds, not a kind
                continue
            members.append(c)
        if len(members) >= 3:
            out.append(Family(label, b, sorted(members, key=lambda c: c.name), least))
    return out


def _named(p, ctx, e, fam):
    """Family members an expression names (a name, dotted name or call of one)."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute)):
            r = resolve(p, ctx, n)
            if isinstance(r, ClassInfo) and r in fam.members:
                out.add(r)
    return out


def _union_parts(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return _union_parts(e.left) + _union_parts(e.right)
    return [e]


def _groups(node):
    """Expressions that enumerate classes: tuples/lists/sets of names, dict values, unions."""
    inner = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and len(n.elts) >= 2:
            yield n, n.elts
        elif isinstance(n, ast.Dict) and len(n.values) >= 2:
            yield n, [v for v in n.values if isinstance(v, (ast.Name, ast.Attribute))]
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and id(n) not in inner:
            parts = _union_parts(n)
            for x in ast.walk(n):
                inner.add(id(x))
            yield n, parts


def _defaulted(p, ctx, table, rest):
    """The kinds a name table leaves out are what a lookup that finds no row falls back on."""
    if not all(const_str(k) for k in table.keys if k is not None):
        return False
    names = {t.id if isinstance(t, ast.Name) else t.attr for n in ast.walk(ctx.node if isinstance(ctx, FuncInfo) else ctx.module.tree)
             if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is table for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, (ast.Name, ast.Attribute))}

    def is_table(e):
        return e is table or isinstance(e, ast.Name) and e.id in names or isinstance(e, ast.Attribute) and e.attr in names
    seen = set()
    for f in [ctx] if isinstance(ctx, FuncInfo) else [f for f in p.functions if f.module is ctx.module]:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and len(n.args) == 2 and is_table(n.func.value):
                seen |= {r for x in ast.walk(n.args[1]) if isinstance(x, (ast.Name, ast.Attribute)) for r in [resolve(p, f, x)] if isinstance(r, ClassInfo)}
            looked = isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(c, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and is_table(x) for o, x in zip(c.ops, c.comparators)) for c in ast.walk(n.test))
            looked = looked or isinstance(n, ast.Try) and any(isinstance(c, ast.Subscript) and is_table(c.value) for s in n.body for c in ast.walk(s)) and bool(n.handlers)
            looked = looked or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 1 and is_table(n.func.value)
            if looked:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call):
                        r = resolve(p, f, x.func)
                        if isinstance(r, ClassInfo):
                            seen.add(r)
    return rest <= seen


def _set_rule(p, res, fams):
    for ctx in contexts(p):
        nodes = [ctx.node] if isinstance(ctx, FuncInfo) else ctx.node.body
        for top in nodes:
            if not isinstance(ctx, FuncInfo) and isinstance(top, FN):
                continue
            c2 = ctx
            for g, elts in _groups(top):
                for fam in fams:
                    got = {r for e in elts for r in [resolve(p, c2, e) if isinstance(e, (ast.Name, ast.Attribute)) else None] if isinstance(r, ClassInfo) and r in fam.members}
                    if len(got) < fam.least:
                        # a class registry names: ["Electric", ...]
                        strs = {const_str(e) for e in elts}
                        if g.__class__ is not ast.Dict and len(strs & {_kind_name(c) for c in fam.members}) >= fam.least and fam.name == "channel":
                            res.count("obligations: groups of kinds")
                            miss = {_kind_name(c) for c in fam.members} - strs
                            if miss:
                                res.add("kind-left-out", f"{ctx.short}:{txt(g, 60)}", ctx.loc(g), f"names {len(strs)} of the {fam.name} kinds but not {', '.join(sorted(map(str, miss)))}")
                        continue
                    res.count("obligations: groups of kinds")
                    miss = [c.name for c in fam.members if c not in got]
                    if miss and isinstance(g, ast.Dict) and _defaulted(p, ctx, g, set(fam.members) - got):
                        continue
                    if miss:
                        res.add("kind-left-out", f"{ctx.short}:{txt(g, 60)}", ctx.loc(g), f"covers {len(got)} of the {len(fam.members)} {fam.name} kinds but not {', '.join(miss)}: that kind is refused or skipped here")


# --------------------------------------------------------------------------
# dispatch on a kind's name
# --------------------------------------------------------------------------
U = object()


def _truth(test, subj, tag):
    """Truth of a test when the discriminating expression holds `tag`."""
    if isinstance(test, ast.BoolOp):
        vs = [_truth(v, subj, tag) for v in test.values]
        if isinstance(test.op, ast.Or):
            return True if True in [v is True for v in vs] else (U if U in vs else False)
        return False if any(v is False for v in vs) else (U if U in vs else True)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = _truth(test.operand, subj, tag)
        return U if v is U else not v
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = _value(test.left, subj, tag), _value(test.comparators[0], subj, tag)
        if a is U or b is U:
            return U
        op = test.ops[0]
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}[type(op)]()
        except (KeyError, TypeError):
            return U
    v = _value(test, subj, tag)
    return U if v is U else bool(v)


def _value(e, subj, tag):
    if ast.dump(e) == subj:
        return tag
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        vs = [_value(x, subj, tag) for x in e.elts]
        return U if U in vs else vs
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(tag, str):
        v = _value(e.func.value, subj, tag)
        args = [_value(x, subj, tag) for x in e.args]
        if isinstance(v, str) and U not in args and e.func.attr in ("lower", "upper", "strip", "startswith", "endswith", "replace", "title", "capitalize"):
            try:
                args = [tuple(a) if isinstance(a, list) else a for a in args]
                return getattr(v, e.func.attr)(*args)
            except (TypeError, ValueError):
                return U
    if isinstance(e, ast.Call) and dotted(e.func) == "str" and len(e.args) == 1:
        return _value(e.args[0], subj, tag)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
        v = _value(e.value, subj, tag)
        return v[0] if isinstance(v, str) and v else U
    return U


def _subject(tests):
    """The expression all tests of a chain look at (text of its innermost non-method part)."""
    seen = {}
    for t in tests:
        for n in ast.walk(t):
            if isinstance(n, ast.Compare):
                for x in (n.left,):
                    seen.setdefault(ast.dump(_core(x)), []).append(t)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith"):
                seen.setdefault(ast.dump(_core(n.func.value)), []).append(t)
    for k, v in sorted(seen.items(), key=lambda kv: -len({id(x) for x in kv[1]})):
        return k, len({id(x) for x in v})
    return None, 0


def _core(e):
    while True:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("lower", "upper", "strip"):
            e = e.func.value
        elif isinstance(e, ast.Call) and dotted(e.func) == "str" and e.args:
            e = e.args[0]
        else:
            return e


def _chains(node):
    """Maximal if/elif chains: ([(test, body)], else body)."""
    inner = set()
    for n in ast.walk(node):
        if isinstance(n, ast.If) and id(n) not in inner:
            arms, cur = [], n
            while True:
                arms.append((cur.test, cur.body))
                if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                    cur = cur.orelse[0]
                    inner.add(id(cur))
                else:
                    break
            yield n, arms, cur.orelse


def _matches(node):
    for n in ast.walk(node):
        if isinstance(n, getattr(ast, "Match", ())):
            arms, default = [], []
            for c in n.cases:
                vals = [x.value for x in ast.walk(c.pattern) if isinstance(x, ast.MatchValue)]
                if vals and c.guard is None:
                    arms.append((ast.Compare(n.subject, [ast.In()], [ast.List(vals, ast.Load())]), c.body))
                else:
                    default = c.body
            yield n, arms, default


def _sequences(node):
    """Runs of early-return ifs followed by a fallback are chains too."""
    for n in ast.walk(node):
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            i = 0
            while i < len(b):
                j = i
                while j < len(b) and isinstance(b[j], ast.If) and not b[j].orelse and b[j].body and isinstance(b[j].body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    j += 1
                if j - i >= 2:
                    yield b[i], [(x.test, x.body) for x in b[i:j]], b[j:]
                i = max(j, i + 1)


def _built(p, ctx, stmts, fam):
    """Family members that a branch constructs or returns, directly or through a project function."""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                r = resolve(p, ctx, n.func)
                if isinstance(r, ClassInfo) and r in fam.members:
                    out.add(r)
                elif isinstance(r, FuncInfo) and r.cls is None and r is not ctx:
                    for m in ast.walk(r.node):
                        if isinstance(m, ast.Call):
                            q = resolve(p, r, m.func)
                            if isinstance(q, ClassInfo) and q in fam.members:
                                out.add(q)
            elif isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and isinstance(n.value, (ast.Name, ast.Attribute)):
                r = resolve(p, ctx, n.value)
                if isinstance(r, ClassInfo) and r in fam.members:
                    out.add(r)
    return out


def _schemes(fam):
    out = [{c: [_kind_name(c)] for c in fam.members if _kind_name(c)},
           {c: [_snake(c.name)] for c in fam.members},
           {c: [_snake2(c.name)] for c in fam.members},
           {c: [c.name] for c in fam.members}]
    if fam.name == "channel":
        by = {c.name: c for c in fam.members}
        if {"Electric", "Magnetic", "Auxiliary"} <= set(by):
            out.append({by["Electric"]: ["ex", "ey"], by["Magnetic"]: ["hx", "hy", "bz"], by["Auxiliary"]: ["temperature"]})
    return out


def _pick(p, ctx, arms, default, fam, subj, tag):
    """Members built for this tag, or U when a test cannot be decided."""
    for t, body in arms:
        v = _truth(t, subj, tag)
        if v is U:
            return U
        if v:
            return _built(p, ctx, body, fam)
    return _built(p, ctx, default, fam)


def _dispatch_rule(p, res, fams):
    done = set()
    for ctx in contexts(p):
        if not isinstance(ctx, FuncInfo) or ctx.parent is not None:
            continue
        every = list(_chains(ctx.node)) + list(_matches(ctx.node)) + list(_sequences(ctx.node))
        for node, arms, default in every:
            if id(node) in done:
                continue
            for fam in fams:
                got = [b for b in (_built(p, ctx, body, fam) for _, body in arms) if len(b) == 1]
                d = _built(p, ctx, default, fam)
                total = set().union(*got, d if len(d) == 1 else set()) if got or d else set()
                if len(total) < min(fam.least, 2) or len(arms) + bool(d) < 2:
                    continue
                subj, n = _subject([t for t, b in arms])
                if subj is None or any(isinstance(x, ast.Call) and dotted(x.func) == "isinstance" for t, _ in arms for x in ast.walk(t)):
                    continue
                done.add(id(node))
                best, bad = None, None
                whole = total == set(fam.members)
                for sch in _schemes(fam):
                    by_component = any(len(ts) > 1 for ts in sch.values())
                    wrong, right, undec = [], 0, 0
                    for c, tags in sch.items():
                        if c not in total and (by_component or len(total) < fam.least):
                            continue
                        for tag in tags:
                            r = _pick(p, ctx, arms, default, fam, subj, tag)
                            if r is U:
                                undec += 1
                            elif r == {c}:
                                right += 1
                            elif r or not by_component:
                                wrong.append((c, tag, r))
                    if by_component and whole:
                        # keyed by kind name or component: no component may lead to another kind
                        if right > 1:
                            for c, tag, r in wrong:
                                if r:
                                    _report(res, ctx, node, fam, c, tag, r)
                        continue
                    if undec == 0 and right and (best is None or right > best):
                        best, bad = right, wrong
                if best is None:
                    res.count("dispatches that could not be decided")
                    continue
                res.count("obligations: dispatches on a kind's name", len(fam.members))
                res.sample(f"{ctx.loc(node)} {ctx.short}: {best} kinds lead to their own class")
                for c, tag, r in bad:
                    _report(res, ctx, node, fam, c, tag, r)


def _report(res, ctx, node, fam, c, tag, r):
    what = f"leads to {', '.join(sorted(x.name for x in r))}" if r else "is not known here"
    res.add("kind-misread", f"{ctx.short}:{c.name}:{tag}", ctx.loc(node), f"{fam.name} kind {c.name} (named {tag!r}) {what}")


def _table_rule(p, res, fams):
    """Dict tables from names to classes: each member under its own name."""
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if not isinstance(n, ast.Dict):
                continue
            for fam in fams:
                rows = [(const_str(k), resolve(p, ctx, v)) for k, v in zip(n.keys, n.values) if k is not None and isinstance(v, (ast.Name, ast.Attribute))]
                rows = [(k, c) for k, c in rows if k and isinstance(c, ClassInfo) and c in fam.members]
                if len(rows) < 2:
                    continue
                for sch in _schemes(fam)[:4]:
                    own = {t: c for c, ts in sch.items() for t in ts}
                    hit = [(k, c) for k, c in rows if k.lower() in own or k in own]
                    if len(hit) * 2 <= len(rows):
                        continue
                    res.count("obligations: dispatches on a kind's name", len(rows))
                    for k, c in hit:
                        w = own.get(k, own.get(k.lower()))
                        if w is not c:
                            res.add("kind-misread", f"{ctx.short}:{k}", ctx.loc(n), f"{fam.name} kind name {k!r} stands for {w.name} but the table gives {c.name}")
                    break


# --------------------------------------------------------------------------
# the StationXML stage bridge
# --------------------------------------------------------------------------
STAGE_BASES = {"PolesZerosResponseStage": "ResponseStage", "CoefficientsTypeResponseStage": "ResponseStage", "FIRResponseStage": "ResponseStage",
               "ResponseListResponseStage": "ResponseStage", "PolynomialResponseStage": "ResponseStage"}


def _stage_rule(p, res, fams):
    fam = next((f for f in fams if f.name == "filter"), None)
    if fam is None:
        return
    makes = {}
    for c in fam.members:
        m = c.find_method("to_obspy")
        if m is None:
            res.add("kind-left-out", f"{c.short}.to_obspy", c.loc(), f"filter kind {c.name} has no to_obspy although its siblings have: a response holding one cannot be written to StationXML")
            continue
        st = {(dotted(n.func) or "").split(".")[-1] for n in ast.walk(m.node) if isinstance(n, ast.Call)} & (set(STAGE_BASES) | {"ResponseStage"})
        if st:
            makes[c] = st
    for f in p.functions:
        arms = []
        for node, a, default in list(_chains(f.node)) + list(_sequences(f.node)):
            if sum(any(isinstance(x, ast.Call) and dotted(x.func) == "isinstance" and len(x.args) == 2 and (dotted(x.args[1]) or "").split(".")[-1] in STAGE_BASES for x in ast.walk(t)) for t, _ in a) >= 2:
                arms = a
                break
        if not arms:
            continue
        for c, stages in sorted(makes.items(), key=lambda kv: kv[0].name):
            for s in sorted(stages):
                res.count("obligations: response stages read back")
                hit = None
                for t, body in arms:
                    tested = {(dotted(y) or "").split(".")[-1] for x in ast.walk(t) if isinstance(x, ast.Call) and dotted(x.func) == "isinstance" and len(x.args) == 2 for y in ([x.args[1]] if not isinstance(x.args[1], ast.Tuple) else x.args[1].elts)}
                    if s in tested or STAGE_BASES.get(s) in tested:
                        hit = _built(p, f, body, fam)
                        break
                if hit is None or c not in hit:
                    res.add("kind-misread", f"{f.short}:{c.name}", f.loc(), f"{c.name} is written as a {s} but {f.name} " + ("does not know that stage" if hit is None else f"reads it as {', '.join(sorted(x.name for x in hit)) or 'nothing'}"))


def _interface_rule(p, res, fams):
    """A method most kinds define for themselves has to exist, other than as a placeholder, for each kind."""
    for fam in fams:
        methods = {}
        for c in fam.members:
            for n, m in c.methods.items():
                if not n.startswith("_"):
                    methods.setdefault(n, set()).add(c)
        for n, cs in sorted(methods.items()):
            if len(cs) * 5 < len(fam.members) * 4 or len(fam.members) < 4:
                continue
            for c in fam.members:
                res.count("obligations: methods every kind provides")
                m = c.find_method(n)
                if m is None or (m.cls is fam.base and _placeholder(m)):
                    res.add("kind-left-out", f"{c.short}.{n}", c.loc(), f"filter kind {c.name} does not provide {n}, which all its siblings define" if fam.name == "filter" else f"{c.name} does not provide {n}")


def _placeholder(m):
    for s in m.node.body:
        if isinstance(s, (ast.Pass, ast.Raise, ast.Expr)):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
            continue
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.JoinedStr)):
            continue
        return False
    return True


def _all(p, res):
    fams = families(p)
    for fam in fams:
        res.count("kinds in families", len(fam.members))
    _set_rule(p, res, fams)
    _dispatch_rule(p, res, fams)
    _table_rule(p, res, fams)
    _stage_rule(p, res, fams)
    _interface_rule(p, res, fams)


_CLASSES = '''
from pydantic import BaseModel
class FilterBase(BaseModel):
    type: str = "base"
    def complex_response(self, f):
        return None
class PoleFilter(FilterBase):
    type: str = "zpk"
    def complex_response(self, f):
        return f
    def to_obspy(self):
        return PolesZerosResponseStage(1)
class CoefFilter(FilterBase):
    type: str = "coefficient"
    def complex_response(self, f):
        return f
    def to_obspy(self):
        return CoefficientsTypeResponseStage(1)
class DelayFilter(FilterBase):
    type: str = "time delay"
    def complex_response(self, f):
        return f
    def to_obspy(self):
        return CoefficientsTypeResponseStage(1)
class FIRFilter(FilterBase):
    type: str = "fir"
%s
    def to_obspy(self):
        return FIRResponseStage(1)
'''
BAD = _CLASSES % "" + '''
class TableFilter(FilterBase):
    type: str = "fap"
    def complex_response(self, f):
        return f
    def to_obspy(self):
        return ResponseListResponseStage(1)
def known(x):
    return isinstance(x, (PoleFilter, CoefFilter, DelayFilter, TableFilter))
def make(kind):
    if kind == "zpk":
        return PoleFilter()
    elif kind in ["coefficient"]:
        return CoefFilter()
    elif kind == "time delay":
        return CoefFilter()
    elif kind == "fap":
        return TableFilter()
    else:
        raise ValueError(kind)
def read(stage):
    if isinstance(stage, PolesZerosResponseStage):
        return PoleFilter()
    elif isinstance(stage, CoefficientsTypeResponseStage):
        return CoefFilter() if stage.gain else DelayFilter()
    elif isinstance(stage, ResponseListResponseStage):
        return TableFilter()
'''
GOOD = _CLASSES % "    def complex_response(self, f):\n        return f\n" + '''
def known(x):
    return isinstance(x, (PoleFilter, CoefFilter, DelayFilter, FIRFilter))
def two(x):
    return isinstance(x, (PoleFilter, CoefFilter))
def make(kind):
    kind = kind.lower()
    if kind == "zpk":
        return PoleFilter()
    if kind in ("coefficient", "coef"):
        return CoefFilter()
    if kind.startswith("time"):
        return DelayFilter()
    if kind != "fir":
        raise ValueError(kind)
    return FIRFilter()
TABLE = {"zpk": PoleFilter, "coefficient": CoefFilter, "time delay": DelayFilter, "fir": FIRFilter}
def read(stage):
    if isinstance(stage, PolesZerosResponseStage):
        return PoleFilter()
    elif isinstance(stage, CoefficientsTypeResponseStage):
        return CoefFilter() if stage.gain else DelayFilter()
    elif isinstance(stage, FIRResponseStage):
        return FIRFilter()
'''


def c21(p, tier):
    res = Result("C21", "every group of, or choice between, filter or channel kinds covers the whole family and leads each kind's name or stage to its own class")
    _all(p, res)
    must_fire(res, "kind-left-out", _all, BAD, 2)
    must_fire(res, "kind-misread", _all, BAD, 3)
    must_not_fire(res, _all, GOOD)
    res.floors = {"kinds in families": 8, "obligations: groups of kinds": 10, "obligations: dispatches on a kind's name": 15, "obligations: response stages read back": 5}
    res.assumptions = ["the names a kind goes by are the default of its type field and the snake-case form of its class name, as the writers produce them"]
    return res


CHECKS = {"C21": c21}
