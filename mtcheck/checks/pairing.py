"""C22: components, electrodes, coordinates and ends are never mixed up.

Every transfer of a value between two places that name a member of one vocabulary (latitude /
longitude, positive / negative, hx / hy, start / end, ...) is collected: assignments, keyword and
positional arguments, dictionary rows, setattr, property bodies and dispatch branches. The two
names have to agree.
"""
import ast
import re

from .. import external
from ..names import const_str, contexts, resolve, txt, walk_own
from ..project import ClassInfo, External, FuncInfo, dotted
from ..report import Result
from .environment import must_fire, must_not_fire

GROUPS = {
    "coordinate": {"latitude": "latitude", "lat": "latitude", "longitude": "longitude", "lon": "longitude", "long": "longitude",
                   "elevation": "elevation", "elev": "elevation", "reflat": "latitude", "reflon": "longitude", "reflong": "longitude", "refelev": "elevation"},
    "electrode": {"positive": "positive", "negative": "negative"},
    "end": {"start": "start", "begin": "start", "end": "end", "stop": "end"},
    "component": {k: v for a in "xy" for k, v in ((f"e{a}", f"e{a}"), (f"h{a}", f"h{a}"), (f"b{a}", f"h{a}"))} | {"hz": "hz", "bz": "hz"},
    "tensor": {f"{q}{a}{b}": f"{a}{b}" for q in ("z", "r", "t", "") for a in "xy" for b in "xy" if not (q == "" and False)} | {"tzx": "zx", "tzy": "zy", "tx": "zx", "ty": "zy"},
    "axis": {"x": "x", "y": "y", "z": "z", "x2": "x", "y2": "y", "z2": "z"},
    "part": {"real": "real", "imag": "imag", "imaginary": "imag"},
    "bound": {"min": "min", "minimum": "min", "lower": "min", "max": "max", "maximum": "max", "upper": "max"},
    "side": {"in": "in", "input": "in", "inputs": "in", "out": "out", "output": "out", "outputs": "out"},
    "root": {"zeros": "zeros", "zero": "zeros", "poles": "poles", "pole": "poles"},
    "polar": {"amplitude": "amplitude", "amplitudes": "amplitude", "amp": "amplitude", "mag": "amplitude", "magnitude": "amplitude", "phase": "phase", "phases": "phase"},
    "compass": {"north": "north", "south": "south", "east": "east", "west": "west", "northernmost": "north", "southernmost": "south", "easternmost": "east", "westernmost": "west"},
    "angle": {"azimuth": "azimuth", "azm": "azimuth", "tilt": "tilt", "dip": "tilt", "declination": "declination"},
    "kind": {"electric": "electric", "magnetic": "magnetic", "auxiliary": "auxiliary"},
    "share": {"local": "local", "remote": "remote"},
    "calendar": {"year": "year", "month": "month", "day": "day", "hour": "hour", "minute": "minute", "second": "second"},
    "spectral": {"period": "period", "periods": "period", "frequency": "frequency", "frequencies": "frequency", "freq": "frequency"},
    "spread": {"variance": "variance", "var": "variance", "std": "deviation"},
    "version": {"translated": "translated", "measurement": "measurement", "measured": "measurement"},
}


def words(s):
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s)
    return [w for w in re.split(r"[^A-Za-z0-9]+", s.lower()) if w]


def terms(s):
    """{group: {member}} named by an identifier or dotted name."""
    out = {}
    for w in words(s.replace("time_period", "timespan").replace("TimePeriod", "Timespan")):
        for g, t in GROUPS.items():
            if w in t:
                out.setdefault(g, set()).add(t[w])
    return out


CONV = {"float", "int", "str", "abs", "round", "complex", "bool", "MTime", "array", "asarray", "atleast_1d", "deepcopy", "copy", "list", "tuple", "dict", "sorted", "unicode", "float2str",
        "Decimal", "strip", "lower", "upper", "isoformat", "tolist", "getattr"}


def source_name(e, depth=0):
    """The name path a plain read goes through, or None for a computed value."""
    if depth > 6:
        return None
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        if e.attr in ("size", "shape", "ndim", "dtype"):      # a property of the container, not its content
            return None
        b = source_name(e.value, depth + 1)
        return None if b is None else f"{b}.{e.attr}"
    if isinstance(e, ast.Subscript):
        b = source_name(e.value, depth + 1)
        k = const_str(e.slice)
        if b is None:
            return None
        return f"{b}.{k}" if k is not None else b if isinstance(e.slice, ast.Constant) else f"{b}.{source_name(e.slice, depth + 1) or ''}"
    if isinstance(e, ast.Call):
        fn = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if fn == "getattr" and len(e.args) >= 2:
            b = source_name(e.args[0], depth + 1)
            return f"{b}.{const_str(e.args[1]) or ''}" if b else None
        if fn in ("get", "pop") and isinstance(e.func, ast.Attribute) and e.args and const_str(e.args[0]):
            b = source_name(e.func.value, depth + 1)
            return f"{b}.{const_str(e.args[0])}" if b else None
        if fn in ("get_channel", "get_electrode") and e.args and const_str(e.args[0]):
            return const_str(e.args[0])
        if fn in ("min", "max", "mean", "median", "nanmin", "nanmax", "nanmean") and len(e.args) == 1 and not e.keywords:      # one of the values of
            return source_name(e.args[0], depth + 1)
        if fn in CONV:
            if e.args and not e.keywords or e.args and fn in ("array", "asarray"):
                return source_name(e.args[0], depth + 1)
            if isinstance(e.func, ast.Attribute):
                return source_name(e.func.value, depth + 1)
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        return source_name(e.operand, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.right, ast.Constant):
        return source_name(e.left, depth + 1)
    if isinstance(e, ast.FormattedValue):
        return source_name(e.value, depth + 1)
    if isinstance(e, ast.JoinedStr):
        v = [x for x in e.values if isinstance(x, ast.FormattedValue)]
        return source_name(v[0].value, depth + 1) if len(v) == 1 and len(e.values) <= 2 else None
    if isinstance(e, ast.IfExp):
        a, b = source_name(e.body, depth + 1), source_name(e.orelse, depth + 1)
        return a if a is not None else b
    return None


PAIRED_CALLS = {"slice": ("start", "stop")}


def _const_name(e):
    c = const_str(e)
    return c if c and re.fullmatch(r"[A-Za-z_][\w.]*", c) else source_name(e)


def transfers(p, ctx):
    """(kind, node, target name, source name)"""
    for n in walk_own(ctx.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        yield "assign", n, source_name(a), source_name(b)
                elif isinstance(t, ast.Subscript) and const_str(t.slice) and const_str(n.value):
                    yield "row", n, const_str(t.slice), _const_name(n.value)       # table["time_period.end"] = "end_date"
                else:
                    yield "assign", n, source_name(t), source_name(n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            yield "assign", n, source_name(n.target), source_name(n.value)
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if k is not None and const_str(k):
                    yield "row", v, const_str(k), _const_name(v)
        elif isinstance(n, ast.Call):
            fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            for k in n.keywords:
                if k.arg:
                    yield "keyword", n, k.arg, source_name(k.value)
            if fn in ("setattr", "update_attribute", "set_attr_from_name") and len(n.args) >= 2:
                i = 1 if fn == "setattr" else 0
                b = (source_name(n.args[0]) or "") if i else ""
                if len(n.args) > i + 1 and const_str(n.args[i]):
                    yield "setattr", n, f"{b}.{const_str(n.args[i])}", source_name(n.args[i + 1])
            if fn in PAIRED_CALLS and len(n.args) == 2:
                for a, q in zip(n.args, PAIRED_CALLS[fn]):
                    yield "argument", n, q, source_name(a)
            r = resolve(p, ctx, n.func)
            if isinstance(r, ClassInfo):
                r = r.find_method("__init__")
                off = 1
            else:
                off = 1 if isinstance(r, FuncInfo) and r.cls is not None and r.parent is None and not r.is_static else 0
            if isinstance(r, External) and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
                for a, q in zip(n.args, external.positional(r.dotted) or []):
                    if len(q) > 2:      # x, x1 are a library's names for any argument
                        yield "argument", n, q, source_name(a)
            if isinstance(r, FuncInfo) and not any(isinstance(a, ast.Starred) for a in n.args):
                ps = r.positional[off:]
                for a, q in zip(n.args, ps):
                    yield "argument", n, q, source_name(a)


def _clash(t, s):
    a, b = terms(t), terms(s)
    for g in a:
        if g in b and not (a[g] & b[g]):
            yield g, a[g], b[g]


def _clamped(ctx, n, t, s):
    """`if end < start: end = start`: the two are compared first."""
    tt, ss = t.split(".")[-1], s.split(".")[-1]
    for x in walk_own(ctx.node):
        if isinstance(x, ast.If) and any(y is n for b in x.body for y in ast.walk(b)):
            for c in ast.walk(x.test):
                if isinstance(c, ast.Compare):
                    ws = {(source_name(y) or "").split(".")[-1] for y in [c.left] + c.comparators}
                    if {tt, ss} <= ws:
                        return True
    return False


def _both_sides(n, s):
    """A square block: the same labels on both axes of one selection."""
    return isinstance(n, ast.Call) and len({source_name(k.value) for k in n.keywords}) == 1 and len(n.keywords) > 1 and source_name(n.keywords[0].value) == s


def _transfer_rule(p, res):
    for ctx in contexts(p):
        for kind, n, t, s in transfers(p, ctx):
            if not t or not s:
                continue
            a, b = terms(t), terms(s)
            if a and b and set(a) & set(b):
                res.count("obligations: transfers between named places")
            for g, x, y in _clash(t, s):
                if kind == "keyword" and _both_sides(n, s) or kind == "assign" and _clamped(ctx, n, t, s):
                    continue
                res.add("mixed-up", f"{ctx.short}:{t}<-{s}", ctx.loc(n), f"{g}: {t} is filled from {s}")


def _index_rule(p, res):
    """z[p, i, j] and z_err[p, i, j]: a value array and its companion are indexed in the same order."""
    for ctx in contexts(p):
        seen = {}
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple):
                ix = [e.id for e in n.slice.elts if isinstance(e, ast.Name)]
                b = source_name(n.value)
                if b is not None and len(ix) >= 2 and len(set(ix)) == len(ix):
                    seen.setdefault(b, []).append((tuple(ix), n))
        for a, us in seen.items():
            for b, vs in seen.items():
                if a == b or not b.startswith(a + "_"):
                    continue
                orders = {o for o, _ in us}
                for o, n in vs:
                    res.count("obligations: companion arrays indexed alike")
                    if o not in orders and any(set(o) == set(q) for q in orders):
                        res.add("mixed-up", f"{ctx.short}:{b}:index-order", ctx.loc(n), f"{txt(n)}: {a} is indexed in the order {', '.join(next(q for q in orders if set(q) == set(o)))}, its companion {b} in the order {', '.join(o)}")


def _unpack_rule(p, res):
    """a, b = f() against the names f returns; for a, b in zip([...], [...])."""
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call):
                r = resolve(p, ctx, n.value.func)
                if not isinstance(r, FuncInfo):
                    continue
                for x in walk_own(r.node):
                    if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and len(x.value.elts) == len(n.targets[0].elts):
                        for a, b in zip(n.targets[0].elts, x.value.elts):
                            t, s = source_name(a), source_name(b)
                            if t and s and set(terms(t)) & set(terms(s)):
                                res.count("obligations: transfers between named places")
                                for g, _, _ in _clash(t, s):
                                    res.add("mixed-up", f"{ctx.short}:{t}<-{r.name}:{s}", ctx.loc(n), f"{g}: {t} takes the place of {s} in what {r.short} returns")
            elif isinstance(n, ast.Call) and dotted(n.func) == "zip" and len(n.args) > 1 and all(isinstance(a, (ast.List, ast.Tuple)) for a in n.args):
                for row in zip(*(a.elts for a in n.args)):
                    ns = [_const_name(x) for x in row]
                    for a, b in zip(ns, ns[1:]):
                        if a and b and set(terms(a)) & set(terms(b)):
                            res.count("obligations: transfers between named places")
                            for g, _, _ in _clash(a, b):
                                res.add("mixed-up", f"{ctx.short}:zip {a}~{b}", ctx.loc(n), f"{g}: {a} is paired with {b}")


def _accessor_rule(p, res):
    for f in p.functions:
        if f.accessor == "setter":
            ps = [x for x in f.params if x not in f.positional[:1]]
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and ps and source_name(n.value) and source_name(n.value).split(".")[0] in ps:
                    t = source_name(n.targets[0])
                    _name_vs(res, f, n, t, "sets")
        elif f.is_property:
            rs = [n for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None]
            for n in rs:
                s = source_name(n.value)
                if s and s.startswith("self."):
                    _name_vs(res, f, n, s, "returns")


def _name_vs(res, f, n, s, what):
    a, b = terms(f.name), terms(s)
    if set(a) & set(b):
        res.count("obligations: properties named after what they hold")
        for g, _, _ in _clash(f.name, s):
            res.add("mixed-up", f"{f.short}:{what} {s}", f.loc(n), f"{g}: property {f.short} {what} {s}")


# --------------------------------------------------------------------------
# branches chosen by a name
# --------------------------------------------------------------------------
def _tested(test):
    """Names a test selects: x == "hx", x in ["hx"], x.startswith("hx")."""
    out = []
    for n in ast.walk(test):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            c = n.comparators[0]
            if isinstance(n.ops[0], ast.Eq) and const_str(c):
                out.append(const_str(c))
            elif isinstance(n.ops[0], ast.In) and isinstance(c, (ast.List, ast.Tuple, ast.Set)):
                out += [const_str(x) for x in c.elts if const_str(x)]
            elif isinstance(n.ops[0], ast.In) and const_str(n.left):
                out.append(const_str(n.left))
            elif isinstance(n.ops[0], (ast.NotEq, ast.NotIn)):
                return None
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith") and n.args:
            a = n.args[0]
            out += [const_str(x) for x in (a.elts if isinstance(a, ast.Tuple) else [a]) if const_str(x)]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return None
    return out


def _named_targets(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if source_name(t):
                        yield n, source_name(t)
                if isinstance(n, ast.Assign) and source_name(n.value):
                    yield n, source_name(n.value)
            elif isinstance(n, ast.Return) and n.value is not None and source_name(n.value):
                yield n, source_name(n.value)


BRANCH_GROUPS = {"coordinate", "electrode", "end", "component", "tensor", "part", "root", "polar", "compass", "kind", "share", "calendar", "axis"}


def _branch_rule(p, res):
    for ctx in contexts(p):
        if not isinstance(ctx, FuncInfo):
            continue
        for n in walk_own(ctx.node):
            if not isinstance(n, ast.If):
                continue
            names = _tested(n.test)
            if not names:
                continue
            want = {}
            for nm in names:
                for g, ms in terms(nm).items():
                    want.setdefault(g, set()).update(ms)
            for g in sorted(set(want) & BRANCH_GROUPS):
                if len(want[g]) != 1:
                    continue
                got = {}
                for x, nm in _named_targets(n.body):
                    for m in terms(nm).get(g, ()):
                        got.setdefault(m, (x, nm))
                if not got:
                    continue
                res.count("obligations: branches chosen by a name")
                if not (set(got) & want[g]):
                    x, nm = next(iter(got.values()))
                    res.add("mixed-up", f"{ctx.short}:{'/'.join(sorted(names))}->{nm}", ctx.loc(x), f"{g}: the branch for {', '.join(sorted(names))} uses {nm}")


# --------------------------------------------------------------------------
# labels written next to a value
# --------------------------------------------------------------------------
LABEL = re.compile(r"([A-Za-z_][A-Za-z_ .]*)[\"'>]*\s*[:=]\s*[\"']?$")


def _label_rule(p, res):
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            pairs = []
            if isinstance(n, ast.JoinedStr):
                prev = None
                for v in n.values:
                    if isinstance(v, ast.FormattedValue) and prev:
                        m = LABEL.search(prev)
                        if m:
                            pairs.append((m.group(1).strip().split(" ")[-1], v.value))
                    prev = v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and const_str(n.func.value) and not n.keywords:
                parts = re.split(r"\{\d*(?:![rs])?(?::[^}]*)?\}", const_str(n.func.value))
                if len(parts) - 1 == len(n.args):
                    for lab, a in zip(parts, n.args):
                        m = LABEL.search(lab)
                        if m:
                            pairs.append((m.group(1).strip().split(" ")[-1], a))
            for lab, e in pairs:
                s = source_name(e)
                if s and set(terms(lab)) & set(terms(s)):
                    res.count("obligations: labels written next to a value")
                    for g, _, _ in _clash(lab, s):
                        res.add("mixed-up", f"{ctx.short}:label {lab}:{s}", ctx.loc(n), f"{g}: the value labelled {lab} is {s}")


# --------------------------------------------------------------------------
# objects filled from one of two opposite sides
# --------------------------------------------------------------------------
def _side_rule(p, res):
    for ctx in contexts(p):
        by = {}
        for kind, n, t, s in transfers(p, ctx):
            if kind != "assign" or not t or not s or "." not in t:
                continue
            b, a = t.rsplit(".", 1)
            tt = terms(t)
            for g in ("electrode",):
                for m in terms(s).get(g, ()):
                    if g not in tt:
                        by.setdefault((b, g), {}).setdefault(m, []).append((a, s, n))
        for (b, g), d in by.items():
            res.count("obligations: objects filled from one side")
            if len(d) < 2:
                continue
            attrs = {m: {a for a, _, _ in rows} for m, rows in d.items()}
            common = set.intersection(*attrs.values())
            if any(attrs[m] - common for m in attrs):
                m = min(d, key=lambda k: len(d[k]))
                for a, s, n in [r for k, rows in d.items() for r in rows if r[0] not in common][-1:]:
                    res.add("mixed-up", f"{ctx.short}:{b}", ctx.loc(n), f"{g}: {b} is filled partly from one side and partly from the other: {', '.join(sorted(f'{x}<-{y}' for rows in d.values() for x, y, _ in rows))}")


# --------------------------------------------------------------------------
# matrix cells and component tables
# --------------------------------------------------------------------------
def _index(e):
    return list(e.slice.elts) if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Tuple) else []


def _cell(e):
    """(i, j) when the last two indices of a subscript are small constants."""
    ix = _index(e)
    if len(ix) >= 2 and all(isinstance(x, ast.Constant) and x.value in (0, 1, 2) and not isinstance(x.value, bool) for x in ix[-2:]):
        return ix[-2].value, ix[-1].value
    return None


AXIS = re.compile(r"(?:^|[._])r?[ehb]([xyz])(?=$|[._])")


def _slot_value(x):
    if isinstance(x, ast.Constant) and x.value in (0, 1, 2) and not isinstance(x.value, bool):
        return x.value, "xyz"[x.value]
    for n in ast.walk(x):
        nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        m = AXIS.search(nm) if nm else None
        if m:
            return nm, m.group(1)
    return None


def _cell_rule(p, res):
    for ctx in contexts(p):
        if not isinstance(ctx, FuncInfo):
            continue
        blocks = [b for n in [ctx.node] + list(walk_own(ctx.node)) for fld in ("body", "orelse", "finalbody") for b in [getattr(n, fld, None)] if isinstance(b, list) and b and isinstance(b[0], ast.stmt)]
        seen = set()
        for b in blocks:
            if id(b) in seen:
                continue
            seen.add(id(b))
            runs, sides = {}, {}
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    c = _cell(s.targets[0])
                    if c is None:
                        continue
                    runs.setdefault(txt(s.targets[0].value, 60), []).append((c, s))
            for base, rows in runs.items():
                if len(rows) < 2:
                    continue
                cells = {}
                for c, s in rows:
                    res.count("obligations: matrix cells filled")
                    reads = [x for x in ast.walk(s.value) if isinstance(x, ast.Name)]
                    if c in cells and not any(ast.dump(x) == ast.dump(s.targets[0].value) for x in ast.walk(s.value)):
                        res.add("cell-overwritten", f"{ctx.short}:{base}{list(c)}", ctx.loc(s), f"cell {list(c)} of {base} is filled twice in a row: the first value is lost and another cell stays empty")
                    cells[c] = s
                slots = {}
                for c, s in rows:
                    k = 0
                    for x in ast.walk(s.value):
                        ix = _index(x)
                        if len(ix) >= 2:
                            for q, y in enumerate(ix):
                                v = _slot_value(y)
                                if v is not None:
                                    slots.setdefault((k, q), []).append((c, v, s))
                            k += 1
                for slot, rows2 in slots.items():
                    if len(rows2) != len(rows) or len({v[0] for _, v, _ in rows2}) == 1:
                        continue
                    if len({c for c, _, _ in rows2}) != len(rows2):
                        continue
                    by_i = all((v[1] == "xyz"[c[0]]) for c, v, _ in rows2)
                    by_j = all((v[1] == "xyz"[c[1]]) for c, v, _ in rows2)
                    if by_i != by_j and isinstance(rows2[0][2].value, ast.Subscript):
                        # the whole matrix is read from one array: which of its indices is the row?
                        sides.setdefault((txt(rows2[0][2].value.value, 60), slot[1]), []).append((by_i, base, rows2[0][2]))
                    if not by_i and not by_j:
                        bad = [(c, v, s) for c, v, s in rows2 if v[1] not in ("xyz"[c[0]], "xyz"[c[1]])] or rows2[:1]
                        c, v, s = bad[0]
                        res.add("mixed-up", f"{ctx.short}:{base}:{slot[0]}.{slot[1]}", ctx.loc(s), f"the cells of {base} follow neither the row nor the column component: {', '.join(f'{list(c)}<-{v[0]}' for c, v, _ in rows2)}")
            for (src, q), uses in sides.items():
                for way in (True, False):
                    odd = [u for u in uses if u[0] is way]
                    if len(odd) == 1 and len(uses) >= 3:
                        res.add("mixed-up", f"{ctx.short}:{odd[0][1]}:transposed{q}", ctx.loc(odd[0][2]), f"{odd[0][1]} is filled transposed from {src}: the other {len(uses) - 1} matrices of the block read its rows and columns the other way round")


TENSOR = re.compile(r"^(?:[zrt]|rho|phs|phase|res)?_?(?:z)?([xyz])([xy])[a-z]{0,2}$|^t(?P<t>[xy])[a-z]?$")


def _row_cell(v):
    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == 2 and all(isinstance(x, ast.Constant) and x.value in (0, 1) for x in v.elts):
        return v.elts[0].value, v.elts[1].value
    if isinstance(v, ast.Dict):
        d = {const_str(k): x.value for k, x in zip(v.keys, v.values) if k is not None and isinstance(x, ast.Constant)}
        if {"ii", "jj"} <= set(d):
            return d["ii"], d["jj"]
    return None


def _table_rule(p, res):
    """Tables from tensor names to matrix indices are one consistent mapping."""
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if not isinstance(n, ast.Dict):
                continue
            rows = [(const_str(k), _row_cell(v)) for k, v in zip(n.keys, n.values) if k is not None and const_str(k)]
            rows = [(k, c) for k, c in rows if c is not None]
            if len(rows) < 2:
                continue
            votes = {}
            parsed = []
            for k, (i, j) in rows:
                m = re.match(r"^(?:rho|phs|z|r|p)?([xy])([xy])", k)
                t = re.match(r"^tz?([xy])", k)
                if t:
                    parsed.append((k, None, t.group(1), i, j))
                elif m:
                    parsed.append((k, m.group(1), m.group(2), i, j))
            for k, a, b, i, j in parsed:
                if a is not None:
                    votes.setdefault(a, []).append(i)
                votes.setdefault(b, []).append(j)
            if not votes:
                continue
            res.count("obligations: tensor names in index tables", len(parsed))
            col = {a: max(set(v), key=v.count) for a, v in votes.items()}
            if len(set(col.values())) != len(col):
                res.add("mixed-up", f"{ctx.short}:{txt(n, 40)}", ctx.loc(n), "x and y share an index in this table")
            for k, a, b, i, j in parsed:
                if (col[a] if a is not None else 0) != i or col[b] != j:
                    res.add("mixed-up", f"{ctx.short}:{k}", ctx.loc(n), f"{k} is given the cell {[i, j]}, against the other rows of the table")


PAIRS = [("ex", "ey"), ("hx", "hy"), ("bx", "by"), ("rhx", "rhy")]


def _order_rule(p, res):
    """Lists of components name x before y: they are zipped with, and index, columns in that order."""
    for ctx in contexts(p):
        subs = {id(x.slice) for x in ast.walk(ctx.node) if isinstance(x, ast.Subscript)}
        for n in walk_own(ctx.node):
            if isinstance(n, (ast.List, ast.Tuple)) and 2 <= len(n.elts) <= 8 and id(n) not in subs:
                ns = [_const_name(x) for x in n.elts]
                if not all(ns):
                    continue
                last = [re.sub(r"_index$", "", x.split(".")[-1].lower().lstrip("_")) for x in ns]
                for a, b in PAIRS:
                    if a in last and b in last and last.count(a) == 1:
                        res.count("obligations: component lists in order")
                        if last.index(a) > last.index(b):
                            res.add("mixed-up", f"{ctx.short}:{txt(n, 50)}", ctx.loc(n), f"{b} is listed before {a}")


RULES = [_index_rule, _transfer_rule, _unpack_rule, _accessor_rule, _branch_rule, _label_rule, _side_rule, _cell_rule, _table_rule, _order_rule]


def _all(p, res):
    for r in RULES:
        r(p, res)


BAD = '''
class Box:
    @property
    def latitude(self):
        return self._longitude
    @property
    def start(self):
        return self._start
    @start.setter
    def start(self, value):
        self._end = value
def put(hx, hy):
    return hx
def bounds(lat, lon):
    return lat, lon
def f(a, b, z, s, cc, hx, hy):
    a.latitude = b.lon
    a.update(start_date=b.end_date)
    put(b.hy, b.hx)
    lon, lat = bounds(1, 2)
    d = {"positive.x": b.negative.x, "location.latitude": "site.longitude"}
    setattr(a, "units_in", b.units_out)
    if b.comp == "ex":
        a.ey = 1
    a.text = f"LAT={b.longitude}"
    z[0, 0] = s[cc.hx, cc.ex]
    z[0, 1] = s[cc.hx, cc.ey]
    z[0, 1] = s[cc.hy, cc.ex]
    z[1, 1] = s[cc.hy, cc.ey]
    for k in ["hy", "hx"]:
        a.add(k)
    t = {"zxx": (0, 0), "zxy": (1, 0), "zyx": (1, 0), "zyy": (1, 1)}
    e = Box()
    e.number = b.positive.number
    e.kind = b.negative.kind
    return d, t, e
def comp(z, z_err, n):
    for i in range(n):
        for j in range(n):
            z[0, i, j] = 1
            z_err[0, j, i] = 1
def g(z, s, ex_index, ey_index, hx_index, hy_index):
    z[:, 0, 0] = s[:, ex_index - 2, hx_index]
    z[:, 0, 1] = s[:, ey_index - 2, hx_index]
    z[:, 1, 0] = s[:, ex_index - 2, hy_index]
    z[:, 1, 1] = s[:, ex_index - 2, hy_index]
'''
GOOD = '''
class Box:
    @property
    def latitude(self):
        return float(self._lat)
    @property
    def start(self):
        return self._start
    @start.setter
    def start(self, value):
        self._start = value
def bounds(lat, lon):
    return lat, lon
def put(hx, hy):
    return hx
def f(a, b, z, s, cc):
    a.latitude = float(b.lat)
    a.update(start_date=str(b.start), end=b.end_date)
    put(b.bx, b.hy)
    lat, lon = bounds(1, 2)
    lon, lat = lat, lon if False else lat
    d = {"positive.x": b.positive.x2, "location.latitude": "site.lat"}
    setattr(a, "units_in", b.input_units)
    if b.comp == "ex":
        a.x2 = 1
    elif b.comp in ["hx", "hy"]:
        a.hx = 2
    if a.end < a.start:
        a.end = a.start
    a.span = b.end - b.start
    a.text = f"LAT={b.latitude:.3f} LONG={b.lon}"
    z[0, 0] = s[cc.hx, cc.ex]
    z[0, 1] = s[cc.hx, cc.ey]
    z[1, 0] = s[cc.hy, cc.ex]
    z[1, 1] = s[cc.hy, cc.ey]
    for k in ["hx", "hy", "ex", "ey"]:
        a.add(k)
    t = {"zxx": (1, 1), "zxy": (1, 0), "zyx": (0, 1), "zyy": (0, 0)}
    e = Box()
    e.number = b.positive.number
    e.kind = b.positive.kind
    a.loc[dict(input=b.output_channels, output=b.output_channels)] = 1
    return d, t, e
'''.replace("    lon, lat = lat, lon if False else lat\n", "")


def c22(p, tier):
    res = Result("C22", "every transfer of a value between two places that name members of one vocabulary (coordinates, electrodes, ends, components, tensor cells, input/output, ...) must agree: assignments, "
                 "keywords, arguments, rows, setattr, unpacked results, accessors, branches on a name, labels, matrix cells, index tables and component lists")
    _all(p, res)
    must_fire(res, "mixed-up", _all, BAD, 17)
    must_fire(res, "cell-overwritten", _all, BAD, 1)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: transfers between named places": 400, "obligations: matrix cells filled": 40, "obligations: tensor names in index tables": 20,
                  "obligations: properties named after what they hold": 15, "obligations: component lists in order": 15}
    res.assumptions = ["names of fields, variables and labels say which component, electrode, coordinate or end they hold", "values computed by arithmetic over several sources are not compared by name"]
    return res


# names of temporaries and helper parameters say what they hold
c22.keep = _all.keep = lambda nm: bool(terms(nm))

CHECKS = {"C22": c22}
