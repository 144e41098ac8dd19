"""C17: declared defaults satisfy their own declaration; C18: validators keep or reject.

Everything is read off the class bodies: annotation, Field(...) arguments, enumeration
members and the control flow of the validator functions.
"""
import ast
import re

from .. import constprop
from ..names import const_str, resolve, txt
from ..project import ClassInfo, External, GlobalVar, dotted
from ..names import ModBody
from ..report import Result
from .environment import must_fire, must_not_fire


class Unknown:
    def __repr__(self):
        return "?"


UNKNOWN = Unknown()


class Member:
    """An enumeration member used as a value."""
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class Inst:
    """An instance of a project class."""
    def __init__(self, cls):
        self.cls = cls


def enum_members(c):
    out = {}
    for k in reversed(c.project_mro()):
        for n, v in k.class_attrs.items():
            if isinstance(v, ast.Constant):
                out[n] = v.value
            elif not n.startswith("_"):
                out[n] = UNKNOWN
    return out


def literal(p, ctx, e, depth=0):
    """Python value of a default expression, Member, Inst or UNKNOWN."""
    if e is None or depth > 5:
        return UNKNOWN
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = literal(p, ctx, e.operand, depth + 1)
        return UNKNOWN if not isinstance(v, (int, float)) else (-v if isinstance(e.op, ast.USub) else v)
    if isinstance(e, (ast.List, ast.Tuple)):
        v = [literal(p, ctx, x, depth + 1) for x in e.elts]
        return v if isinstance(e, ast.List) else tuple(v)
    if isinstance(e, ast.Dict):
        ks = [literal(p, ctx, k, depth + 1) if k is not None else UNKNOWN for k in e.keys]
        if any(isinstance(k, (Unknown, list, Member, Inst)) for k in ks):
            return UNKNOWN
        return dict(zip(ks, [literal(p, ctx, v, depth + 1) for v in e.values]))
    if isinstance(e, ast.Attribute) and e.attr == "value":
        v = literal(p, ctx, e.value, depth + 1)
        if isinstance(v, Member):
            return v.value
    if isinstance(e, ast.Attribute):
        b = resolve(p, ctx, e.value)
        if isinstance(b, ClassInfo) and b.is_enum:
            mem = enum_members(b)
            if e.attr in mem:
                return Member(b, e.attr, mem[e.attr])
            return UNKNOWN
        d = resolve(p, ctx, e)
        if isinstance(d, External) and d.dotted in ("numpy.nan", "numpy.inf", "math.nan", "math.inf", "math.pi", "numpy.pi"):
            return 1.0
    if isinstance(e, (ast.Name, ast.Attribute)):
        g = resolve(p, ctx, e)
        if isinstance(g, GlobalVar):
            return literal(p, ModBody(g.module), g.value, depth + 1)
        return UNKNOWN
    if isinstance(e, ast.Call):
        fn = resolve(p, ctx, e.func)
        if isinstance(fn, ClassInfo) and fn.is_model:
            return Inst(fn)
        if isinstance(fn, External):
            n = fn.dotted.split(".")[-1]
            if fn.dotted.startswith("builtins.") and n in ("list", "dict", "tuple", "str") and not e.args and not e.keywords:
                return {"list": list, "dict": dict, "tuple": tuple, "str": str}[n]()
    return UNKNOWN


def factory_value(p, ctx, e):
    if isinstance(e, ast.Lambda):
        return literal(p, ctx, e.body)
    fn = resolve(p, ctx, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if isinstance(fn, ClassInfo) and fn.is_model:
        return Inst(fn)
    if isinstance(fn, External) and fn.dotted in ("builtins.list", "builtins.dict", "builtins.str"):
        return {"list": list, "dict": dict, "str": str}[fn.dotted.split(".")[1]]()
    return UNKNOWN


def _and(vals):
    vals = list(vals)
    if any(v is False for v in vals):
        return False
    return None if any(v is None for v in vals) else True


def _or(vals):
    vals = list(vals)
    if any(v is True for v in vals):
        return True
    return None if any(v is None for v in vals) else False


def accepts(p, ctx, ann, v, depth=0):
    """Does the declared type accept the value?  True, False, None = cannot tell."""
    if isinstance(v, Unknown) or depth > 6:
        return None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(ann, ast.Constant) and ann.value is None:
        return v is None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        return _or([accepts(p, ctx, ann.left, v, depth + 1), accepts(p, ctx, ann.right, v, depth + 1)])
    if isinstance(ann, ast.Subscript):
        base = (dotted(ann.value) or "").split(".")[-1]
        args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if base == "Annotated":
            return accepts(p, ctx, args[0], v, depth + 1)
        if base == "Optional":
            return True if v is None else accepts(p, ctx, args[0], v, depth + 1)
        if base == "Union":
            return _or(accepts(p, ctx, a, v, depth + 1) for a in args)
        if base == "Literal":
            return v in [literal(p, ctx, a) for a in args]
        if base in ("list", "List"):
            if isinstance(v, (list, tuple)):
                return _and(accepts(p, ctx, args[0], x, depth + 1) for x in v)
            return False if _plain(v) else None
        if base in ("tuple", "Tuple"):
            if isinstance(v, (list, tuple)):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return _and(accepts(p, ctx, args[0], x, depth + 1) for x in v)
                return len(v) == len(args) and _and(accepts(p, ctx, a, x, depth + 1) for a, x in zip(args, v))
            return False if _plain(v) else None
        if base in ("dict", "Dict"):
            if isinstance(v, dict):
                return _and([_and(accepts(p, ctx, args[0], k, depth + 1) for k in v)] + [accepts(p, ctx, args[-1], x, depth + 1) for x in v.values()])
            return False if _plain(v) else None
        return None
    r = resolve(p, ctx, ann) if isinstance(ann, (ast.Name, ast.Attribute)) else None
    if isinstance(r, External):
        n = r.dotted
        raw = v.value if isinstance(v, Member) else v
        if isinstance(raw, Unknown):
            return None
        if n == "builtins.str":
            return isinstance(raw, str) or (isinstance(raw, (int, float)) and not isinstance(raw, bool))
        if n == "builtins.float":
            return isinstance(raw, (int, float)) or (isinstance(raw, str) and _number(raw))
        if n == "builtins.int":
            return (isinstance(raw, (int, float)) and float(raw).is_integer()) or (isinstance(raw, str) and re.fullmatch(r"\s*[-+]?\d+\s*", raw) is not None)
        if n == "builtins.complex":
            return isinstance(raw, (int, float, complex)) or None
        if n == "builtins.bool":
            return isinstance(raw, bool) or raw in (0, 1) or (isinstance(raw, str) and raw.lower() in ("0", "1", "true", "false", "t", "f", "yes", "no", "y", "n", "on", "off"))
        if n == "builtins.list":
            return isinstance(v, (list, tuple)) if _plain(v) else None
        if n == "builtins.dict":
            return isinstance(v, dict) if _plain(v) else None
        if n.split(".")[-1] in ("Any", "object"):
            return True
        if n.split(".")[-1] in ("HttpUrl", "AnyUrl", "AnyHttpUrl"):
            if isinstance(raw, str):
                return re.match(r"https?://[^\s/]+", raw) is not None
            return False if raw is None or isinstance(raw, (list, dict, int, float)) else None
        if n.split(".")[-1] == "EmailStr":
            if isinstance(raw, str):
                return re.fullmatch(r"[^@\s]+@[^@\s]+\.[^@\s]+", raw) is not None
            return False if raw is None else None
        if n.split(".")[-1] == "Path":
            return isinstance(raw, str) or (False if _plain(raw) else None)
        if raw is None:
            return False
        return None
    if isinstance(r, ClassInfo):
        if r.is_enum:
            mem = enum_members(r)
            vals = list(mem.values())
            if isinstance(v, Member):
                if v.cls is r:
                    return True
                v = v.value
            if isinstance(v, Unknown) or any(isinstance(x, Unknown) for x in vals) or not vals:
                return None
            if any(isinstance(k, External) and "Meta" in k.dotted for k in r.mro()) or any(x.arg == "metaclass" for x in r.node.keywords):
                return None
            if v in vals:
                return True
            if isinstance(v, str) and any(isinstance(x, str) and x.lower() == v.lower() for x in vals):
                return r.find_method("_normalize_case") is not None
            return False
        if isinstance(v, Inst):
            return v.cls.is_subclass_of(r)
        if isinstance(v, dict):
            return None
        if _plain(v):
            return False
        return None
    return None


def _plain(v):
    return v is None or isinstance(v, (str, int, float, bool, list, tuple, dict))


def _number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def constraint(p, ctx, f, v):
    """Name of the declared constraint the value breaks, or None."""
    if isinstance(v, Member):
        v = v.value
    for k, e in f.kwargs.items():
        lim = literal(p, ctx, e)
        if isinstance(lim, Unknown) or lim is None:
            continue
        if k in ("gt", "ge", "lt", "le", "multiple_of") and isinstance(v, (int, float)) and isinstance(lim, (int, float)):
            ok = {"gt": v > lim, "ge": v >= lim, "lt": v < lim, "le": v <= lim, "multiple_of": lim and abs(v / lim - round(v / lim)) < 1e-9}[k]
        elif k == "pattern" and isinstance(v, str) and isinstance(lim, str):
            try:
                ok = re.search(lim, v) is not None
            except re.error:
                continue
        elif k == "min_length" and isinstance(v, (str, list, dict)):
            ok = len(v) >= lim
        elif k == "max_length" and isinstance(v, (str, list, dict)):
            ok = len(v) <= lim
        else:
            continue
        if not ok:
            return f"{k}={lim!r}"
    return None


def validators(c):
    """[(func, mode, fields)]: the field validators in force for the class (overrides by name)."""
    out, seen = [], set()
    for k in c.project_mro():
        for m in k.methods.values():
            if m.name in seen:
                continue
            for d in m.node.decorator_list:
                if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] in ("field_validator", "validator"):
                    mode = next((kw.value.value for kw in d.keywords if kw.arg == "mode" and isinstance(kw.value, ast.Constant)), "after")
                    out.append((m, mode, [const_str(a) for a in d.args if const_str(a)]))
        seen |= set(k.methods)
    return out


def value_param(m):
    """Name of the parameter that receives the value under validation."""
    ps = m.params
    return ps[1] if len(ps) > 1 and ps[0] in ("cls", "self") else (ps[0] if ps else None)


def through(p, m, v):
    """(definitely rejected?, value afterwards) of one validator for one known value."""
    q = value_param(m)
    if q is None:
        return False, UNKNOWN
    ends = constprop.run(p, m, {q: v.value if isinstance(v, Member) else v}, literal)
    if ends and all(k == "raise" for k, _ in ends):
        return True, UNKNOWN
    vals = [x for k, x in ends if k == "return"]
    if len(vals) == 1 == len(ends):
        x = vals[0]
        if isinstance(x, constprop.EnumVal):
            x = x.value
        return False, x if x is None or isinstance(x, (str, int, float, bool, list, dict)) else UNKNOWN
    return False, UNKNOWN


def _defaults(p, res):
    for c in p.classes.values():
        if not c.is_model:
            continue
        vals = validators(c)
        for name, f in c.fields().items():
            if f.is_private or f.is_classvar or not f.is_field_call:
                continue
            ctx = ModBody(f.cls.module)
            if f.default is not None:
                v = literal(p, ctx, f.default)
            elif f.default_factory is not None:
                v = factory_value(p, ctx, f.default_factory)
            else:
                continue
            if v is ...:
                continue
            own = f.cls is c
            mine = [(m, mode) for m, mode, fs in vals if name in fs]
            if not own and all(m.cls is not c for m, _ in mine):
                continue          # nothing about the field differs from the class that declares it
            res.count("obligations: declared field defaults")
            shown = txt(f.default or f.default_factory, 40)
            bad = None
            x = v
            for m, mode in mine:
                if mode in ("before", "wrap", "plain") and not isinstance(x, (Unknown, Inst)):
                    rej, x = through(p, m, x) if mode == "before" else (False, UNKNOWN)
                    res.count("defaults carried through a validator")
                    if rej:
                        bad = f"every path of its validator {m.name} raises for it"
                        break
            if bad is None:
                ok = accepts(p, ctx, f.annotation, x)
                if ok is False:
                    bad = f"declared type {txt(f.annotation)} does not accept it"
                elif not isinstance(x, (Unknown, Inst)) and x is not None:
                    k = constraint(p, ctx, f, x)
                    bad = f"it breaks the declared constraint {k}" if k else None
                if ok is None and bad is None:
                    res.count("defaults not decided (type or value outside the source)")
            if bad is None:
                for m, mode in mine:
                    if mode == "after" and not isinstance(x, (Unknown, Inst)):
                        rej, x = through(p, m, x)
                        res.count("defaults carried through a validator")
                        if rej:
                            bad = f"every path of its validator {m.name} raises for it"
                            break
            if bad:
                res.add("default-invalid", f"{c.short}.{name}", f.cls.loc(f.node), f"the default {shown} of {c.name}.{name} is rejected by the class itself: {bad}")


BAD = '''
from enum import Enum
from typing import Annotated
from pydantic import BaseModel, Field, HttpUrl, field_validator
class Kind(str, Enum):
    a = "a"
    b = "b"
class M(BaseModel):
    kind: Annotated[Kind, Field(default="c")]
    n: Annotated[int, Field(default=None)]
    m: Annotated[float, Field(default=-1.0, ge=0)]
    s: Annotated[str, Field(default="", pattern="^[a-z]+$")]
    u: Annotated[HttpUrl, Field(default="")]
    v: Annotated[str, Field(default="none")]
    w: Annotated[list[str], Field(default_factory=dict)]
    @field_validator("v", mode="before")
    @classmethod
    def check_v(cls, value):
        if value.lower() not in ["x", "y"]:
            raise ValueError(value)
        return value
'''

GOOD = '''
from enum import Enum
from typing import Annotated
from pydantic import BaseModel, Field, HttpUrl, field_validator
class Kind(str, Enum):
    a = "a"
    b = "b"
class N(BaseModel):
    z: Annotated[float, Field(default=0.0, ge=0, le=1)]
class M(BaseModel):
    kind: Annotated[Kind, Field(default=Kind.a)]
    kind2: Annotated[Kind, Field(default="b")]
    n: Annotated[int | None, Field(default=None)]
    s: Annotated[str, Field(default="", pattern="^[a-z]*$")]
    u: Annotated[HttpUrl | None, Field(default=None)]
    v: Annotated[str, Field(default="X")]
    w: Annotated[list[str], Field(default_factory=list)]
    c: Annotated[N, Field(default_factory=N)]
    t: Annotated[Kind, Field(default="")]
    @field_validator("v", mode="before")
    @classmethod
    def check_v(cls, value):
        if value.lower() not in ["x", "y"]:
            raise ValueError(value)
        return value
    @field_validator("t", mode="before")
    @classmethod
    def check_t(cls, value):
        if value in [None, ""]:
            return "a"
        return value
'''


def c17(p, tier):
    res = Result("C17", "the default of every declared field, carried by constant propagation through the field's validators, is accepted by the declared type, enumeration, pattern and bounds")
    _defaults(p, res)
    must_fire(res, "default-invalid", _defaults, BAD, 7)
    must_not_fire(res, _defaults, GOOD)
    res.floors = {"obligations: declared field defaults": 600, "defaults carried through a validator": 80}
    if res.counts.get("defaults not decided (type or value outside the source)", 0) > 120:
        res.broken.append("more than 120 defaults could not be decided")
    res.assumptions = ["the type rules of pydantic for the annotations used here (lax mode, numbers accepted for strings) are as written in accepts()",
                       "members of enumerations built at import time and unit tables are not evaluated; their defaults are counted as not decided"]
    return res


CHECKS = {"C17": c17}
