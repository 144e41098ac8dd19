"""Rules decided on the side-effect summaries: observers, arguments, shared state, copies."""
from __future__ import annotations

import ast
import re

from ..project import ClassInfo, FuncInfo, GlobalVar, Project, dotted
from ..names import ModBody, const_str, resolve, txt, walk_own
from ..effects import CONTAINER_ATTRS, Effects, Val, is_mutable_expr
from ..report import Result
from .environment import must_fire, must_not_fire, sample_project

IO = "mt_metadata.transfer_functions.io."

OBSERVER = re.compile(
    r"^(to_\w+|_to_\w+|write|write_\w+|plot\w*|__str__|__repr__|__eq__|__ne__|__lt__|__gt__|__le__|__ge__|__len__|__hash__|__bool__|__contains__"
    r"|__iter__|__getitem__|__float__|__int__|__copy__|__deepcopy__|__add__|__sub__|copy|get_\w+|is_\w+|has_\w+|keys|values|items|\w+_information"
    r"|complex_response|pass_band|channel_response|isoformat|format|iso_\w+|summarize\w*|attribute_information|survey_to_\w+)$")
# parsing helpers of the format readers
IO_NOT_OBSERVER = re.compile(r"^(get_\w+|_\w+)$")
# sections a format file object rebuilds for itself while it prints or writes itself (never transfer function data)
IO_BOOKKEEPING = {"fn", "_fn", "_zfn", "filedate", "progvers", "progname", "progdate", "nfreq", "id", "acqchan", "_line_num", "_data_type_in", "_channel_ids", "_measurement_list", "*",
                  "estimates_list", "data_types_list", "number", "tilt", "azimuth", "df", "components"}

# attribute -> why storing it while observing does not change what the object holds
WORKING_ATTRS = {
    ("ChannelResponse", "frequencies"): "working frequency axis of the response, set from the call's own argument",
    ("ChannelResponse", "normalization_frequency"): "derived from the pass band when it was never given",
    ("Provenance", "create_time"): "the EMTF header is stamped with the time and program of the export by design",
    ("Provenance", "creating_application"): "the EMTF header is stamped with the time and program of the export by design",
}
REFRESH = re.compile(r"\.update_(bounding_box|time_period|all|run_list|channels_recorded)\(|_update_channels_recorded\(|channels_recorded_\w+ = ")


def _memo_guarded(eff):
    """self._x = v under a test of self._x itself: a lazily filled private cache."""
    s = eff.src
    if not s.attr.startswith("_"):
        return False
    fn = s.ctx.node
    par = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    n = s.node
    while n in par:
        n = par[n]
        if isinstance(n, ast.If) and any(isinstance(k, ast.Attribute) and k.attr == s.attr or isinstance(k, ast.Constant) and k.value == s.attr for k in ast.walk(n.test)):
            return True
    # early return when the cache is filled
    for st in getattr(fn, "body", []):
        if isinstance(st, ast.If) and st.lineno < s.node.lineno and st.body and isinstance(st.body[-1], ast.Return) and any(isinstance(k, ast.Attribute) and k.attr == s.attr for k in ast.walk(st.test)):
            return True
    return False


def _owner(f):
    return f.cls.name if f.cls is not None else ""


def _working(p, eff):
    a = eff.src.attr
    for (cn, an), _ in WORKING_ATTRS.items():
        if an == a:
            c = eff.src.ctx.cls
            if c is not None and (c.name == cn or any(k.name == cn for k in c.project_mro())):
                return True
    return False


def _attrs_mirror(eff):
    n = eff.src.node
    ts = n.targets if isinstance(n, ast.Assign) else [getattr(n, "target", None)]
    for t in ts:
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "attrs":
            return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "attrs":
        return True
    return any(isinstance(t, ast.Attribute) and t.attr == "attrs" for t in ts if t is not None)


def is_observer(f):
    if f.cls is None or f.is_static or f.is_classmethod or f.parent is not None:
        return False
    if "validator" in " ".join(f.deco_names):
        return False
    if f.is_property:
        return True
    if not OBSERVER.match(f.name):
        return False
    if (f.module.name + ".").startswith(IO) and IO_NOT_OBSERVER.match(f.name):
        return False
    return True


def observer_rule(p, res):
    e = _effects(p)
    for f in p.functions:
        if not is_observer(f):
            continue
        res.count("obligations: observers analysed")
        me = f.positional[:1]
        s = e.special(f, {n: d.value for n, d in f.defaults().items() if isinstance(d, ast.Constant) and isinstance(d.value, bool)} if f.name == "copy" else {"inplace": False} if "inplace" in f.params else {})
        ok = True
        for (r, d, a), eff in s.muts.items():
            if r[0] != "p" or r[1] not in me:
                continue
            if _memo_guarded(eff) or _working(p, eff) or _attrs_mirror(eff) or REFRESH.search(eff.src.desc) or REFRESH.search(eff.desc):
                res.count("accepted cache, mirror or derived-summary updates")
                continue
            src = eff.src
            if (f.module.name + ".").startswith(IO) and (src.attr or "?") in IO_BOOKKEEPING and (src.ctx.module.name + ".").startswith(IO):
                res.count("accepted rebuilt sections of format file objects")
                continue
            if (f.module.name + ".").startswith(IO) and _rebuilt_by_callers(p, src):
                res.count("accepted rebuilt sections of format file objects")
                continue
            ok = False
            res.add("observer", f"{_owner(f)}.{f.name}|{src.attr or txt(src.node, 40)}", src.ctx.loc(src.node),
                    f"{f.short} changes the object it reports on: {txt(src.node, 100)} in {src.ctx.short}")
        if ok and f.name.startswith(("to_", "write")):
            res.sample(f"{f.loc()} {f.short}: no store reaches self")


def _rebuilt_by_callers(p, src):
    """`self.x.list.append(..)` in a private step whose every caller sets `self.x.list = []` first."""
    call = src.node.value if isinstance(src.node, ast.Expr) else src.node
    g = src.ctx
    if src.attr or not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Attribute)) or not g.name.startswith("_"):
        return False
    path = call.func.value
    if path.attr not in IO_BOOKKEEPING or not txt(path).startswith("self."):
        return False
    found = 0
    for f in p.functions:
        if f.module is not g.module or f is g:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == g.name:
                if not any(isinstance(s, ast.Assign) and s.lineno < n.lineno and txt(s.targets[0]) == txt(path) and isinstance(s.value, (ast.List, ast.Dict)) for s in f.node.body):
                    return False
                found += 1
    return found > 0


_CACHE = {}


def _effects(p):
    k = id(p)
    if k not in _CACHE:
        _CACHE.clear()
        _CACHE[k] = (p, Effects(p))
    return _CACHE[k][1]


OBS_BAD = '''
class Box:
    def __init__(self):
        self.items_ = [3, 1]
        self.name = "a"
        self.inner = {}
    def to_dict(self):
        d = self.__dict__
        d["name"] = "x"
        return d
    def to_list(self):
        self.items_.sort()
        return self.items_
    @property
    def label(self):
        self.name = self.name.upper()
        return self.name
    def __eq__(self, other):
        self._norm()
        return self.items_ == other.items_
    def _norm(self):
        x = self.items_
        x.append(0)
    def to_xml(self):
        for k in self.inner.values():
            k.pop("a")
        return ""
'''
OBS_OK = '''
import copy
class Box:
    def __init__(self):
        self.items_ = [3, 1]
        self.name = "a"
        self._cache = None
    def to_dict(self):
        d = dict(self.__dict__)
        d["name"] = "x"
        return d
    def to_list(self):
        x = list(self.items_)
        x.sort()
        return x
    @property
    def label(self):
        if self._cache is None:
            self._cache = self.name.upper()
        return self._cache
    def to_xml(self):
        o = copy.deepcopy(self)
        o.items_.append(4)
        o.name = "q"
        return str(o.items_)
    def _sort(self, inplace=True):
        od = sorted(self.items_)
        if inplace:
            self.items_ = od
        else:
            return od
    def to_str(self):
        return str(self._sort(inplace=False))
'''


def check_observers(p, tier):
    res = Result("C12", "interprocedural side-effect summaries (aliases, element access, copies, property setters, calls): no property getter, comparison, printer, copy or exporter "
                 "may reach a store or container mutation of the object it reads, except lazily filled private caches, the xarray attribute mirror and recomputed extents")
    observer_rule(p, res)
    must_fire(res, "observer", observer_rule, OBS_BAD, 5)
    must_not_fire(res, observer_rule, OBS_OK)
    _CACHE.clear()
    res.floors = {"obligations: observers analysed": 300}
    res.assumptions = ["methods of values whose type is not known from annotations, constructors or isinstance tests are judged by the effects every method of that name shares",
                       "pydantic's own copy, dump and validation do not modify their input"]
    return res


# --------------------------------------------------------------------------
# arguments
# --------------------------------------------------------------------------
ADOPTS = re.compile(r"^(add_\w+|append|extend|insert|__setitem__|__setattr__|__post_init__|model_post_init|set_\w+|fill_\w+)$")
# (function, parameter) pairs whose documented purpose is to fill or annotate that argument
INOUT = {
    ("recursive_split_dict", "remainder"): "accumulator",
    ("recursive_split_setattr", "base_object"): "sets attributes on the given object",
    ("recursive_split_xml", "element"): "fills the element it is given",
    ("write_block", "parent"): "fills the element it is given",
    ("make_zmm_run", "zmm_obj"): "fills the object it is given",
    ("_xml_response_to_mt", "existing_filters"): "registry of the filters seen so far",
    ("xml_to_mt", "existing_filters"): "registry of the filters seen so far",
    ("create_frequency_response_table_filter_from_stage", "stage"): "annotates the obspy stage with its own values as arrays (documented)",
    ("create_filter_from_stage", "stage"): "annotates the obspy stage with its own values as arrays (documented)",
    ("xml_to_mt", "xml_channel"): "annotates the obspy stages with their own values as arrays (documented)",
    ("xml_to_mt", "inventory_object"): "annotates the obspy stages with their own values as arrays (documented)",
}
STAGE_ANNOTATION = {"frequencies", "amplitudes", "phases"}


def argument_rule(p, res):
    e = _effects(p)
    for f in p.functions:
        if f.parent is not None or isinstance(f.node, ast.Lambda):
            continue
        if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
            continue
        deco = " ".join(f.deco_names)
        adopts = bool(ADOPTS.match(f.name)) or f.accessor in ("setter", "deleter")
        me = f.positional[:1] if f.cls is not None and not f.is_static else []
        args = [a for a in f.params if a not in me and not (f.name == "__deepcopy__" and a != "result")]
        if not args:
            continue
        res.count("obligations: public functions whose arguments are tracked")
        dfl = f.defaults() if not f.accessor else {}      # options of an adopting call are not the thing it takes over
        after = "field_validator" in deco and _validator_mode(f) == "after"
        s = e.summary(f)
        for (r, d, a), eff in s.muts.items():
            if r[0] != "p" or r[1] not in args:
                continue
            key = (f.name, r[1])
            src = eff.src
            if adopts and r[1] not in dfl and not (d == 0 and not a and _takes_out(src.node)):
                continue      # the object is taken over; only taking entries out of it is reported
            if key in INOUT and (INOUT[key].startswith("annotates") is False or src.attr in STAGE_ANNOTATION):
                continue
            if after and d == 0 and not a:
                continue      # pydantic hands an after-validator the list it has just built
            if _memo_guarded(eff):
                continue
            if "validator" in deco and (src.attr in ADOPT_FLAGS):
                continue
            if _fresh_home(eff):
                continue
            res.add("argument", f"{_owner(f)}.{f.name}({r[1]})|{src.attr or txt(src.node, 40)}", src.ctx.loc(src.node),
                    f"{f.short} changes its argument {r[1]}: {txt(src.node, 100)} in {src.ctx.short}")


ADOPT_FLAGS = {"remote"}     # Stations marks a station it takes over as remote


def _validator_mode(f):
    for dco in f.node.decorator_list:
        if isinstance(dco, ast.Call):
            for k in dco.keywords:
                if k.arg == "mode":
                    return const_str(k.value)
    return "after"


def _fresh_home(eff):
    """Stores into the fresh container a validator builds its result in, or the element an exporter built."""
    n = eff.src.node
    f = eff.src.ctx
    return f.cls is not None and f.cls.name == "ListDict" and f.name in ("append", "extend") and eff.src.root == ("p", f.positional[0]) and not _takes_out(n) or f.name == "_remove_null_values"


def _takes_out(n):
    """Deleting or reordering the entries of a container."""
    if isinstance(n, ast.Delete):
        return True
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "popitem", "remove", "clear", "sort", "reverse", "__delitem__", "move_to_end") for x in ast.walk(n)) \
        or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del)


ARG_BAD = '''
class Box:
    def from_dict(self, d):
        self.name = d.pop("name")
    def read(self, d):
        inner = d["a"]
        _drop(inner)
    def merge(self, other):
        other.items_.sort()
    def convert(self, channel):
        channel.units = "mV"
        return channel
def _drop(x):
    del x["k"]
def f(values):
    values["a"] = 1
    return values
def g(rows):
    for r in rows:
        r.append(1)
    return rows
'''
ARG_OK = '''
class Box:
    def from_dict(self, d):
        d = dict(d)
        self.name = d.pop("name")
    def add_item(self, x):
        x.owner = self
    def merge(self, other):
        xs = sorted(other.items_)
        xs.append(3)
        self.items_ = xs
def f(values):
    values = {**values, "a": 1}
    values["b"] = 2
    return values
def g(rows):
    out = []
    for r in rows:
        out.append(r)
    out.sort()
    return out
'''


def check_arguments(p, tier):
    res = Result("C13", "the same side-effect summaries applied to the other parameters: no public reader, converter, validator or helper may reach a store or container mutation of an argument, "
                 "unless the call's purpose is to take the object over (add/append/set) or to fill it")
    argument_rule(p, res)
    must_fire(res, "argument", argument_rule, ARG_BAD, 6)
    must_not_fire(res, argument_rule, ARG_OK)
    _CACHE.clear()
    res.floors = {"obligations: public functions whose arguments are tracked": 500}
    res.assumptions = ["methods of values whose type is not known are judged by the effects every method of that name shares", "pydantic hands an after-validator a list it has built itself"]
    return res


# --------------------------------------------------------------------------
# shared mutable state
# --------------------------------------------------------------------------
CACHE_NAME = re.compile(r"cache", re.I)


def _elements_mutable(p, root):
    """Do the elements of a module-level table allow mutation? (literal tables only; None = unknown)"""
    kind, qual = root
    if not isinstance(qual, str):
        return None
    mod, _, nm = qual.rpartition(".")
    m = p.modules.get(mod)
    v = None
    if kind == "g" and m is not None and nm in m.globals:
        v = m.globals[nm].value
    elif kind == "c" and mod in p.classes:
        ca = p.classes[mod].find_class_attr(nm)
        v = ca[1] if ca else None
    if isinstance(v, ast.Dict):
        vals = v.values
    elif isinstance(v, (ast.List, ast.Set, ast.Tuple)):
        vals = v.elts
    else:
        return None
    if not vals:
        return _filled_with_mutable(p, m if kind == "g" else p.classes[mod].module, nm)
    for x in vals:
        if isinstance(x, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        if isinstance(x, ast.Call) and isinstance(resolve(p, ModBody(m) if m else None, x.func), ClassInfo):
            return True
    return False


def _filled_with_mutable(p, m, nm):
    """An empty table: what do the functions of its module put in?"""
    for f in p.functions:
        if f.module is not m:
            continue
        for n in walk_own(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if isinstance(t, ast.Subscript) and (dotted(t.value) or "").split(".")[-1] == nm:
                    if isinstance(n.value, (ast.Name, ast.Attribute, ast.Call, ast.Dict, ast.List, ast.Set, ast.Subscript, ast.ListComp, ast.DictComp)):
                        return True
    return False


def shared_rule(p, res):
    e = _effects(p)
    for g in e._mutglobals.values():
        res.count("obligations: shared tables tracked")
    for f in p.functions:
        s = e.summary(f)
        if any(isinstance(a, (ast.List, ast.Dict, ast.Set, ast.Call)) for a in f.defaults().values()):
            res.count("obligations: functions with mutable defaults tracked")
        for (r, d, a), eff in s.muts.items():
            if r[0] not in ("g", "c", "d"):
                continue
            if eff.origin is not None:      # reported where the store is
                if not (r[0] == "d"):
                    if eff.origin.root == r:
                        continue
            if CACHE_NAME.search(str(r[1])) and d == 0:
                res.count("cache updates accepted")
                continue
            what = {"g": "module-level", "c": "class-level", "d": "default argument"}[r[0]]
            res.add("shared-mutated", f"{r[1]}|{_owner(f)}.{f.name}", eff.src.ctx.loc(eff.src.node), f"{f.short} changes the {what} object {r[1]} every user shares: {txt(eff.src.node, 100)}")
        for (r, d), eff in s.stores.items():
            if eff.origin is not None and d == 1:
                continue
            if d == 1 and (r[0] == "d" or not _elements_mutable(p, r)):
                continue
            if d == 0 and r[0] == "d" and "returned" in eff.desc and _never_mutable(f, r):
                continue
            res.add("shared-handed-out", f"{r[1]}|{_owner(f)}.{f.name}", eff.ctx.loc(eff.node), f"{f.short}: the shared object {r[1]} is {eff.desc}; a caller changing it changes every later result")
    # rebinding of module globals and class attributes from functions
    for f in p.functions:
        gl = {n for x in walk_own(f.node) if isinstance(x, ast.Global) for n in x.names}
        for n in walk_own(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Name) and t.id in gl and not CACHE_NAME.search(t.id):
                    res.add("shared-mutated", f"global {t.id}|{f.name}", f.loc(n), f"{f.short} rebinds the module global {t.id}")
                if isinstance(t, ast.Attribute) and isinstance(t.value, (ast.Name, ast.Attribute, ast.Call)):
                    b = t.value
                    cls = resolve(p, f, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
                    iscls = isinstance(cls, ClassInfo)
                    if isinstance(b, ast.Name) and f.is_classmethod and f.positional and b.id == f.positional[0]:
                        iscls = True
                    if isinstance(b, ast.Attribute) and b.attr == "__class__":
                        iscls = True
                    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type" and len(b.args) == 1:
                        iscls = True
                    if iscls and not CACHE_NAME.search(t.attr):
                        res.add("shared-mutated", f"class attribute {t.attr}|{f.name}", f.loc(n), f"{f.short} rebinds the class attribute {txt(t)} for every instance")
    # model field defaults that pydantic does not copy (hashable but mutable instances)
    for c in p.classes.values():
        if not c.is_model:
            continue
        for nm, fi in c.own_fields.items():
            d = fi.default
            for x in _factory_shares(p, c, fi.default_factory):
                res.add("shared-default", f"{c.name}.{nm}", c.loc(x), f"the default factory of {c.name}.{nm} hands every instance the same object: {txt(x, 60)}")
            if isinstance(d, ast.Call):
                k = resolve(p, ModBody(c.module), d.func)
                if isinstance(k, ClassInfo) and not k.is_enum:
                    res.count("obligations: model field default instances")
                    hashable = k.find_method("__hash__") is not None or (not k.is_model and k.find_method("__eq__") is None)
                    if hashable:
                        res.add("shared-default", f"{c.name}.{nm}", c.loc(d), f"every {c.name} shares one {k.name} as default of {nm}: a hashable default is not copied per instance")


def _factory_shares(p, c, fac):
    """Objects that exist once and come back from every call of a default factory."""
    if isinstance(fac, ast.Attribute) and fac.attr == "copy":
        return []
    mb = ModBody(c.module)
    if isinstance(fac, ast.Lambda):
        out = [d for d in fac.args.defaults + [k for k in fac.args.kw_defaults if k] if is_mutable_expr(p, mb, d)]
        names = {a.arg for a in fac.args.args + fac.args.kwonlyargs}
        return out + [x for x in _leaves(fac.body) + (list(fac.body.values) if isinstance(fac.body, ast.BoolOp) else []) if not (isinstance(x, ast.Name) and x.id in names) and _one_object(p, mb, c, x)]
    if isinstance(fac, ast.Attribute) and fac.attr in ("__call__", "get", "pop", "setdefault"):
        return []
    if isinstance(fac, ast.Call) and (dotted(fac.func) or "").split(".")[-1] in ("repeat", "constantly", "always"):
        return [fac]
    return []


def _one_object(p, mb, c, x):
    if isinstance(x, ast.Subscript):
        x = x.value
        while isinstance(x, ast.Subscript):
            x = x.value
    if not isinstance(x, (ast.Name, ast.Attribute)):
        return False
    g = resolve(p, mb, x)
    if isinstance(g, GlobalVar):
        return g.value is not None and is_mutable_expr(p, ModBody(g.module), g.value)
    if isinstance(x, ast.Attribute):
        k = resolve(p, mb, x.value)
        if isinstance(k, ClassInfo):
            ca = k.find_class_attr(x.attr)
            return ca is not None and is_mutable_expr(p, ModBody(ca[0].module), ca[1])
    return False


def _never_mutable(f, r):
    return False


# parts that become shared because the library hands one object's part to another
TAKES_PART = re.compile(r"^(add_\w+|append|extend|insert)$")
REBUILT = {"MTime", "MDate"}     # time fields are rebuilt by their validators on every assignment
UNDERLYING = {"parent", "_parent"}


def _plain_mutables(p):
    """Attributes that methods of plain (not pydantic) classes fill with a list, dictionary or set display."""
    out = {}
    for c in p.classes.values():
        if c.is_model or c.is_enum:
            continue
        for m in list(c.methods.values()) + list(c.setters.values()):
            if not m.positional:
                continue
            for n in walk_own(m.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.positional[0] and _container(p, m, n.value):
                            out.setdefault(t.attr, set()).add(c)
    return out


def _out_of(x):
    """The values an expression hands out: itself, its branches, the entries of a display."""
    if isinstance(x, ast.IfExp):
        return _out_of(x.body) + _out_of(x.orelse)
    if isinstance(x, ast.BoolOp):
        return [y for v in x.values for y in _out_of(v)]
    if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
        return [y for v in x.elts for y in _out_of(v)]
    if isinstance(x, ast.Dict):
        return [y for v in x.values for y in _out_of(v)]
    return [x]


def _container(p, m, x):
    if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("dict", "list", "set", "OrderedDict", "defaultdict")


def _loops(fn):
    """node -> enclosing loops inside the function."""
    out = {}

    def go(n, ls):
        out[n] = ls
        for c in ast.iter_child_nodes(n):
            go(c, ls + [n] if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.DictComp)) else ls)
    go(fn, [])
    return out


def _same_object(lp, x):
    """Follow plain x = y assignments inside the loop."""
    for _ in range(3):
        src = [n.value for n in ast.walk(lp) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == x.id]
        bound = sum(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x.id for n in ast.walk(lp))
        if len(src) != 1 or bound != 1 or not isinstance(src[0], ast.Name):
            return x
        x = src[0]
    return x


def _then_leaves(lp, node):
    """The statement list that holds the node goes on to leave the loop: it happens once."""
    def go(stmts):
        for i, st in enumerate(stmts):
            if any(k is node for k in ast.walk(st)):
                if any(isinstance(k, (ast.Break, ast.Return, ast.Raise)) for k in stmts[i + 1:]):
                    return True
                return any(go(b) for fld in ("body", "orelse", "finalbody", "handlers") for b in [getattr(st, fld, None)] if isinstance(b, list) and b and isinstance(b[0], ast.stmt))
        return False
    return go(lp.body) if isinstance(lp, (ast.For, ast.While)) else False


def _bound_in(loop):
    return {k.id for k in ast.walk(loop) if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store)}


def between_rule(p, res):
    """A part of one object may not be stored in another object."""
    e = _effects(p)
    plain = _plain_mutables(p)
    listy = {c for c in p.classes.values() if c.name == "ListDict"}
    models = {c for c in p.classes.values() if c.name == "MetadataBase"}
    allnames = {n for c in p.classes.values() if c.is_model for n in list(c.fields()) + [m for k in c.project_mro() for m in k.methods]}
    fieldnames = {n for c in p.classes.values() if c.is_model for n in c.fields()} - CONTAINER_ATTRS
    elems = {}       # (function, loop variable) -> iterates over a container of metadata objects
    seen = set()
    loops = {}

    def owners(v):
        return {r[1] for r, d in v.sh if r[0] == "p"}

    def holds_parts(f, x, v):
        """Does the value denote a mutable part whose identity survives the assignment?"""
        ty = {c for c in v.ty if not c.is_enum and c.name not in REBUILT}
        if ty:
            return ty
        if isinstance(x, ast.Attribute) and x.attr in plain:
            return plain[x.attr]
        if isinstance(x, ast.Name) and (f, x.id) in elems:
            return listy
        if isinstance(x, ast.Name) and not v.ty and x.id not in f.params:
            used = {n.attr for n in walk_own(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == x.id}
            if used & fieldnames and not used - allnames:
                return models
        return set()

    def skip(f):
        return f.parent is not None or isinstance(f.node, ast.Lambda) or f.name.startswith("__init") or f.name in COPIES or f.name in ("merge", "add") or TAKES_PART.match(f.name) or "validator" in " ".join(f.deco_names)

    def leaves(f, name):
        """Is the local object handed on (returned, stored, given to a call)?"""
        for n in walk_own(f.node):
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and any(isinstance(k, ast.Name) and k.id == name for k in _out_of(n.value)):
                return True
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name and not isinstance(n.targets[0], ast.Name):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and TAKES_PART.match(n.func.attr) and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
                return True
        return False

    def judge(f, node, target, b, x, v, how):
        ty = holds_parts(f, x, v)
        if not ty:
            return
        res.count("obligations: parts handed from one object to another") if node not in seen else None
        seen.add(node)
        root = target
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.func if isinstance(root, ast.Call) else root.value
        rn = root.id if isinstance(root, ast.Name) else None
        mine = {r[1] for r, d in b.all if r[0] == "p"}
        # a part of another object
        parts = {r[1] for r, d in v.sh if r[0] == "p" and d == 1} - mine
        if parts and (mine or rn is None or leaves(f, rn)):
            who = sorted(c.name for c in ty)[0]
            res.add("shared-between", f"{_owner(f)}.{f.name}|{txt(node, 80)}", f.loc(node), f"{f.short} makes two objects share one {who}: {txt(node, 80)} keeps a part of {sorted(parts)[0]} by reference ({how})")
            return
        # one object stored in every object a loop builds or visits
        y = x
        if isinstance(x, ast.Name) and rn is not None and not ty & listy:
            for lp in loops.setdefault(f, _loops(f.node)).get(node, ()):
                inside = _bound_in(lp)
                y = _same_object(lp, y)
                if rn in inside and y.id not in inside and y.id != rn and not _then_leaves(lp, node):
                    res.add("shared-between", f"{_owner(f)}.{f.name}|{txt(node, 80)}", f.loc(node), f"{f.short} makes every object the loop handles share {y.id}: {txt(node, 80)}")
                    return

    def keeps(g, i, d=0):
        """Does the function keep its i-th argument by reference?  (Parts it keeps are judged inside it.)"""
        pos = g.positional[(0 if g.is_static else 1):]
        return i < len(pos) and (pos[i], d) in e.summary(g).pstores

    def ob(f, kind, n, b, name, v):
        if skip(f):
            return
        if kind == "iter":
            if isinstance(n.target, ast.Name) and b.ty & listy:
                elems[(f, n.target.id)] = True
        elif kind == "store" and v is not None and name not in UNDERLYING:
            st = [c.find_setter(name) for c in b.ty]
            if st and all(x is not None and not keeps(x, 0) for x in st):
                return
            a = values.get((f, n))
            if a is not None:
                judge(f, n, n.value, b, a, v, "assigned")
        elif kind == "given" and TAKES_PART.match(name) and isinstance(n, ast.Call):
            tgt = n.func.value
            if f.accessor or not (b.sh or b.ty or isinstance(tgt, ast.Attribute) and tgt.attr in fieldnames or name.startswith("add_")):
                return
            args, kw = v
            ms = [c.find_method(name) for c in b.ty]
            for i, (x, a) in enumerate(zip(n.args, args)):
                if ms and all(m is not None and not keeps(m, i, int(name == "extend")) for m in ms):
                    continue
                judge(f, n, n.func.value, b, x, Val(a.dp, a.dp, a.el or a.ty) if name == "extend" else a, f"given to {name}")

    values = {}
    for f in p.functions:
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        values[(f, t)] = n.value
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        values.update({(f, a): b for a, b in zip(t.elts, n.value.elts) if isinstance(a, ast.Attribute)})
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Attribute):
                values[(f, n.target)] = n.value
    e.observe(ob)


SHARED_BAD = '''
TABLE = {"a": [1], "b": [2]}
NAMES = {"x": "x"}
class Box:
    shared = []
    count = 0
    def __init__(self, names=NAMES):
        self.names = names
    def add(self, v):
        self.shared.append(v)
        Box.count = Box.count + 1
def get(k):
    return TABLE[k]
def put(k, v):
    TABLE[k] = v
def collect(x, acc=[]):
    acc.append(x)
    return acc
'''
SHARED_OK = '''
TABLE = {"a": [1], "b": [2]}
NAMES = {"x": "x"}
_CACHE = {}
class Box:
    shared = []
    def __init__(self, names=NAMES):
        self.names = dict(names)
        self.names["y"] = "y"
        self.shared = list(self.shared)
    def name(self, k):
        return NAMES[k]
def get(k):
    return list(TABLE[k])
def memo(k):
    if k not in _CACHE:
        _CACHE[k] = k + 1
    return _CACHE[k]
def collect(x, acc=None, skip=[]):
    acc = [] if acc is None else acc
    acc.append(x)
    return [a for a in acc if a not in skip]
'''


BETWEEN_BAD = '''
class ListDict:
    def __init__(self):
        self._home = {}
class Window:
    def copy(self) -> "Window":
        return Window()
class Level:
    def __init__(self):
        self.window = Window()
        self.table = {}
        self.bands = ListDict()
    def add_band(self, b):
        self.bands.append(b)
    def convert(self):
        out = Level()
        out.window = self.window
        return out
    def take(self, other: "Level"):
        self.table = other.table
        w = other.window
        self.window = w
    def fill(self, other: "Level"):
        for b in other.bands:
            self.add_band(b)
def make(rates, window: Window):
    out = []
    for r in rates:
        lv = Level()
        lv.window = window
        out.append(lv)
    return out
'''
BETWEEN_OK = '''
class ListDict:
    def __init__(self):
        self._home = {}
class Window:
    def copy(self) -> "Window":
        return Window()
class Level:
    def __init__(self):
        self.window = Window()
        self.table = {}
        self.bands = ListDict()
    def add_band(self, b):
        self.bands.append(b)
    def convert(self):
        out = Level()
        out.window = self.window.copy()
        return out
    def take(self, other: "Level"):
        self.table = dict(other.table)
        self.window = other.window.copy()
    def fill(self, other: "Level"):
        for b in other.bands:
            self.add_band(b.copy())
    def measure(self):
        probe = Level()
        probe.window = self.window
        return len(probe.table)
def make(rates, window: Window):
    out = []
    for r in rates:
        lv = Level()
        lv.window = window.copy()
        out.append(lv)
    return out
def one(window: Window):
    lv = Level()
    lv.window = window
    return lv
'''


def check_shared(p, tier):
    res = Result("C14", "module-level, class-level and default-argument objects are tracked as alias roots: none may be mutated outside a cache, rebound by a function, kept by reference in an instance or handed to a caller while mutable; "
                 "model defaults must be objects pydantic copies")
    shared_rule(p, res)
    between_rule(p, res)
    must_fire(res, "shared-between", between_rule, BETWEEN_BAD, 5)
    must_not_fire(res, between_rule, BETWEEN_OK)
    must_fire(res, "shared-mutated", shared_rule, SHARED_BAD, 4)
    must_fire(res, "shared-handed-out", shared_rule, SHARED_BAD, 2)
    must_not_fire(res, shared_rule, SHARED_OK)
    _CACHE.clear()
    res.floors = {"obligations: shared tables tracked": 30, "obligations: model field default instances": 2}
    res.assumptions = ["pydantic copies unhashable defaults for each instance and rebuilds lists and dicts it validates"]
    return res


# --------------------------------------------------------------------------
# copies
# --------------------------------------------------------------------------
COPIES = {"copy", "__copy__", "__deepcopy__", "__add__", "__sub__", "__or__", "__and__"}


def copy_rule(p, res):
    e = _effects(p)
    for f in p.functions:
        if f.parent is not None or f.cls is None:
            continue
        if "inplace" in f.params:
            res.count("obligations: inplace switches analysed")
            s = e.special(f, {"inplace": False})
            for (r, d, a), eff in s.muts.items():
                if r[0] != "p" or _memo_guarded(eff) or _attrs_mirror(eff):
                    continue
                res.add("inplace", f"{_owner(f)}.{f.name}|{r[1]}", eff.ctx.loc(eff.node), f"{f.short} changes {r[1]} although inplace is False: {txt(eff.src.node, 90)} in {eff.src.ctx.short}")
                break
            me = f.positional[0]
            if f.name != "sort" and any(r == ("p", me) and d == 0 for r, d in s.ret.sh):
                res.add("inplace", f"{_owner(f)}.{f.name}|returns self", f.loc(), f"{f.short} returns the object itself although inplace is False")
            if any(r == ("p", me) and d == 1 for r, d in s.ret.dp | s.ret.sh) and not _takes_list(f):
                res.add("inplace", f"{_owner(f)}.{f.name}|shares", f.loc(), f"{f.short} returns an object that shares parts with the original although inplace is False")
            for (pn, d), eff in s.pstores.items():
                # values that travel through dictionaries and setattr are rebuilt on assignment
                if pn != me and pn != "inplace" and not (isinstance(eff.src.node, ast.Call) and dotted(eff.src.node.func) == "setattr"):
                    res.add("inplace", f"{_owner(f)}.{f.name}|keeps {pn}", eff.ctx.loc(eff.node), f"{f.short} with inplace False returns an object that keeps parts of its operand {pn}: {txt(eff.node, 80)}")
                    break
            t = e.special(f, {"inplace": True})
            if not any(r == ("p", me) for (r, d, a) in t.muts):
                res.add("inplace", f"{_owner(f)}.{f.name}|no effect", f.loc(), f"{f.short} with inplace True changes nothing")
        if f.name in COPIES:
            res.count("obligations: copying functions analysed")
            s = e.special(f, {n: d.value for n, d in f.defaults().items() if isinstance(d, ast.Constant) and isinstance(d.value, bool)})
            sh = {x for x in s.ret.sh if x[0][0] == "p" and x[1] == 0 and x[0][1] in f.positional[:1]}
            dp = {x for x in s.ret.all if x[0][0] == "p" and x[0][1] in f.positional[:1]}
            if sh:
                res.add("copy", f"{_owner(f)}.{f.name}|self", f.loc(), f"{f.short} returns the object itself")
            elif dp and not _element_copies(f):
                res.add("copy", f"{_owner(f)}.{f.name}|parts", f.loc(), f"{f.short} returns an object that shares parts with the original")


def _takes_list(f):
    """sort_x(inplace=False) returns a list of the object's own entries in another order."""
    return f.name.startswith("sort")


def _leaves(x):
    return _leaves(x.body) + _leaves(x.orelse) if isinstance(x, ast.IfExp) else [x]


def _deep(x):
    if isinstance(x, ast.Constant):
        return True
    if isinstance(x, ast.Call):
        if (dotted(x.func) or "").split(".")[-1] == "deepcopy":
            return True
        return any(k.arg == "deep" and isinstance(k.value, ast.Constant) and k.value.value is True for k in x.keywords)
    return False


def _delegates(f, n):
    """Does the copying function hand the work to its sibling?"""
    for k in walk_own(f.node):
        if isinstance(k, ast.Call):
            d = (dotted(k.func) or "")
            if d.split(".")[-1] in ({"copy"} if n == "copy" else {"__deepcopy__", "deepcopy"}) and not d.startswith("copy."):
                return True
            if n == "__deepcopy__" and d in ("copy.deepcopy",):
                return True
    return False


def _element_copies(f):
    """The elements are copied one by one before they are stored, here or in the sibling it delegates to."""
    for g in [f] + [f.cls.find_method(n) for n in ("__deepcopy__", "copy") if f.cls.find_method(n) is not None and _delegates(f, n)]:
        for n in walk_own(g.node):
            if isinstance(n, ast.For) and any(isinstance(k, ast.Attribute) and k.attr == "__dict__" or isinstance(k, ast.Call) and dotted(k.func) == "vars" for k in ast.walk(n.iter)):
                # values of any type: only a deep copy separates them
                stored = [k.args[2] for k in ast.walk(n) if isinstance(k, ast.Call) and dotted(k.func) == "setattr" and len(k.args) == 3]
                stored += [k.value for k in ast.walk(n) if isinstance(k, ast.Assign) and isinstance(k.targets[0], ast.Subscript)]
                if not all(_deep(x) for v in stored for x in _leaves(v)):
                    return False
            if isinstance(n, (ast.For, ast.DictComp, ast.ListComp)):
                for k in ast.walk(n):
                    if isinstance(k, ast.Call) and (isinstance(k.func, ast.Attribute) and k.func.attr in ("copy", "deepcopy", "__deepcopy__") or isinstance(k.func, ast.Name) and k.func.id in ("deepcopy", "copy")):
                        return True
    return False


COPY_BAD = '''
class Box:
    def __init__(self):
        self.items_ = []
    def merge(self, other, inplace=True):
        self.items_.extend(other.items_)
        if not inplace:
            return self
    def sort(self, inplace=True):
        if not inplace:
            return sorted(self.items_)
    def copy(self):
        b = Box()
        b.items_ = self.items_
        return b
'''
COPY_OK = '''
import copy
class Box:
    def __init__(self):
        self.items_ = []
    def merge(self, other, inplace=True):
        target = self if inplace else self.copy()
        if inplace:
            self.items_.extend(other.items_)
            return None
        target.items_.extend(copy.deepcopy(other.items_))
        return target
    def copy(self):
        return copy.deepcopy(self)
    def __copy__(self):
        b = Box()
        for x in self.items_:
            b.items_.append(x.copy())
        return b
'''


def check_copies(p, tier):
    res = Result("C15", "side-effect summaries specialised to inplace=False show no mutation of any operand and no return of the object itself, specialised to inplace=True show an effect; "
                 "the value a copying function returns has no alias into the original")
    copy_rule(p, res)
    must_fire(res, "inplace", copy_rule, COPY_BAD, 3)
    must_fire(res, "copy", copy_rule, COPY_BAD, 1)
    must_not_fire(res, copy_rule, COPY_OK)
    _CACHE.clear()
    res.floors = {"obligations: inplace switches analysed": 6, "obligations: copying functions analysed": 6}
    return res


CHECKS = {"C12": check_observers, "C13": check_arguments, "C14": check_shared, "C15": check_copies}
