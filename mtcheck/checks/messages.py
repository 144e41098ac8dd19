"""C25: what is reported is complete, and nothing that reports or acts is written in vain.

Every message (argument of a log call, warning or raised exception, directly or through a local
variable) is compared with what fills it: placeholders, arguments, format strings. Expression
statements and exceptions that are built must do something.
"""
import ast
import builtins
import re
import string

from ..names import const_str, contexts, resolve, scope_locals, txt, walk_own
from ..project import ClassInfo, External, FuncInfo, GlobalVar, dotted
from ..report import Result
from .environment import must_fire, must_not_fire

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LEVELS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "success", "trace"}
FIELD = re.compile(r"\{\s*([A-Za-z_][\w]*)((?:\.[A-Za-z_]\w*|\[[^\]{}]*\]|\([^(){}]*\))*)\s*(![rsa])?(:[^{}]*)?\}")
PERCENT = re.compile(r"%(\(\w+\))?[-+ #0]*\d*(?:\.\d+)?[srdifgexX]")


def log_call(p, ctx, n):
    """'loguru', 'logging' or 'warn' for a call that reports something."""
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr in LEVELS:
        b = f.value
        while isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ("opt", "bind", "patch"):
            b = b.func.value
        name = (dotted(b) or "").split(".")[-1]
        if name.strip("_") not in ("logger", "log"):
            return None
        r = resolve(p, ctx, b) if isinstance(b, ast.Name) else None
        if isinstance(r, External) and r.dotted.startswith("loguru"):
            return "loguru"
        if isinstance(r, GlobalVar) and r.value is not None and "logging" in ast.dump(r.value):
            return "logging"
        return "loguru" if any(isinstance(x, ast.ImportFrom) and x.module == "loguru" for m in p.modules.values() for x in m.tree.body) else "logging"
    if isinstance(f, (ast.Name, ast.Attribute)) and (dotted(f) or "").split(".")[-1] == "warn":
        r = resolve(p, ctx, f)
        if isinstance(r, External) and r.dotted == "warnings.warn":
            return "warn"
    return None


def is_exception(p, ctx, f):
    if not isinstance(f, (ast.Name, ast.Attribute)):
        return False
    r = resolve(p, ctx, f)
    if isinstance(r, ClassInfo):
        return any(isinstance(b, External) and isinstance(getattr(builtins, b.dotted.split(".")[-1], None), type) and issubclass(getattr(builtins, b.dotted.split(".")[-1]), BaseException) for b in r.mro())
    n = (r.dotted if isinstance(r, External) else dotted(f) or "").split(".")[-1]
    t = getattr(builtins, n, None)
    return isinstance(t, type) and issubclass(t, BaseException)


def texts(f, e, depth=0, at=None):
    """String constants a message is made of, with those already formatted left out."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        yield e
    elif isinstance(e, ast.JoinedStr):
        for v in e.values:
            if isinstance(v, ast.Constant):
                v.inside_f = True
                yield v
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        yield from texts(f, e.left, depth, at)
        yield from texts(f, e.right, depth, at)
    elif isinstance(e, ast.IfExp):
        yield from texts(f, e.body, depth, at)
        yield from texts(f, e.orelse, depth, at)
    elif isinstance(e, ast.Name) and depth < 3 and isinstance(f, FuncInfo):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) or isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                if not _refilled(f, e.id):
                    yield from texts(f, n.value, depth + 1, at)


def _refilled(f, name):
    """The variable is formatted later: msg.format(...), msg % ..."""
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "format_map", "replace") and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Name) and n.left.id == name:
            return True
    return False


def _template(f, name):
    """Every value of the variable is a constant text with placeholders, which the function fills where it shows it."""
    vals = [n.value for n in walk_own(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and any(isinstance(x, ast.Name) and x.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t))]
    stores = sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
    if not vals or stores != len(vals) or any(isinstance(n, ast.arg) and n.arg == name for n in ast.walk(f.node)):
        return False
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("format_map", "replace") and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return False
    return all(isinstance(v, ast.Constant) and isinstance(v.value, str) and (re.search(r"\{\d*(:[^{}]*)?\}", v.value) or PERCENT.search(v.value)) for v in vals)


def known_name(p, ctx, name):
    f = ctx
    while isinstance(f, FuncInfo):
        if name in scope_locals(f):
            return True
        f = f.parent
    return p.resolve_name(ctx.module, name) is not None or hasattr(builtins, name)


def fields(text):
    """(number of positional fields, names) of a format string, or None when malformed."""
    try:
        auto, names, top = 0, set(), -1
        for _, fld, spec, _ in string.Formatter().parse(text):
            for x in [fld] + [s[1] for s in (string.Formatter().parse(spec) if spec else [])]:
                if x is None:
                    continue
                head = re.split(r"[.\[]", x)[0]
                if head == "":
                    auto += 1
                elif head.isdigit():
                    top = max(top, int(head))
                else:
                    names.add(head)
        return max(auto, top + 1), names
    except ValueError:
        return None


def _messages(p, res):
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if not isinstance(n, ast.Call):
                continue
            kind = log_call(p, ctx, n)
            exc = kind is None and is_exception(p, ctx, n.func)
            if not kind and not exc or not n.args:
                continue
            res.count("obligations: messages that must be complete")
            filled = kind in ("loguru", "logging") and (len(n.args) > 1 or any(k.arg not in ("exc_info", "stack_info", "stacklevel", "extra") for k in n.keywords))
            first = n.args[0]
            parts = list(texts(ctx, first))
            whole = "".join(x.value for x in parts)
            what = "exception" if exc else "log message" if kind != "warn" else "warning"
            key = f"{ctx.short}:{txt(first, 50)}"
            if exc and len(n.args) > 1 and (PERCENT.search(whole) or "{}" in whole):
                res.add("unfilled", key, ctx.loc(n), f"the {what} {txt(first, 70)!r} has placeholders, but its arguments are never put into it")
                continue
            if kind == "loguru" and filled and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
                if isinstance(first, ast.Constant) or isinstance(first, ast.Name) and len(parts) == 1:
                    fl = fields(whole)
                    if fl is not None:
                        if PERCENT.search(whole) and fl[0] == 0 and not fl[1]:
                            res.add("unfilled", key, ctx.loc(n), f"{txt(first, 70)!r} is logged with %-placeholders, which this logger does not fill: the values never appear")
                        elif fl[0] > len(n.args) - 1 or fl[1] - {k.arg for k in n.keywords}:
                            res.add("unfilled", key, ctx.loc(n), f"the {what} {txt(first, 70)!r} has more placeholders than values")
                        elif fl[0] < len(n.args) - 1:
                            res.add("value-not-shown", key, ctx.loc(n), f"the {what} {txt(first, 70)!r} does not show every value it is given")
                elif isinstance(first, ast.JoinedStr) and len(n.args) > 1:
                    fl = fields(whole)
                    if fl is not None and fl[0] < len(n.args) - 1:
                        res.add("value-not-shown", key, ctx.loc(n), f"the {what} {txt(first, 70)!r} does not show every value it is given")
                continue
            if kind == "logging" and filled:
                k = len(PERCENT.findall(whole))
                if isinstance(first, ast.Constant) and k != len(n.args) - 1 and "%(" not in whole and not any(isinstance(a, ast.Starred) for a in n.args):
                    res.add("unfilled", key, ctx.loc(n), f"{txt(first, 70)!r} has {k} placeholders for {len(n.args) - 1} values")
                continue
            if isinstance(first, ast.Name) and not parts and isinstance(ctx, FuncInfo) and _template(ctx, first.id):
                res.add("unfilled", key, ctx.loc(n), f"{first.id} is a template that is filled elsewhere, but this {what} shows it as it is")
                continue
            for c in parts:
                for m in FIELD.finditer(c.value):
                    if known_name(p, ctx, m.group(1)):
                        res.add("unfilled", f"{ctx.short}:{m.group(0)}", ctx.loc(c), f"the {what} shows the text {m.group(0)!r} instead of the value: the string is not a format string there")
                        break
                else:
                    if "{}" in c.value and not getattr(c, "inside_f", False) and not re.search(r"[\w(]\{\}|\{\}[)\]]", c.value):
                        res.add("unfilled", f"{ctx.short}:{c.value[:40]}", ctx.loc(n), f"the {what} {c.value[:60]!r} shows an empty placeholder")


def _formats(p, res):
    """str.format and % against their arguments, wherever they are."""
    for ctx in contexts(p):
        for n in walk_own(ctx.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                fl = fields(n.func.value.value)
                res.count("obligations: format strings")
                key = f"{ctx.short}:{txt(n.func.value, 50)}"
                if fl is None:
                    res.add("unfilled", key, ctx.loc(n), f"{txt(n.func.value, 60)} is no valid format string")
                elif fl[0] > len(n.args) or fl[1] - {k.arg for k in n.keywords}:
                    res.add("unfilled", key, ctx.loc(n), f"{txt(n.func.value, 60)} has more placeholders than values")
                elif fl[0] < len(n.args) or {k.arg for k in n.keywords} - fl[1]:
                    res.add("value-not-shown", key, ctx.loc(n), f"{txt(n.func.value, 60)} does not use every value it is given")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                res.count("obligations: format strings")
                k = len(PERCENT.findall(n.left.value.replace("%%", "")))
                if k != len(n.right.elts) and "*" not in n.left.value:
                    res.add("unfilled", f"{ctx.short}:{txt(n.left, 50)}", ctx.loc(n), f"{txt(n.left, 60)} has {k} placeholders for {len(n.right.elts)} values")


def _in_vain(p, res):
    """Expressions, exceptions and messages that are built and then dropped."""
    for ctx in contexts(p):
        body = ctx.node
        for n in walk_own(body):
            if isinstance(n, ast.Expr):
                e = n.value
                res.count("obligations: expression statements")
                if isinstance(e, ast.Call) and is_exception(p, ctx, e.func):
                    res.add("not-raised", f"{ctx.short}:{txt(e, 50)}", ctx.loc(n), f"{txt(e, 70)} is built but never raised: the problem passes unnoticed")
                elif isinstance(e, (ast.Compare, ast.BinOp)) and _means_something(e):
                    res.add("no-effect", f"{ctx.short}:{txt(e, 50)}", ctx.loc(n), f"the result of {txt(e, 70)} is dropped: the statement does nothing")
                elif isinstance(e, ast.Attribute) and not _does_something(p, e.attr):
                    res.add("no-effect", f"{ctx.short}:{txt(e, 50)}", ctx.loc(n), f"{txt(e, 70)} is neither called nor kept: the statement does nothing")
                elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in RETURNS_NEW and _text_like(p, ctx, e):
                    res.add("no-effect", f"{ctx.short}:{txt(e, 50)}", ctx.loc(n), f"{txt(e, 70)} gives a new value, which is dropped: the statement does nothing")
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Name) and n.exc.id == "NotImplemented":
                res.add("not-raised", f"{ctx.short}:NotImplemented", ctx.loc(n), "NotImplemented is no exception")
        if isinstance(ctx, FuncInfo):
            for n in walk_own(body):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.JoinedStr, ast.Constant, ast.BinOp)):
                    v, nm = n.value, n.targets[0].id
                    if isinstance(v, ast.Constant) and not isinstance(v.value, str) or isinstance(v, ast.BinOp) and not any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (v.left, v.right)):
                        continue
                    if isinstance(v, ast.Constant) and not re.search(r"msg|mess|warn|err|text", nm):
                        continue
                    res.count("obligations: texts put in variables")
                    if not any(isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Store) for x in ast.walk(body)) and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and nm in x.names for x in ast.walk(body)) \
                            and not any(isinstance(x, ast.Call) and dotted(x.func) in ("locals", "vars") for x in ast.walk(body)) and nm != "_":
                        res.add("never-shown", f"{ctx.short}:{nm}", ctx.loc(n), f"the text {nm} is put together but never used: what it reports is never seen")


def _worked_out(p, res):
    """Results that nothing ever reads, because no name they are given is used, or because they are replaced first."""
    for ctx in contexts(p):
        if not isinstance(ctx, FuncInfo) or not isinstance(ctx.node.body, list):
            continue
        fn = ctx.node
        loads = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}
        outer = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        if any(isinstance(n, ast.Call) and dotted(n.func) in ("locals", "vars", "exec", "eval") for n in ast.walk(fn)):
            continue
        for n in walk_own(fn):
            if not isinstance(n, ast.Assign):
                continue
            parts = [x for t in n.targets for x in ast.walk(t)]
            names = [x.id for x in parts if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            if not names or any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in parts) or all(x.startswith("_") for x in names):
                continue
            res.count("obligations: results given to local names")
            if not set(names) & (loads | outer) and _result(p, n.value):
                res.add("never-used", f"{ctx.short}:{','.join(names)}", ctx.loc(n), f"{txt(n, 80)}: the result is worked out, but nothing reads {' or '.join(names)}")
        for b in [fn] + [x for x in walk_own(fn) if not isinstance(x, FN + (ast.ClassDef, ast.Lambda))]:
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(b, fld, None), list):
                    _replaced(ctx, getattr(b, fld), res)


def _result(p, v):
    """The expression is there for its value: arithmetic on something, or a call of functions that only work something out."""
    if isinstance(v, ast.BinOp):
        return any(isinstance(x, ast.Name) for x in ast.walk(v)) and not any(isinstance(x, ast.Constant) and x.value in (0, 1, "") for x in (v.left, v.right))
    if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
        nm = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id
        fs = p.methods_named(nm) if isinstance(v.func, ast.Attribute) else [f for f in p.functions if f.name == nm and f.cls is None]
        return bool(fs) and all(_only_computes(f.node) for f in fs)
    return False


def _only_computes(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(n, (ast.Global, ast.Nonlocal, ast.Delete, ast.Yield, ast.Await)):
            return False
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "abs", "float", "int", "str", "isinstance", "sorted", "list", "dict", "range", "zip", "enumerate", "min", "max", "sum", "round", "type")
                                            or (dotted(n.func) or "").startswith(("np.", "numpy.", "math.", "logger.")) or is_error_name(n.func)
                                            or isinstance(n.func, ast.Attribute) and n.func.attr in RETURNS_NEW):
            return False
    return any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fn))


def is_error_name(f):
    return (dotted(f) or "").endswith(("Error", "Exception"))


def _place(e):
    return ast.dump(e).replace("Store()", "Load()")


def _replaced(ctx, block, res):
    for i, s in enumerate(block):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute, ast.Subscript))):
            continue
        if not any(isinstance(x, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript)) for x in ast.walk(s.value)):
            continue
        d = _place(s.targets[0])
        local = isinstance(s.targets[0], ast.Name)
        root = s.targets[0]
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        if not isinstance(root, ast.Name) or any(isinstance(x, ast.Call) for x in ast.walk(s.targets[0])):
            continue
        res.count("obligations: results that must be read before they are replaced")
        for q in block[i + 1:]:
            if not isinstance(q, (ast.Assign, ast.Expr)):
                break
            same = isinstance(q, ast.Assign) and len(q.targets) == 1 and _place(q.targets[0]) == d
            reads = any(isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load) and _place(x) == d for x in ast.walk(q.value if same else q))
            if same and not reads and ast.dump(q.value) != ast.dump(s.value) and (local or not _may_read(q.value)):
                res.add("replaced-unread", f"{ctx.short}:{txt(s, 60)}", ctx.loc(s), f"the result of {txt(s, 80)} is replaced by {txt(q, 60)} before anything reads it")
                break
            if same or reads or (not local and _may_read(q)) or any(isinstance(x, ast.Name) and x.id == root.id and isinstance(x.ctx, ast.Store) for x in ast.walk(q)) or any(isinstance(x, (ast.Lambda, ast.Yield, ast.Await)) for x in ast.walk(q)):
                break


def _may_read(q):
    return any(isinstance(x, ast.Call) for x in ast.walk(q))


def _means_something(e):
    """Not a statement that plainly does nothing (constants, a thing compared with itself), nor an operator libraries overload for effect."""
    if isinstance(e, ast.BinOp):
        return not isinstance(e.op, (ast.RShift, ast.LShift, ast.BitOr)) and any(isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)) for n in ast.walk(e))
    return any(isinstance(n, (ast.Name, ast.Attribute)) for n in ast.walk(e)) and any(ast.dump(e.left) != ast.dump(c) for c in e.comparators)


RETURNS_NEW = {"replace", "strip", "lower", "upper", "lstrip", "rstrip", "title", "split", "capitalize", "format", "join", "union", "intersection", "astype", "copy", "model_copy", "conjugate", "conj"}


def _text_like(p, ctx, e):
    """The method is the one of str, set or array: no class of the project defines one of that name with effects."""
    head = e.func.value
    while isinstance(head, (ast.Attribute, ast.Call, ast.Subscript)):
        head = head.func if isinstance(head, ast.Call) else head.value
    if isinstance(head, ast.Name) and not (isinstance(ctx, FuncInfo) and head.id in scope_locals(ctx)):
        return False
    ms = p.methods_named(e.func.attr)
    return not ms


def _does_something(p, attr):
    """Reading the attribute may run code with an effect: some property of that name in the project, or imports."""
    return any(m.is_property for m in p.methods_named(attr)) or attr.startswith("__")


def _all(p, res):
    _messages(p, res)
    _formats(p, res)
    _in_vain(p, res)
    _worked_out(p, res)


_all.keep = "raw"

BAD = '''
from loguru import logger
def a(name, n):
    msg = "could not find {name}"
    logger.error(msg)
    raise KeyError("nothing at {n}")
def d(name):
    text = "lost {0}"
    logger.error(text.format(name))
    raise KeyError(text)
def b(name):
    logger.warning("lost %s", name)
    logger.warning("lost {} of {}", name)
    logger.warning("lost it", name)
    raise ValueError("bad value %s", name)
class T:
    def split(self, a, b):
        if a is None:
            raise ValueError(f"no {b}")
        return a * b, a / b
    def spread(self, a, b):
        u, v = self.split(a, b)
        w = a * b
        c = a / b
        c = a - b
        self.z = a * b
        self.z = a / b
        return c + a
def c(x, name):
    if x is None:
        ValueError(f"no {name}")
    x.value == 3
    x.close
    name.strip()
    msg = f"done {name}"
    return "{0} {1}".format(name)
'''
GOOD = '''
from loguru import logger
import logging
log = logging.getLogger(__name__)
def a(name, n):
    msg = "could not find {name}"
    logger.error(msg.format(name=name))
    raise KeyError(f"nothing at {n}")
def b(name, d):
    logger.warning("lost {}", name)
    log.warning("lost %s", name)
    logger.warning(f"lost {name} {{}}")
    logger.warning("use {other} there")
    raise ValueError("bad value %s" % name, d)
class T:
    def split(self, a, b):
        return a * b, a / b
    def keep(self, a):
        self.last = a
        return a
    def spread(self, a, b):
        u, v = self.split(a, b)
        _w = a * b
        noop = a + 0
        kept = self.keep(a)
        ax = a.twinx()
        c = a / b
        c = c - b
        self.z = a * b
        self.z += 1
        self.y = a * b
        b.plot(self)
        self.y = a / b
        return c + v
def c(x, name):
    """Text."""
    if x is None:
        raise ValueError("no " + name)
    x.close()
    name = name.strip()
    msg = f"done {name}"
    logger.info(msg)
    return "{0} {1}".format(name, x)
'''


def c25(p, tier):
    res = Result("C25", "every message is filled with the values it announces, every value given to a message is shown, every exception built is raised, no text or expression statement is without effect")
    _all(p, res)
    for rule, n in (("unfilled", 7), ("value-not-shown", 1), ("not-raised", 1), ("no-effect", 3), ("never-shown", 1), ("never-used", 2), ("replaced-unread", 2)):
        must_fire(res, rule, _all, BAD, n)
    must_not_fire(res, _all, GOOD)
    res.floors = {"obligations: messages that must be complete": 300, "obligations: expression statements": 500}
    res.assumptions = ["a logger named logger comes from loguru, as set up by the package, unless it is made with logging.getLogger"]
    return res


c25.keep = "raw"
CHECKS = {"C25": c25}
