"""What installed libraries define, read from their source or stub files (never imported)."""
import ast
import glob
import os

STDLIB = os.path.dirname(os.__file__)
SITE = sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + [STDLIB]
_files, _names = {}, {}


def find(mod):
    """Source file of a module (stub first), or None."""
    if mod in _files:
        return _files[mod]
    rel = mod.replace(".", "/")
    out = None
    for d in SITE:
        for s in (rel + "/__init__.pyi", rel + ".pyi", rel + "/__init__.py", rel + ".py"):
            if os.path.isfile(os.path.join(d, s)):
                out = os.path.join(d, s)
                break
        if out:
            break
    _files[mod] = out
    return out


def names(mod, depth=0):
    """Every name a module may define at its top level, or None when that cannot be told."""
    if mod in _names:
        return _names[mod]
    _names[mod] = None
    fn = find(mod)
    if fn is None or depth > 8:
        return None
    out = set()
    files = [fn]
    if fn.endswith(".pyi") and os.path.isfile(fn[:-1]):
        files.append(fn[:-1])
    for path in files:
        try:
            tree = ast.parse(open(path, encoding="utf-8", errors="replace").read())
        except SyntaxError:
            return None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name != "*":
                        out.add(a.asname or a.name)
                        continue
                    base = mod if path.endswith(("/__init__.py", "/__init__.pyi")) else mod.rpartition(".")[0]
                    if n.level:
                        for _ in range(n.level - 1):
                            base = base.rpartition(".")[0]
                        src = base + ("." + n.module if n.module else "")
                    else:
                        src = n.module
                    sub = names(src, depth + 1)
                    if sub is None:
                        return None
                    out |= sub
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars", "exec", "attach", "attach_stub"):
                return None
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("attach", "attach_stub", "setattr"):
                return None
            elif isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "modules":
                return None
        if "__getattr__" in out:
            return None
    if fn.endswith(("__init__.py", "__init__.pyi")):
        for x in os.listdir(os.path.dirname(fn)):
            out.add(x.split(".")[0])
    out |= {"__name__", "__doc__", "__file__", "__path__", "__version__", "__all__", "__dict__"}
    _names[mod] = out
    return out


def missing(dotted):
    """True when the parent of this dotted name is a library module that certainly does not define it."""
    mod, _, last = dotted.rpartition(".")
    if not mod or find(mod) is None:
        return False
    have = names(mod)
    return have is not None and last not in have


def _define(mod, name, depth=0):
    """The class or function definition a library module gives a name, and its module."""
    fn = find(mod)
    if fn is None or depth > 6:
        return None
    key = ("tree", fn)
    if key not in _files:
        try:
            with open(fn, encoding="utf-8", errors="replace") as fid:
                _files[key] = ast.parse(fid.read())
        except SyntaxError:
            _files[key] = None
    if _files[key] is None:
        return None
    pkg = mod if fn.endswith(("__init__.py", "__init__.pyi")) else mod.rpartition(".")[0]
    for n in _files[key].body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            return n, mod
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    base = pkg
                    for _ in range(max(0, n.level - 1)):
                        base = base.rpartition(".")[0]
                    src = (base + ("." + n.module if n.module else "")) if n.level else n.module
                    return _define(src, a.name, depth + 1) or _define(src + "." + a.name, a.name, depth + 1)
    return None


def positional(dotted):
    """Names of the positional parameters of a library class or function, in order, or None."""
    key = ("pos", dotted)
    if key not in _files:
        mod, _, name = dotted.rpartition(".")
        d = _define(mod, name) if mod else None
        out = None
        if d is not None and isinstance(d[0], ast.FunctionDef):
            out = [a.arg for a in d[0].args.posonlyargs + d[0].args.args]
        elif d is not None:
            for s in d[0].body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    out = [a.arg for a in s.args.posonlyargs + s.args.args][1:]
        _files[key] = out
    return _files[key]
