"""Who-may-call rules over resolved names: code execution, encodings, time
zone, process-global state, interrupts, assertion stripping, file handles."""
from __future__ import annotations

import ast

from ..project import ClassInfo, External, FuncInfo, GlobalVar, Module, Project, AnalysisBroken, dotted
from ..names import (FN, ModBody, const_str, contexts, ext_name, kwarg, resolve, scope_locals, single_assign, txt, walk_own)
from ..report import Result


def sample_project(body, fn=None, name="mt_metadata/sample.py"):
    return Project(sources={"mt_metadata/__init__.py": "", name: body}, keep=getattr(fn, "keep", None))


def must_fire(res, rule, fn, source, n=1):
    """Positive self-test: the rule must report at least n findings on source."""
    r = Result(res.prop, "")
    fn(sample_project(source, fn), r)
    got = [f for f in r.findings if f.rule == rule]
    if len(got) < n:
        res.broken.append(f"self-test: rule {rule} found {len(got)} of {n} planted samples")
    res.count("self-test samples recognised", len(got))


def must_not_fire(res, fn, source):
    r = Result(res.prop, "")
    fn(sample_project(source, fn), r)
    if r.findings:
        res.broken.append(f"self-test: accepted idiom reported: {r.findings[0].message}")
    res.count("self-test accepted idioms", 1)


def calls_in(ctx):
    for n in walk_own(ctx.node):
        if isinstance(n, ast.Call):
            yield n


# --------------------------------------------------------------------------
# code execution
# --------------------------------------------------------------------------
EXEC_EXACT = {
    "builtins.eval", "builtins.exec", "builtins.compile", "os.system", "os.popen",
    "yaml.load", "yaml.unsafe_load", "yaml.full_load", "yaml.load_all", "pandas.read_pickle", "pandas.eval",
    "code.interact", "runpy.run_path", "runpy.run_module", "numexpr.evaluate",
    "sympy.sympify", "sympy.parse_expr", "joblib.load", "torch.load", "commands.getoutput",
    "timeit.timeit", "ast.compile", "pydoc.locate", "ctypes.CDLL", "ctypes.cdll.LoadLibrary",
    "pandas.io.pickle.read_pickle", "numpy.lib.npyio.load_pickle",
}
EXEC_PREFIX = ("pickle.", "_pickle.", "cPickle.", "marshal.", "shelve.", "dill.", "cloudpickle.", "jsonpickle.",
               "subprocess.", "os.exec", "os.spawn", "pty.", "pandas.HDFStore", "multiprocessing.")
EXEC_OK = {"pickle.HIGHEST_PROTOCOL", "pickle.PicklingError", "pickle.UnpicklingError", "pickle.dumps", "pickle.dump", "marshal.dumps",
           "multiprocessing.cpu_count", "subprocess.CalledProcessError", "subprocess.PIPE"}


def _own_package_name(p, ctx, e):
    """A computed module name that can only denote a module of this package."""
    if isinstance(e, ast.Name) and isinstance(ctx, FuncInfo):
        v = single_assign(ctx, e.id)
        return v is not None and _own_package_name(p, ctx, v)
    if isinstance(e, ast.JoinedStr) and e.values:
        v = e.values[0]
        return isinstance(v, ast.Constant) and str(v.value).startswith("mt_metadata.")
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
        left = e.left
        while isinstance(left, ast.BinOp):
            left = left.left
        v = const_of(p, ctx, left)
        return isinstance(v, str) and v.startswith("mt_metadata.")
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
        v = const_of(p, ctx, e.func.value)
        return isinstance(v, str) and v.startswith("mt_metadata.")
    return False


def _exec_rule(p, res):
    for ctx in contexts(p):
        res.count("code contexts")
        nodes = walk_own(ctx.node)
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = ext_name(resolve(p, ctx, n))
                if d is None:
                    continue
                res.count("external references resolved")
                if d in EXEC_OK:
                    continue
                if d in EXEC_EXACT or d.startswith(EXEC_PREFIX):
                    res.add("code-execution", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} refers to {d}, which executes or deserialises code")
            if isinstance(n, ast.Call):
                res.count("obligations: call sites")
                e = resolve(p, ctx, n)
                d = ext_name(e)
                if d and (d in EXEC_EXACT or d.startswith(EXEC_PREFIX)) and d not in EXEC_OK:
                    res.add("code-execution", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} reaches {d} through {txt(n)}")
                fd = ext_name(resolve(p, ctx, n.func))
                if fd in ("builtins.__import__", "importlib.import_module") and n.args and not isinstance(n.args[0], ast.Constant) and not _own_package_name(p, ctx, n.args[0]):
                    res.add("dynamic-import", f"{ctx.short}|{fd}", ctx.loc(n), f"{ctx.short} imports a module whose name is computed: {txt(n)}")
                ap = kwarg(n, "allow_pickle")
                if ap is not None and not (isinstance(ap, ast.Constant) and ap.value is False):
                    res.add("code-execution", f"{ctx.short}|allow_pickle", ctx.loc(n), f"{ctx.short} enables pickle loading: {txt(n)}")
                if fd and fd.split(".")[-1] in ("eval", "exec") and fd.startswith("builtins"):
                    pass
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("eval", "query") and not isinstance(resolve(p, ctx, n.func), (FuncInfo,)):
                    a = n.args[0] if n.args else kwarg(n, "expr")
                    if a is not None and not isinstance(a, ast.Constant) and not isinstance(resolve(p, ctx, n.func.value), (Module, ClassInfo)):
                        res.add("code-execution", f"{ctx.short}|.{n.func.attr}", ctx.loc(n), f"{ctx.short} evaluates a computed expression: {txt(n)}")
            if isinstance(n, ast.Subscript):
                # __builtins__["eval"], globals()["x"]
                if isinstance(n.value, ast.Name) and n.value.id == "__builtins__" and const_str(n.slice) in ("eval", "exec", "compile"):
                    res.add("code-execution", f"{ctx.short}|__builtins__", ctx.loc(n), f"{ctx.short} takes {const_str(n.slice)} from __builtins__")


def check_exec(p, tier):
    res = Result("C01", "no resolved reference anywhere in the package denotes a code-evaluating or code-deserialising primitive "
                 "(eval/exec/compile, pickle family, yaml.load, subprocess/os.system, computed imports, allow_pickle, DataFrame.eval/query of computed text)")
    _exec_rule(p, res)
    must_fire(res, "code-execution", _exec_rule, "import numpy as np\nimport pickle as pk\ndef f(s):\n    g = eval\n    return g(s)\ndef h(b):\n    return pk.loads(b)\n"
              "def k(fn):\n    return np.load(fn, allow_pickle=True)\ndef m(s):\n    import builtins\n    return getattr(builtins, 'exec')(s)\ndef q(df, s):\n    return df.query(s)\n", 5)
    must_not_fire(res, _exec_rule, "import ast, json, re, importlib\ndef imp(m):\n    return importlib.import_module(f'mt_metadata.{m}')\ndef f(s):\n    c = re.compile('a')\n    return ast.literal_eval(s), json.loads(s)\n")
    res.floors = {"code contexts": 900, "obligations: call sites": 4000}
    return res


# --------------------------------------------------------------------------
# text encoding
# --------------------------------------------------------------------------
OPEN_LIKE = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open"}
PIN = {"utf-8", "utf8", "utf-8-sig", "utf_8", "ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1", "cp1252", "utf_8_sig"}


def pathlike(p, ctx, e):
    """Best-effort: does expression e denote a filesystem path object?"""
    return True


def open_calls(p, ctx):
    """(call, mode expr or None, encoding expr or None, kind) for calls that open text/binary files."""
    for n in calls_in(ctx):
        ent = resolve(p, ctx, n.func)
        d = ext_name(ent)
        if d in OPEN_LIKE:
            pos = n.args
            mode = kwarg(n, "mode") or (pos[1] if len(pos) > 1 else None)
            i = 2 if d == "codecs.open" else 3
            enc = kwarg(n, "encoding") or (pos[i] if len(pos) > i else None)
            yield n, mode, enc, "open" if d in ("builtins.open", "io.open") else d
        elif d in ("os.fdopen", "io.TextIOWrapper", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
            yield n, kwarg(n, "mode") or (n.args[1] if len(n.args) > 1 and d == "os.fdopen" else None), kwarg(n, "encoding"), d
        elif isinstance(n.func, ast.Attribute) and n.func.attr in ("open", "read_text", "write_text") and not isinstance(ent, (FuncInfo, ClassInfo)) and not d:
            a = n.func.attr
            pos = n.args
            if a == "open":
                mode = kwarg(n, "mode") or (pos[0] if pos else None)
                enc = kwarg(n, "encoding") or (pos[2] if len(pos) > 2 else None)
                yield n, mode, enc, "Path.open"
            elif a == "read_text":
                yield n, ast.Constant("r"), kwarg(n, "encoding") or (pos[0] if pos else None), "Path.read_text"
            else:
                yield n, ast.Constant("w"), kwarg(n, "encoding") or (pos[1] if len(pos) > 1 else None), "Path.write_text"


def const_of(p, ctx, e, depth=0):
    """Constant value of e, following one-shot locals, module constants and parameter defaults."""
    if e is None or depth > 5:
        return None
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if isinstance(ctx, FuncInfo) and e.id in scope_locals(ctx):
            if e.id in ctx.params:
                d = ctx.defaults().get(e.id)
                return const_of(p, ctx, d, depth + 1)
            return const_of(p, ctx, single_assign(ctx, e.id), depth + 1)
        g = p.lookup(ctx if isinstance(ctx, FuncInfo) else ctx.module, e.id)
        if isinstance(g, GlobalVar):
            return const_of(p, ModBody(g.module), g.value, depth + 1)
    if isinstance(e, ast.Attribute):
        g = resolve(p, ctx, e)
        if isinstance(g, GlobalVar):
            return const_of(p, ModBody(g.module), g.value, depth + 1)
        if isinstance(e.value, ast.Name) and isinstance(ctx, FuncInfo) and ctx.cls is not None and ctx.positional and e.value.id == ctx.positional[0]:
            ca = ctx.cls.find_class_attr(e.attr)
            if ca:
                return const_of(p, ModBody(ca[0].module), ca[1], depth + 1)
    return None


def _encoding_rule(p, res):
    for ctx in contexts(p):
        for n, mode, enc, kind in open_calls(p, ctx):
            m = const_of(p, ctx, mode) if mode is not None else ("rb" if kind in ("gzip.open", "bz2.open", "lzma.open") else "w+b" if kind.startswith("tempfile") else "r")
            if m is not None and "b" in str(m):
                res.count("binary opens")
                continue
            if kind == "codecs.open" and enc is None:
                continue
            res.count("obligations: text-mode opens")
            v = const_of(p, ctx, enc) if enc is not None else None
            if isinstance(v, str) and v.lower() in PIN:
                res.sample(f"{ctx.loc(n)} {ctx.short}: {kind} encoding={v}")
                continue
            why = "no encoding given" if enc is None else f"encoding {txt(enc)} is not a fixed codec"
            res.add("locale-encoding", f"{ctx.short}|{kind}:{m or '?'}", ctx.loc(n), f"{ctx.short} opens a text file with the host's locale encoding ({why}): {txt(n)}")
        for n in walk_own(ctx.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = ext_name(resolve(p, ctx, n))
                if d in ("locale.getpreferredencoding", "locale.getencoding", "sys.getfilesystemencoding", "locale.getlocale", "locale.getdefaultlocale", "sys.getdefaultencoding", "locale.nl_langinfo"):
                    res.add("locale-encoding", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} consults the host locale through {d}")
            if isinstance(n, ast.Call):
                d = ext_name(resolve(p, ctx, n.func)) or ""
                if d in ("numpy.loadtxt", "numpy.genfromtxt", "numpy.savetxt"):
                    res.count("obligations: text-mode opens")
                    e = kwarg(n, "encoding")
                    if not (isinstance(e, ast.Constant) and str(e.value).lower() in PIN) and d != "numpy.loadtxt":
                        pass
                e = kwarg(n, "encoding")
                if e is not None and isinstance(e, ast.Constant) and e.value in ("locale",):
                    res.add("locale-encoding", f"{ctx.short}|encoding=locale", ctx.loc(n), f"{ctx.short} asks for the locale encoding: {txt(n)}")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("encode", "decode") and n.args:
                    v = const_of(p, ctx, n.args[0])
                    if not (isinstance(v, str)):
                        r = resolve(p, ctx, n.func)
                        if not isinstance(r, (FuncInfo, External)):
                            res.add("locale-encoding", f"{ctx.short}|.{n.func.attr}", ctx.loc(n), f"{ctx.short} uses a computed codec: {txt(n)}")


def check_encoding(p, tier):
    res = Result("C05", "every text-mode open/read_text/write_text in the package names a fixed codec; nothing consults the host locale for one")
    _encoding_rule(p, res)
    must_fire(res, "locale-encoding", _encoding_rule, "from pathlib import Path\nimport io\ndef f(fn):\n    with open(fn) as a:\n        pass\ndef g(fn):\n    return Path(fn).read_text()\n"
              "def h(fn, s):\n    with Path(fn).open('w') as b:\n        b.write(s)\ndef k(fn, e=None):\n    return io.open(fn, 'w', encoding=e)\n", 4)
    must_not_fire(res, _encoding_rule, "ENC = 'utf-8'\ndef f(fn, m='rb'):\n    with open(fn, 'rb') as a, open(fn, 'w', encoding=ENC) as b, open(fn, 'r', -1, 'utf-8') as c:\n        pass\n")
    res.floors = {"obligations: text-mode opens": 10}
    return res


# --------------------------------------------------------------------------
# local time / locale
# --------------------------------------------------------------------------
NOTZ = {  # callable -> index of the tz argument
    "datetime.datetime.now": 0, "pandas.Timestamp.now": 0, "pandas.Timestamp.today": 0,
    "datetime.datetime.fromtimestamp": 1, "pandas.Timestamp.fromtimestamp": 1,
}
LOCAL_TIME = {
    "datetime.datetime.today", "datetime.date.today", "datetime.date.fromtimestamp", "time.localtime", "time.ctime", "time.asctime",
    "time.mktime", "time.timezone", "calendar.month_name", "calendar.month_abbr", "calendar.day_name", "calendar.day_abbr", "time.tzname", "time.altzone", "time.daylight", "time.tzset",
    "dateutil.tz.tzlocal", "tzlocal.get_localzone", "locale.setlocale", "email.utils.localtime",
    "locale.atof", "locale.atoi", "locale.format_string", "locale.str", "locale.currency",
}
LOCALE_FMT = ("%c", "%x", "%X", "%b", "%B", "%a", "%A", "%p", "%h", "%r")
SECOND_ARG = {"time.strftime": 2, "dateutil.tz.gettz": 1}  # with fewer arguments they mean the host's own time / zone


def _is_std_datetime(p, ctx, e, depth=0):
    """True when e is certainly a stdlib (naive-capable) datetime."""
    if depth > 4 or e is None:
        return False
    if isinstance(e, ast.Name) and isinstance(ctx, FuncInfo) and e.id in scope_locals(ctx):
        return _is_std_datetime(p, ctx, single_assign(ctx, e.id), depth + 1)
    if isinstance(e, ast.Call):
        d = ext_name(resolve(p, ctx, e.func)) or ""
        if d in ("dateutil.parser.parse", "datetime.datetime", "datetime.datetime.strptime", "datetime.datetime.utcnow", "datetime.datetime.utcfromtimestamp", "datetime.datetime.fromisoformat", "datetime.datetime.combine", "datetime.datetime.now"):
            if any(k.arg in ("tzinfo", "tz") for k in e.keywords) or d.endswith(".now") and e.args or d == "datetime.datetime" and len(e.args) > 7:
                return False
            return True
        if isinstance(e.func, ast.Attribute):
            a, v = e.func.attr, e.func.value
            if a == "replace":
                tz = kwarg(e, "tzinfo")
                if tz is None:
                    return bool(e.keywords) and _is_std_datetime(p, ctx, v, depth + 1)
                return isinstance(tz, ast.Constant) and tz.value is None and not _is_pandas_stamp(p, ctx, v)
            if a == "to_pydatetime":
                return _drops_zone(p, ctx, v)
    return False


def _is_pandas_stamp(p, ctx, e):
    """A value not known to come from to_pydatetime()/the datetime module may be a pandas stamp, whose naive form counts as UTC."""
    if isinstance(e, ast.Name) and isinstance(ctx, FuncInfo) and e.id in scope_locals(ctx):
        e = single_assign(ctx, e.id)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("to_pydatetime", "astimezone"):
            return False
        if (ext_name(resolve(p, ctx, e.func)) or "").startswith(("datetime.datetime", "dateutil.")):
            return False
    return True


def _drops_zone(p, ctx, e):
    if isinstance(e, ast.Name) and isinstance(ctx, FuncInfo) and e.id in scope_locals(ctx):
        e = single_assign(ctx, e.id)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr in ("tz_localize", "tz_convert"):
            tz = kwarg(e, "tz") or (e.args[0] if e.args else None)
            return isinstance(tz, ast.Constant) and tz.value is None
        if e.func.attr == "replace":
            tz = kwarg(e, "tzinfo")
            return isinstance(tz, ast.Constant) and tz.value is None
    return False


def _localtime_rule(p, res):
    for ctx in contexts(p):
        nodes = walk_own(ctx.node)
        called = {id(n.func) for n in nodes if isinstance(n, ast.Call)}
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = ext_name(resolve(p, ctx, n))
                if d:
                    res.count("external references resolved")
                    if d in LOCAL_TIME:
                        res.add("host-local-time", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} uses {d}, whose result depends on the host's time zone or locale")
                    elif d in NOTZ and id(n) not in called:
                        res.add("host-local-time", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} passes {d} around without a time zone")
            if isinstance(n, ast.Call):
                d = ext_name(resolve(p, ctx, n.func))
                if d:
                    res.count("obligations: external calls")
                if d in NOTZ:
                    tz = kwarg(n, "tz") or (n.args[NOTZ[d]] if len(n.args) > NOTZ[d] else None)
                    if tz is None or (isinstance(tz, ast.Constant) and tz.value is None):
                        res.add("host-local-time", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} calls {d} without a time zone: {txt(n)}")
                if d in SECOND_ARG and len(n.args) + len(n.keywords) < SECOND_ARG[d] or d == "email.utils.formatdate" and (kwarg(n, "localtime") or n.args[1:2]):
                    res.add("host-local-time", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} calls {d} for the host's own time: {txt(n)}")
                if d == "time.strftime" and n.args:
                    v = const_of(p, ctx, n.args[0])
                    if isinstance(v, str) and any(t in v for t in LOCALE_FMT):
                        res.add("host-local-time", f"{ctx.short}|{d}:{v}", ctx.loc(n), f"{ctx.short}: date format {v!r} depends on the host's locale")
                if d in ("pandas.Timestamp", "pandas.to_datetime") and n.args and const_str(n.args[0]) in ("now", "today"):
                    tz = kwarg(n, "tz") or kwarg(n, "utc")
                    if tz is None:
                        res.add("host-local-time", f"{ctx.short}|{d}({const_str(n.args[0])})", ctx.loc(n), f"{ctx.short}: {txt(n)} is the host's local time")
                if isinstance(n.func, ast.Attribute):
                    a = n.func.attr
                    if a == "astimezone" and (not n.args and not n.keywords or (n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value is None)):
                        res.add("host-local-time", f"{ctx.short}|astimezone()", ctx.loc(n), f"{ctx.short} converts to the host's time zone: {txt(n)}")
                    if a in ("timestamp", "astimezone") and _is_std_datetime(p, ctx, n.func.value):
                        res.add("host-local-time", f"{ctx.short}|{a}", ctx.loc(n), f"{ctx.short}: a naive datetime's .{a}() is interpreted in the host's time zone: {txt(n)}")
                    if a in ("tz_localize", "tz_convert") and n.args:
                        v = n.args[0]
                        if isinstance(v, ast.Call) and (ext_name(resolve(p, ctx, v.func)) or "").endswith(("tzlocal", "get_localzone")):
                            res.add("host-local-time", f"{ctx.short}|{a}", ctx.loc(n), f"{ctx.short}: {txt(n)}")
                        if isinstance(v, ast.Constant) and isinstance(v.value, str) and v.value.startswith("dateutil/") and "local" in v.value:
                            res.add("host-local-time", f"{ctx.short}|{a}", ctx.loc(n), f"{ctx.short}: {txt(n)}")
                    if a in ("strftime", "strptime"):
                        for arg in list(n.args) + [k.value for k in n.keywords]:
                            v = const_of(p, ctx, arg)
                            if isinstance(v, str) and any(t in v for t in LOCALE_FMT):
                                res.add("host-local-time", f"{ctx.short}|{a}:{v}", ctx.loc(n), f"{ctx.short}: date format {v!r} depends on the host's locale")
            if isinstance(n, (ast.FormattedValue,)) and n.format_spec is not None:
                spec = "".join(v.value for v in n.format_spec.values if isinstance(v, ast.Constant) and isinstance(v.value, str))
                if any(t in spec for t in LOCALE_FMT) or spec.endswith("n") and spec[:-1].replace(".", "").isdigit():
                    res.add("host-local-time", f"{ctx.short}|f-string:{spec}", ctx.loc(n), f"{ctx.short}: format {spec!r} depends on the host's locale")


def check_localtime(p, tier):
    res = Result("C06", "no resolved call yields host-local time or locale-formatted dates: now/today/fromtimestamp without a zone, localtime/mktime/ctime, "
                 "astimezone() without a zone, naive datetime.timestamp(), month/day-name or locale formats, setlocale")
    _localtime_rule(p, res)
    must_fire(res, "host-local-time", _localtime_rule, "import datetime, time\nimport pandas as pd\nfrom dateutil.parser import parse as dtp\ndef a():\n    return datetime.datetime.now()\ndef b(s):\n    return dtp(s).timestamp()\n"
              "def c(t):\n    return t.astimezone()\ndef d():\n    return pd.Timestamp('now')\ndef e(t):\n    return t.strftime('%b')\ndef f(x):\n    return pd.Timestamp.fromtimestamp(x)\ndef g(x):\n    return time.mktime(x)\n", 7)
    must_not_fire(res, _localtime_rule, "import datetime\nimport pandas as pd\ndef a():\n    return datetime.datetime.now(datetime.timezone.utc), pd.Timestamp.now(tz='UTC'), pd.Timestamp('2020-01-01').timestamp()\n"
                  "def b(x):\n    return x.to_pydatetime().timestamp(), x.tz_localize(None).timestamp(), datetime.datetime.now(datetime.timezone.utc).timestamp()\n")
    res.floors = {"obligations: external calls": 2000}
    return res


# --------------------------------------------------------------------------
# process-global state
# --------------------------------------------------------------------------
GLOBAL_MUT = {
    "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "logging.basicConfig", "logging.disable", "logging.captureWarnings",
    "loguru.logger.remove", "loguru.logger.add", "loguru.logger.configure", "loguru.logger.disable", "loguru.logger.enable",
    "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state", "random.seed", "pandas.set_option", "pandas.reset_option",
    "xarray.set_options", "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.pyplot.switch_backend", "matplotlib.rcParams.update",
    "matplotlib.pyplot.rcParams.update", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "matplotlib.rcdefaults",
    "os.chdir", "os.putenv", "os.unsetenv", "os.umask", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "time.tzset",
    "sys.setrecursionlimit", "sys.path.append", "sys.path.insert", "sys.path.extend", "sys.setdefaultencoding", "locale.setlocale", "signal.signal", "socket.setdefaulttimeout", "gc.disable", "gc.collect", "gc.set_threshold",
    "xml.etree.ElementTree.register_namespace", "decimal.setcontext", "faulthandler.enable", "atexit.register", "urllib.request.install_opener", "pyproj.network.set_network_enabled", "pyproj.set_use_global_context",
    "scipy.special.seterr", "os.setpriority", "os.nice", "resource.setrlimit", "builtins.__build_class__", "csv.field_size_limit", "decimal.getcontext.prec", "json.JSONEncoder.default.__set__",
}
GLOBAL_CTX = {"numpy.seterr"}


def _process_state_rule(p, res):
    for ctx in contexts(p):
        at_import_root = isinstance(ctx, ModBody) and ctx.module.name == "mt_metadata"
        nodes = walk_own(ctx.node)
        # calls inside `with warnings.catch_warnings():` are local
        protected = set()
        for n in nodes:
            if isinstance(n, ast.With):
                names = [ext_name(resolve(p, ctx, i.context_expr.func if isinstance(i.context_expr, ast.Call) else i.context_expr)) or "" for i in n.items]
                if any(x in ("warnings.catch_warnings", "matplotlib.rc_context", "matplotlib.pyplot.rc_context") for x in names):
                    for b in n.body:
                        for k in ast.walk(b):
                            protected.add(id(k))
        for n in nodes:
            if isinstance(n, ast.Call):
                d = ext_name(resolve(p, ctx, n.func))
                if d:
                    res.count("obligations: external calls")
                if d in GLOBAL_MUT and id(n) not in protected:
                    if at_import_root and d.startswith("loguru.logger."):
                        res.count("documented import-time logger setup")
                        continue
                    res.add("process-state", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} changes process-wide state: {txt(n)}")
                if d == "builtins.setattr" and n.args:
                    t = resolve(p, ctx, n.args[0])
                    if isinstance(t, (External, Module)) and not isinstance(t, ClassInfo):
                        res.add("process-state", f"{ctx.short}|setattr", ctx.loc(n), f"{ctx.short} patches {txt(n.args[0])}")
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            for t in tg:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    base = e
                    while isinstance(base, ast.Subscript):
                        base = base.value
                    if base is e and not isinstance(e, ast.Attribute):
                        continue
                    owner = base.value if (isinstance(base, ast.Attribute) and base is e) else base
                    r = resolve(p, ctx, owner)
                    res.count("obligations: attribute/item stores")
                    if isinstance(r, External) and not r.dotted.startswith("builtins.") and id(n) not in protected:
                        # module object, external class or e.g. os.environ[...], plt.rcParams[...]
                        res.add("process-state", f"{ctx.short}|{r.dotted}", ctx.loc(n), f"{ctx.short} assigns into {r.dotted}: {txt(n)}")


def check_process_state(p, tier):
    res = Result("C07", "no function or module body changes process-wide state (warning filters, logging/loguru handlers after the package's own setup, numpy/pandas/matplotlib options, "
                 "os.environ/cwd/umask, sys.path, locale, random seeds, XML namespace registry, attributes of foreign modules or classes)")
    _process_state_rule(p, res)
    must_fire(res, "process-state", _process_state_rule, "import os, warnings\nimport numpy as np\nimport matplotlib.pyplot as plt\nfrom loguru import logger\ndef a():\n    warnings.filterwarnings('ignore')\ndef b():\n    np.seterr(all='ignore')\n"
              "def c():\n    os.environ['X'] = '1'\ndef d():\n    plt.rcParams['a'] = 2\ndef e():\n    logger.remove()\ndef f():\n    np.float = float\n", 6)
    must_not_fire(res, _process_state_rule, "import numpy as np\nimport warnings\nimport os\ndef a(x):\n    with np.errstate(all='ignore'):\n        y = 1 / x\n    with warnings.catch_warnings():\n        warnings.simplefilter('ignore')\n    return y, os.environ.get('A')\n")
    res.floors = {"obligations: external calls": 2000, "obligations: attribute/item stores": 800}
    return res


# --------------------------------------------------------------------------
# interrupts and process exit
# --------------------------------------------------------------------------
def _always_raises(stmts, name=None):
    """Every path through stmts re-raises the handled exception itself."""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return s.exc is None or (isinstance(s.exc, ast.Name) and s.exc.id == name)
        if isinstance(s, ast.If) and s.orelse and _always_raises(s.body, name) and _always_raises(s.orelse, name):
            return True
        if any(isinstance(k, (ast.Return, ast.Break, ast.Continue)) for k in ast.walk(s)):
            return False
        if isinstance(s, ast.With) and _always_raises(s.body, name):
            return True
        if isinstance(s, ast.Try) and s.finalbody and _always_raises(s.finalbody, name):
            return True
    return False


def _interrupt_rule(p, res):
    for ctx in contexts(p):
        nodes = walk_own(ctx.node)
        for n in nodes:
            if isinstance(n, ast.Try):
                narrower = set()
                for h in n.handlers:
                    res.count("obligations: exception handlers")
                    types = []
                    if h.type is None:
                        types = ["builtins.BaseException"]
                    else:
                        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            types.append(ext_name(resolve(p, ctx, t)) or "")
                    broad = [t for t in types if t in ("builtins.BaseException", "builtins.KeyboardInterrupt", "builtins.SystemExit", "builtins.GeneratorExit")]
                    if "builtins.BaseException" in broad and {"builtins.KeyboardInterrupt", "builtins.SystemExit"} <= narrower:
                        continue
                    if _always_raises(h.body, h.name):
                        narrower.update(types)
                        continue
                    if broad:
                        what = "bare except" if h.type is None else txt(h.type)
                        res.add("interrupt-swallowed", f"{ctx.short}|{what}", ctx.loc(h), f"{ctx.short}: handler ({what}) can swallow KeyboardInterrupt/SystemExit")
                for s in n.finalbody:
                    for k in ast.walk(s):
                        if isinstance(k, FN + (ast.Lambda,)):
                            break
                        if isinstance(k, ast.Return):
                            res.add("interrupt-swallowed", f"{ctx.short}|return in finally", ctx.loc(k), f"{ctx.short}: return inside finally discards a propagating exception")
                    loops = [k for k in ast.walk(s) if isinstance(k, (ast.For, ast.While))]
                    inloop = {id(x) for l in loops for x in ast.walk(l)}
                    for k in ast.walk(s):
                        if isinstance(k, (ast.Break, ast.Continue)) and id(k) not in inloop:
                            res.add("interrupt-swallowed", f"{ctx.short}|break in finally", ctx.loc(k), f"{ctx.short}: break/continue inside finally discards a propagating exception")
            if isinstance(n, ast.With):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and ext_name(resolve(p, ctx, c.func)) == "contextlib.suppress":
                        for a in c.args:
                            if ext_name(resolve(p, ctx, a)) in ("builtins.BaseException", "builtins.KeyboardInterrupt", "builtins.SystemExit"):
                                res.add("interrupt-swallowed", f"{ctx.short}|suppress", ctx.loc(c), f"{ctx.short}: {txt(c)} swallows interrupts")
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = ext_name(resolve(p, ctx, n))
                if d in ("sys.exit", "os._exit", "os.abort", "builtins.exit", "builtins.quit", "os.kill", "os.killpg", "signal.raise_signal", "builtins.input", "builtins.breakpoint", "pdb.set_trace"):
                    if isinstance(ctx, ModBody) and _under_main(ctx.node, n):
                        continue
                    res.add("process-exit", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short} can end or block the host process through {d}")
                if d == "builtins.SystemExit" or d == "builtins.KeyboardInterrupt":
                    for r in nodes:
                        if isinstance(r, ast.Raise) and r.exc is not None and any(k is n for k in ast.walk(r.exc)):
                            if isinstance(ctx, ModBody) and _under_main(ctx.node, r):
                                continue
                            res.add("process-exit", f"{ctx.short}|raise {d}", ctx.loc(n), f"{ctx.short} raises {d}")


def _under_main(tree, node):
    for s in tree.body:
        if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test) and any(k is node for k in ast.walk(s)):
            return True
    return False


def check_interrupt(p, tier):
    res = Result("C08", "no exception handler that catches BaseException/KeyboardInterrupt/SystemExit (bare except included) can complete without re-raising; "
                 "no return/break in finally; no sys.exit/os._exit/input/breakpoint in library code")
    _interrupt_rule(p, res)
    must_fire(res, "interrupt-swallowed", _interrupt_rule, "def a():\n    try:\n        x = 1\n    except:\n        x = 2\n    return x\ndef b():\n    try:\n        pass\n    except BaseException as e:\n        print(e)\ndef c():\n    try:\n        pass\n    finally:\n        return 1\n", 3)
    must_fire(res, "process-exit", _interrupt_rule, "import sys\ndef a():\n    sys.exit(1)\ndef b():\n    raise SystemExit\n", 2)
    must_not_fire(res, _interrupt_rule, "import sys\ndef a():\n    try:\n        x = 1\n    except Exception:\n        x = 2\n    except BaseException:\n        print(1)\n        raise\n    return x\nif __name__ == '__main__':\n    sys.exit(a())\n")
    res.floors = {"obligations: exception handlers": 90}
    return res


# --------------------------------------------------------------------------
# python -O
# --------------------------------------------------------------------------
def _assert_rule(p, res):
    for ctx in contexts(p):
        nodes = walk_own(ctx.node)
        for n in nodes:
            if isinstance(n, ast.Raise):
                res.count("obligations: explicit raises")
            if isinstance(n, ast.Assert):
                res.count("assert statements")
                t = n.test
                if isinstance(t, ast.Constant) and t.value:
                    continue
                res.add("assert-guard", f"{ctx.short}|{txt(t, 60)}", ctx.loc(n), f"{ctx.short}: check `{txt(t)}` disappears under python -O")
            if isinstance(n, ast.Name) and n.id == "__debug__":
                res.add("assert-guard", f"{ctx.short}|__debug__", ctx.loc(n), f"{ctx.short}: behaviour depends on __debug__")
            if isinstance(n, ast.Attribute):
                d = ext_name(resolve(p, ctx, n))
                if d in ("sys.flags.optimize",):
                    res.add("assert-guard", f"{ctx.short}|{d}", ctx.loc(n), f"{ctx.short}: behaviour depends on {d}")
                if n.attr == "__doc__" and isinstance(n.ctx, ast.Load):
                    res.add("assert-guard", f"{ctx.short}|__doc__", ctx.loc(n), f"{ctx.short}: reads a docstring, which python -OO removes")


def check_assert(p, tier):
    res = Result("C09", "no assert statement, __debug__ test, sys.flags.optimize test or docstring read anywhere in the package: every consistency check is an explicit raise")
    _assert_rule(p, res)
    must_fire(res, "assert-guard", _assert_rule, "def a(x):\n    assert x > 0, 'bad'\n    if __debug__:\n        x = 1\n    return x\n", 2)
    res.floors = {"obligations: explicit raises": 250}
    return res


# --------------------------------------------------------------------------
# file handles
# --------------------------------------------------------------------------
RESOURCE_EXT = {"urllib.request.urlopen", "zipfile.ZipFile", "tarfile.open", "sqlite3.connect", "h5py.File", "socket.socket", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "io.FileIO", "os.fdopen",
                "requests.Session", "concurrent.futures.ThreadPoolExecutor", "multiprocessing.Pool", "os.open", "numpy.memmap", "xarray.open_dataset", "pandas.HDFStore", "pandas.ExcelFile", "pandas.ExcelWriter"}


def _resource_calls(p, ctx):
    seen = set()
    for n, mode, enc, kind in open_calls(p, ctx):
        if kind in ("Path.read_text", "Path.write_text", "io.TextIOWrapper"):
            continue
        seen.add(id(n))
        yield n
    for n in calls_in(ctx):
        if id(n) not in seen and ext_name(resolve(p, ctx, n.func)) in RESOURCE_EXT:
            yield n


def _closes(stmt_list, name):
    for s in stmt_list:
        for k in ast.walk(s):
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "close" and isinstance(k.func.value, ast.Name) and k.func.value.id == name:
                return True
    return False


def _handle_rule(p, res):
    # summaries: project functions that return a fresh open handle
    returns_handle = set()
    for _ in range(3):
        for ctx in p.functions:
            calls = list(_resource_calls(p, ctx)) + [c for c in calls_in(ctx) if resolve(p, ctx, c.func) in returns_handle]
            for n in walk_own(ctx.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    if any(n.value is c for c in calls):
                        returns_handle.add(ctx)
                    elif isinstance(n.value, ast.Name):
                        v = single_assign(ctx, n.value.id)
                        if any(v is c for c in calls):
                            returns_handle.add(ctx)
    for ctx in contexts(p):
        nodes = walk_own(ctx.node)
        calls = list(_resource_calls(p, ctx)) + [c for c in calls_in(ctx) if isinstance(ctx, FuncInfo) and resolve(p, ctx, c.func) in returns_handle]
        if not calls:
            continue
        with_exprs = set()
        for n in nodes:
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    with_exprs.add(id(it.context_expr))
                    if isinstance(it.context_expr, ast.Call):
                        d = ext_name(resolve(p, ctx, it.context_expr.func)) or ""
                        if d in ("contextlib.closing", "contextlib.ExitStack"):
                            for a in it.context_expr.args:
                                with_exprs.add(id(a))
                    elif isinstance(it.context_expr, ast.Name):
                        v = single_assign(ctx, it.context_expr.id) if isinstance(ctx, FuncInfo) else None
                        if v is not None:
                            with_exprs.add(("between", id(v)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context":
                for a in n.args:
                    with_exprs.add(id(a))
        for c in calls:
            res.count("obligations: handles opened")
            if id(c) in with_exprs:
                res.sample(f"{ctx.loc(c)} {ctx.short}: {txt(c)} inside with")
                continue
            # name = open(...); the very next statement is `with name` or try/finally name.close()
            ok = False
            for blk in _blocks(ctx.node):
                for i, s in enumerate(blk):
                    if isinstance(s, ast.Return) and s.value is c and ctx in returns_handle:
                        ok = True
                    if isinstance(s, ast.Assign) and s.value is c and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        nm = s.targets[0].id
                        nxt = blk[i + 1] if i + 1 < len(blk) else None
                        if isinstance(nxt, ast.With) and any(isinstance(it.context_expr, ast.Name) and it.context_expr.id == nm for it in nxt.items):
                            ok = True
                        if isinstance(nxt, ast.Try) and _closes(nxt.finalbody, nm):
                            ok = True
                        if isinstance(nxt, ast.Return) and isinstance(nxt.value, ast.Name) and nxt.value.id == nm and ctx in returns_handle:
                            ok = True
            if not ok:
                ok = _protected_next(p, ctx, c)
            if not ok:
                for n in nodes:
                    if isinstance(n, ast.Try) and n.finalbody:
                        for s in n.body:
                            for k in ast.walk(s):
                                if isinstance(k, ast.Assign) and k.value is c and isinstance(k.targets[0], ast.Name) and _closes(n.finalbody, k.targets[0].id):
                                    ok = True
            if not ok:
                res.add("handle-not-closed", f"{ctx.short}|{txt(c.func)}", ctx.loc(c), f"{ctx.short}: {txt(c)} is not released on every path (needs with / try-finally)")


def _protected_next(p, ctx, c):
    """name = open(..) as the last statement of a try body (whose handlers all
    leave), directly followed - possibly inside another try - by a with that
    owns the name."""
    for blk in _blocks(ctx.node):
        for i, s in enumerate(blk):
            tail = s.body if isinstance(s, ast.Try) else []
            if not (tail and isinstance(tail[-1], ast.Assign) and tail[-1].value is c and isinstance(tail[-1].targets[0], ast.Name) and not s.orelse):
                continue
            nm = tail[-1].targets[0].id
            if not all(any(isinstance(x, (ast.Return, ast.Raise)) for x in h.body) for h in s.handlers):
                continue
            nxt = blk[i + 1] if i + 1 < len(blk) else None
            while isinstance(nxt, ast.Try) and not _closes(nxt.finalbody, nm):
                nxt = nxt.body[0]
            if isinstance(nxt, ast.Try):
                return True
            if isinstance(nxt, ast.With):
                for it in nxt.items:
                    e = it.context_expr
                    if isinstance(e, ast.Name) and e.id == nm:
                        return True
                    if isinstance(e, ast.Call) and ext_name(resolve(p, ctx, e.func)) == "contextlib.closing" and any(isinstance(a, ast.Name) and a.id == nm for a in e.args):
                        return True
    return False


def _blocks(node):
    for n in [node] + list(ast.walk(node)):
        for a in ("body", "orelse", "finalbody"):
            v = getattr(n, a, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield v


def check_handles(p, tier):
    res = Result("C10", "every call that opens a file, socket or archive is a with-item (directly, through closing/ExitStack, or via a function that only hands a fresh handle to its with-using caller) "
                 "or is closed in a finally that covers every later statement")
    _handle_rule(p, res)
    must_fire(res, "handle-not-closed", _handle_rule, "import json\nfrom urllib.request import urlopen\ndef a(fn):\n    f = open(fn)\n    d = json.load(f)\n    f.close()\n    return d\ndef b(fn):\n    return json.load(open(fn))\ndef c(u):\n    return urlopen(u).read()\n", 3)
    must_not_fire(res, _handle_rule, "def _o(fn):\n    return open(fn)\ndef a(fn):\n    with _o(fn) as f:\n        return f.read()\ndef b(fn):\n    f = open(fn)\n    try:\n        return f.read()\n    finally:\n        f.close()\n")
    res.floors = {"obligations: handles opened": 10}
    return res


# --------------------------------------------------------------------------
# build content before truncating the destination
# --------------------------------------------------------------------------
PURE_IN_WRITE = {"builtins.len", "builtins.list", "builtins.enumerate", "builtins.zip", "builtins.range", "builtins.isinstance", "builtins.sorted", "builtins.map"}


def _only_writes(p, f, call, hname, depth=0):
    """Project helper that does nothing but write values handed to it to the handle."""
    if depth > 3:
        return False
    off = 1 if (f.cls is not None and not f.is_static) else 0
    hp = None
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Name) and a.id == hname and i + off < len(f.positional):
            hp = f.positional[i + off]
    for kw in call.keywords:
        if isinstance(kw.value, ast.Name) and kw.value.id == hname:
            hp = kw.arg
    if hp is None:
        return False
    for k in walk_own(f.node):
        if isinstance(k, ast.Raise):
            return False
        if isinstance(k, ast.Call):
            fn = k.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == hp and hp is not None:
                continue
            if isinstance(fn, ast.Attribute) and fn.attr == "join" and isinstance(fn.value, ast.Constant):
                continue
            if isinstance(fn, ast.Attribute) and fn.attr in ("debug", "info", "warning", "error"):
                continue
            ent = resolve(p, f, fn)
            if ext_name(ent) in PURE_IN_WRITE:
                continue
            if isinstance(ent, FuncInfo) and _only_writes(p, ent, k, hp, depth + 1):
                continue
            return False
    return True


def _truncate_rule(p, res):
    for ctx in contexts(p):
        byid = {id(n): (mode, kind) for n, mode, enc, kind in open_calls(p, ctx)}
        for w in walk_own(ctx.node):
            if not isinstance(w, ast.With):
                continue
            for it in w.items:
                c = it.context_expr
                if id(c) not in byid:
                    continue
                mode, kind = byid[id(c)]
                m = const_of(p, ctx, mode) if mode is not None else "r"
                if not (isinstance(m, str) and ("w" in m)):
                    continue
                hname = it.optional_vars.id if isinstance(it.optional_vars, ast.Name) else None
                res.count("obligations: truncating writes")
                for s in w.body:
                    for k in ast.walk(s):
                        if isinstance(k, ast.Raise):
                            res.add("truncate-before-build", f"{ctx.short}|raise", ctx.loc(k), f"{ctx.short}: raises after the destination was truncated")
                        if not isinstance(k, ast.Call):
                            continue
                        fn = k.func
                        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == hname:
                            continue      # fid.write / fid.writelines / fid.flush
                        if isinstance(fn, ast.Attribute) and fn.attr in ("join",) and isinstance(fn.value, ast.Constant):
                            continue
                        ent = resolve(p, ctx, fn)
                        d = ext_name(ent)
                        if d in PURE_IN_WRITE:
                            continue
                        if isinstance(fn, ast.Attribute) and fn.attr in ("debug", "info", "warning", "error"):
                            continue
                        if isinstance(ent, FuncInfo) and _only_writes(p, ent, k, hname):
                            continue
                        res.add("truncate-before-build", f"{ctx.short}|{txt(fn)}", ctx.loc(k), f"{ctx.short}: {txt(k)} runs after the destination file was truncated; if it fails the previous file is lost")
        # write_text(expr) evaluates expr first: fine
    _destroy_rule(p, res)


DESTROYERS = {"os.remove", "os.unlink", "os.truncate", "shutil.rmtree"}


def _destroy_events(p, ctx, opens, depth=0):
    """Calls in ctx that empty or delete a file without giving it its new content."""
    out = []
    written = set()
    for w in walk_own(ctx.node):
        if isinstance(w, ast.With):
            for it in w.items:
                h = it.optional_vars.id if isinstance(it.optional_vars, ast.Name) else None
                if h and any(isinstance(k, ast.Name) and k.id == h for s in w.body for k in ast.walk(s)):
                    written.add(id(it.context_expr))
        elif isinstance(w, ast.Assign) and isinstance(w.value, ast.Call):
            written.add(id(w.value))
        elif isinstance(w, ast.Return) and w.value is not None:
            written.add(id(w.value))
        elif isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr in ("write", "writelines"):
            written.add(id(w.func.value))
    for n, mode, enc, kind in opens:
        m = const_of(p, ctx, mode) if mode is not None else "r"
        if isinstance(m, str) and "w" in m and id(n) not in written:
            out.append(n)
    for n in walk_own(ctx.node):
        if not isinstance(n, ast.Call):
            continue
        ent = resolve(p, ctx, n.func)
        if ext_name(ent) in DESTROYERS:
            out.append(n)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "unlink" and not isinstance(ent, FuncInfo):
            out.append(n)
        elif isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text", "write_bytes") and n.args and isinstance(n.args[0], ast.Constant) and not n.args[0].value:
            out.append(n)
        elif isinstance(ent, FuncInfo) and depth < 2 and ent.node is not ctx.node:
            sub = list(open_calls(p, ent))
            if _destroy_events(p, ent, sub, depth + 1) and not any(_mode_w(p, ent, m) and not _is_event(p, ent, sub, c) for c, m, _, _ in sub):
                out.append(n)
    return out


def _mode_w(p, ctx, mode):
    m = const_of(p, ctx, mode) if mode is not None else "r"
    return isinstance(m, str) and "w" in m


def _is_event(p, ctx, opens, call):
    return any(e is call for e in _destroy_events(p, ctx, opens, 2))


def _fallible(p, ctx, k, skip):
    if isinstance(k, ast.Raise):
        return True
    if not isinstance(k, ast.Call) or id(k) in skip:
        return False
    fn = k.func
    if isinstance(fn, ast.Attribute) and fn.attr in ("debug", "info", "warning", "error", "join", "write", "writelines", "close"):
        return False
    ent = resolve(p, ctx, fn)
    return ext_name(ent) not in PURE_IN_WRITE


def _destroy_rule(p, res):
    for ctx in contexts(p):
        opens = list(open_calls(p, ctx))
        ev = _destroy_events(p, ctx, opens)
        if not ev:
            continue
        skip = {id(e) for e in ev} | {id(c) for c, *_ in opens}
        for e in ev:
            res.count("obligations: destination emptied or deleted")
            end = (e.end_lineno, e.end_col_offset)
            later = [k for k in walk_own(ctx.node) if isinstance(k, (ast.Call, ast.Raise)) and (k.lineno, k.col_offset) > end]
            writes = [k for k in later if any(k is c for c, m, _, _ in opens if _mode_w(p, ctx, m)) or (isinstance(k.func if isinstance(k, ast.Call) else None, ast.Attribute) and k.func.attr in ("write_text", "write_bytes"))]
            is_open = any(e is c for c, *_ in opens) or not (isinstance(e.func, ast.Attribute) and e.func.attr == "unlink")
            if not writes:
                continue
            lim = (writes[-1].lineno, writes[-1].col_offset)
            for k in later:
                if (k.lineno, k.col_offset) < lim and _fallible(p, ctx, k, skip):
                    res.add("emptied-before-build", f"{ctx.short}|{txt(e.func)}", ctx.loc(e), f"{ctx.short}: {txt(e)} empties or deletes the destination before {txt(k)} (line {k.lineno}) has succeeded; if that fails the previous file is lost")
                    break


def check_truncate(p, tier):
    res = Result("C11", "inside every with-block that opened its destination for writing, only writes of already built values happen: no project call, serialiser or raise runs between truncation and the write")
    _truncate_rule(p, res)
    must_fire(res, "truncate-before-build", _truncate_rule, "import json\ndef a(fn, o):\n    with open(fn, 'w') as f:\n        json.dump(o, f)\ndef ser(o):\n    return str(o)\ndef b(fn, o):\n    with open(fn, mode='w') as f:\n        f.write(ser(o))\n", 2)
    must_fire(res, "emptied-before-build", _truncate_rule, "import os\ndef mk(o):\n    return str(o)\ndef a(fn, o):\n    with open(fn, 'w'):\n        pass\n    t = mk(o)\n    with open(fn, 'w') as f:\n        f.write(t)\ndef b(fn, o):\n    os.remove(fn)\n    t = mk(o)\n    with open(fn, 'w') as f:\n        f.write(t)\ndef prep(fn):\n    open(fn, 'w').close()\ndef c(fn, o):\n    prep(fn)\n    t = mk(o)\n    with open(fn, 'w') as f:\n        f.write(t)\n", 3)
    must_not_fire(res, _truncate_rule, "def b(fn, lines):\n    t = '\\n'.join(lines)\n    with open(fn, 'w') as f:\n        f.write(t)\n        f.write('\\n'.join(lines))\ndef _w(h, lines):\n    for l in lines:\n        h.write(l)\ndef c(fn, lines):\n    with open(fn, 'w') as f:\n        _w(f, lines)\n")
    res.floors = {"obligations: truncating writes": 4}
    return res


CHECKS = {"C01": check_exec, "C05": check_encoding, "C06": check_localtime, "C07": check_process_state,
          "C08": check_interrupt, "C09": check_assert, "C10": check_handles, "C11": check_truncate}
