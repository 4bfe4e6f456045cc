"""Rules over the syntax tree of the package: what it imports, what importing it does, and which
language, standard-library and numpy features it uses.

Every rule returns findings (construct, reason) and the number of places it examined.
"""
from __future__ import annotations

import ast
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize

from . import harness as H


class Src:
    def __init__(self, rel, text):
        self.rel, self.text = rel, text
        self.tree = ast.parse(text, rel)
        self.alias = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        self.alias[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    self.alias[a.asname or a.name] = f"{n.module}.{a.name}"

    def dotted(self, n):
        """The dotted name an expression denotes, through the file's imports, else None."""
        if isinstance(n, ast.Name):
            return self.alias.get(n.id)
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return b and f"{b}.{n.attr}"
        if (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) == 2
                and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str)):
            b = self.dotted(n.args[0])
            return b and f"{b}.{n.args[1].value}"
        return None

    def where(self, n):
        f = n
        names = []
        while f is not None:
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(f.name)
            f = getattr(f, "parent", None)
        return f"{self.rel}:{getattr(n, 'lineno', '?')} in {'.'.join(reversed(names)) or 'module body'}"


def package(root=None, top="precise"):
    root = root or H.REPO
    out = []
    for base, dirs, files in sorted(os.walk(os.path.join(root, top))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(base, f)
                with open(p, encoding="utf-8") as fh:
                    out.append(Src(os.path.relpath(p, root), fh.read()))
    if not out:
        raise H.Broken(f"no source files under {top}/")
    return out


def parents(n):
    n = getattr(n, "parent", None)
    while n is not None:
        yield n
        n = getattr(n, "parent", None)


def in_function(n):
    return any(isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for p in parents(n))


CATCHES = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}


def caught(n, names=frozenset(CATCHES)):
    """Is n in the body of a try whose handler takes one of these exceptions (or under a guard)?"""
    child = n
    for p in parents(n):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                if any(t is None or (isinstance(t, ast.Name) and t.id in names)
                       or (isinstance(t, ast.Attribute) and t.attr in names) for t in ts):
                    return True
        if isinstance(p, (ast.With, ast.AsyncWith)) and child in p.body:
            for it in p.items:
                if isinstance(it.context_expr, ast.Call) and ast.unparse(it.context_expr.func).endswith("suppress"):
                    if any(ast.unparse(a) in names for a in it.context_expr.args):
                        return True
        child = p
    return False


def type_checking_only(n):
    child = n
    for p in parents(n):
        if isinstance(p, ast.If) and child in p.body and ast.unparse(p.test).endswith("TYPE_CHECKING"):
            return True
        child = p
    return False


# ------------------------------------------------------------------ what is imported
def imported(src):
    """(node, dotted module) for every import of another module."""
    for n in ast.walk(src.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield n, a.name
        elif isinstance(n, ast.ImportFrom):
            if n.level:
                pkg = src.rel[:-3].split(os.sep)
                pkg = pkg[:-1]
                base = pkg[:len(pkg) - (n.level - 1)]
                mod = ".".join(base + ([n.module] if n.module else []))
            else:
                mod = n.module
            yield n, mod
            for a in n.names:
                yield n, f"{mod}.{a.name}"
        elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) \
                and isinstance(n.args[0].value, str):
            d = src.dotted(n.func) or (n.func.id if isinstance(n.func, ast.Name) else None)
            if d in ("importlib.import_module", "__import__", "builtins.__import__"):
                yield n, n.args[0].value


def third_party(name):
    top = name.split(".")[0]
    return top not in sys.stdlib_module_names and top not in ("numpy", "precise", "__future__")


def optional_imports(srcs):
    """Third-party packages may only be imported inside a function, where their absence is handled."""
    found, seen = [], 0
    for s in srcs:
        for n, mod in imported(s):
            seen += 1
            if not third_party(mod) or type_checking_only(n):
                continue
            if caught(n):
                continue
            if not in_function(n):
                found.append((f"{s.where(n)}: import of {mod.split('.')[0]}",
                              "imported whenever the module is, without handling its absence"))
                continue
            f = next(p for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)))
            if isinstance(f, ast.Lambda) or not handled_by_callers(srcs, f.name, 3):
                found.append((f"{s.where(n)}: import of {mod.split('.')[0]}",
                              "its absence is not turned into an actionable ImportError"))
    return dedup(found), seen


def handled_by_callers(srcs, name, depth):
    calls = [(s, n) for s in srcs for n in ast.walk(s.tree) if isinstance(n, ast.Call)
             and (isinstance(n.func, ast.Name) and n.func.id == name
                  or isinstance(n.func, ast.Attribute) and n.func.attr == name)]
    if not calls or not depth:
        return False
    for s, n in calls:
        if caught(n):
            continue
        f = next((p for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef))), None)
        if f is None or not handled_by_callers(srcs, f.name, depth - 1):
            return False
    return True


def no_import_of(srcs, target, exempt):
    found, seen = [], 0
    for s in srcs:
        if s.rel.startswith(exempt):
            continue
        for n, mod in imported(s):
            seen += 1
            if mod == target or mod.startswith(target + "."):
                found.append((f"{s.where(n)}: import of {mod}", f"imports the removed namespace {target}"))
    return dedup(found), seen


def dedup(found):
    out = []
    for f in found:
        if f not in out:
            out.append(f)
    return out


# ------------------------------------------------------------------ what importing does
EFFECTS = re.compile(
    r"^(socket\.|urllib\.request\.|http\.|ftplib\.|smtplib\.|subprocess\.|webbrowser\.|sqlite3\.connect|shutil\.|"
    r"tempfile\.|requests\.|signal\.signal|atexit\.register|locale\.setlocale|faulthandler\.|gc\.(disable|enable|freeze|"
    r"set_threshold)|sys\.(setrecursionlimit|settrace|setprofile|setswitchinterval|path\.(append|insert|extend))|"
    r"logging\.(basicConfig|disable|captureWarnings|setLoggerClass)|warnings\.(simplefilter|filterwarnings|resetwarnings)|"
    r"random\.seed|numpy\.random\.seed|numpy\.(seterr|seterrcall|set_printoptions|setbufsize|set_string_function)|"
    r"os\.(mkdir|makedirs|remove|unlink|rmdir|removedirs|rename|replace|putenv|unsetenv|chdir|system|popen|umask|symlink|"
    r"link|chmod|kill|fork|spawn\w*|exec\w*|startfile|mkfifo|truncate|environ\.(update|setdefault|pop|clear))|"
    r"multiprocessing\.(set_start_method|Process|Pool)|threading\.(Thread|settrace|setprofile)|decimal\.(getcontext|"
    r"setcontext)|numpy\.(save|savez|savetxt|memmap)|pickle\.dump$|json\.dump$|logging\.FileHandler)")
METHODS = {"write_text", "write_bytes", "mkdir", "touch", "unlink", "urlopen", "setrecursionlimit", "basicConfig"}


def import_effects(srcs):
    """Calls with outside effects in code that runs when a module is imported."""
    funcs = {}
    for s in srcs:
        for n in s.tree.body:
            if isinstance(n, ast.FunctionDef):
                funcs[s.rel[:-3].replace(os.sep, ".") + "." + n.name] = (s, n)
    found = []
    seen = [0]
    done = set()

    def scan(s, n, via):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [*n.decorator_list, *n.args.defaults, *[k for k in n.args.kw_defaults if k]]:
                scan(s, d, via)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.If) and ast.unparse(n.test).replace('"', "'") == "__name__ == '__main__'":
            return
        if isinstance(n, ast.Call):
            seen[0] += 1
            d = s.dotted(n.func)
            quiet = any(isinstance(p, ast.With) and any("catch_warnings" in ast.unparse(i) or "errstate" in ast.unparse(i)
                                                        for i in p.items) for p in parents(n))
            if d and EFFECTS.match(d) and not quiet:
                found.append((f"{s.where(n)}: {d}(){via}", "acts outside the package when it is imported"))
            elif not d and isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
                found.append((f"{s.where(n)}: .{n.func.attr}(){via}", "acts outside the package when it is imported"))
            elif isinstance(n.func, ast.Name) and n.func.id == "open" or d in ("io.open", "os.open"):
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
                if mode is not None and isinstance(mode, ast.Constant) and set(str(mode.value)) & set("wax+"):
                    found.append((f"{s.where(n)}: open(){via}", "writes a file when it is imported"))
            elif isinstance(n.func, ast.Name) and n.func.id == "print":
                found.append((f"{s.where(n)}: print(){via}", "prints when it is imported"))
            key = d or (isinstance(n.func, ast.Name)
                        and s.rel[:-3].replace(os.sep, ".") + "." + n.func.id) or None
            if key in funcs and key not in done:
                done.add(key)
                s2, f2 = funcs[key]
                for b in f2.body:
                    scan(s2, b, f"{via} called from {s.rel}")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in n.targets if not isinstance(n, ast.AugAssign) else [n.target]:
                if isinstance(t, ast.Subscript) and (s.dotted(t.value) or "") in ("os.environ", "sys.modules",
                                                                                   "warnings.filters"):
                    found.append((f"{s.where(n)}: {ast.unparse(t)}{via}", "changes the process when it is imported"))
                if isinstance(t, ast.Attribute) and (s.dotted(t.value) or "").split(".")[0] in (
                        "numpy", "warnings", "sys", "os", "builtins", "math", "random"):
                    found.append((f"{s.where(n)}: {ast.unparse(t)}{via}", "patches another module when it is imported"))
        for c in ast.iter_child_nodes(n):
            scan(s, c, via)

    for s in srcs:
        for n in s.tree.body:
            scan(s, n, "")
    return dedup(found), seen[0]


# ------------------------------------------------------------------ versions
def floors(root=None):
    """(oldest Python, oldest numpy) the package declares."""
    import tomllib
    with open(os.path.join(root or H.REPO, "pyproject.toml"), "rb") as f:
        d = tomllib.load(f)["project"]
    py = re.search(r">=\s*(\d+)\.(\d+)", d.get("requires-python", ""))
    np_ = next((re.search(r">=\s*(\d+)\.(\d+)", x) for x in d.get("dependencies", []) if re.match(r"numpy\b", x)), None)
    if not py or not np_:
        raise H.Broken("pyproject.toml no longer declares the oldest Python and numpy versions")
    return tuple(map(int, py.groups())), tuple(map(int, np_.groups()))


PY_NEW = {  # standard-library names by the version that added them
    (3, 9): "graphlib zoneinfo functools.cache math.lcm math.nextafter math.ulp random.randbytes",
    (3, 10): """itertools.pairwise bisect._key statistics.covariance statistics.correlation statistics.linear_regression
        types.NoneType types.EllipsisType types.NotImplementedType types.UnionType typing.TypeAlias typing.ParamSpec
        typing.Concatenate typing.TypeGuard typing.ParamSpecArgs typing.ParamSpecKwargs typing.is_typeddict
        contextlib.aclosing contextlib.AsyncContextDecorator inspect.get_annotations
        dataclasses.KW_ONLY importlib.metadata.packages_distributions sys.stdlib_module_names sys.orig_argv
        os.eventfd threading.gettrace threading.getprofile collections.abc.EncodingWarning
        asyncio.mixins xml.sax._exceptions traceback.print_list_""",
    (3, 11): """tomllib math.cbrt math.exp2 typing.Self typing.LiteralString typing.Never typing.assert_never
        typing.assert_type typing.reveal_type typing.dataclass_transform typing.Required typing.NotRequired
        typing.TypeVarTuple typing.Unpack typing.get_overloads typing.clear_overloads enum.StrEnum enum.ReprEnum
        enum.verify enum.member enum.nonmember enum.global_enum contextlib.chdir datetime.UTC operator.call
        asyncio.TaskGroup asyncio.Runner asyncio.timeout asyncio.Barrier hashlib.file_digest string.Template.get_identifiers
        sys.exception sys.activate_stack_trampoline logging.getLevelNamesMapping wsgiref.types inspect.getmembers_static
        inspect.ismethodwrapper locale.getencoding""",
    (3, 12): """itertools.batched math.sumprod random.binomialvariate typing.override typing.TypeAliasType collections.abc.Buffer
        inspect.markcoroutinefunction inspect.BufferFlags calendar.Month calendar.Day os.listdrives os.unshare
        shutil._rmtree types.get_original_bases sys.monitoring statistics._kde pathlib.UnsupportedOperation_
        importlib.resources.as_file_ uuid.main fractions._int""",
    (3, 13): """copy.replace math.fma statistics.kde statistics.kde_random warnings.deprecated typing.TypeIs typing.ReadOnly
        typing.NoDefault typing.get_protocol_members typing.is_protocol types.CapsuleType os.process_cpu_count
        queue.ShutDown pathlib.UnsupportedOperation random.main glob.translate sys._is_gil_enabled base64.z85encode
        base64.z85decode dbm.sqlite3 operator.is_none_""",
    (3, 14): """annotationlib compression string.templatelib concurrent.interpreters operator.is_none operator.is_not_none
        functools.Placeholder heapq.heapify_max heapq.heappop_max heapq.heappush_max pathlib.types math.is_ annotationlib""",
}
PY_BUILTIN_NEW = {"aiter": (3, 10), "anext": (3, 10), "EncodingWarning": (3, 10), "ExceptionGroup": (3, 11),
                  "BaseExceptionGroup": (3, 11), "PythonFinalizationError": (3, 13)}
PY_METHOD_NEW = {"bit_count": (3, 10), "removeprefix": (3, 9), "removesuffix": (3, 9), "add_note": (3, 11),
                 "is_integer": None}
PY_KW_NEW = {"zip": {"strict": (3, 10)}, "map": {"strict": (3, 14)},
             "dataclasses.dataclass": {"slots": (3, 10), "kw_only": (3, 10), "match_args": (3, 10),
                                       "weakref_slot": (3, 11)},
             "dataclasses.field": {"kw_only": (3, 10), "doc": (3, 14)},
             "bisect.bisect": {"key": (3, 10)}, "bisect.bisect_left": {"key": (3, 10)},
             "bisect.bisect_right": {"key": (3, 10)}, "bisect.insort": {"key": (3, 10)},
             "bisect.insort_left": {"key": (3, 10)}, "bisect.insort_right": {"key": (3, 10)},
             "statistics.linear_regression": {"proportional": (3, 11)}, "statistics.correlation": {"method": (3, 12)},
             "statistics.fmean": {"weights": (3, 11)}, "warnings.warn": {"skip_file_prefixes": (3, 12)},
             "warnings.catch_warnings": {"action": (3, 11), "category": (3, 11), "lineno": (3, 11), "append": (3, 11)},
             "inspect.signature": {"globals": (3, 10), "locals": (3, 10), "eval_str": (3, 10)},
             "typing.NamedTuple": {}, "typing.TypeVar": {"infer_variance": (3, 12), "default": (3, 13)},
             "glob.glob": {"root_dir": (3, 10), "include_hidden": (3, 11)},
             "os.path.realpath": {"strict": (3, 10)}, "traceback.format_exception_only": {"show_group": (3, 13)},
             "itertools.batched": {"strict": (3, 13)}, "sum": {}, "round": {}, "open": {},
             "logging.basicConfig": {"encoding": (3, 9)}, "functools.reduce": {"initial": (3, 14)},
             "random.sample": {"counts": (3, 9)}, "importlib.metadata.entry_points": {"group": (3, 10), "name": (3, 10)},
             "math.dist": {}, "math.hypot": {}, "enum.Enum": {"boundary": (3, 11)}, "shutil.rmtree": {"onexc": (3, 12)},
             "json.dump": {}, "int": {}, "uuid.uuid4": {}}
NP_NEW = {
    (1, 20): "lib.stride_tricks.sliding_window_view broadcast_shapes",
    (1, 22): "",
    (1, 23): "from_dlpack",
    (1, 24): "show_runtime",
    (1, 25): "exceptions dtypes",
    (2, 0): """acos acosh asin asinh atan atanh atan2 bitwise_left_shift bitwise_invert bitwise_right_shift bitwise_count
        concat permute_dims pow astype isdtype matrix_transpose unique_all unique_counts unique_inverse unique_values
        vecdot trapezoid strings ulong get_include_ linalg.cross linalg.diagonal linalg.matmul linalg.matrix_norm
        linalg.matrix_transpose linalg.outer linalg.svdvals linalg.tensordot linalg.trace linalg.vecdot
        linalg.vector_norm dtypes.StringDType lib.array_utils lib.introspect rec.find_duplicate_ exceptions_""",
    (2, 1): "cumulative_sum cumulative_prod unstack",
    (2, 2): "matvec vecmat",
}
NP_KW_NEW = {
    "quantile": {"method": (1, 22), "weights": (2, 0)}, "percentile": {"method": (1, 22), "weights": (2, 0)},
    "nanquantile": {"method": (1, 22), "weights": (2, 0)}, "nanpercentile": {"method": (1, 22), "weights": (2, 0)},
    "average": {"keepdims": (1, 23)}, "unique": {"equal_nan": (1, 24), "sorted": (2, 3)}, "isin": {"kind": (1, 24)},
    "vstack": {"dtype": (1, 24), "casting": (1, 24)}, "hstack": {"dtype": (1, 24), "casting": (1, 24)},
    "stack": {"dtype": (1, 24), "casting": (1, 24)},
    "var": {"mean": (2, 0), "correction": (2, 0)}, "std": {"mean": (2, 0), "correction": (2, 0)},
    "nanvar": {"mean": (2, 0), "correction": (2, 0)}, "nanstd": {"mean": (2, 0), "correction": (2, 0)},
    "asarray": {"copy": (2, 0), "device": (2, 0)}, "array": {}, "sort": {"stable": (2, 0)}, "argsort": {"stable": (2, 0)},
    "reshape": {"shape": (2, 1), "copy": (2, 1)}, "clip": {"min": (2, 1), "max": (2, 1)},
    "linalg.pinv": {"rtol": (2, 0)}, "linalg.matrix_rank": {"rtol": (2, 0)},
    "linalg.cholesky": {"upper": (2, 0)}, "linalg.norm": {}, "cov": {"dtype": (1, 20)}, "corrcoef": {"dtype": (1, 20)},
    "zeros": {"device": (2, 0)}, "ones": {"device": (2, 0)}, "empty": {"device": (2, 0)}, "full": {"device": (2, 0)},
    "eye": {"device": (2, 0)}, "arange": {"device": (2, 0)}, "linspace": {"device": (2, 0)},
    "loadtxt": {"quotechar": (1, 23)}, "genfromtxt": {"ndmin": (1, 23)}, "nanmean": {"where": (1, 22)},
    "nansum": {"where": (1, 22)}, "nanprod": {"where": (1, 22)}, "nanmax": {"where": (1, 22)},
    "nanmin": {"where": (1, 22)}, "putmask": {}, "mean": {"correction": (9, 9)}, "round": {}, "trace": {},
    "cumsum": {}, "searchsorted": {}, "apply_along_axis": {}, "geomspace": {}, "broadcast_arrays": {},
    "random.Generator.permuted": {}, "fill_diagonal": {}, "histogram": {}, "ones_like": {"device": (2, 0)},
    "zeros_like": {"device": (2, 0)}, "full_like": {"device": (2, 0)}, "empty_like": {"device": (2, 0)},
}
NP_REMOVED = set("""NaN NAN Inf PINF NINF infty Infinity PZERO NZERO float_ complex_ longfloat singlecomplex cfloat
    longcomplex clongfloat string_ unicode_ product cumproduct sometrue alltrue round_ asfarray find_common_type cast source
    lookfor who fastCopyAndTranspose set_numeric_ops mat msort safe_eval set_string_function sctype2char sctypes
    maximum_sctype obj2sctype issctype issubclass_ issubsctype byte_bounds compat disp deprecate deprecate_with_doc
    add_newdoc_ufunc add_docstring add_newdoc get_array_wrap geterrobj seterrobj nbytes recfromcsv recfromtxt
    tracemalloc_domain DataSource ComplexWarning RankWarning VisibleDeprecationWarning TooHardError AxisError
    ModuleDeprecationWarning math bool8 int0 uint0 str0 bytes0 void0 object0 int float object complex str unicode bool long
    chararray_ linalg.linalg lib.stride_tricks_ oldnumeric Tester rank in1d trapz row_stack asscalar loads
    core.numeric lib.function_base lib.index_tricks lib.twodim_base lib.arraysetops lib.shape_base lib.nanfunctions
    lib.polynomial lib.type_check lib.utils lib.ufunclike fft.helper_ random.random_integers_ alen""".split())
NP_ATTR_NEW = {"mT": (2, 0), "__array_namespace__": (2, 0)}
NP_ATTR_REMOVED = {"ptp", "itemset", "newbyteorder", "tostring"}
LINALG_NAMED = {"numpy.linalg.eigh": {"eigenvalues", "eigenvectors"}, "numpy.linalg.eig": {"eigenvalues", "eigenvectors"},
                "numpy.linalg.svd": {"U", "S", "Vh"}, "numpy.linalg.slogdet": {"sign", "logabsdet"},
                "numpy.linalg.qr": {"Q", "R"}, "numpy.unique_counts": set()}
BUILTIN_TYPES = {"int", "float", "str", "bytes", "bool", "list", "dict", "tuple", "set", "frozenset", "complex", "type",
                 "object"}


def table(t, floor, prefix=""):
    return {prefix + n: v for v, names in t.items() if v > floor for n in names.split()}


def guarded(n):
    """Under a version test, hasattr test, or a try that expects failure: the code chooses by version."""
    child = n
    for p in parents(n):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a whole function may be chosen by version at its definition
            child = p
            continue
        if isinstance(p, (ast.If, ast.IfExp)) and child is not p.test:
            t = ast.unparse(p.test)
            if "version" in t or "hasattr" in t or t.endswith("TYPE_CHECKING"):
                return True
        if isinstance(p, ast.ExceptHandler) and p.type is not None and re.search(
                r"ImportError|ModuleNotFound|AttributeError|TypeError|NameError", ast.unparse(p.type)):
            return True
        if isinstance(p, ast.BoolOp) and child is not p.values[0] and "hasattr" in ast.unparse(p.values[0]):
            return True
        child = p
    return caught(n, CATCHES | {"AttributeError", "TypeError", "NameError", "SyntaxError"})


def annotation_positions(tree):
    """Annotation expressions Python evaluates when the definition runs (no future import)."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
                if x is not None and x.annotation is not None:
                    yield x.annotation
            if n.returns is not None:
                yield n.returns
        elif isinstance(n, ast.AnnAssign):
            f = next((p for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))), None)
            if f is None or isinstance(f, ast.ClassDef):
                yield n.annotation


def looks_like_type(n):
    if isinstance(n, ast.Constant):
        return n.value is None
    if isinstance(n, ast.Name):
        return n.id in BUILTIN_TYPES
    if isinstance(n, ast.Subscript):
        return isinstance(n.value, ast.Name) and n.value.id in BUILTIN_TYPES
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        return looks_like_type(n.left) or looks_like_type(n.right)
    return False


def new_fstrings(text):
    """f-strings only Python 3.12 parses: the outer quote, a backslash or a comment inside a field."""
    if sys.version_info < (3, 12):
        return []
    out = []
    stack = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            if t.type == tokenize.FSTRING_START:
                q = t.string.lstrip("rRfFbBuU")
                if stack and any(q[0] in s for s in stack if len(s) == 1 or q == s):
                    out.append((t.start[0], "the quote of the f-string inside one of its fields"))
                stack.append(q)
            elif t.type == tokenize.FSTRING_END:
                stack.pop()
            elif stack and t.type == tokenize.STRING:
                q = t.string.lstrip("rRfFbBuU")
                q = q[:3] if q[:3] in ('"""', "'''") else q[0]
                if any(q[0] in s for s in stack if len(s) == 1 or q == s):
                    out.append((t.start[0], "the quote of the f-string inside one of its fields"))
                if "\\" in t.string:
                    out.append((t.start[0], "a backslash inside a field of an f-string"))
            elif stack and t.type == tokenize.COMMENT:
                out.append((t.start[0], "a comment inside a field of an f-string"))
            elif stack and t.type == tokenize.NL and len(stack[-1]) == 1:
                out.append((t.start[0], "a line break inside a field of an f-string"))
    except (tokenize.TokenError, SyntaxError):
        pass
    return out


def versions_of(rel, text, py, npv, own=frozenset()):
    """Findings of one file, and how many constructs were examined."""
    found, seen = [], 0
    try:
        ast.parse(text, rel, feature_version=py)
    except SyntaxError as e:
        found.append((f"{rel}:{e.lineno}", f"syntax newer than Python {py[0]}.{py[1]}: {e.msg}"))
    if py < (3, 12):
        found += [(f"{rel}:{ln}", f"{why} (Python 3.12)") for ln, why in new_fstrings(text)]
    s = Src(rel, text)
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names)
                 for n in s.tree.body)
    std = table(PY_NEW, py)
    nps = table(NP_NEW, npv, "numpy.")
    name_versions = {**std, **nps}

    def bad(n, what):
        if not guarded(n):
            found.append((f"{s.where(n)}", what))

    def named(n, d):
        v = name_versions.get(d)
        if v is not None:
            bad(n, f"{d} needs {'numpy' if d.startswith('numpy.') else 'Python'} {v[0]}.{v[1]}")
        if d.startswith("numpy.") and d[6:] in NP_REMOVED:
            bad(n, f"{d} does not exist in every supported numpy")
        elif d.startswith("numpy.") and d not in nps and gone(d):
            bad(n, f"{d} does not exist in numpy {analysing_numpy()}")

    annotated = set()
    for a in annotation_positions(s.tree):
        for n in ast.walk(a):
            annotated.add(id(n))
            if py < (3, 10) and not future and isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
                bad(n, "X | Y in an annotation that is evaluated needs Python 3.10")
    lazily = {id(x) for n in ast.walk(s.tree) if isinstance(n, ast.AnnAssign) for x in ast.walk(n.annotation)}
    linalg = {}
    for n in ast.walk(s.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and s.dotted(n.value.func) in LINALG_NAMED \
                and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            f = next((p for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef))), None)
            linalg[f, n.targets[0].id] = s.dotted(n.value.func)
    for n in ast.walk(s.tree):
        if isinstance(n, (ast.Attribute, ast.Name, ast.Call, ast.ImportFrom, ast.Import)):
            seen += 1
        if isinstance(n, (ast.Attribute, ast.Call)):
            d = s.dotted(n)
            if d:
                named(n, d)
        if isinstance(n, ast.Attribute):
            top = s.dotted(n.value) or ""
            if n.attr not in own and not top.startswith(("numpy", "precise")):
                v = PY_METHOD_NEW.get(n.attr)
                if v and v > py:
                    bad(n, f".{n.attr} needs Python {v[0]}.{v[1]}")
                v = NP_ATTR_NEW.get(n.attr)
                if v and v > npv:
                    bad(n, f".{n.attr} of an array needs numpy {v[0]}.{v[1]}")
                if n.attr in NP_ATTR_REMOVED:
                    bad(n, f".{n.attr} of an array does not exist in numpy 2")
            if npv < (1, 25):
                fn = s.dotted(n.value.func) if isinstance(n.value, ast.Call) else None
                if isinstance(n.value, ast.Name):
                    f = next((p for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef))), None)
                    fn = linalg.get((f, n.value.id))
                if n.attr in LINALG_NAMED.get(fn, ()):
                    bad(n, f"named result .{n.attr} of {fn} needs numpy 1.25")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            v = PY_BUILTIN_NEW.get(n.id)
            if v and v > py:
                bad(n, f"{n.id} needs Python {v[0]}.{v[1]}")
            d = s.alias.get(n.id)
            if d and "." in d and not isinstance(n.parent, ast.Attribute):
                named(n, d)
        if isinstance(n, ast.Import):
            for a in n.names:
                named(n, a.name)
        if isinstance(n, ast.ImportFrom) and n.module and not n.level:
            named(n, n.module)
            for a in n.names:
                named(n, f"{n.module}.{a.name}")
        if isinstance(n, ast.Call):
            d = s.dotted(n.func) or (n.func.id if isinstance(n.func, ast.Name) else None)
            kws = {}
            if d:
                kws = NP_KW_NEW.get(d[6:], {}) if d.startswith("numpy.") else PY_KW_NEW.get(d, {})
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("var", "std", "sort", "argsort", "reshape"):
                kws = {k: v for k, v in NP_KW_NEW[n.func.attr].items() if k in ("correction", "mean", "stable", "copy")}
            lim = npv if not d or d.startswith("numpy.") else py
            lib = "numpy" if lim is npv else "Python"
            for k in n.keywords:
                v = kws.get(k.arg)
                if v and v > lim:
                    bad(n, f"{d or '.' + n.func.attr}({k.arg}=) needs {lib} {v[0]}.{v[1]}")
            if d == "numpy.array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False
                                          for k in n.keywords):
                bad(n, "numpy.array(copy=False) raises in numpy 2 where a copy is needed")
            if d in ("isinstance", "issubclass") and len(n.args) == 2 and py < (3, 10) \
                    and isinstance(n.args[1], ast.BinOp) and isinstance(n.args[1].op, ast.BitOr):
                bad(n, "X | Y as a class needs Python 3.10")
        if py < (3, 10) and isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and id(n) not in annotated \
                and id(n) not in lazily and looks_like_type(n.left) and looks_like_type(n.right):
            bad(n, "X | Y of types needs Python 3.10")
        if py < (3, 11) and isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) \
                and any(isinstance(x, ast.Starred) for x in n.slice.elts):
            bare = text.splitlines()[n.slice.lineno - 1][n.slice.col_offset:n.slice.col_offset + 1] == "*" \
                or not text.splitlines()[n.slice.lineno - 1][n.slice.col_offset:].startswith("(")
            if bare:
                bad(n, "unpacking in a subscript needs Python 3.11")
    return dedup(found), seen


_np = []


def analysing_numpy():
    if not _np:
        import numpy
        _np.append(numpy)
    return _np[0].__version__


def gone(d):
    """Is this numpy name missing from the numpy 2 the analysis runs with?"""
    if not analysing_numpy().startswith("2"):
        return False
    o = _np[0]
    import importlib
    import warnings
    path = "numpy"
    for part in d.split(".")[1:]:
        path += "." + part
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                o = getattr(o, part)
                continue
            except AttributeError:
                pass
            try:
                o = importlib.import_module(path)
            except Exception:
                return isinstance(o, type(sys))
    return False


def versions(srcs, py, npv):
    own = {n.name for s in srcs for n in ast.walk(s.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    own |= {n.attr for s in srcs for n in ast.walk(s.tree) if isinstance(n, ast.Attribute)
            and isinstance(n.ctx, ast.Store)}
    out = []
    for s in srcs:
        out.append((s.rel, *versions_of(s.rel, s.text, py, npv, own)))
    return out


def typeshed(root, py):
    """Names the oldest declared Python lacks, according to the type checker's library stubs."""
    exe = shutil.which("pyright")
    if not exe:
        return None
    d = tempfile.mkdtemp(prefix="pyright")
    try:
        shutil.copytree(os.path.join(root, "precise"), os.path.join(d, "precise"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "pyrightconfig.json"), "w") as f:
            json.dump({"include": ["precise"], "typeCheckingMode": "basic"}, f)

        def errors(v):
            r = subprocess.run([exe, "--outputjson", "--pythonversion", v, "-p", d], capture_output=True, text=True,
                               timeout=300, cwd=d)
            j = json.loads(r.stdout)
            return j["summary"]["filesAnalyzed"], {
                (os.path.relpath(x["file"], d), x["range"]["start"]["line"] + 1, x["message"].split("\n")[0])
                for x in j["generalDiagnostics"] if x["severity"] == "error" and x.get("rule") in (
                    "reportAttributeAccessIssue", "reportUndefinedVariable", "reportMissingImports", "reportCallIssue")}
        n, old = errors(f"{py[0]}.{py[1]}")
        _, new = errors("3.13")
        return n, sorted(old - new)
    except Exception:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


BAD = {  # every snippet must be reported for Python 3.9 and numpy 1.21
    "match": "match x:\n    case 1:\n        pass\n", "except*": "try:\n    f()\nexcept* ValueError:\n    pass\n",
    "generic": "def f[T](x: T): pass\n", "union": "def f(x: int | None): pass\n",
    "isinstance": "isinstance(x, int | str)\n", "alias": "A = dict[str, int] | None\n",
    "zip": "list(zip(a, b, strict=True))\n", "pairwise": "from itertools import pairwise\n",
    "pairwise2": "import itertools as it\nit.pairwise(x)\n", "slots": "from dataclasses import dataclass\n"
    "@dataclass(slots=True)\nclass A:\n    x: int = 0\n", "self": "from typing import Self\n",
    "fstring": "f'{d['a']}'\n", "fstring2": "f\"{'\\n'.join(x)}\"\n", "cbrt": "import math\nmath.cbrt(2)\n",
    "bit_count": "n.bit_count()\n", "trapezoid": "import numpy as np\nnp.trapezoid(y)\n",
    "method": "import numpy as np\nnp.quantile(x, 0.5, method='lower')\n", "mT": "x.mT\n", "ptp": "x.ptp()\n",
    "float_": "import numpy as np\nnp.float_(1)\n", "NaN": "from numpy import NaN\nNaN\n",
    "named": "import numpy as np\nnp.linalg.eigh(a).eigenvalues\n",
    "named2": "import numpy as np\ndef f(a):\n    r = np.linalg.slogdet(a)\n    return r.logabsdet\n",
    "astype": "import numpy as np\nnp.astype(x, float)\n", "concat": "import numpy as np\nnp.concat([x])\n",
    "exceptions": "from numpy.exceptions import AxisError\n", "asarray": "import numpy as np\nnp.asarray(x, copy=True)\n",
    "vecdot": "import numpy as np\nnp.linalg.vecdot(x, y)\n", "product": "import numpy as np\nnp.product(x)\n",
    "bool": "import numpy as np\nx.astype(np.bool)\n", "star": "x[*i]\n", "tomllib": "import tomllib\n",
    "getattr": "import numpy as np\ngetattr(np, 'trapezoid')(y)\n", "copyfalse": "import numpy as np\nnp.array(x, copy=False)\n"}
GOOD = {  # and none of these
    "future": "from __future__ import annotations\ndef f(x: int | None) -> list[int]: pass\n",
    "local": "def f():\n    x: int | None = None\n", "bits": "a = mask | other\nb = {1} | {2}\nc = True | (x > 0)\n",
    "guard": "import sys\nif sys.version_info >= (3, 11):\n    import tomllib\n",
    "try": "try:\n    from numpy import trapezoid\nexcept ImportError:\n    from numpy import trapz as trapezoid\n",
    "walrus": "if (n := len(x)) > 1:\n    pass\n", "fstring": "f\"{d['a']}\"\nf'{x!r:>{w}}'\n",
    "numpy": "import numpy as np\nnp.linalg.eigh(a)[0]\nnp.float64(1)\nnp.quantile(x, 0.5)\nnp.nan\nnp.inf\nnp.bool_\n",
    "own": "class A:\n    def ptp(self): pass\n", "wrap": "a[(*i, 1)]\n", "zip": "list(zip(a, b))\n",
    "std": "import math, functools\nmath.lcm(1, 2)\nfunctools.lru_cache(None)\nmath.isqrt(4)\n"}


def selftest():
    """Positive and negative examples of every version rule; returns the ones decided wrongly."""
    wrong = []
    for k, t in BAD.items():
        if not versions_of("bad/" + k, t, (3, 9), (1, 21))[0]:
            wrong.append(f"missed {k}")
    for k, t in GOOD.items():
        f = versions_of("good/" + k, t, (3, 9), (1, 21), {"ptp"})[0]
        if f:
            wrong.append(f"false alarm {k}: {f}")
    return wrong


# ------------------------------------------------------------------ whole-number thresholds in the package
def thresholds(root=None):
    """Whole numbers the package compares with, clips to, slices at or names as constants: where behaviour may change
    with a size or a count."""
    root = root or H.REPO
    out = set()

    def fold(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = fold(n.operand)
            return None if v is None else -v
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Pow, ast.Add, ast.Sub, ast.LShift)):
            a, b = fold(n.left), fold(n.right)
            if a is None or b is None or abs(b) > 64 and isinstance(n.op, (ast.Pow, ast.LShift)):
                return None
            try:
                return {ast.Mult: lambda: a * b, ast.Pow: lambda: a ** b, ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.LShift: lambda: int(a) << int(b)}[type(n.op)]()
            except (OverflowError, ZeroDivisionError, ValueError):
                return None
        return None

    def collect(n):
        for c in ast.walk(n):
            v = fold(c)
            if v is not None and 4 <= abs(v) < 1e12 and float(v).is_integer():
                out.add(int(abs(v)))

    for base, dirs, files in sorted(os.walk(os.path.join(root, "precise"))):
        for fn in sorted(files):
            if not fn.endswith(".py") or fn.endswith("_model.py"):
                continue
            with open(os.path.join(base, fn), encoding="utf-8") as f:
                try:
                    tree = ast.parse(f.read())
                except SyntaxError:
                    continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Compare):
                    collect(n)
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.BitAnd)):
                    collect(n.right)
                elif isinstance(n, ast.Call):
                    f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                    if f in ("min", "max", "minimum", "maximum", "clip", "range", "islice", "deque", "lru_cache", "divmod"):
                        for a in [*n.args, *(k.value for k in n.keywords)]:
                            collect(a)
                elif isinstance(n, ast.Slice):
                    for a in (n.lower, n.upper, n.step):
                        if a is not None:
                            collect(a)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and fold(n.value) is not None:
                    collect(n.value)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    for a in [*n.args.defaults, *(d for d in n.args.kw_defaults if d is not None)]:
                        if fold(a) is not None and fold(a) > 50:
                            collect(a)
    return sorted(out)
