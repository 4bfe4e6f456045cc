"""Abstract builtins and standard library."""
from __future__ import annotations

import builtins
import importlib.util
import math
import sys

from . import dag as D
from .interp import NS, FrozenKey
from .vals import (ABSENT, AbsRaise, BoundM, Builtin, BufO, ClassMV, ClassV, DequeO, DictO, DType, FuncV, InstO, IterO,
                   ListO, ModuleV, NArr, Opaque, Phi, PropV, Ref, SetO, StaticV, SuperV, SymStr, TypeV, is_number,
                   NpFloat, NpInt, NpStr, plain)

NPNAME = {NpInt: "int64", NpFloat: "float64", NpStr: "str_"}

EXCS = ["BaseException", "Exception", "ArithmeticError", "ZeroDivisionError", "OverflowError", "FloatingPointError",
        "AssertionError", "AttributeError", "LookupError", "KeyError", "IndexError", "TypeError", "ValueError",
        "ImportError", "ModuleNotFoundError", "NameError", "UnboundLocalError", "RuntimeError", "NotImplementedError",
        "RecursionError", "StopIteration", "OSError", "FileNotFoundError", "PermissionError", "MemoryError",
        "KeyboardInterrupt", "SystemExit", "UnicodeError", "EOFError", "GeneratorExit", "Warning", "UserWarning",
        "RuntimeWarning", "DeprecationWarning", "FutureWarning", "PendingDeprecationWarning", "TimeoutError",
        "ConnectionError"]


def install(it):
    it.exc_classes = {}
    for n in EXCS:
        py = getattr(builtins, n)
        base = [it.exc_classes[b.__name__] for b in py.__bases__ if b.__name__ in it.exc_classes]
        it.exc_classes[n] = ClassV(n, base, None, None, py)
    it.exc_classes["LinAlgError"] = ClassV("LinAlgError", [it.exc_classes["ValueError"]], None, None, ValueError)
    it.exc_classes["JSONDecodeError"] = ClassV("JSONDecodeError", [it.exc_classes["ValueError"]], None, None,
                                               ValueError)
    it.exc_classes["PackageNotFoundError"] = ClassV("PackageNotFoundError", [it.exc_classes["ModuleNotFoundError"]],
                                                    None, None, ImportError)
    it.exc_classes["PicklingError"] = ClassV("PicklingError", [it.exc_classes["Exception"]], None, None, Exception)
    it.np.tab["LinAlgError"] = it.np.linalg["LinAlgError"] = it.exc_classes["LinAlgError"]
    L = Lib(it)
    it.lib = L
    it.builtins = L.builtins
    it.object_init = Builtin("object.__init__", lambda *a, **k: None)
    for n in ("external_module", "ext_attr", "exc_attr", "inst_default", "container_attr", "str_attr", "num_attr",
              "type_attr", "seq_index"):
        setattr(it, n, getattr(L, n))
    it.repr_, it.str_ = L.repr, L.str
    it.unary_invert = lambda x: ~x if isinstance(x, int) else it.und("~")
    it.roots = []


class Lib:
    def __init__(self, it):
        self.it = it
        self.mods = {}
        self.builtins = {}
        self._builtins()
        self._modules()

    def B(self, name, f, raw=False):
        it = self.it

        def g(*a, **k):
            a = tuple(it.force(x) for x in a)
            k = {n: it.force(x) for n, x in k.items()}
            for i, x in enumerate(a):
                if isinstance(x, Phi):
                    m = it.np.materialize(x) if name not in ("isinstance", "id", "type", "callable", "hasattr",
                                                             "getattr", "setattr", "deepcopy", "copy") else x
                    if isinstance(m, Phi):
                        return it.lift(lambda y: g(*a[:i], y, *a[i + 1:], **k), m)
                    a = a[:i] + (m,) + a[i + 1:]
            return f(*a, **k)
        return Builtin(name, g, raw)

    # ------------------------------------------------------------ conversion
    def int_(self, x=0, base=None):
        it = self.it
        if isinstance(x, str):
            try:
                return int(x, base) if base is not None else int(x)
            except ValueError:
                it.throw("ValueError", f"invalid literal for int(): {x!r}")
        if isinstance(x, NArr):
            if x.size != 1:
                it.throw("TypeError", "only length-1 arrays can be converted to Python scalars")
            x = it.np.cells(x)[0]
        if is_number(x):
            if isinstance(x, float) and not math.isfinite(x):
                it.throw("ValueError" if x != x else "OverflowError", "cannot convert float to integer")
            return D._unbool(D.un("int", x)) if isinstance(x, D.Node) else int(x)
        if it.isobj(x, "inst"):
            f = it.class_attr(it.obj(x).cls, "__int__") or it.class_attr(it.obj(x).cls, "__index__")
            if f is not None:
                return it.call(BoundM(x, f), [], {})
        it.throw("TypeError", "int() argument must be a string or a number")

    def float_(self, x=0.0):
        it = self.it
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                it.throw("ValueError", f"could not convert string to float: {x!r}")
        if isinstance(x, NArr):
            if x.size != 1:
                it.throw("TypeError", "only length-1 arrays can be converted to Python scalars")
            x = it.np.cells(x)[0]
        if is_number(x):
            return D.un("float", x) if isinstance(x, D.Node) else float(x)
        if it.isobj(x, "inst"):
            f = it.class_attr(it.obj(x).cls, "__float__")
            if f is not None:
                return it.call(BoundM(x, f), [], {})
        it.throw("TypeError", "float() argument must be a string or a real number")

    def str(self, v):
        it = self.it
        v = plain(it.force(v))
        if isinstance(v, str):
            return v
        if it.isobj(v, "inst"):
            o = it.obj(v)
            f = it.class_attr(o.cls, "__str__")
            if f is not None:
                return it.call(BoundM(v, f), [], {})
            if any(c.py for c in o.cls.mro):
                a = it.h.m[o.dref].d.get("args", ())
                if len(a) == 1 and isinstance(a[0], str) and o.cls.name != "KeyError":
                    return a[0]
                return SymStr([self.str(x) if not isinstance(x, Phi) else "?" for x in a]) if a else ""
        return self.repr(v)

    def repr(self, v):
        it = self.it
        v = it.force(v)
        if isinstance(v, (NpStr, NpInt, NpFloat)):
            return f"np.{NPNAME[type(v)]}({plain(v)!r})"
        if isinstance(v, (str, int, float, bool, type(None), bytes)):
            return repr(v)
        if isinstance(v, D.Node):
            return SymStr((("num", v),))
        if isinstance(v, SymStr):
            return v
        if isinstance(v, Phi):
            return SymStr((("phi", v.c.id, self.repr(v.a), self.repr(v.b)),))
        if isinstance(v, tuple):
            return self.join_repr("(", [self.repr(x) for x in v], ",)" if len(v) == 1 else ")")
        if isinstance(v, NArr):
            return SymStr(("array", v.shape) + tuple(x.id if isinstance(x, D.Node) else repr(x)
                                                     for x in it.np.cells(v)))
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.kind in ("list", "deque"):
                return self.join_repr("[", [self.repr(x) for x in it.iterate(v)], "]")
            if o.kind == "dict":
                parts = []
                for k in it.dict_keys(o):
                    a, b = self.repr(k), self.repr(o.d[it.hkey(k)])
                    parts.append(a + ": " + b if isinstance(a, str) and isinstance(b, str) else SymStr((a, ": ", b)))
                return self.join_repr("{", parts, "}")
            if o.kind == "set":
                return self.join_repr("{", [self.repr(x) for x in it.iterate(v)], "}")
            if o.kind == "inst":
                f = it.class_attr(o.cls, "__repr__")
                if f is not None:
                    return it.call(BoundM(v, f), [], {})
                return SymStr((f"<{o.cls.name} object>",))
        if isinstance(v, ClassV):
            return f"<class '{v.name}'>"
        if isinstance(v, FuncV):
            return f"<function {v.name}>"
        return SymStr((f"<{type(v).__name__}>",))

    def join_repr(self, a, parts, b):
        if all(isinstance(p, str) for p in parts):
            return a + ", ".join(parts) + b
        out = [a]
        for i, p in enumerate(parts):
            if i:
                out.append(", ")
            out.append(p)
        out.append(b)
        return SymStr(out)

    def len_(self, v):
        it = self.it
        if isinstance(v, (tuple, str, range, bytes)):
            return len(v)
        if isinstance(v, NArr):
            if not v.shape:
                it.throw("TypeError", "len() of unsized object")
            return v.shape[0]
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.kind in ("list", "deque"):
                if o.v is None:
                    it.und("length of joined list")
                return len(o.v)
            if o.kind == "dict":
                n = 0
                for x in o.d.values():
                    p = it.present(x) if x is ABSENT or isinstance(x, Phi) else True
                    if p is True:
                        n = D.add(n, 1)
                    elif p is not False:
                        n = D.add(n, D._unbool(p))
                return n
            if o.kind == "set":
                return len(o.d)
            if o.kind == "inst":
                f = it.class_attr(o.cls, "__len__")
                if f is not None:
                    return it.call(BoundM(v, f), [], {})
        if isinstance(v, NS) and "iter" in v.attrs:
            return len(v.attrs["iter"]())
        it.throw("TypeError", "object has no len()")

    # ------------------------------------------------------------ types
    def type_of(self, v, *rest, **kw):
        it = self.it
        if rest:
            name, ns = v, rest[1]
            dref = it.h.new(DictO(dict(it.obj(ns).d), "scope"), it.tag())
            bases = [b for b in it.iterate(rest[0]) if isinstance(b, ClassV)]
            return ClassV(name, bases, dref, next((b.mod for b in bases), None))
        if isinstance(v, Phi):
            return it.lift(self.type_of, v)
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.kind == "inst":
                return o.cls
            return self.builtins.get({"set": "frozenset" if o.kind == "set" and o.frozen else "set",
                                      "iter": "object"}.get(o.kind, o.kind)) or self.deque_t
        if isinstance(v, (NpInt, NpFloat, NpStr)):
            it.und(f"type of the array element {v!r}")
        for py in (bool, int, float, str, tuple, bytes, range, slice):
            if type(v) is py:
                return self.builtins[py.__name__]
        if isinstance(v, D.Node):
            return self.builtins["bool" if v.isbool else "int" if v.isint else "float"]
        if isinstance(v, NArr):
            return it.np.tab["ndarray"]
        if v is None:
            return self.none_t
        if isinstance(v, (ClassV, TypeV)):
            return self.builtins["type"]
        if isinstance(v, (FuncV, Builtin, BoundM)):
            return self.func_t
        if isinstance(v, SymStr):
            return self.builtins["str"]
        if isinstance(v, ModuleV):
            return self.module_t
        it.und(f"type of {v!r}")

    def isinstance_(self, v, t):
        it = self.it
        if isinstance(v, Phi):
            a, b = it.force(v.a), it.force(v.b)
            x, y = self.isinstance_(a, t), self.isinstance_(b, t)
            return D.sel(v.c, x, y)
        if isinstance(t, tuple):
            r = False
            for x in t:
                r = D.or_(r, self.isinstance_(v, it.force(x)))
            return r
        if isinstance(t, ClassV):
            return it.isobj(v, "inst") and t in it.obj(v).cls.mro
        if isinstance(t, DType):
            if t.code in "fs":
                return is_number(v) and not D.is_int(v)
            return False
        if isinstance(t, TypeV):
            n = t.name
            if n == "object":
                return True
            if n in ("float", "np.floating"):
                return is_number(v) and not D.is_int(v)
            if n == "int":
                return is_number(v) and D.is_int(v) and not isinstance(v, NpInt)
            if n == "np.integer":
                return isinstance(v, NpInt)
            if n == "bool":
                return is_number(v) and D.is_bool(v)
            if n in ("np.number", "generic"):
                return is_number(v) and not D.is_int(v)
            if n == "Number" or n == "Real":
                return is_number(v)
            if n == "Integral":
                return is_number(v) and D.is_int(v)
            if n == "str":
                return isinstance(v, (str, SymStr))
            if n in ("tuple", "bytes", "range", "slice"):
                return type(v).__name__ == n
            if n == "ndarray":
                return isinstance(v, NArr)
            if n == "NoneType":
                return v is None
            if n == "type":
                return isinstance(v, (ClassV, TypeV, DType))
            if n in ("function", "FunctionType"):
                return isinstance(v, FuncV)
            if n in ("Callable",):
                return self.callable_(v)
            if n == "ModuleType":
                return isinstance(v, ModuleV)
            k = {"list": ("list",), "dict": ("dict",), "set": ("set",), "frozenset": ("set",), "deque": ("deque",),
                 "OrderedDict": ("dict",), "defaultdict": ("dict",), "Mapping": ("dict",), "MutableMapping": ("dict",),
                 "Sequence": ("list",), "Iterable": ("list", "dict", "set", "deque", "iter"),
                 "Set": ("set",), "Iterator": ("iter",), "Hashable": (), "Sized": ("list", "dict", "set", "deque"),
                 "Collection": ("list", "dict", "set", "deque"), "Container": ("list", "dict", "set", "deque")}.get(n)
            if k is not None:
                if n in ("Sequence", "Iterable", "Sized", "Collection", "Container") and isinstance(
                        v, (tuple, str, range)):
                    return True
                if n in ("Iterable", "Sized", "Collection", "Container") and isinstance(v, NArr):
                    return True
                if isinstance(v, Ref):
                    o = it.obj(v)
                    if o.kind == "set" and n in ("set", "frozenset"):
                        return o.frozen == (n == "frozenset")
                    if o.kind == "dict" and n in ("OrderedDict",):
                        return o.ty == "OrderedDict"
                    if o.kind == "inst":
                        if n == "Iterable":
                            return it.class_attr(o.cls, "__iter__") is not None
                        if n == "Mapping":
                            return it.class_attr(o.cls, "keys") is not None and False
                    return o.kind in k
                return False
            it.und(f"isinstance {n}")
        if isinstance(t, Opaque):
            if t.label == "union":
                it.und("isinstance union")
            return False
        if isinstance(t, Builtin):
            return False
        it.und(f"isinstance with {t!r}")

    def issubclass_(self, c, t):
        it = self.it
        if isinstance(t, tuple):
            return any(self.issubclass_(c, x) for x in t)
        if isinstance(c, ClassV) and isinstance(t, ClassV):
            return t in c.mro
        if isinstance(c, ClassV) and isinstance(t, TypeV):
            return t.name == "object"
        if isinstance(c, TypeV) and isinstance(t, TypeV):
            return c.name == t.name or t.name == "object"
        if isinstance(c, (ClassV, TypeV)):
            return False
        it.throw("TypeError", "issubclass() arg 1 must be a class")

    def callable_(self, v):
        it = self.it
        if isinstance(v, (FuncV, Builtin, ClassV, TypeV, BoundM, DType)):
            return True
        if it.isobj(v, "inst"):
            return it.class_attr(it.obj(v).cls, "__call__") is not None
        return isinstance(v, NS) and "call" in v.attrs

    # ------------------------------------------------------------ sequence functions
    def minmax(self, op):
        it = self.it

        def f(*args, key=None, default=ABSENT):
            if len(args) == 1:
                items = it.iterate(args[0])
            else:
                items = list(args)
            if not items:
                if default is ABSENT:
                    it.throw("ValueError", f"{op}() arg is an empty sequence")
                return default
            items = [it.force(x) for x in items]
            if key is None and all(is_number(x) for x in items):
                r = items[0]
                for x in items[1:]:
                    # python keeps the first of equals and compares with < / >
                    if isinstance(r, D.Node) or isinstance(x, D.Node):
                        r = (D.fmax if op == "max" else D.fmin)(r, x)
                    else:
                        r = (x if x > r else r) if op == "max" else (x if x < r else r)
                return r
            keys = [x if key is None else it.call(key, [x], {}) for x in items]
            r, rk = items[0], keys[0]
            for x, k in zip(items[1:], keys[1:]):
                c = it.truth(it.compare(">" if op == "max" else "<", k, rk))
                d = it.decide(c)
                if d is None:
                    r, rk = it.mval(c, x, r, None), it.mval(c, k, rk, None)
                elif d:
                    r, rk = x, k
            return r
        return f

    def sorted_(self, v, key=None, reverse=False):
        it = self.it
        items = it.iterate(v)
        keys = [x if key is None else it.call(key, [x], {}) for x in items]
        rev = it.branch(reverse)
        n = len(items)
        idx = list(range(n))
        # decidable comparisons: a stable insertion sort; otherwise ranks selected by conditions
        lt = {}
        symbolic = False
        for i in range(n):
            for j in range(n):
                if i != j:
                    c = it.truth(it.compare("<", keys[i], keys[j]))
                    d = it.decide(c)
                    lt[i, j] = c if d is None else d
                    symbolic |= d is None
        if not symbolic:
            import functools

            def cmp(i, j):
                if i == j:
                    return 0
                if lt[i, j]:
                    return -1
                if lt[j, i]:
                    return 1
                return 0
            idx.sort(key=functools.cmp_to_key(cmp), reverse=bool(rev))
            return it.new_list([items[i] for i in idx])
        if rev not in (True, False):
            it.und("sorted with symbolic reverse")
        if n == 2:
            c = lt[0, 1] if rev else lt[1, 0]
            return it.new_list([it.mval(c, items[1], items[0], None), it.mval(c, items[0], items[1], None)])
        # element i's position = number of elements that come before it (stable)
        pos = []
        for i in range(n):
            p = 0
            for j in range(n):
                if i == j:
                    continue
                before = lt[j, i] if not rev else lt[i, j]
                after = lt[i, j] if not rev else lt[j, i]
                b = before if j > i else D.not_(after)
                p = D.add(p, D._unbool(b) if isinstance(b, D.Node) else int(b))
            pos.append(p)
        out = []
        for k in range(n):
            r = items[n - 1]
            for i in range(n - 2, -1, -1):
                r = it.mval(D.eq(pos[i], k), items[i], r, None) if isinstance(pos[i], D.Node) else (
                    items[i] if pos[i] == k else r)
            out.append(r)
        return it.new_list(out)

    def sum_(self, v, start=0):
        it = self.it
        r = start
        for x in it.iterate(v):
            r = it.binop("+", r, x)
        return r

    def any_(self, v):
        it = self.it
        r = False
        for x in it.iterate(v):
            r = D.or_(r, it.truth(x))
        return r

    def all_(self, v):
        it = self.it
        r = True
        for x in it.iterate(v):
            r = D.and_(r, it.truth(x))
        return r

    def zip_(self, *vs, strict=False):
        it = self.it
        ls = [it.iterate(v) if not isinstance(v, NS) or "count" not in v.attrs else None for v in vs]
        known = [x for x in ls if x is not None]
        if strict and len({len(x) for x in known}) > 1:
            it.throw("ValueError", "zip() arguments have different lengths")
        n = min(len(x) for x in known) if known else 0
        ls = [x if x is not None else [v.attrs["count"](i) for i in range(n)] for x, v in zip(ls, vs)]
        return it.new_iter([tuple(x[i] for x in ls) for i in range(n)])

    def map_(self, f, *vs):
        it = self.it
        ls = [it.iterate(v) for v in vs]
        n = min(map(len, ls))
        return it.new_iter([it.call(f, [x[i] for x in ls], {}) for i in range(n)])

    def filter_(self, f, v):
        it = self.it
        out = []
        for x in it.iterate(v):
            c = it.branch(x if f is None else it.call(f, [x], {}))
            out.append((True if c is True else c, x))
        out = [(c, x) for c, x in out if c is not False]
        if all(c is True for c, _ in out):
            return it.new_iter([x for _, x in out])
        return it.cond_list(out)

    def next_(self, v, default=ABSENT):
        it = self.it
        if it.isobj(v, "iter"):
            o = it.wobj(v.oid)
            if o.pos < 0:
                it.und("iterator consumed on one branch")
            if o.pos < len(o.items):
                o.pos += 1
                return o.items[o.pos - 1]
            if default is not ABSENT:
                return default
            it.throw("StopIteration")
        if it.isobj(v, "list"):     # a generator with undecided members is a list here
            o = it.obj(v)
            if o.v:
                return o.v[0]
            if default is not ABSENT:
                return default
            it.throw("StopIteration")
        if isinstance(v, NS) and "count" in v.attrs:
            v.attrs["n"] = v.attrs.get("n", 0) + 1
            return v.attrs["count"](v.attrs["n"] - 1)
        it.und("next")

    def iter_(self, v):
        it = self.it
        if it.isobj(v, "iter"):
            return v
        return it.new_iter(it.iterate(v))

    def enumerate_(self, v, start=0):
        it = self.it
        return it.new_iter([(D.add(start, i), x) for i, x in enumerate(it.iterate(v))])

    def range_(self, *a):
        it = self.it
        a = [it.np.cells(x)[0] if isinstance(x, NArr) and x.size == 1 else x for x in a]
        for x in a:
            if isinstance(x, D.Node):
                it.und("range of symbolic bound")
            if not isinstance(x, int):
                it.throw("TypeError", "'float' object cannot be interpreted as an integer")
        return range(*a)

    def list_(self, v=()):
        return self.it.new_list(self.it.iterate(v))

    def tuple_(self, v=()):
        return tuple(self.it.iterate(v))

    def dict_(self, v=None, **kw):
        it = self.it
        d = {}
        if v is not None:
            if it.isobj(v, "dict") or isinstance(v, NS) and "map" in v.attrs or \
                    it.isobj(v, "inst") and it.class_attr(it.obj(v).cls, "keys") is not None:
                d.update(it.mapping(v))
            else:
                for p in it.iterate(v):
                    k, x = it.iterate(p)
                    d[it.hkey(k)] = x
        d.update(kw)
        return it.new_dict(d)

    def set_(self, v=()):
        return self.it.new_set(self.it.iterate(v))

    def frozenset_(self, v=()):
        return self.it.new_set(self.it.iterate(v), True)

    def hasattr_(self, v, n):
        it = self.it
        if isinstance(v, Phi):
            a, b = v.a, v.b
            return D.sel(v.c, self.hasattr_(it.force(a), n), self.hasattr_(it.force(b), n))
        r = it.getattr(v, n, default=_MISS)
        if r is _MISS:
            return False
        if isinstance(r, Phi):
            has = lambda x: D.sel(x.c, has(x.a), has(x.b)) if isinstance(x, Phi) else x is not _MISS
            return has(r)
        return True

    def getattr_(self, v, n, default=ABSENT):
        return self.it.getattr(v, n, default)

    def round_(self, x, nd=None):
        it = self.it
        if isinstance(x, D.Node):
            if nd is None:
                return D.un("int", D.un("rint", x))
            return it.np.round(x, nd)
        return round(x, nd) if nd is not None else round(x)

    def divmod_(self, a, b):
        return (self.it.binop("//", a, b), self.it.binop("%", a, b))

    def pow_(self, a, b, m=None):
        return self.it.binop("**", a, b) if m is None else self.it.binop("%", self.it.binop("**", a, b), m)

    def abs_(self, x):
        it = self.it
        if isinstance(x, NArr):
            return it.np.ew(lambda y: D.un("abs", y), x)
        if is_number(x):
            return D.un("abs", x)
        it.throw("TypeError", "bad operand type for abs()")

    def hash_(self, v):
        it = self.it
        it.hkey(v)
        if isinstance(v, (str, bytes)) or isinstance(v, tuple):
            return it.nondet("hash")
        it.nondet("hash")
        return D.sym(f"hash:{it.oracle}:{id(v) if not isinstance(v, (int, float, str)) else v}", "data")

    def id_(self, v):
        it = self.it
        it.events.append(("nondet", "id", it.where))
        key = v.oid if isinstance(v, Ref) else v.buf if isinstance(v, NArr) else repr(v)
        return D.sym(f"id:{key}:{it.oracle}", "count", isint=True)

    def vars_(self, fr, v=ABSENT):
        if v is ABSENT:
            return self.locals_(fr)
        return self.it.getattr(v, "__dict__")

    def locals_(self, fr):
        d = self.it.h.m[fr.loc].d
        return self.it.new_dict({k: v for k, v in d.items() if v is not ABSENT})

    def globals_(self, fr):
        return Ref(fr.mod.dref)

    def dir_(self, fr, v=ABSENT):
        it = self.it
        names = set()
        if v is ABSENT:
            names |= set(it.h.m[fr.loc].d)
        elif isinstance(v, ModuleV) and v.dref is not None:
            names |= set(it.h.m[v.dref].d)
        elif isinstance(v, ClassV) or it.isobj(v, "inst"):
            c = v if isinstance(v, ClassV) else it.obj(v).cls
            for k in c.mro:
                if k.dref is not None:
                    names |= set(it.h.m[k.dref].d)
            if not isinstance(v, ClassV):
                names |= set(it.h.m[it.obj(v).dref].d)
        else:
            it.und("dir")
        return it.new_list(sorted(names))

    def print_(self, *a, **k):
        self.it.events.append(("print", None, self.it.where))

    # ------------------------------------------------------------ table
    def _builtins(self):
        it = self.it
        b = self.builtins
        T = lambda n, f: TypeV(n, self.B(n, f).fn if f else None)
        for n, f in (("int", self.int_), ("float", self.float_), ("bool", lambda x=False: it.truth(x)),
                     ("str", lambda x="": self.str(x)), ("list", self.list_), ("tuple", self.tuple_),
                     ("dict", self.dict_), ("set", self.set_), ("frozenset", self.frozenset_),
                     ("range", self.range_), ("slice", lambda *a: slice(*a)), ("type", self.type_of),
                     ("object", lambda: it.new_instance(self.object_cls)), ("bytes", None), ("complex", None),
                     ("bytearray", None), ("memoryview", None)):
            b[n] = T(n, f)
        self.object_cls = ClassV("object", [], None, None)
        self.none_t = TypeV("NoneType", lambda: None)
        self.func_t = TypeV("function", None)
        self.module_t = TypeV("ModuleType", None)
        self.deque_t = TypeV("deque", self.deque_)
        for n, f in (("len", self.len_), ("isinstance", self.isinstance_), ("issubclass", self.issubclass_),
                     ("callable", self.callable_), ("min", self.minmax("min")), ("max", self.minmax("max")),
                     ("sorted", self.sorted_), ("sum", self.sum_), ("any", self.any_), ("all", self.all_),
                     ("zip", self.zip_), ("map", self.map_), ("filter", self.filter_), ("next", self.next_),
                     ("iter", self.iter_), ("enumerate", self.enumerate_), ("hasattr", self.hasattr_),
                     ("getattr", self.getattr_), ("setattr", lambda o, n, v: it.setattr(o, n, v)),
                     ("delattr", lambda o, n: it.delattr(o, n)), ("round", self.round_), ("divmod", self.divmod_),
                     ("pow", self.pow_), ("abs", self.abs_), ("hash", self.hash_), ("id", self.id_),
                     ("repr", self.repr), ("print", self.print_),
                     ("reversed", lambda v: it.new_iter(list(reversed(it.iterate(v))))),
                     ("chr", lambda x: chr(x)), ("ord", lambda x: ord(x)), ("format", lambda v, s="": self.fmt(v, s)),
                     ("ascii", self.repr),
                     ("property", lambda fget=None, fset=None, fdel=None, doc=None: PropV(fget, fset)),
                     ("staticmethod", lambda f: StaticV(f)), ("classmethod", lambda f: ClassMV(f)),
                     ("super", lambda c, o: SuperV(c, o)),
                     ("input", lambda *a: it.nondet("input")), ("open", lambda *a, **k: self.open_(*a, **k)),
                     ("__import__", lambda n, *a, **k: it.import_module(n))):
            b[n] = self.B(n, f)
        for n, f in (("locals", self.locals_), ("globals", self.globals_), ("vars", self.vars_), ("dir", self.dir_)):
            b[n] = Builtin(n, f, True)
        b.update(it.exc_classes)
        for n in ("LinAlgError", "JSONDecodeError", "PackageNotFoundError", "PicklingError"):
            b.pop(n, None)
        b.update({"None": None, "True": True, "False": False, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
                  "__debug__": True, "__name__": "builtins"})
        b["IOError"] = b["EnvironmentError"] = it.exc_classes["OSError"]

    def open_(self, *a, **k):
        self.it.events.append(("io", "open", self.it.where))
        self.it.und("open")

    def fmt(self, v, s=""):
        if isinstance(v, (int, float, str)) and isinstance(s, str):
            return format(v, s)
        return SymStr((self.str(v),))

    def deque_(self, v=(), maxlen=None):
        it = self.it
        d = DequeO(it.iterate(v))
        d.maxlen = maxlen
        if maxlen is not None:
            d.v = d.v[-maxlen:] if maxlen else []
        return Ref(it.h.new(d, it.tag()))

    # ------------------------------------------------------------ copying protocols
    def state_of(self, v):
        """The __getstate__ value of an instance (None: default)."""
        it = self.it
        o = it.obj(v)
        f = it.class_attr(o.cls, "__getstate__")
        if f is not None:
            return it.call(BoundM(v, f), [], {})
        return Ref(o.dref)

    def deepcopy(self, v, memo=None, pickle=False):
        it = self.it
        memo = {} if not isinstance(memo, dict) else memo
        v = it.force(v)
        if isinstance(v, Phi):
            return it.lift(lambda x: self.deepcopy(x, memo, pickle), v)
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo, pickle) for x in v)
        if isinstance(v, NArr):
            k = ("a", v.buf, v.ix)
            if k not in memo:
                memo[k] = it.np.copy(v)
            return memo[k]
        if pickle and isinstance(v, FuncV):
            if "<lambda>" in v.name or v.clos:
                it.throw("PicklingError", f"Can't pickle {v.name}")
            return v
        if pickle and isinstance(v, ModuleV):
            it.throw("TypeError", "cannot pickle 'module' object")
        if isinstance(v, BoundM):
            return BoundM(self.deepcopy(v.self, memo, pickle), v.fn)
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = it.obj(v)
        if o.kind in ("list", "deque"):
            n = o.copy()
            n.v = []
            r = Ref(it.h.new(n, it.tag()))
            memo[v.oid] = r
            items = [self.deepcopy(x, memo, pickle) for x in it.iterate(v)]
            it.wobj(r.oid).v = items
            return r
        if o.kind == "dict":
            if pickle and isinstance(o.ty, tuple) and o.ty[0] == "defaultdict":
                self.deepcopy(o.ty[1], memo, pickle)
            r = it.new_dict({}, o.ty)
            memo[v.oid] = r
            d = {}
            for k, x in o.d.items():
                d[k] = ABSENT if x is ABSENT else self.deepcopy(x, memo, pickle)
            it.wobj(r.oid).d = d
            return r
        if o.kind == "set":
            return Ref(it.h.new(o.copy(), it.tag()))
        if o.kind == "iter":
            if pickle:
                it.throw("TypeError", "cannot pickle 'generator' object")
            return Ref(it.h.new(o.copy(), it.tag()))
        if o.kind == "inst":
            if not pickle:
                f = it.class_attr(o.cls, "__deepcopy__")
                if f is not None:
                    return it.call(BoundM(v, f), [it.new_dict({})], {})
            f = it.class_attr(o.cls, "__reduce__") or it.class_attr(o.cls, "__reduce_ex__")
            if f is not None:
                ex = it.class_attr(o.cls, "__reduce__") is None
                red = it.call(BoundM(v, f), [4] if ex else [], {})
                if not isinstance(red, tuple):
                    it.und("__reduce__ form")
                args = self.deepcopy(red[1], memo, pickle)
                r = it.call(red[0], list(args), {})
                memo[v.oid] = r
                if len(red) > 2 and red[2] is not None:
                    self.set_state(r, self.deepcopy(red[2], memo, pickle))
                return r
            st = self.state_of(v)
            r = it.new_instance(o.cls)
            memo[v.oid] = r
            st = self.deepcopy(st, memo, pickle)
            self.set_state(r, st)
            return r
        it.und("deepcopy")

    def set_state(self, r, st):
        it = self.it
        cls = it.obj(r).cls
        f = it.class_attr(cls, "__setstate__")
        if f is not None:
            # pickle skips __setstate__ for a falsy state
            t = it.branch(st)
            if t is not False:
                it.call(BoundM(r, f), [st], {})
            return
        if st is not None:
            it.wobj(it.obj(r).dref).d.update(it.obj(st).d)

    def copy_(self, v):
        it = self.it
        if isinstance(v, Phi):
            return it.lift(self.copy_, v)
        if isinstance(v, NArr):
            return it.np.copy(v)
        if not isinstance(v, Ref):
            return v
        o = it.obj(v)
        if o.kind == "inst":
            f = it.class_attr(o.cls, "__copy__")
            if f is not None:
                return it.call(BoundM(v, f), [], {})
            r = it.new_instance(o.cls)
            st = self.state_of(v)
            if it.isobj(st, "dict"):
                st = Ref(it.h.new(it.obj(st).copy(), it.tag()))
            self.set_state(r, st)
            return r
        return Ref(it.h.new(o.copy(), it.tag()))

    def dumps_pickle(self, v, *a, **k):
        """A pickle is a deep copy frozen at this point."""
        c = self.deepcopy_frozen(v)
        return NS("pickle", value=c, it=self.it)

    def deepcopy_frozen(self, v):
        """Data part of a pickle: instances keep (class, state)."""
        it = self.it
        memo = {}

        def go(v):
            v = it.force(v)
            if isinstance(v, Phi):
                it.und("pickle of a joined object")
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, NArr):
                k = ("a", v.buf, v.ix)
                if k not in memo:
                    memo[k] = it.np.copy(v)
                return memo[k]
            if isinstance(v, FuncV):
                if v.name == "<lambda>" or v.clos:
                    it.throw("PicklingError", f"Can't pickle local object {v.name}")
                return v
            if isinstance(v, ModuleV):
                it.throw("TypeError", "cannot pickle 'module' object")
            if isinstance(v, BoundM):
                return BoundM(go(v.self), v.fn)
            if not isinstance(v, Ref):
                return v
            if v.oid in memo:
                return memo[v.oid]
            o = it.obj(v)
            if o.kind == "inst":
                f = it.class_attr(o.cls, "__reduce__") or it.class_attr(o.cls, "__reduce_ex__")
                ns = NS("pickled", cls=o.cls)
                memo[v.oid] = ns
                if f is not None:
                    ex = it.class_attr(o.cls, "__reduce__") is None
                    red = it.call(BoundM(v, f), [4] if ex else [], {})
                    ns.attrs["red"] = tuple(go(x) for x in red)
                else:
                    ns.attrs["state"] = go(self.state_of(v))
                return ns
            if o.kind in ("list", "deque"):
                n = o.copy()
                n.v = []
                r = Ref(it.h.new(n))
                memo[v.oid] = r
                it.h.w(r.oid).v = [go(x) for x in it.iterate(v)]
                return r
            if o.kind == "dict":
                if isinstance(o.ty, tuple) and o.ty[0] == "defaultdict":
                    go(o.ty[1])
                r = it.new_dict({}, o.ty)
                memo[v.oid] = r
                it.h.w(r.oid).d = {k: (x if x is ABSENT else go(x)) for k, x in o.d.items()}
                return r
            if o.kind == "set":
                return Ref(it.h.new(o.copy()))
            it.throw("TypeError", "cannot pickle 'generator' object")
        return go(v)

    def loads_pickle(self, p, *a, **k):
        it = self.it
        if not (isinstance(p, NS) and p.label == "pickle"):
            it.und("pickle.loads of unknown data")
        memo = {}

        def go(v):
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, NArr):
                k = ("a", v.buf, v.ix)
                if k not in memo:
                    memo[k] = it.np.copy(v)
                return memo[k]
            if isinstance(v, BoundM):
                return BoundM(go(v.self), v.fn)
            if isinstance(v, NS) and v.label == "pickled":
                if id(v) in memo:
                    return memo[id(v)]
                if "red" in v.attrs:
                    red = v.attrs["red"]
                    r = it.call(red[0], list(go(red[1])), {})
                    memo[id(v)] = r
                    if len(red) > 2 and red[2] is not None:
                        self.set_state(r, go(red[2]))
                    return r
                r = it.new_instance(v.attrs["cls"])
                memo[id(v)] = r
                self.set_state(r, go(v.attrs["state"]))
                return r
            if not isinstance(v, Ref):
                return v
            if v.oid in memo:
                return memo[v.oid]
            o = it.obj(v)
            n = o.copy()
            r = Ref(it.h.new(n))
            memo[v.oid] = r
            if o.kind in ("list", "deque"):
                it.h.w(r.oid).v = [go(x) for x in o.v]
            elif o.kind == "dict":
                it.h.w(r.oid).d = {k: (x if x is ABSENT else go(x)) for k, x in o.d.items()}
            return r
        return go(p.attrs["value"])

    def to_json(self, v):
        """json.loads(json.dumps(v)) as one conversion; raises like json.dumps."""
        it = self.it
        v = it.force(v)
        if isinstance(v, Phi):
            return it.lift(self.to_json, v)
        if isinstance(v, NpInt):
            it.throw("TypeError", "Object of type int64 is not JSON serializable")
        v = plain(v)
        if v is None or is_number(v) or isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, tuple):
            return it.new_list([self.to_json(x) for x in v])
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.kind == "list":
                return it.new_list([self.to_json(x) for x in it.iterate(v)])
            if o.kind == "dict":
                d = {}
                for k in it.dict_keys(o):
                    kk = k
                    if isinstance(k, NpInt):
                        it.throw("TypeError", "keys must be str, int, float, bool or None, not int64")
                    if isinstance(k, bool) or k is None:
                        kk = {True: "true", False: "false", None: "null"}[k]
                    elif isinstance(k, (int, float)):
                        kk = str(k)
                    elif not isinstance(k, str):
                        it.throw("TypeError", "keys must be str, int, float, bool or None")
                    d[kk] = self.to_json(o.d[it.hkey(k)])
                return it.new_dict(d)
        it.throw("TypeError", "Object is not JSON serializable")

    # ------------------------------------------------------------ attributes
    def exc_attr(self, v, o, name):
        it = self.it
        d = it.h.m[o.dref].d
        if name == "args":
            return d.get("args", ())
        if name == "name":
            return None
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
        if name in ("with_traceback", "add_note"):
            return Builtin(name, lambda *a: v)
        return ABSENT

    def inst_default(self, v, o, name):
        it = self.it
        if name == "__getstate__":
            return Builtin(name, lambda: Ref(o.dref))
        if name in ("__repr__", "__str__"):
            return Builtin(name, lambda: self.repr(v))
        if name == "__eq__":
            return Builtin(name, lambda x: x == v)
        if name == "__hash__":
            return Builtin(name, lambda: self.hash_(v))
        if name == "__setattr__":
            return Builtin(name, lambda n, x: it.raw_setattr(v, n, x))
        if name == "__init__":
            return it.object_init
        if name == "__module__":
            return o.cls.mod.name if o.cls.mod else "builtins"
        if name == "__doc__":
            return None
        if name in ("__reduce__", "__reduce_ex__", "__sizeof__", "__format__", "__ne__"):
            it.und(name)
        return ABSENT

    def container_attr(self, v, o, name):
        it = self.it
        m = getattr(self, f"m_{o.kind}_{name}", None)
        if m is None and o.kind == "deque":
            m = getattr(self, f"m_list_{name}", None)
        if m is not None:
            def f(*a, **k):
                a = [it.force(x) for x in a]
                if name != "append" and it.ragged(v):
                    return it.by_length(v, lambda: m(v, *a, **k))
                return m(v, *a, **k)
            return Builtin(name, f)
        if name == "maxlen" and o.kind == "deque":
            return o.maxlen
        if name == "__class__":
            return self.type_of(v)
        if name in ("__len__",):
            return Builtin(name, lambda: self.len_(v))
        if name == "__getitem__":
            return Builtin(name, lambda i: it.getitem(v, i))
        if name == "__setitem__":
            return Builtin(name, lambda i, x: it.setitem(v, i, x))
        if name == "__contains__":
            return Builtin(name, lambda x: it.contains(v, x))
        if name == "__iter__":
            return Builtin(name, lambda: it.new_iter(it.iterate(v)))
        if hasattr({"list": list, "dict": dict, "set": set, "deque": __import__("collections").deque,
                    "iter": object, "buf": object}[o.kind], name):
            it.und(f"{o.kind}.{name}")
        it.throw("AttributeError", f"{o.kind!r} object has no attribute {name!r}")

    # list
    def m_list_append(self, v, x):
        it = self.it
        if it.ragged(v):
            w = it.wobj(v.oid)
            w.alts = tuple((c, xs + [x]) for c, xs in w.alts)
            return
        w = it.wobj(v.oid)
        if w.v is None:
            it.und("append to list of unknown length")
        w.v.append(x)
        if w.kind == "deque" and w.maxlen is not None and len(w.v) > w.maxlen:
            del w.v[0]

    def m_deque_appendleft(self, v, x):
        w = self.it.wobj(v.oid)
        w.v.insert(0, x)
        if w.maxlen is not None and len(w.v) > w.maxlen:
            del w.v[-1]

    def m_deque_popleft(self, v):
        return self.m_list_pop(v, 0)

    def m_list_extend(self, v, x):
        items = self.it.iterate(x)
        w = self.it.wobj(v.oid)
        w.v.extend(items)
        if w.kind == "deque" and w.maxlen is not None:
            w.v = w.v[-w.maxlen:]

    def m_list_insert(self, v, i, x):
        self.it.wobj(v.oid).v.insert(i, x)

    def m_list_pop(self, v, i=-1):
        it = self.it
        w = it.wobj(v.oid)
        if isinstance(i, D.Node):
            it.und("pop at symbolic index")
        if not w.v or not -len(w.v) <= i < len(w.v):
            it.throw("IndexError", "pop index out of range")
        return w.v.pop(i)

    def m_list_remove(self, v, x):
        it = self.it
        for k, y in enumerate(it.iterate(v)):
            d = it.decide(it.truth(it.eq(y, x)))
            if d is None:
                it.und("remove of undecided element")
            if d:
                del it.wobj(v.oid).v[k]
                return
        it.throw("ValueError", "list.remove(x): x not in list")

    def m_list_clear(self, v):
        self.it.wobj(v.oid).v = []

    def m_list_copy(self, v):
        return self.it.new_list(self.it.iterate(v))

    def m_list_index(self, v, x, *a):
        return self.seq_index(self.it.iterate(v), x)

    def m_list_count(self, v, x):
        it = self.it
        r = 0
        for y in it.iterate(v):
            t = it.truth(it.eq(y, x))
            r = D.add(r, D._unbool(t) if isinstance(t, D.Node) else int(t))
        return r

    def m_list_sort(self, v, key=None, reverse=False):
        r = self.sorted_(v, key, reverse)
        self.it.wobj(v.oid).v = list(self.it.obj(r).v)

    def m_list_reverse(self, v):
        self.it.wobj(v.oid).v.reverse()

    def seq_index(self, items, x):
        it = self.it
        for k, y in enumerate(items):
            d = it.decide(it.truth(it.eq(y, x)))
            if d is None:
                it.und("index of undecided element")
            if d:
                return k
        it.throw("ValueError", "x is not in sequence")

    # dict
    def live(self, v):
        it = self.it
        o = it.obj(v)
        return [(k, it.force(o.d[it.hkey(k)])) for k in it.dict_keys(o)]

    def m_dict_keys(self, v):
        it = self.it
        return NS("keys", iter=lambda: [k for k, _ in self.live(v)], of=v)

    def m_dict_values(self, v):
        return NS("values", iter=lambda: [x for _, x in self.live(v)], of=v)

    def m_dict_items(self, v):
        return NS("items", iter=lambda: [(k, x) for k, x in self.live(v)], of=v)

    def m_dict_get(self, v, k, default=None):
        it = self.it
        o = it.obj(v)
        if isinstance(k, Phi):
            return it.lift(lambda x: self.m_dict_get(v, x, default), k)
        kk = it.hkey(k)
        if kk not in o.d:
            return default
        x = it.force(o.d[kk])

        def rep(x):
            if x is ABSENT:
                return default
            if isinstance(x, Phi):
                a, b = rep(x.a), rep(x.b)
                return x if a is x.a and b is x.b else it.mval(x.c, a, b, None)
            return x
        return rep(x)

    def m_dict_pop(self, v, k, default=ABSENT):
        it = self.it
        o = it.obj(v)
        kk = it.hkey(k)
        if kk in o.d and o.d[kk] is not ABSENT:
            x = it.getitem(v, k) if default is ABSENT else self.m_dict_get(v, k, default)
            del it.wobj(v.oid).d[kk]
            return x
        if default is ABSENT:
            it.throw("KeyError", k)
        return default

    def m_dict_popitem(self, v, last=True):
        it = self.it
        items = self.live(v)
        if not items:
            it.throw("KeyError", "popitem(): dictionary is empty")
        k, x = items[-1 if last else 0]
        del it.wobj(v.oid).d[it.hkey(k)]
        return (k, x)

    def m_dict_move_to_end(self, v, k, last=True):
        d = self.it.wobj(v.oid).d
        x = d.pop(k)
        if last:
            d[k] = x
        else:
            rest = dict(d)
            d.clear()
            d[k] = x
            d.update(rest)

    def m_dict_setdefault(self, v, k, default=None):
        it = self.it
        if it.branch(it.contains(v, k)) is True:
            return it.getitem(v, k)
        if it.branch(it.contains(v, k)) is not False:
            it.und("setdefault with undecided membership")
        it.setitem(v, k, default)
        return default

    def m_dict_update(self, v, *a, **kw):
        it = self.it
        d = {}
        if a:
            d.update(it.obj(self.dict_(a[0])).d)
        d.update(kw)
        w = it.wobj(v.oid).d
        for k, x in d.items():
            if k in w and it.force(w[k]) is ABSENT:
                del w[k]
            if isinstance(x, Phi) and it.decide(it.present(x)) is not True:
                x = it.mval(it.present(x), it.strip_absent(x), w.get(k, ABSENT), None)
            w[k] = x

    def m_dict_clear(self, v):
        self.it.wobj(v.oid).d = {}

    def m_dict_copy(self, v):
        o = self.it.obj(v)
        return self.it.new_dict(o.d, o.ty if o.ty != "scope" else "dict")

    def m_dict_fromkeys(self, v, ks, x=None):
        return self.it.new_dict({self.it.hkey(k): x for k in self.it.iterate(ks)})

    # set
    def m_set_add(self, v, x):
        self.it.wobj(v.oid).d[self.it.hkey(x)] = x

    def m_set_discard(self, v, x):
        self.it.wobj(v.oid).d.pop(self.it.hkey(x), None)

    def m_set_remove(self, v, x):
        it = self.it
        k = it.hkey(x)
        if k not in it.obj(v).d:
            it.throw("KeyError", x)
        del it.wobj(v.oid).d[k]

    def m_set_pop(self, v):
        it = self.it
        items = it.iterate(v)
        if not items:
            it.throw("KeyError", "pop from an empty set")
        it.wobj(v.oid).d.pop(it.hkey(items[0]))
        return items[0]

    def m_set_clear(self, v):
        self.it.wobj(v.oid).d = {}

    def m_set_copy(self, v):
        return Ref(self.it.h.new(self.it.obj(v).copy(), self.it.tag()))

    def m_set_update(self, v, *xs):
        for x in xs:
            for y in self.it.iterate(x):
                self.m_set_add(v, y)

    def ks(self, x):
        return {self.it.hkey(k) for k in self.it.iterate(x)}

    def m_set_issubset(self, v, x):
        return set(self.it.obj(v).d) <= self.ks(x)

    def m_set_issuperset(self, v, x):
        return set(self.it.obj(v).d) >= self.ks(x)

    def m_set_isdisjoint(self, v, x):
        return not (set(self.it.obj(v).d) & self.ks(x))

    def _setop(self, v, xs, op):
        it = self.it
        r = v
        for x in xs:
            o = it.obj(r)
            r = it.set_op(op, o, it.obj(self.set_(x)))
        return r if xs else self.m_set_copy(v)

    def m_set_union(self, v, *xs):
        return self._setop(v, xs, "|")

    def m_set_intersection(self, v, *xs):
        return self._setop(v, xs, "&")

    def m_set_difference(self, v, *xs):
        return self._setop(v, xs, "-")

    def m_set_symmetric_difference(self, v, x):
        return self._setop(v, (x,), "^")

    def m_set_difference_update(self, v, x):
        ks = self.ks(x)
        w = self.it.wobj(v.oid)
        w.d = {k: y for k, y in w.d.items() if k not in ks}

    def m_set_intersection_update(self, v, x):
        ks = self.ks(x)
        w = self.it.wobj(v.oid)
        w.d = {k: y for k, y in w.d.items() if k in ks}

    # iterators
    def m_iter___next__(self, v):
        return self.next_(v)

    def m_iter_close(self, v):
        return None

    # strings
    def str_attr(self, s, name):
        it = self.it
        if not hasattr(s, name):
            it.throw("AttributeError", f"'str' object has no attribute {name!r}")
        if name == "join":
            def j(v):
                parts = [it.force(x) for x in it.iterate(v)]
                if all(isinstance(p, str) for p in parts):
                    return s.join(parts)
                if any(not isinstance(p, (str, SymStr)) for p in parts):
                    it.throw("TypeError", "sequence item: expected str instance")
                return SymStr([y for i, p in enumerate(parts) for y in ((s, p) if i else (p,))])
            return Builtin(name, j)
        if name == "format":
            def f(*a, **k):
                a = [it.force(x) for x in a]
                if all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
                    return s.format(*a, **k)
                return SymStr([s] + [self.str(x) for x in a])
            return Builtin(name, f)

        def m(*a, **k):
            a = [it.force(x) for x in a]
            a = [tuple(x) if isinstance(x, tuple) else x for x in a]
            if any(isinstance(x, (Ref, D.Node, SymStr)) for x in a):
                it.und(f"str.{name}")
            r = getattr(s, name)(*a, **k)
            return it.new_list(r) if isinstance(r, list) else r
        return Builtin(name, m)

    def num_attr(self, v, name):
        it = self.it
        if name == "shape":
            return ()
        if name in ("ndim",):
            return 0
        if name == "size":
            return 1
        if name in ("T", "real"):
            return v
        if name == "imag":
            return 0.0
        if name == "dtype":
            return DType("b" if D.is_bool(v) else "i" if D.is_int(v) else "f")
        if name in ("item", "tolist", "copy", "conj", "conjugate", "sum", "mean", "max", "min", "__float__", "squeeze",
                    "__copy__"):
            return Builtin(name, lambda *a, **k: v)
        if name == "__class__":
            return self.type_of(v)
        if name == "astype":
            return Builtin(name, lambda d, **k: it.np.dtype_call(DType(it.np.dtcode(d)), v))
        if name == "is_integer":
            return Builtin(name, lambda: D.eq(D.un("floor", v), v))
        if name in ("any", "all"):
            return Builtin(name, lambda *a: D.truth(v))
        if name in ("ravel", "reshape", "flatten"):
            return Builtin(name, lambda *a: it.np.getattr_(v, name, a) if False else
                           it.np.reposition(lambda p: p.reshape(a[0] if len(a) == 1 else a or -1), v))
        if name == "clip":
            return Builtin(name, lambda *a, **k: it.np.clip(v, *a, **k))
        if name == "round":
            return Builtin(name, lambda d=0: self.round_(v, d))
        it.throw("AttributeError", f"'float' object has no attribute {name!r}")

    def type_attr(self, t, name):
        it = self.it
        if name in ("__name__", "__qualname__"):
            return t.name
        if t.name == "dict" and name == "fromkeys":
            return Builtin(name, lambda ks, x=None: it.new_dict({it.hkey(k): x for k in it.iterate(ks)}))
        if t.name == "object":
            if name == "__new__":
                return Builtin(name, lambda cls, *a, **k: it.new_instance(cls))
            if name == "__setattr__":
                return Builtin(name, lambda o, n, x: it.raw_setattr(o, n, x))
            if name == "__init__":
                return it.object_init
            if name == "__getattribute__":
                return Builtin(name, lambda o, n: it.getattr(o, n))
        if t.name == "type" and name == "__call__":
            return Builtin(name, lambda cls, *a, **k: it.instantiate(cls, a, k))
        if name == "__module__":
            return "builtins"
        if hasattr(builtins, t.name):
            return Builtin(f"{t.name}.{name}", lambda o, *a, **k: it.call(it.getattr(o, name), list(a), k))
        it.und(f"attribute {name} of type {t.name}")

    # ------------------------------------------------------------ modules
    def external_module(self, name):
        if name in ("numpy", "numpy.linalg", "numpy.random", "numpy.typing") or name in self.mods:
            top = name.split(".")[0]
            self.it.extmods.setdefault(top, []).append((self.it.where, self.it.loading))
            return ModuleV(name, None)
        top = name.split(".")[0]
        if top in sys.stdlib_module_names or top == "numpy" and importlib.util.find_spec(name) is not None:
            return ModuleV(name, None)          # exists, but none of its members is modelled
        return None

    def ext_attr(self, m, name):
        it = self.it
        if m.name == "numpy":
            t = it.np.tab
        elif m.name == "numpy.linalg":
            t = it.np.linalg
        elif m.name == "numpy.random":
            t = it.np.random
        else:
            t = self.mods.get(m.name)
        if t is not None and name in t:
            return t[name]
        if f"{m.name}.{name}" in self.mods:
            return ModuleV(f"{m.name}.{name}", None)
        if m.name == "numpy.typing" or m.name in ("typing", "typing_extensions", "collections.abc"):
            return Opaque(f"{m.name}.{name}")
        if name == "__name__":
            return m.name
        if name == "__version__":
            return "0"
        if m.name.startswith("numpy"):
            import numpy as np
            obj = {"numpy": np, "numpy.linalg": np.linalg, "numpy.random": np.random}.get(m.name)
            if obj is not None and not hasattr(obj, name):
                it.throw("AttributeError", f"module {m.name!r} has no attribute {name!r}")
        it.und(f"{m.name}.{name}")

    def _modules(self):
        it = self.it
        B = self.B
        n2 = lambda f: (lambda x: D.un(f, self.float_(x)))
        def mfloor(f):
            def g(x):
                x = self.float_(x)
                if isinstance(x, float):
                    if not math.isfinite(x):
                        it.throw("OverflowError", "cannot convert float infinity to integer")
                    return getattr(math, f)(x)
                return D.un(f, x)
            return g

        def msqrt(x):
            x = self.float_(x)
            if isinstance(x, float):
                if x < 0:
                    it.throw("ValueError", "math domain error")
                return math.sqrt(x)
            return D.un("sqrt", x)

        def mlog(x, base=None):
            x = self.float_(x)
            if isinstance(x, float):
                if x <= 0:
                    it.throw("ValueError", "math domain error")
            r = D.un("log", x)
            return r if base is None else D.div(r, D.un("log", self.float_(base)))
        mt = {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "tau": math.tau,
              "sqrt": B("sqrt", msqrt), "log": B("log", mlog)}
        for f in ("exp", "sin", "cos", "tanh", "log1p", "expm1", "log2", "log10"):
            mt[f] = B(f, n2(f))
        mt["atan"] = B("atan", n2("atan"))
        mt["fabs"] = B("fabs", n2("abs"))
        for f in ("ceil", "floor", "trunc"):
            mt[f] = B(f, mfloor(f))
        mt["isnan"] = B("isnan", lambda x: _nm().isnan(self.float_(x)))
        mt["isfinite"] = B("isfinite", lambda x: _nm().isfinite(self.float_(x)))
        mt["isinf"] = B("isinf", lambda x: D.and_(D.not_(_nm().isfinite(self.float_(x))), D.not_(_nm().isnan(x))))
        mt["pow"] = B("pow", lambda a, b: D.power(self.float_(a), self.float_(b)))
        mt["hypot"] = B("hypot", lambda *a: D.un("sqrt", self.sum_(tuple(D.mul(x, x) for x in a), 0.0)))
        mt["fsum"] = B("fsum", lambda v: self.sum_(v, 0.0))
        mt["prod"] = B("prod", lambda v: _fold(it, "*", it.iterate(v), 1))
        mt["copysign"] = B("copysign", lambda a, b: D.sel(D.lt(b, 0), D.neg(D.un("abs", a)), D.un("abs", a)))
        mt["isclose"] = B("isclose", lambda a, b, rel_tol=1e-9, abs_tol=0.0: D.le(
            D.un("abs", D.sub(a, b)), D.fmax(D.mul(rel_tol, D.fmax(D.un("abs", a), D.un("abs", b))), abs_tol)))
        mt["comb"] = B("comb", lambda n, k: math.comb(n, k))
        mt["factorial"] = B("factorial", lambda n: math.factorial(n))
        M = self.mods
        M["math"] = mt
        M["__future__"] = {}
        M["typing"] = {"TYPE_CHECKING": False, "cast": B("cast", lambda t, v: v),
                       "NamedTuple": Opaque("NamedTuple"),
                       "TypeVar": B("TypeVar", lambda *a, **k: Opaque("TypeVar")),
                       "overload": B("overload", lambda f: f), "final": B("final", lambda f: f),
                       "runtime_checkable": B("rc", lambda f: f), "no_type_check": B("ntc", lambda f: f)}
        M["typing_extensions"] = M["typing"]
        M["types"] = {"ModuleType": self.module_t, "FunctionType": self.func_t, "NoneType": self.none_t,
                      "SimpleNamespace": B("SimpleNamespace", self.simple_ns),
                      "MappingProxyType": B("MappingProxyType", self.mapping_proxy),
                      "MethodType": B("MethodType", lambda f, o: BoundM(o, f))}
        M["inspect"] = {"signature": B("signature", self.signature), "Parameter": NS(
            "Parameter", empty=Opaque("empty"), POSITIONAL_OR_KEYWORD=1, KEYWORD_ONLY=3, VAR_POSITIONAL=2,
            VAR_KEYWORD=4, POSITIONAL_ONLY=0), "isclass": B("isclass", lambda v: isinstance(v, (ClassV, TypeV))),
            "getmembers": B("getmembers", lambda *a: it.und("getmembers")),
            "isfunction": B("isfunction", lambda v: isinstance(v, FuncV)),
            "getfullargspec": B("getfullargspec", self.argspec)}
        def version(n):
            return Opaque("version")
        M["importlib"] = {"import_module": B("import_module", lambda n, p=None: it.import_module(n))}
        M["importlib.metadata"] = {"version": B("version", version),
                                   "PackageNotFoundError": it.exc_classes["PackageNotFoundError"]}
        abc = {n: TypeV(n, None) for n in ("Mapping", "MutableMapping", "Sequence", "Iterable", "Set", "Callable",
                                           "Iterator", "Hashable", "Sized", "Collection", "Container")}
        M["collections.abc"] = abc
        M["collections"] = {"OrderedDict": TypeV("OrderedDict", lambda *a, **k: self.dict_(*a, **k)),
                            "defaultdict": TypeV("defaultdict", self.defaultdict), "deque": self.deque_t,
                            "Counter": B("Counter", self.counter), "namedtuple": B("namedtuple",
                                                                                  lambda *a, **k: it.und("namedtuple")),
                            "ChainMap": B("ChainMap", lambda *a: it.und("ChainMap")), "abc": ModuleV("collections.abc",
                                                                                                   None)}
        M["copy"] = {"deepcopy": B("deepcopy", lambda v, memo=None: self.deepcopy(v)), "copy": B("copy", self.copy_)}
        M["pickle"] = {"dumps": B("dumps", self.dumps_pickle), "loads": B("loads", self.loads_pickle),
                       "HIGHEST_PROTOCOL": 5, "PicklingError": it.exc_classes["PicklingError"]}
        M["json"] = {"dumps": B("dumps", lambda v, **k: NS("json", value=self.to_json(v))),
                     "loads": B("loads", lambda p, **k: self.to_json(p.attrs["value"]) if isinstance(p, NS) else
                                self.json_loads(p)),
                     "JSONDecodeError": it.exc_classes["JSONDecodeError"]}
        M["itertools"] = {"chain": NSCall(self, "chain", lambda *v: it.new_iter([x for y in v for x in it.iterate(y)]),
                                          from_iterable=B("from_iterable", lambda v: it.new_iter(
                                              [x for y in it.iterate(v) for x in it.iterate(y)]))),
                          "product": B("product", lambda *v, repeat=1: it.new_iter(list(__import__(
                              "itertools").product(*[it.iterate(y) for y in v], repeat=repeat)))),
                          "combinations": B("combinations", lambda v, k: it.new_iter(list(__import__(
                              "itertools").combinations(it.iterate(v), k)))),
                          "combinations_with_replacement": B("cwr", lambda v, k: it.new_iter(list(__import__(
                              "itertools").combinations_with_replacement(it.iterate(v), k)))),
                          "permutations": B("permutations", lambda v, k=None: it.new_iter(list(__import__(
                              "itertools").permutations(it.iterate(v), k)))),
                          "islice": B("islice", lambda v, *a: it.new_iter(it.iterate(v)[slice(*a)])),
                          "accumulate": B("accumulate", self.accumulate),
                          "repeat": B("repeat", lambda v, n=None: it.new_iter([v] * n) if n is not None else NS(
                              "repeat", count=lambda i: v)),
                          "count": B("count", lambda s=0, step=1: NS("count", count=lambda i: s + step * i)),
                          "starmap": B("starmap", lambda f, v: it.new_iter(
                              [it.call(f, list(it.iterate(a)), {}) for a in it.iterate(v)])),
                          "pairwise": B("pairwise", lambda v: (lambda x: it.new_iter(list(zip(x, x[1:]))))(
                              it.iterate(v))),
                          "zip_longest": B("zip_longest", lambda *v, fillvalue=None: it.new_iter(list(__import__(
                              "itertools").zip_longest(*[it.iterate(y) for y in v], fillvalue=fillvalue)))),
                          "compress": B("compress", lambda a, b: it.und("compress")),
                          "takewhile": B("takewhile", lambda a, b: it.und("takewhile"))}
        M["functools"] = {"partial": B("partial", self.partial), "reduce": B("reduce", self.reduce_),
                          "lru_cache": B("lru_cache", self.lru_cache), "cache": B("cache", lambda f: self.lru_cache(f)),
                          "cached_property": B("cached_property", lambda f: PropV(f, None, True)),
                          "wraps": B("wraps", lambda f, *a, **k: B("wrap", lambda g: g)),
                          "total_ordering": B("total_ordering", lambda c: c),
                          "cmp_to_key": B("cmp_to_key", lambda f: it.und("cmp_to_key")),
                          "singledispatch": B("singledispatch", lambda f: it.und("singledispatch"))}
        M["abc"] = {"ABC": TypeV("object", None), "abstractmethod": B("abstractmethod", lambda f: f),
                    "ABCMeta": Opaque("ABCMeta")}
        M["dataclasses"] = {"dataclass": B("dataclass", self.dataclass), "field": B("field", self.dc_field),
                            "replace": B("replace", lambda *a, **k: it.und("dataclasses.replace")),
                            "asdict": B("asdict", lambda o: self.deepcopy(it.getattr(o, "__dict__")))}
        M["warnings"] = {"warn": B("warn", lambda *a, **k: None),
                         "catch_warnings": B("catch_warnings", lambda **k: NS("cw")),
                         "simplefilter": B("simplefilter", lambda *a, **k: it.events.append(
                             ("global-config", "warnings.simplefilter", it.where))),
                         "filterwarnings": B("filterwarnings", lambda *a, **k: it.events.append(
                             ("global-config", "warnings.filterwarnings", it.where)))}
        ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "matmul": "@", "pow": "**", "floordiv": "//",
               "mod": "%"}
        M["operator"] = {n: B(n, lambda a, b, o=o: it.binop(o, a, b)) for n, o in ops.items()}
        M["operator"].update({n: B(n, lambda a, b, o=o: it.compare(o, a, b)) for n, o in
                              (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!="))})
        M["operator"].update({"neg": B("neg", lambda a: it.unary(__import__("ast").USub, a)),
                              "itemgetter": B("itemgetter", lambda *k: B("ig", lambda v: it.getitem(v, k[0]) if len(
                                  k) == 1 else tuple(it.getitem(v, x) for x in k))),
                              "attrgetter": B("attrgetter", lambda *k: B("ag", lambda v: self.attrget(v, k[0]) if len(
                                  k) == 1 else tuple(self.attrget(v, x) for x in k))),
                              "methodcaller": B("methodcaller", lambda n, *a, **k: B("mc", lambda v: it.call(
                                  it.getattr(v, n), list(a), k))),
                              "contains": B("contains", lambda c, x: it.contains(c, x)),
                              "getitem": B("getitem", lambda c, x: it.getitem(c, x)),
                              "index": B("index", lambda x: x)})
        M["numbers"] = {n: TypeV(n, None) for n in ("Number", "Real", "Integral")}
        M["contextlib"] = {"suppress": B("suppress", lambda *t: NS("suppress", types=list(t))),
                           "nullcontext": B("nullcontext", lambda v=None: NS("nullcontext")),
                           "contextmanager": B("contextmanager", lambda f: it.und("contextmanager"))}
        nd = lambda w: B(w, lambda *a, **k: it.nondet(w))
        M["time"] = {n: nd("time." + n) for n in ("time", "perf_counter", "monotonic", "process_time", "time_ns",
                                                  "perf_counter_ns", "monotonic_ns")}
        M["time"]["sleep"] = B("sleep", lambda *a: None)
        M["random"] = {n: nd("random." + n) for n in ("random", "uniform", "gauss", "randint", "choice", "shuffle",
                                                      "normalvariate", "randrange", "sample")}
        M["random"]["seed"] = B("seed", lambda *a: it.events.append(("global-config", "random.seed", it.where)))
        M["secrets"] = {n: nd("secrets." + n) for n in ("randbelow", "token_hex", "randbits")}
        M["uuid"] = {n: nd("uuid." + n) for n in ("uuid4", "uuid1")}
        M["os"] = {"environ": NS("environ", get=B("get", lambda k, d=None: self.env(k, d)), getitem=lambda k: self.env(
            k, None)), "getenv": B("getenv", lambda k, d=None: self.env(k, d)), "getpid": nd("os.getpid"),
            "urandom": nd("os.urandom"), "path": ModuleV("os.path", None), "cpu_count": nd("os.cpu_count"),
            "getcwd": nd("os.getcwd")}
        M["os.path"] = {"exists": nd("os.path.exists"), "join": B("join", lambda *a: "/".join(a)),
                        "dirname": B("dirname", lambda a: a.rpartition("/")[0] if isinstance(a, str) else a),
                        "isfile": nd("os.path.isfile")}
        M["sys"] = {"version_info": (3, 12, 0), "maxsize": 2 ** 63 - 1, "modules": NS("modules", getitem=lambda k: it.und(
            "sys.modules")), "float_info": NS("float_info", eps=2.220446049250313e-16, max=1.79e308, min=2.2e-308),
            "platform": nd("sys.platform"), "getsizeof": B("getsizeof", lambda v: it.und("getsizeof"))}
        M["weakref"] = {n: B(n, lambda *a: it.und("weakref")) for n in ("ref", "WeakKeyDictionary",
                                                                      "WeakValueDictionary", "proxy")}
        M["logging"] = {"getLogger": B("getLogger", lambda *a: NS("logger", **{m: B(m, lambda *a, **k: None) for m in (
            "debug", "info", "warning", "error", "exception")})), "DEBUG": 10, "INFO": 20}
        M["threading"] = {"Lock": B("Lock", lambda: NS("lock")), "RLock": B("RLock", lambda: NS("lock")),
                          "local": B("local", lambda: it.und("threading.local"))}
        M["datetime"] = {"datetime": NS("datetime", now=nd("datetime.now"), utcnow=nd("datetime.utcnow"))}
        M["string"] = {}
        M["re"] = {}
        M["enum"] = {"Enum": Opaque("Enum")}
        M["bisect"] = {n: B(n, lambda *a, **k: it.und("bisect")) for n in ("bisect", "bisect_left", "bisect_right",
                                                                         "insort")}
        M["heapq"] = {n: B(n, lambda *a, **k: it.und("heapq")) for n in ("heappush", "heappop", "nlargest",
                                                                       "nsmallest", "heapify")}
        M["statistics"] = {"mean": B("mean", lambda v: it.binop("/", self.sum_(v), len(it.iterate(v))))}
        M["reprlib"] = {"repr": B("repr", self.repr)}
        M["textwrap"] = {}
        M["argparse"] = {}
        M["csv"] = {}
        M["pathlib"] = {}
        M["sklearn"] = None
        del M["sklearn"]

    def env(self, k, d):
        it = self.it
        it.events.append(("nondet", "environ", it.where))
        # oracle a: variable unset; oracle b: some text
        return d if it.oracle == "a" else "1"

    def attrget(self, v, path):
        for n in path.split("."):
            v = self.it.getattr(v, n)
        return v

    def simple_ns(self, **kw):
        it = self.it
        r = it.new_instance(self.object_cls2())
        it.wobj(it.obj(r).dref).d.update(kw)
        return r

    def object_cls2(self):
        if not hasattr(self, "_ocls"):
            self._ocls = ClassV("SimpleNamespace", [], None, None)
        return self._ocls

    def mapping_proxy(self, d):
        it = self.it
        return NS("mappingproxy", getitem=lambda k: it.getitem(d, k), iter=lambda: it.iterate(d), map=lambda: it.mapping(
            d), get=Builtin("get", lambda k, x=None: self.m_dict_get(d, k, x)), items=Builtin(
                "items", lambda: self.m_dict_items(d)), keys=Builtin("keys", lambda: self.m_dict_keys(d)),
            values=Builtin("values", lambda: self.m_dict_values(d)))

    def signature(self, f):
        it = self.it
        skip = 0
        if isinstance(f, ClassV):
            g = it.class_attr(f, "__init__")
            if g is None:
                return NS("sig", parameters=it.new_dict({}))
            f, skip = g, 1
        if isinstance(f, BoundM):
            f, skip = f.fn, 1
        if isinstance(f, Builtin):
            return NS("sig", parameters=it.new_dict({"self": NS("param", name="self"), "args": NS("param", name="args"),
                                                     "kwargs": NS("param", name="kwargs")}))
        a = f.node.args
        d = {}
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        for i, x in enumerate(pos):
            j = i - (len(pos) - nd)
            d[x.arg] = NS("param", name=x.arg, default=f.defaults[j] if j >= 0 else Opaque("empty"), kind=1,
                          annotation=Opaque("ann"))
        if a.vararg:
            d[a.vararg.arg] = NS("param", name=a.vararg.arg, default=Opaque("empty"), kind=2)
        for x, df in zip(a.kwonlyargs, f.kwdefaults):
            d[x.arg] = NS("param", name=x.arg, default=Opaque("empty") if df is ABSENT else df, kind=3)
        if a.kwarg:
            d[a.kwarg.arg] = NS("param", name=a.kwarg.arg, default=Opaque("empty"), kind=4)
        for k in list(d)[:skip]:
            del d[k]
        return NS("sig", parameters=it.new_dict(d))

    def argspec(self, f):
        s = self.signature(f)
        ps = self.it.iterate(s.attrs["parameters"])
        return NS("argspec", args=self.it.new_list(ps))

    def defaultdict(self, f=None, *a, **k):
        it = self.it
        d = it.obj(self.dict_(*a, **k)).d
        return it.new_dict(d, ("defaultdict", f))

    def counter(self, v=()):
        it = self.it
        d = {}
        for x in it.iterate(v):
            k = it.hkey(x)
            d[k] = d.get(k, 0) + 1
        return it.new_dict(d, ("defaultdict", Builtin("zero", lambda: 0)))

    def partial(self, f, *a, **k):
        return self.B("partial", lambda *x, **y: self.it.call(f, list(a) + list(x), {**k, **y}))

    def reduce_(self, f, v, *init):
        it = self.it
        xs = list(init) + it.iterate(v)
        if not xs:
            it.throw("TypeError", "reduce() of empty iterable with no initial value")
        r = xs[0]
        for x in xs[1:]:
            r = it.call(f, [r, x], {})
        return r

    def accumulate(self, v, func=None, initial=None):
        it = self.it
        out = []
        r = initial
        if initial is not None:
            out.append(r)
        for x in it.iterate(v):
            r = x if r is None else (it.binop("+", r, x) if func is None else it.call(func, [r, x], {}))
            out.append(r)
        return it.new_iter(out)

    def lru_cache(self, *a, **k):
        it = self.it

        def deco(f):
            cell = it.h.new(DictO({}), "global" if it.loading else it.tag())

            def call(*x, **y):
                key = (tuple(it.hkey(z) for z in x), tuple((n, it.hkey(z)) for n, z in sorted(y.items())))
                d = it.h.m[cell].d
                if key in d:
                    return d[key]
                r = it.call(f, list(x), y)
                it.events.append(("cache", getattr(f, "qual", "?"), it.where))
                it.h.w(cell).d[key] = r
                return r
            b = Builtin("lru_cached", call, True)      # raw: binds like a function
            return b
        if a and isinstance(a[0], (FuncV, ClassV)):
            return deco(a[0])
        return Builtin("lru_cache()", deco)

    def dc_field(self, default=ABSENT, default_factory=ABSENT, init=True, repr=True, compare=True, **k):
        return NS("dcfield", default=default, factory=default_factory, init=init)

    def dataclass(self, cls=None, **opts):
        it = self.it
        if cls is None:
            return self.B("dataclass", lambda c: self.dataclass(c, **opts))
        fields = []
        for c in reversed(cls.mro):
            if c.dref is None:
                continue
            d = it.h.m[c.dref].d
            for n in d.get("__annotations__", ()):
                dv = d.get(n, ABSENT)
                fields = [(m, x) for m, x in fields if m != n] + [(n, dv)]

        def init(selfv, *a, **k):
            vals = dict(zip([n for n, _ in fields], a))
            for n in k:
                if n not in [m for m, _ in fields]:
                    it.throw("TypeError", f"unexpected keyword argument {n!r}")
            vals.update(k)
            for n, dv in fields:
                if n in vals:
                    x = vals[n]
                elif isinstance(dv, NS) and dv.label == "dcfield":
                    if dv.attrs["factory"] is not ABSENT:
                        x = it.call(dv.attrs["factory"], [], {})
                    elif dv.attrs["default"] is not ABSENT:
                        x = dv.attrs["default"]
                    else:
                        it.throw("TypeError", f"missing argument {n!r}")
                elif dv is not ABSENT:
                    x = dv
                else:
                    it.throw("TypeError", f"missing argument {n!r}")
                it.raw_setattr(selfv, n, x)
            pi = it.class_attr(it.obj(selfv).cls, "__post_init__")
            if pi is not None:
                it.call(BoundM(selfv, pi), [], {})
        d = it.h.w(cls.dref).d
        if "__init__" not in d:
            d["__init__"] = Builtin("__init__", init, True)
        if "__repr__" not in d:
            d["__repr__"] = Builtin("__repr__", lambda s: self.join_repr(
                cls.name + "(", [SymStr((n, "=", self.repr(it.getattr(s, n)))) for n, _ in fields], ")"), True)
        return cls

    def json_loads(self, s):
        import json
        if not isinstance(s, str):
            self.it.und("json.loads")

        def conv(v):
            if isinstance(v, list):
                return self.it.new_list([conv(x) for x in v])
            if isinstance(v, dict):
                return self.it.new_dict({k: conv(x) for k, x in v.items()})
            return v
        return conv(json.loads(s))


_MISS = Opaque("<missing attribute>")


def NSCall(lib, label, f, **attrs):
    return NS(label, call=f, **attrs)


def _nm():
    from . import npm
    return npm


def _fold(it, op, xs, r):
    for x in xs:
        r = it.binop(op, r, x)
    return r
