"""Value numbers: hash-consed expression nodes, and the decision of their equality.

The abstract interpreter (interp.py) maps every numeric value the analysed source can compute to a
node of this DAG; control-flow joins become `sel` nodes.  Equal nodes are equal values.  Different
nodes are compared by *random interpretation* (Gulwani & Necula, POPL 2003): each symbol is mapped to
random values from its declared domain and two value numbers are declared different only when some
interpretation separates them by far more than rounding.
"""
from __future__ import annotations

import math
import warnings

import numpy as np

THRESHOLDS = []      # whole numbers the analysed source compares with: counts are sampled around them too

_table: dict = {}
_next = [0]


class Node:
    __slots__ = ("op", "args", "id", "isint", "isbool", "lo", "hi", "meta", "fin")

    def __repr__(self):
        return show(self)


NUM = (int, float, bool)


def isnum(v):
    return isinstance(v, (int, float, Node)) or isinstance(v, np.generic)


def _key(a):
    if isinstance(a, Node):
        return ("n", a.id)
    if isinstance(a, bool):
        return ("b", a)
    if isinstance(a, int):
        return ("i", a)
    if isinstance(a, float):
        return ("f", repr(a))
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return a


def choices(a):
    """The whole numbers a can be when it is a choice among constants, else None."""
    if isinstance(a, Node):
        return a.fin
    return frozenset((a,)) if isinstance(a, int) and not isinstance(a, bool) else None


def by_choice(a, f, pick=None, memo=None):
    """f at the constant a is a choice of: ite(c, f(x), f(y)) for ite(c, x, y)."""
    if not isinstance(a, Node):
        return f(a)
    memo = {} if memo is None else memo
    if a.id not in memo:
        c, x, y = a.args
        memo[a.id] = (pick or sel)(c, by_choice(x, f, pick, memo), by_choice(y, f, pick, memo))
    return memo[a.id]


def _compare(a, b, f):
    """A comparison of a choice among constants with a constant, decided choice by choice."""
    if isinstance(a, Node) and a.fin and not isinstance(b, Node):
        vs = [f(v, b) for v in a.fin]
        return vs[0] if len(set(vs)) == 1 else by_choice(a, lambda v: f(v, b))
    if isinstance(b, Node) and b.fin and not isinstance(a, Node):
        vs = [f(a, v) for v in b.fin]
        return vs[0] if len(set(vs)) == 1 else by_choice(b, lambda v: f(a, v))
    return None


def _make(op, args, isint=False, isbool=False, lo=None, hi=None, meta=None):
    k = (op,) + tuple(_key(a) for a in args)
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        n.isint, n.isbool, n.lo, n.hi, n.meta = isint, isbool, lo, hi, meta
        n.fin = None
        if op == "sel" and isint:          # a choice among a few whole numbers
            vs = choices(args[1]) | choices(args[2]) if choices(args[1]) and choices(args[2]) else None
            n.fin = vs if vs and len(vs) <= 64 else None
        n.id = _next[0]
        _next[0] += 1
        _table[k] = n
    return n


def reset():
    _table.clear()


def sym(name, dist="data", isint=False, isbool=False, lo=None, hi=None, **kw):
    """A symbol with a sampling domain (`dist`) used by the random interpretation."""
    return _make("sym", (name,), isint, isbool, lo, hi, dict(kw, dist=dist))


def is_int(a):
    if isinstance(a, Node):
        return a.isint or a.isbool
    return isinstance(a, (int, np.integer))


def is_bool(a):
    return a.isbool if isinstance(a, Node) else isinstance(a, (bool, np.bool_))


def bounds(a):
    if isinstance(a, Node):
        if a.isbool:
            return 0, 1
        return a.lo, a.hi
    if isinstance(a, float) and a != a:
        return None, None
    return a, a


def _isc(a, v):
    return not isinstance(a, Node) and a == v


def _addb(x, y):
    return None if x is None or y is None else x + y


# ------------------------------------------------------------------ constructors
def add(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a + b
    if _isc(a, 0) and is_int(a):
        return _unbool(b)
    if _isc(b, 0) and is_int(b):
        return _unbool(a)
    if _isc(a, 0):
        return b if not is_int(b) else _make("float", (b,), lo=bounds(b)[0], hi=bounds(b)[1])
    if _isc(b, 0):
        return a if not is_int(a) else _make("float", (a,), lo=bounds(a)[0], hi=bounds(a)[1])
    # collect integer offsets: (n + 1) + 1 -> n + 2
    if isinstance(b, int) and isinstance(a, Node) and a.op == "add" and isinstance(a.args[1], int):
        return add(a.args[0], a.args[1] + b)
    if isinstance(a, int) and isinstance(b, Node):
        return add(b, a)
    if isinstance(a, Node) and isinstance(b, Node) and a.id > b.id:
        a, b = b, a
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    return _make("add", (a, b), is_int(a) and is_int(b), lo=_addb(la, lb), hi=_addb(ha, hb))


def _unbool(a):
    if isinstance(a, Node) and a.isbool:
        return _make("int", (a,), True, lo=0, hi=1)
    return a


def neg(a):
    if not isinstance(a, Node):
        return -a
    if a.op == "neg":
        return a.args[0]
    lo, hi = bounds(a)
    return _make("neg", (a,), is_int(a), lo=None if hi is None else -hi, hi=None if lo is None else -lo)


def sub(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a - b
    if a is b:
        return 0 if is_int(a) else 0.0
    if isinstance(b, int) and not isinstance(b, bool):
        return add(a, -b)
    if _isc(b, 0):
        return add(a, b)
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    return _make("sub", (a, b), is_int(a) and is_int(b), lo=None if la is None or hb is None else la - hb,
                 hi=None if ha is None or lb is None else ha - lb)


def mul(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return a * b
    if not isinstance(a, Node):
        a, b = b, a
    if not isinstance(b, Node):
        if b == 1:
            return _unbool(a) if is_int(b) else (a if not is_int(a) else _make("float", (a,), lo=a.lo, hi=a.hi))
        if b == 0:
            return 0 if is_int(a) and is_int(b) else 0.0
    elif a.id > b.id:
        a, b = b, a
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    lo = hi = None
    if a is b:
        lo = 0
    if None not in (la, lb) and la >= 0 and lb >= 0:
        lo = la * lb
        hi = None if ha is None or hb is None else ha * hb
    return _make("mul", (a, b), is_int(a) and is_int(b), lo=lo, hi=hi)


def div(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return fdiv(a, b)
    if not isinstance(b, Node) and b == 1:
        return add(a, 0.0)
    if _isc(a, 0):
        return 0.0
    if a is b:
        return 1.0
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    lo = hi = None
    if la is not None and la >= 0 and lb is not None and lb >= 0:
        lo = 0
        if ha is not None and lb > 0:
            hi = ha / lb
    return _make("div", (a, b), lo=lo, hi=hi)


def fdiv(a, b):
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.inf if (a > 0) == (math.copysign(1, b) > 0) else -math.inf
    return a / b


def power(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        try:
            r = a ** b
            return r if not isinstance(r, complex) else math.nan
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
    if not isinstance(b, Node):
        if b == 1:
            return a
        if b == 2:
            return mul(a, a)
        if b == 0.5:
            return un("sqrt", a)
        if b == 0:
            return 1 if is_int(a) and is_int(b) else 1.0
        if b == -1:
            return div(1.0, a)
    return _make("pow", (a, b), is_int(a) and isinstance(b, int) and b >= 0,
                 lo=0 if bounds(a)[0] is not None and bounds(a)[0] >= 0 else None)


def floordiv(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        if b == 0:
            return math.nan
        return a // b
    return _make("floordiv", (a, b), is_int(a) and is_int(b))


def mod(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        if b == 0:
            return math.nan
        return a % b
    hi = None
    if not isinstance(b, Node) and b > 0:
        hi = b
    return _make("mod", (a, b), is_int(a) and is_int(b), lo=0 if hi else None, hi=hi)


_FN = {
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "exp": lambda x: math.exp(x) if x < 700 else math.inf,
    "log": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
    "log1p": lambda x: math.log1p(x) if x > -1 else math.nan, "expm1": math.expm1,
    "log2": lambda x: math.log2(x) if x > 0 else math.nan,
    "log10": lambda x: math.log10(x) if x > 0 else math.nan,
    "abs": abs, "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "atan": math.atan,
    "floor": lambda x: math.floor(x) if math.isfinite(x) else x,
    "ceil": lambda x: math.ceil(x) if math.isfinite(x) else x,
    "trunc": lambda x: math.trunc(x) if math.isfinite(x) else x,
    "rint": lambda x: float(np.rint(x)),
    "sign": lambda x: float(np.sign(x)),
    "float": float, "int": lambda x: int(x),
    "f32": lambda x: float(np.float32(x)), "spacing": lambda x: float(np.spacing(x)),
}


def un(op, a):
    if not isinstance(a, Node):
        if isinstance(a, float) and a != a:
            return a
        return _FN[op](a)
    lo, hi = bounds(a)
    if op == "abs":
        if lo is not None and lo >= 0:
            return _unbool(a)
        if a.op == "neg":
            return un("abs", a.args[0])
        return _make("abs", (a,), is_int(a), lo=0)
    if op in ("floor", "ceil", "trunc", "int", "rint") and is_int(a):
        return _unbool(a)
    if op == "int":
        op = "trunc"
    if op in ("floor", "ceil", "trunc"):
        f = _FN[op]
        return _make(op, (a,), True, lo=None if lo is None else f(lo), hi=None if hi is None else f(hi))
    if op == "float":
        return a if not is_int(a) else _make("float", (a,), lo=lo, hi=hi)
    if op == "sqrt":
        return _make(op, (a,), lo=0 if lo is None or lo < 0 else math.sqrt(lo),
                     hi=None if hi is None or hi < 0 else math.sqrt(hi))
    if op in ("exp", "spacing"):
        return _make(op, (a,), lo=0)
    return _make(op, (a,))


def fmax(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        if a != a or b != b:
            return math.nan
        return a if a >= b else b
    if a is b:
        return a
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    same = is_int(a) == is_int(b)
    if same and la is not None and hb is not None and la >= hb:
        return a
    if same and lb is not None and ha is not None and lb >= ha:
        return b
    a, b = _order(a, b)
    lo = la if lb is None else lb if la is None else max(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return _make("max", (a, b), is_int(a) and is_int(b), lo=lo, hi=hi)


def fmin(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        if a != a or b != b:
            return math.nan
        return a if a <= b else b
    if a is b:
        return a
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    same = is_int(a) == is_int(b)
    if same and la is not None and hb is not None and la >= hb:
        return b
    if same and lb is not None and ha is not None and lb >= ha:
        return a
    a, b = _order(a, b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = ha if hb is None else hb if ha is None else min(ha, hb)
    return _make("min", (a, b), is_int(a) and is_int(b), lo=lo, hi=hi)


def _order(a, b):
    ka = (1, a.id) if isinstance(a, Node) else (0, 0)
    kb = (1, b.id) if isinstance(b, Node) else (0, 0)
    return (a, b) if ka <= kb else (b, a)


def lt(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return bool(a < b)
    if a is b:
        return False
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    if ha is not None and lb is not None and ha < lb:
        return True
    if la is not None and hb is not None and la >= hb:
        return False
    r = _compare(a, b, lambda x, y: x < y)
    if r is not None:
        return r
    if is_int(a) and is_int(b):        # n < b+1  <=>  n <= b : one spelling for integers
        if isinstance(b, Node) and b.op == "add" and isinstance(b.args[1], int):
            return lt(add(a, -b.args[1]), b.args[0])
    return _make("lt", (a, b), isbool=True)


def le(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return bool(a <= b)
    if a is b:
        return True
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    if ha is not None and lb is not None and ha <= lb:
        return True
    if la is not None and hb is not None and la > hb:
        return False
    if is_int(a) and is_int(b):
        return lt(add(a, -1), b)
    return not_(lt(b, a))              # reals, NaN aside


def eq(a, b):
    if not isinstance(a, Node) and not isinstance(b, Node):
        return bool(a == b)
    if a is b:
        return True
    if is_bool(a) and not isinstance(b, Node):
        return a if b == 1 else not_(a) if b == 0 else False
    if is_bool(b) and not isinstance(a, Node):
        return eq(b, a)
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    if (ha is not None and lb is not None and ha < lb) or (la is not None and hb is not None and la > hb):
        return False
    r = _compare(a, b, lambda x, y: x == y)
    if r is not None:
        return r
    a, b = _order(a, b)
    return _make("eq", (a, b), isbool=True)


def not_(a):
    if not isinstance(a, Node):
        return not a
    if a.op == "not":
        return a.args[0]
    return _make("not", (a,), isbool=True)


def and_(a, b):
    if not isinstance(a, Node):
        return b if a else False
    if not isinstance(b, Node):
        return a if b else False
    if a is b:
        return a
    if not_(a) is b:
        return False
    a, b = _order(a, b)
    return _make("and", (a, b), isbool=True)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def truth(a):
    """Boolean value of a number."""
    if not isinstance(a, Node):
        return bool(a)
    if a.isbool:
        return a
    return not_(eq(a, 0))


def sel(c, a, b):
    if not isinstance(c, Node):
        return a if c else b
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a is b:
        return a
    if not isinstance(a, Node) and not isinstance(b, Node):
        if type(a) is type(b) and (a == b or (a != a and b != b)):
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else not_(c)
    if isinstance(a, Node) and a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Node) and b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    ib = is_bool(a) and is_bool(b)
    if ib:
        return or_(and_(c, a), and_(not_(c), b))
    (la, ha), (lb, hb) = bounds(a), bounds(b)
    return _make("sel", (c, a, b), is_int(a) and is_int(b), False,
                 None if la is None or lb is None else min(la, lb),
                 None if ha is None or hb is None else max(ha, hb))


OUT = object()  # no such entry
mats = [0]      # matrix operations built so far


def mat(name, cells, shape, extra=()):
    """Matrix operator applied to a tuple of cells; use item() for its entries."""
    mats[0] += 1
    return _make("mat", (name, tuple(cells), tuple(shape), tuple(extra)))


def item(m, k, isint=False, isbool=False, lo=None, hi=None):
    return _make("item", (m, k), isint, isbool, lo, hi)


# ------------------------------------------------------------------ traversal
def children(n):
    if n.op == "mat":
        for c in n.args[1]:
            if isinstance(c, Node):
                yield c
        for c in n.args[3]:
            if isinstance(c, Node):
                yield c
    elif n.op == "item":
        yield n.args[0]
    elif n.op != "sym":
        for a in n.args:
            if isinstance(a, Node):
                yield a


def reach(roots, seen=None):
    seen = {} if seen is None else seen
    st = [r for r in roots if isinstance(r, Node)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        st.extend(children(n))
    return seen


def symbols(roots):
    return {n.args[0] for n in reach(roots).values() if n.op == "sym"}


def show(n, d=0):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "sym":
        return n.args[0]
    if d > 6:
        return "…"
    if n.op == "mat":
        return f"{n.args[0]}(…)"
    if n.op == "item":
        return f"{show(n.args[0], d + 1)}[{n.args[1]}]"
    bi = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "eq": "==", "and": "&", "pow": "**"}
    if n.op in bi:
        return "(" + f" {bi[n.op]} ".join(show(a, d + 1) for a in n.args) + ")"
    if n.op == "sel":
        return "(%s ? %s : %s)" % tuple(show(a, d + 1) for a in n.args)
    return n.op + "(" + ", ".join(show(a, d + 1) for a in n.args) + ")"


# ------------------------------------------------------------------ random interpretation
TIES = (8, 12, 13, 14, 15)     # kinds of data with exact repetitions
RATES = [1.0, 0.5, 0.3, 0.2, 0.15, 0.05, 0.004, 0.9]


class Interp:
    """One batch of K random interpretations of the symbols."""

    def __init__(self, K=48, seed=1, modes=None, overrides=None, pert=0.0):
        self.K = K
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.pert = pert
        self.memo: dict = {}
        self.overrides = overrides or {}
        # the character of the data in each interpretation
        k = np.arange(K)
        kind = k % 17
        self.kind = kind
        self.scale = np.ones(K)
        self.scale[kind == 3] = 10.0 ** self.rng.integers(-5, -2, int((kind == 3).sum()))
        self.scale[kind == 7] = 10.0 ** self.rng.integers(2, 6, int((kind == 7).sum()))
        self.fail = np.zeros(K, int) if modes is None else np.asarray(modes)
        self.consts = [1, 2, 3, 4, 5, 6, 9, 10, 19, 20, 21, 49, 50, 99, 100, 101, 249, 250, 251, 256, 499, 500, 501,
                       999, 1000, 1001, 1023, 1024, 1025, 5000, 10000, 10001, 65536, 10 ** 6, 10 ** 9]
        self.consts += [c + k for c in THRESHOLDS for k in (-1, 0, 1)]

    def data(self, name, row, col):
        import zlib
        K, kind = self.K, self.kind
        r1 = np.random.default_rng([self.seed, zlib.crc32(name.encode())])
        v = r1.standard_normal(K) + 0.3 * r1.standard_normal()
        u = r1.random(K)
        if name.startswith("rng:"):               # a continuous draw: no ties, never zero, unit scale
            return v
        v = np.where((kind == 4) & (u < 0.2), v * 15.0, v)                       # scattered outliers
        if row is not None:
            rr = np.random.default_rng([self.seed, 77, row])
            hit = rr.random(K)
            v = np.where((kind == 9) & (hit < 0.2), v * 1000.0, v)               # whole-row outliers
            common = rr.standard_normal(K)
            v = np.where(kind == 6, 0.3 * v + common, v)                          # strongly correlated
            if col is not None:
                cc = np.random.default_rng([self.seed, 78, col])
                v = np.where(kind == 10, v + 4.0 * cc.standard_normal(K), v)      # far-off level
                v = np.where(kind == 2, v * np.exp(1.5 * cc.standard_normal(K)), v)   # unequal scales
            v = np.where((kind == 11) & (row >= 4), v * 0.2, v)                   # calm after burn-in
            v = np.where((kind == 5) & (row >= 4), v * 4.0, v)                    # turbulent after burn-in
            if col is not None:
                cc = np.random.default_rng([self.seed, 79, col])
                lvl, still = np.round(2 * cc.standard_normal(K)), cc.random(K) < 0.6
                v = np.where(kind == 16, v * 10.0 ** cc.integers(-6, 1, K), v)        # in units far apart
                v = np.where((kind == 12) & still, lvl, v)                        # columns that never move
                pp = np.random.default_rng([self.seed, 80, row // 2, col])
                v = np.where(kind == 13, np.round(4 * pp.standard_normal(K)) / 4, v)  # every row twice
            v = np.where((kind == 15) & (row < 2), 0.0, v)                        # a stream that starts at zero
        v = np.where(kind == 14, np.clip(np.round(v), -1, 1), v)                  # a grid of three values
        v = np.where(kind == 8, np.round(v), v)                                   # ties and zeros
        return v * self.scale

    def sample(self, n):
        v = self.sample0(n)
        if self.pert and n.meta["dist"] in ("data", "free", "pos"):
            import zlib
            r = np.random.default_rng([self.seed, 5, zlib.crc32(str(n.args[0]).encode())])
            each = r.standard_normal(self.K)
            if n.meta["dist"] == "data":      # where the data are full of ties, a change that keeps the ties
                alike = np.random.default_rng([self.seed, 6]).standard_normal(self.K)
                each = np.where(np.isin(self.kind, TIES), alike, each)
            v = v * (1 + self.pert * each)
        return v

    def sample0(self, n):
        name = n.args[0]
        if name in self.overrides:
            return np.broadcast_to(np.asarray(self.overrides[name], float), (self.K,)).copy()
        import zlib
        rng = np.random.default_rng([self.seed, zlib.crc32(name.encode())])
        K = self.K
        d = n.meta["dist"]
        if d == "data":
            return self.data(name, n.meta.get("row"), n.meta.get("col"))
        if d == "free":
            return rng.standard_normal(K) * 3
        if d == "rate":
            base = np.array(RATES + [float(x) for x in n.meta.get("also", ())])
            v = base[(np.arange(K) + rng.integers(0, len(base))) % len(base)]
            jit = rng.random(K) < 0.4
            return np.where(jit, np.clip(v * (1 + 0.1 * rng.standard_normal(K)), 0.003, 1.0), v)
        if d == "unit":
            v = rng.random(K)
            v[::7] = 0.0
            v[3::7] = 1.0
            return v
        if d == "pos":
            return np.exp(rng.standard_normal(K) * n.meta.get("spread", 0.7)) * n.meta.get("mid", 1.0)
        if d == "count":
            c = np.array(self.consts + list(n.meta.get("also", ())), float)
            v = c[rng.integers(0, len(c), K)]
            small = rng.random(K) < 0.5
            return np.where(small, rng.integers(1, 12, K), v)
        if d == "int":
            return rng.integers(n.lo, n.hi + 1, K).astype(float)
        if d == "coin":
            return (rng.random(K) < 0.5)
        raise ValueError(d)

    def many(self, roots):
        """Evaluate nodes (post-order, iterative)."""
        memo = self.memo
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for r in roots:
                if not isinstance(r, Node) or r.id in memo:
                    continue
                st = [(r, False)]
                while st:
                    n, ready = st.pop()
                    if n.id in memo:
                        continue
                    if ready:
                        memo[n.id] = self.ev(n)
                    else:
                        st.append((n, True))
                        for c in children(n):
                            if c.id not in memo:
                                st.append((c, False))

    def get(self, a):
        if isinstance(a, Node):
            if a.id not in self.memo:
                self.many([a])
            return self.memo[a.id]
        return np.full(self.K, a, dtype=bool if isinstance(a, bool) else float)

    def val(self, a):
        return self.memo[a.id] if isinstance(a, Node) else a

    def ev(self, n):
        op, g = n.op, self.val
        if op == "sym":
            return self.sample(n)
        if op == "mat":
            return self.evmat(n)
        if op == "item":
            m = self.memo[n.args[0].id]
            return m.reshape(self.K, -1)[:, n.args[1]]
        a = g(n.args[0])
        if op == "float" or op == "int":
            return np.asarray(a, float)
        if op == "sel":
            return np.where(a, g(n.args[1]), g(n.args[2]))
        if op == "not":
            return ~np.asarray(a, bool)
        if len(n.args) == 2:
            b = g(n.args[1])
            if op == "add":
                return np.add(a, b, dtype=float)
            if op == "sub":
                return np.subtract(a, b, dtype=float)
            if op == "mul":
                return np.multiply(a, b, dtype=float)
            if op == "div":
                return np.divide(a, b, dtype=float)
            if op == "pow":
                return np.power(np.asarray(a, float), np.asarray(b, float))
            if op == "floordiv":
                return np.floor_divide(a, b)
            if op == "mod":
                return np.mod(a, b)
            if op == "max":
                return np.maximum(np.asarray(a, float), np.asarray(b, float))
            if op == "min":
                return np.minimum(np.asarray(a, float), np.asarray(b, float))
            if op == "lt":
                return np.less(a, b)
            if op == "eq":
                return np.equal(a, b)
            if op == "and":
                return np.logical_and(a, b)
        a = np.asarray(a, float)
        if op == "neg":
            return -a
        if op == "isnan":
            return np.isnan(a)
        if op == "isfin":
            return np.isfinite(a)
        f = {"sqrt": np.sqrt, "exp": np.exp, "log": np.log, "log1p": np.log1p, "expm1": np.expm1,
             "log2": np.log2, "log10": np.log10, "abs": np.abs, "sin": np.sin, "cos": np.cos, "tanh": np.tanh,
             "atan": np.arctan, "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint,
             "sign": np.sign, "spacing": np.spacing, "f32": lambda x: x.astype(np.float32).astype(float)}[op]
        return f(a)

    # matrix operators, interpretation by interpretation
    def evmat(self, n):
        name, cells, shape, extra = n.args
        K = self.K
        A = np.empty((K, len(cells)))
        for j, c in enumerate(cells):
            A[:, j] = self.val(c)
        ex = [self.val(e) if isinstance(e, Node) else e for e in extra]
        out = None
        f = MATOPS[name]
        for k in range(K):
            row = A[k]
            try:
                r = f(row, shape, [e[k] if isinstance(e, np.ndarray) else e for e in ex], self.fail[k])
            except (np.linalg.LinAlgError, ValueError, FloatingPointError):
                r = None
            if r is not None:
                r = np.asarray(r, float).ravel()
                if out is None:
                    out = np.full((K, r.size), np.nan)
                out[k] = r
        if out is None:
            out = np.full((K, 4096), np.nan)
        return out


def _sq(row, shape):
    return row.reshape(shape)


def _finite(M):
    if not np.all(np.isfinite(M)):
        raise np.linalg.LinAlgError
    return M


def _split2(row, shape):
    (s1, s2) = shape
    k = int(np.prod(s1))
    return row[:k].reshape(s1), row[k:].reshape(s2)


def _op_singular(row, shape, ex, fail):
    if fail >= 1:
        return 1.0
    try:
        np.linalg.inv(_sq(row, shape))
        return 0.0
    except np.linalg.LinAlgError:
        return 1.0


def _op_notpd(row, shape, ex, fail):
    M = _sq(row, shape)
    if not np.all(np.isfinite(M)):
        return np.nan
    try:
        np.linalg.cholesky(M)
        return 0.0
    except np.linalg.LinAlgError:
        return 1.0


MATOPS = {
    "inv": lambda r, s, e, f: np.linalg.inv(_sq(r, s)),
    "pinv": lambda r, s, e, f: np.linalg.pinv(_finite(_sq(r, s)), *e),
    "pinvh": lambda r, s, e, f: np.linalg.pinv(_finite(_sq(r, s)), hermitian=True),
    "solve": lambda r, s, e, f: np.linalg.solve(*_split2(r, s)),
    "eigh_w": lambda r, s, e, f: np.linalg.eigh(_finite(_sq(r, s)))[0],
    "eigh_v": lambda r, s, e, f: _eigv(_finite(_sq(r, s))),
    "eig_w": lambda r, s, e, f: np.sort(np.real(np.linalg.eigvals(_finite(_sq(r, s))))),
    "svd_u": lambda r, s, e, f: np.linalg.svd(_finite(_sq(r, s)), full_matrices=bool(e[0]))[0],
    "svd_s": lambda r, s, e, f: np.linalg.svd(_finite(_sq(r, s)))[1],
    "svd_v": lambda r, s, e, f: np.linalg.svd(_finite(_sq(r, s)), full_matrices=bool(e[0]))[2],
    "chol": lambda r, s, e, f: np.linalg.cholesky(_sq(r, s)),
    "slog_s": lambda r, s, e, f: np.linalg.slogdet(_sq(r, s))[0],
    "slog_l": lambda r, s, e, f: np.linalg.slogdet(_sq(r, s))[1],
    "det": lambda r, s, e, f: np.linalg.det(_sq(r, s)),
    "qr_q": lambda r, s, e, f: np.linalg.qr(_sq(r, s))[0],
    "qr_r": lambda r, s, e, f: np.linalg.qr(_sq(r, s))[1],
    "sort": lambda r, s, e, f: np.sort(r),
    "argsort": lambda r, s, e, f: np.argsort(r, kind="stable"),
    "argmax": lambda r, s, e, f: np.argmax(r),
    "argmin": lambda r, s, e, f: np.argmin(r),
    "median": lambda r, s, e, f: np.median(r),
    "quantile": lambda r, s, e, f: np.quantile(r, e[0]),
    "rank": lambda r, s, e, f: np.linalg.matrix_rank(_sq(r, s)),
    "cond": lambda r, s, e, f: np.linalg.cond(_sq(r, s)),
    "singular": _op_singular,
    "notpd": _op_notpd,
    "pinvfail": lambda r, s, e, f: 1.0 if f >= 2 else 0.0,
    "nonfinite": lambda r, s, e, f: 0.0 if np.all(np.isfinite(r)) else 1.0,
}


def _eigv(M):
    """Eigenvectors with a fixed sign convention (first sizeable entry positive)."""
    w, V = np.linalg.eigh(M)
    return V


def close(a, b, scale, tol=1e-6):
    """Equal up to rounding, relative to the magnitude of the family the numbers belong to."""
    if a != a and b != b:
        return True
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= tol * max(scale, abs(a), abs(b)) + 1e-300
