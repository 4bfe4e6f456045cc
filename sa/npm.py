"""Abstract numpy: arrays of fixed shape whose cells are value numbers.

Views are exact: an array is a buffer plus a tuple of positions; indexing, reshaping and broadcasting
with known indices are delegated to numpy on the *position* arrays.
"""
from __future__ import annotations

import math

import numpy as np

from . import dag as D
from .vals import ABSENT, Builtin, BufO, ClassV, DType, ListO, ModuleV, NArr, Opaque, Phi, Ref, TypeV, is_number, npscalar, plain

NAN = math.nan
_ord = {"b": 0, "i": 1, "s": 2, "f": 3, "o": 4}

_mn: dict = {}


def maybe_nan(n):
    """Can this value number be non-finite for finite symbols (division, log, ... not bounded away)?"""
    if not isinstance(n, D.Node):
        return not math.isfinite(n)
    r = _mn.get(n.id)
    if r is not None:
        return r
    order, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x.id in seen or x.id in _mn:
            continue
        seen.add(x.id)
        order.append(x)
        if x.op != "item":
            st.extend(D.children(x))
    for x in sorted(order, key=lambda y: y.id):
        if x.op == "sym":
            v = bool(x.meta.get("nan"))
        elif x.isbool:
            v = False
        elif x.op == "item":
            v = False
        elif x.op == "div":
            d = x.args[1]
            lo, hi = D.bounds(d)
            v = not ((lo is not None and lo > 0) or (hi is not None and hi < 0))
        elif x.op in ("log", "log2", "log10", "log1p", "exp", "expm1"):
            v = x.op.startswith("log") and not (x.args[0].lo is not None and x.args[0].lo > 0)
        elif x.op == "sqrt":
            v = False
        elif x.op == "pow":
            v = not (isinstance(x.args[1], int) and x.args[1] >= 0)
        else:
            v = False
        if not v and not x.isbool and x.op not in ("sym", "item"):
            v = any(_mn.get(c.id, False) if isinstance(c, D.Node) else (isinstance(c, float) and not math.isfinite(c))
                    for c in x.args)
        _mn[x.id] = v
    return _mn[n.id]


def isnan(x):
    if not isinstance(x, D.Node):
        return x != x
    if not maybe_nan(x):
        return False
    return D._make("isnan", (x,), isbool=True)


def isfinite(x):
    if not isinstance(x, D.Node):
        return math.isfinite(x)
    if not maybe_nan(x):
        return True
    return D._make("isfin", (x,), isbool=True)


def oarr(cells, shape):
    a = np.empty(len(cells), dtype=object)
    for i, c in enumerate(cells):
        a[i] = c
    return a.reshape(shape)


def fold(op, xs, start):
    r = start
    first = True
    for x in xs:
        r = x if first else op(r, x)
        first = False
    return r


def total(xs, z=0.0):
    r = None
    for x in xs:
        r = x if r is None else D.add(r, x)
    return z if r is None else r


class NP:
    def __init__(self, it):
        self.it = it
        self.tab = {}
        self.linalg = {}
        self.random = {}
        self.ufuncs = {}
        self._install()

    # ------------------------------------------------------------ construction
    def arr(self, cells, shape, dt="f"):
        cells = list(cells)
        b = self.it.h.new(BufO(cells), self.it.tag())
        return NArr(b, range(len(cells)), shape, dt)

    def from_o(self, o, dt="f"):
        o = np.asarray(o, dtype=object)
        return self.arr([self.conv(c, dt) for c in o.ravel()], o.shape, dt)

    def cells(self, a):
        c = self.it.h.r(a.buf).c
        return [c[i] for i in a.ix]

    def o(self, a):
        """Object array of the cells."""
        if isinstance(a, NArr):
            return oarr(self.cells(a), a.shape)
        return oarr([a], ())

    def pos(self, a):
        return np.array(a.ix, dtype=int).reshape(a.shape)

    def view(self, a, p, dt=None):
        r = NArr(a.buf, [int(i) for i in p.ravel()], p.shape, dt or a.dt)
        if getattr(a, "ro", False):
            r.ro = True
        return r

    def rows(self, a):
        if a.ndim == 0:
            self.it.throw("TypeError", "iteration over a 0-d array")
        if a.ndim == 1:
            return self.cells(a)
        p = self.pos(a)
        return [self.view(a, p[i]) for i in range(a.shape[0])]

    def words(self, a):
        """An array of strings?"""
        return a.size and all(isinstance(c, str) for c in self.cells(a))

    def conv(self, c, dt):
        if isinstance(c, (Phi,)):
            c = self.it.force(c)
        if dt == "o":
            return c
        if not is_number(c):
            if isinstance(c, NArr) and c.size == 1:
                return self.conv(self.cells(c)[0], dt)
            if isinstance(c, Phi):
                m = self.materialize(c)
                if is_number(m):
                    return self.conv(m, dt)
                return self.it.lift(lambda x: self.conv(x, dt), c)
            if c is None and dt in "fs":
                return NAN
            if isinstance(c, str):
                try:
                    return float(c)
                except ValueError:
                    self.it.throw("ValueError", f"could not convert string to float: {c!r}")
            self.it.throw("TypeError", "array element is not a number")
        if dt == "f":
            if isinstance(c, D.Node):
                return D.un("float", c)
            return float(c)
        if dt == "s":
            return D.un("f32", c if isinstance(c, D.Node) else float(c))
        if dt == "i":
            if isinstance(c, D.Node):
                return D.un("int", c)
            if isinstance(c, float):
                if not math.isfinite(c):
                    return 0
                return int(c)
            return int(c)
        if dt == "b":
            return D.truth(c)
        return c

    def dtcode(self, d):
        if d is None:
            return "f"
        if isinstance(d, DType):
            return d.code
        if isinstance(d, TypeV):
            return {"float": "f", "int": "i", "bool": "b", "object": "o"}.get(d.name) or self.it.und("dtype")
        if isinstance(d, str):
            c = {"float": "f", "float64": "f", "f8": "f", "d": "f", "float32": "s", "f4": "s", "int": "i", "int64": "i",
                 "i8": "i", "int32": "i", "bool": "b", "object": "o", "O": "o", "double": "f", "single": "s",
                 "intp": "i", "float_": "f"}.get(d)
            if c:
                return c
        self.it.und(f"dtype {d!r}")

    def dtype_call(self, d, v=0):
        v = self.it.force(v)
        if isinstance(v, NArr):
            return self.ew(lambda x: self.conv(x, d.code), v, dt=d.code)
        if isinstance(v, str):
            return float(v)
        return self.conv(v, d.code)

    def scal(self, v):
        """dtype code of a scalar."""
        if D.is_bool(v):
            return "b"
        return "i" if D.is_int(v) else "f"

    def materialize(self, v):
        v = self.it.force(v)
        if isinstance(v, Phi):
            a, b = self.materialize(v.a), self.materialize(v.b)
            if is_number(a) and is_number(b):
                return D.sel(v.c, a, b)
            if isinstance(a, NArr) and isinstance(b, NArr) and a.shape == b.shape:
                dt = a.dt if _ord[a.dt] >= _ord[b.dt] else b.dt
                return self.arr([D.sel(v.c, x, y) for x, y in zip(self.cells(a), self.cells(b))], a.shape, dt)
            if isinstance(a, (NArr,)) and a.shape == () and is_number(b) or \
                    isinstance(b, NArr) and b.shape == () and is_number(a):
                f = lambda q: self.cells(q)[0] if isinstance(q, NArr) else q
                return D.sel(v.c, f(a), f(b))
            return Phi(v.c, a, b)
        return v

    def nested(self, v):
        """(object array of cells, dt) of nested sequences / arrays / scalars."""
        it = self.it
        v = it.force(v)
        if isinstance(v, Phi):
            v = self.materialize(v)
            if isinstance(v, Phi) and it.lax and words(v):
                o = np.empty((), dtype=object)
                o[()] = v
                return o, "o"
            if isinstance(v, Phi):
                it.und("array from values of different shape")
        if is_number(v):
            return oarr([v], ()), self.scal(v)
        if isinstance(v, NArr):
            return self.o(v), v.dt
        if v is None or isinstance(v, (str, ClassV)):
            return oarr([v], ()), "o"
        if isinstance(v, (tuple, range)) or it.isobj(v, "list") or it.isobj(v, "deque"):
            items = [self.nested(x) for x in it.iterate(v)]
            if not items:
                return np.empty(0, dtype=object), "f"
            shp = items[0][0].shape
            if any(x[0].shape != shp for x in items):
                it.throw("ValueError", "setting an array element with a sequence: inhomogeneous shape")
            dt = max((x[1] for x in items), key=lambda d: _ord[d])
            out = np.empty((len(items),) + shp, dtype=object)
            for i, x in enumerate(items):
                out[i] = x[0] if shp else x[0][()]
            return out, dt
        if isinstance(v, Ref):
            o = it.obj(v)
            if o.kind == "inst":
                f = it.class_attr(o.cls, "__array__")
                if f is not None:
                    return self.nested(it.call(it.getattr(v, "__array__"), [], {}))
            if o.kind in ("dict", "set", "iter", "inst"):
                return oarr([v], ()), "o"
        it.und(f"array from {v!r}")

    def array(self, v, dtype=None, copy=True, ndmin=0, order=None, subok=False):
        it = self.it
        v = it.force(v)
        if isinstance(v, Phi):
            return it.lift(lambda x: self.array(x, dtype, copy, ndmin), v)
        if isinstance(v, NArr):
            dt = v.dt if dtype is None else self.dtcode(dtype)
            if dt == v.dt and copy is not True:
                r = v
            else:
                r = self.arr([self.conv(c, dt) for c in self.cells(v)], v.shape, dt)
        else:
            o, dt = self.nested(v)
            if dtype is not None:
                dt = self.dtcode(dtype)
            if dt == "o" and dtype is not None:
                it.und("object array")
            if dt in "fs" and any(x is None or isinstance(x, (str, Ref)) for x in o.ravel()):
                o = oarr([self.conv(x, dt) for x in o.ravel()], o.shape)
            r = self.from_o(o, dt)
        while r.ndim < ndmin:
            r = self.view(r, self.pos(r)[None])
        return r

    def asarray(self, v, dtype=None, order=None, copy=None):
        return self.array(v, dtype, True if copy is True else None)

    def num(self, v):
        """Array or scalar operand -> (object array, dt)."""
        v = self.it.force(v)
        if isinstance(v, Phi):
            v = self.materialize(v)
        return self.nested(v)

    # ------------------------------------------------------------ elementwise
    def ew(self, fn, *args, op=None, dt=None, out=None, where=True):
        it = self.it
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                m = self.materialize(a)
                if isinstance(m, Phi):
                    return it.lift(lambda x: self.ew(fn, *args[:i], x, *args[i + 1:], op=op, dt=dt, out=out,
                                                     where=where), m)
                args = args[:i] + (m,) + args[i + 1:]
        os, dts, kinds = [], [], []
        for a in args:
            o, d = self.nested(a)
            if d == "o":
                it.throw("TypeError", "ufunc not supported for the input types")
            os.append(o)
            dts.append(d)
            kinds.append(o.ndim > 0)
        try:
            bs = np.broadcast_arrays(*os) if len(os) > 1 else os
        except ValueError:
            it.throw("ValueError", "operands could not be broadcast together")
        shape = bs[0].shape
        if dt is None:
            arrd = [d for d, k in zip(dts, kinds) if k] or dts
            dt = max(arrd, key=lambda d: _ord[d])
            for d in dts:
                if d == "f" and dt in "ib":
                    dt = "f"
                if d == "i" and dt == "b":
                    dt = "i"
            if op in ("/",) and dt in "ib":
                dt = "f"
            if dt == "b" and any(kinds):
                if op in ("-", "neg"):
                    it.throw("TypeError", "numpy boolean subtract, the `-` operator, is not supported")
                if op == "+":
                    fn = lambda x, y: D.or_(D.truth(x), D.truth(y))
            if dt == "b" and op in ("+", "-", "**", "//", "%", "neg") and not (op == "+" and any(kinds)):
                dt = "i"
        flat = [b.ravel() for b in bs]
        cells = [fn(*xs) for xs in zip(*flat)]
        if where is not True:
            w, _ = self.nested(where)
            w = np.broadcast_to(w, shape).ravel()
            if out is not None:
                old = [c for c in np.broadcast_to(self.o(out), shape).ravel()]
            else:
                old = [self.uninit() for _ in cells]
            cells = [D.sel(D.truth(m), c, q) for m, c, q in zip(w, cells, old)]
        if out is not None:
            out = it.force(out)
            if isinstance(out, tuple):
                out = out[0]
            if out.shape != shape:
                it.throw("ValueError", "non-broadcastable output operand")
            if (dt == "f" and out.dt in "ib") or (dt == "i" and out.dt == "b"):
                it.throw("TypeError", "cannot cast ufunc output with casting rule 'same_kind'")
            self.store(out, cells)
            return out
        cells = [self.conv(c, dt) for c in cells]
        if shape == ():
            return cells[0]
        return self.arr(cells, shape, dt)

    def store(self, a, cells):
        if getattr(a, "ro", False):
            self.it.throw("ValueError", "assignment destination is read-only")
        b = self.it.wobj(a.buf).c
        cells = [self.conv(c, a.dt) for c in cells]
        for i, c in zip(a.ix, cells):
            b[i] = c

    def assign(self, view, value):
        o, _ = self.num(value)
        try:
            o = np.broadcast_to(o, view.shape)
        except ValueError:
            self.it.throw("ValueError", "could not broadcast input array")
        self.store(view, list(o.ravel()))

    def uninit(self):
        it = self.it
        it.nd += 1
        return D.sym(f"uninit:{it.oracle}:{it.nd}", "data")

    # ------------------------------------------------------------ indexing
    def index(self, i, a):
        """Concrete numpy index, or None when it has symbolic parts."""
        it = self.it
        i = it.force(i)
        if isinstance(i, Phi):
            i = self.materialize(i)
        if i is None or i is Ellipsis or isinstance(i, (int,)):
            return i
        if isinstance(i, slice):
            return it.cslice(i)
        if isinstance(i, tuple):
            return tuple(self.index(x, a) for x in i)
        if isinstance(i, NArr) or it.isobj(i, "list") or isinstance(i, range):
            o, dt = self.nested(i)
            if dt in "fso" and o.size:
                it.throw("IndexError", "arrays used as indices must be of integer (or boolean) type")
            vals = []
            for c in o.ravel():
                if isinstance(c, D.Node):
                    d = it.decide(c) if c.isbool else None
                    if d is None:
                        d = self.assume_finite(c)
                    if d is None:
                        raise _Symbolic()
                    c = d
                vals.append(c)
            return np.array(vals, dtype=bool if dt == "b" else int).reshape(o.shape)
        if isinstance(i, D.Node):
            raise _Symbolic()
        if isinstance(i, float) or isinstance(i, str):
            it.throw("IndexError", "only integers, slices (`:`), ... are valid indices")
        it.und(f"array index {i!r}")

    def assume_finite(self, c):
        """Masks built from isnan/isfinite of computed values: assume the values are finite."""
        if c.op == "isnan":
            self.it.assumed.add("computed values are finite where they build a mask")
            return False
        if c.op == "isfin":
            return True
        if c.op == "not":
            r = self.assume_finite(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            a, b = self.assume_finite(c.args[0]), self.assume_finite(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        return None

    def isbasic(self, i):
        if isinstance(i, tuple):
            return all(self.isbasic(x) for x in i)
        return i is None or i is Ellipsis or isinstance(i, (int, slice)) and not isinstance(i, bool)

    def getitem(self, a, i):
        it = self.it
        try:
            ci = self.index(i, a)
        except _Symbolic:
            return self.sym_getitem(a, i)
        p = self.pos(a)
        try:
            r = p[ci]
        except IndexError as e:
            it.throw("IndexError", str(e))
        if isinstance(r, np.integer) or (isinstance(r, np.ndarray) and r.ndim == 0 and not self.has_ellipsis(ci)):
            c = it.h.r(a.buf).c[int(r)]
            return npscalar(c) if a.dt != "o" or self.words(a) else c
        if self.isbasic(ci):
            return self.view(a, r)
        c = it.h.r(a.buf).c
        return self.arr([c[int(k)] for k in r.ravel()], r.shape, a.dt)

    def has_ellipsis(self, i):
        return i is Ellipsis or (isinstance(i, tuple) and any(x is Ellipsis for x in i))

    def sym_getitem(self, a, i):
        """One symbolic integer, or a symbolic integer array on one axis."""
        it = self.it
        i = it.force(i)
        idx = i if isinstance(i, tuple) else (i,)
        for k, x in enumerate(idx):
            x = it.force(x)
            if isinstance(x, Phi):
                x = self.materialize(x)
            if isinstance(x, D.Node):
                if x.isbool:
                    it.und("symbolic boolean index")
                ax = sum(1 for y in idx[:k] if y is not None)
                n = a.shape[ax]
                if x.fin:
                    it.raise_if(D.by_choice(x, lambda j: not -n <= j < n), "IndexError", "index out of bounds")
                    return D.by_choice(x, lambda j: self.getitem(a, idx[:k] + (j,) + idx[k + 1:]) if -n <= j < n
                                       else D.OUT,
                                       lambda c, u, v: v if u is D.OUT else u if v is D.OUT else self.sel(c, u, v))
                x2 = D.sel(D.lt(x, 0), D.add(x, n), x)
                it.raise_if(D.or_(D.lt(x2, 0), D.le(n, x2)), "IndexError", "index out of bounds")
                r = None
                for j in range(n - 1, -1, -1):
                    v = self.getitem(a, idx[:k] + (j,) + idx[k + 1:])
                    r = v if r is None else self.sel(D.eq(x2, j), v, r)
                return r
            if isinstance(x, NArr) and x.dt == "i":
                ax = sum(1 for y in idx[:k] if y is not None)
                cs = self.cells(x)
                parts = [self.sym_getitem(a, idx[:k] + (c,) + idx[k + 1:]) if isinstance(c, D.Node)
                         else self.getitem(a, idx[:k] + (c,) + idx[k + 1:]) for c in cs]
                if k != 0 or x.ndim != 1:
                    if x.ndim != 1:
                        it.und("symbolic index array")
                    o = np.stack([self.nested(q)[0] for q in parts], axis=ax if not any(
                        isinstance(y, int) for y in idx[:k]) else 0)
                    return self.from_o(o, a.dt)
                return self.from_o(np.stack([self.nested(q)[0] for q in parts], axis=0), a.dt)
        it.und("symbolic array index")

    def sel(self, c, a, b):
        if isinstance(a, NArr) or isinstance(b, NArr):
            return self.ew(lambda x, y: D.sel(c, x, y), a, b)
        return D.sel(c, a, b)

    def setitem(self, a, i, x):
        it = self.it
        x = it.force(x)
        if isinstance(x, Phi):
            x = self.materialize(x)
            if isinstance(x, Phi):
                it.und("store of values of different shape")
        try:
            ci = self.index(i, a)
        except _Symbolic:
            return self.sym_setitem(a, i, x)
        p = self.pos(a)
        try:
            r = p[ci]
        except IndexError as e:
            it.throw("IndexError", str(e))
        r = np.asarray(r)
        o, dt = self.nested(x)
        try:
            o = np.broadcast_to(o, r.shape)
        except ValueError:
            if o.size == r.size == 1:
                o = o.reshape(r.shape)
            else:
                it.throw("ValueError", "could not broadcast input array")
        if getattr(a, "ro", False):
            it.throw("ValueError", "assignment destination is read-only")
        cells = [self.conv(c, a.dt) for c in o.ravel()]
        b = it.wobj(a.buf).c
        for k, c in zip(r.ravel(), cells):
            b[int(k)] = c

    def sym_setitem(self, a, i, x):
        it = self.it
        i = it.force(i)
        if isinstance(i, NArr) and i.dt == "b" and i.shape == a.shape:
            o, _ = self.nested(x)
            if o.size != 1:
                it.und("masked store")
            v = o.ravel()[0]
            self.store(a, [D.sel(m, v, c) for m, c in zip(self.cells(i), self.cells(a))])
            return
        idx = i if isinstance(i, tuple) else (i,)
        for k, y in enumerate(idx):
            y = it.force(y)
            if isinstance(y, D.Node) and not y.isbool:
                n = a.shape[k]
                for j in range(n):
                    ii = idx[:k] + (j,) + idx[k + 1:]
                    old = self.getitem(a, ii)
                    self.setitem(a, ii, self.sel(D.or_(D.eq(y, j), D.eq(y, j - n)), x, old))
                return
        it.und("symbolic array store")

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b):
        it = self.it
        A, da = self.num(a)
        B, db = self.num(b)
        if A.ndim == 0 or B.ndim == 0:
            it.throw("ValueError", "matmul: input operand does not have enough dimensions")
        dt = da if _ord[da] >= _ord[db] else db
        A2 = A[None, :] if A.ndim == 1 else A
        B2 = B[:, None] if B.ndim == 1 else B
        if A2.shape[-1] != B2.shape[-2]:
            it.throw("ValueError", "matmul: Input operand 1 has a mismatch in its core dimension 0")
        try:
            bs = np.broadcast_shapes(A2.shape[:-2], B2.shape[:-2])
        except ValueError:
            it.throw("ValueError", "matmul: batch dimensions do not match")
        A2 = np.broadcast_to(A2, bs + A2.shape[-2:])
        B2 = np.broadcast_to(B2, bs + B2.shape[-2:])
        n, k, m = A2.shape[-2], A2.shape[-1], B2.shape[-1]
        out = np.empty(bs + (n, m), dtype=object)
        for ix in np.ndindex(*bs):
            for i in range(n):
                for j in range(m):
                    out[ix + (i, j)] = total((D.mul(A2[ix + (i, t)], B2[ix + (t, j)]) for t in range(k)),
                                             0.0 if dt in "fs" else 0)
        if A.ndim == 1:
            out = out[..., 0, :]
        if B.ndim == 1:
            out = out[..., 0]
        if isinstance(out, np.ndarray) and out.ndim == 0:
            return self.conv(out[()], dt)
        if not isinstance(out, np.ndarray):
            return self.conv(out, dt)
        return self.from_o(out, dt)

    def dot(self, a, b, out=None):
        A, B = self.num(a)[0], self.num(b)[0]
        if A.ndim == 0 or B.ndim == 0:
            return self.it.binop("*", self.simple(a), self.simple(b))
        if A.ndim <= 2 and B.ndim <= 2:
            return self.matmul(a, b)
        self.it.und("dot of high-dimensional arrays")

    def simple(self, v):
        o, d = self.num(v)
        if o.ndim == 0:
            return o[()]
        return v if isinstance(v, NArr) else self.from_o(o, d)

    def einsum(self, subs, *ops, optimize=False, out=None):
        it = self.it
        if not isinstance(subs, str):
            it.und("einsum form")
        subs = subs.replace(" ", "")
        if "->" in subs:
            lhs, rhs = subs.split("->")
        else:
            lhs = subs
            letters = [c for c in lhs if c.isalpha()]
            rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        ins = lhs.split(",")
        os = [self.num(x)[0] for x in ops]
        if "." in subs:
            it.und("einsum ellipsis")
        dims = {}
        for s, o in zip(ins, os):
            if len(s) != o.ndim:
                it.throw("ValueError", "einstein sum subscripts string does not match")
            for c, n in zip(s, o.shape):
                if dims.setdefault(c, n) not in (n,):
                    it.throw("ValueError", "operands could not be broadcast together")
        # contract pairwise left to right (exact arithmetic: any order)
        cur, cs = os[0], ins[0]
        for k in range(1, len(os)):
            later = "".join(ins[k + 1:]) + rhs
            keep = "".join(c for c in dict.fromkeys(cs + ins[k]) if c in later)
            cur = self._contract(cs, cur, ins[k], os[k], keep, dims)
            cs = keep
        cur = self._contract(cs, cur, "", oarr([1.0], ()), rhs, dims)
        if cur.ndim == 0:
            return cur[()]
        return self.from_o(cur, "f")

    def _contract(self, sa, A, sb, B, so, dims):
        red = [c for c in dict.fromkeys(sa + sb) if c not in so]
        out = np.empty([dims[c] for c in so], dtype=object)
        for io in np.ndindex(*out.shape):
            env = dict(zip(so, io))
            acc = None
            for ir in np.ndindex(*[dims[c] for c in red]):
                env.update(zip(red, ir))
                t = A[tuple(env[c] for c in sa)]
                if sb:
                    t = D.mul(t, B[tuple(env[c] for c in sb)])
                acc = t if acc is None else D.add(acc, t)
            out[io] = 0.0 if acc is None else acc
        return out

    def matop(self, name, o, extra=(), n=None, shape=None):
        """Nodes of a matrix operator (constants are folded)."""
        cells = list(o.ravel())
        sh = o.shape if shape is None else shape
        if not any(isinstance(c, D.Node) for c in cells) and not any(isinstance(e, D.Node) for e in extra):
            try:
                with np.errstate(all="ignore"):
                    r = D.MATOPS[name](np.array([float(c) for c in cells]), sh, list(extra), 0)
            except (np.linalg.LinAlgError, ValueError):
                self.it.throw("LinAlgError", name)
            return [float(x) for x in np.asarray(r, float).ravel()]
        m = D.mat(name, tuple(cells), sh, tuple(extra))
        return [D.item(m, k) for k in range(n)]

    def flag(self, name, o):
        """Condition computed from a matrix (singular, not positive definite, ...)."""
        cells = list(o.ravel())
        if not any(isinstance(c, D.Node) for c in cells):
            return bool(D.MATOPS[name](np.array([float(c) for c in cells]), o.shape, [], 0) == 1.0)
        return D.item(D.mat(name, tuple(cells), o.shape), 0, isbool=True)

    def sq(self, a):
        o, dt = self.num(a)
        if o.ndim < 2:
            self.it.throw("LinAlgError", "array must be at least two-dimensional")
        if o.ndim > 2:
            self.it.und("stacked linear algebra")
        return o

    def square(self, a):
        o = self.sq(a)
        if o.shape[0] != o.shape[1]:
            self.it.throw("LinAlgError", "Last 2 dimensions of the array must be square")
        return o

    def inv(self, a):
        o = self.square(a)
        if self.it.catching("LinAlgError"):
            self.it.raise_if(self.flag("singular", o), "LinAlgError", "Singular matrix")
        return self.arr(self.matop("inv", o, n=o.size), o.shape)

    def pinv(self, a, rcond=None, hermitian=False, rtol=None):
        o = self.sq(a)
        if self.it.catching("LinAlgError"):
            self.it.raise_if(self.flag("pinvfail", o), "LinAlgError", "SVD did not converge")
        extra = ()
        rc = rcond if rcond is not None else rtol
        if rc is not None:
            extra = (rc,)
        return self.arr(self.matop("pinv", o, extra, n=o.size), o.shape[::-1])

    def solve(self, a, b):
        A = self.square(a)
        B, _ = self.num(b)
        if B.shape[0] != A.shape[0]:
            self.it.throw("ValueError", "solve: mismatch in its core dimension")
        if self.it.catching("LinAlgError"):
            self.it.raise_if(self.flag("singular", A), "LinAlgError", "Singular matrix")
        both = np.concatenate([A.ravel(), B.ravel()])
        r = self.matop("solve", both, n=B.size, shape=(A.shape, B.shape))
        return self.arr(r, B.shape)

    def cholesky(self, a, upper=False):
        o = self.square(a)
        if self.it.catching("LinAlgError"):
            self.it.raise_if(self.flag("notpd", o), "LinAlgError", "Matrix is not positive definite")
        r = self.arr(self.matop("chol", o, n=o.size), o.shape)
        return r

    def eigh(self, a, UPLO="L"):
        o = self.square(a)
        n = o.shape[0]
        w = self.arr(self.matop("eigh_w", o, n=n), (n,))
        v = self.arr(self.matop("eigh_v", o, n=n * n), (n, n))
        return self.named("EighResult", ("eigenvalues", "eigenvectors"), (w, v))

    def named(self, label, names, vals):
        return tuple(vals)

    def eigvalsh(self, a, UPLO="L"):
        o = self.square(a)
        return self.arr(self.matop("eigh_w", o, n=o.shape[0]), (o.shape[0],))

    def eigvals(self, a):
        o = self.square(a)
        return self.arr(self.matop("eig_w", o, n=o.shape[0]), (o.shape[0],))

    def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
        o = self.sq(a)
        n, m = o.shape
        k = min(n, m)
        s = self.arr(self.matop("svd_s", o, n=k), (k,))
        if not compute_uv:
            return s
        f = 1 if full_matrices else 0
        us, vs = ((n, n), (m, m)) if f else ((n, k), (k, m))
        u = self.arr(self.matop("svd_u", o, (f,), n=us[0] * us[1]), us)
        v = self.arr(self.matop("svd_v", o, (f,), n=vs[0] * vs[1]), vs)
        return (u, s, v)

    def qr(self, a, mode="reduced"):
        o = self.sq(a)
        n, m = o.shape
        k = min(n, m)
        return (self.arr(self.matop("qr_q", o, n=n * k), (n, k)), self.arr(self.matop("qr_r", o, n=k * m), (k, m)))

    def slogdet(self, a):
        o = self.square(a)
        return (self.matop("slog_s", o, n=1)[0], self.matop("slog_l", o, n=1)[0])

    def det(self, a):
        return self.matop("det", self.square(a), n=1)[0]

    def norm(self, a, ord=None, axis=None, keepdims=False):
        o, _ = self.num(a)
        if axis is not None:
            if ord not in (None, 2):
                self.it.und("norm ord with axis")
            return self.ew(lambda x: D.un("sqrt", x), self.sum(self.ew(lambda x: D.mul(x, x), a), axis=axis,
                                                              keepdims=keepdims))
        cs = list(o.ravel())
        if ord is None or (ord == 2 and o.ndim == 1) or ord == "fro":
            return D.un("sqrt", total([D.mul(x, x) for x in cs]))
        if ord == 1 and o.ndim == 1:
            return total([D.un("abs", x) for x in cs])
        if ord == math.inf and o.ndim == 1:
            return fold(D.fmax, [D.un("abs", x) for x in cs], 0.0)
        if ord == 2:
            return self.matop("svd_s", o, n=min(o.shape))[0]
        self.it.und("norm ord")

    def cond(self, a, p=None):
        return self.matop("cond", self.sq(a), n=1)[0]

    def matrix_rank(self, a, *x, **k):
        o = self.sq(a)
        r = self.matop("rank", o, n=1)[0]
        return D.un("int", r)

    # ------------------------------------------------------------ reductions
    def reduce(self, a, fn, axis=None, keepdims=False, dt=None):
        """fn: list of cells -> cell"""
        o, d = self.num(a)
        dt = dt or d
        axis = self.it.force(axis)
        if axis is None:
            r = self.conv(fn(list(o.ravel())), dt)
            if keepdims:
                return self.arr([r], (1,) * o.ndim, dt)
            return r
        axes = axis if isinstance(axis, tuple) else (axis,)
        for x in axes:
            if not isinstance(x, int):
                self.it.und("reduction axis")
            if not -o.ndim <= x < o.ndim:
                self.it.throw("IndexError", "axis out of bounds")
        axes = tuple(sorted(x % o.ndim for x in axes))
        keep = [i for i in range(o.ndim) if i not in axes]
        t = o.transpose(keep + list(axes))
        ks = t.shape[:len(keep)]
        out = np.empty(ks, dtype=object)
        for ix in np.ndindex(*ks):
            sub = t[ix]
            out[ix] = self.conv(fn(list(sub.ravel()) if isinstance(sub, np.ndarray) else [sub]), dt)
        if keepdims:
            out = out.reshape([1 if i in axes else n for i, n in enumerate(o.shape)])
        if out.ndim == 0:
            return out[()]
        return self.arr(list(out.ravel()), out.shape, dt)

    def dtof(self, a):
        a = self.it.force(a)
        if isinstance(a, NArr):
            return a.dt
        return self.num(a)[1]

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        d = self.dtof(a)
        d = "i" if d == "b" else d
        if dtype is not None:
            d = self.dtcode(dtype)
        if where is not None:
            a = self.ew(lambda m, x: D.sel(D.truth(m), x, 0.0), where, a, dt=d)
        r = self.reduce(a, lambda xs: total([D._unbool(D.un("float", x)) if d == "f" and D.is_bool(x) else
                                             (int(x) if isinstance(x, bool) else x) for x in xs],
                                            0 if d == "i" else 0.0), axis, keepdims, d)
        if initial is not None:
            r = self.it.binop("+", r, initial)
        return self.put_out(r, out)

    def put_out(self, r, out):
        if out is None:
            return r
        self.assign(out, r)
        return out

    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False, where=None):
        d = self.dtof(a)
        d = "f" if d in "ib" else d
        if where is not None:
            s = self.sum(a, axis, None, None, keepdims, None, where)
            n = self.sum(where, axis, None, None, keepdims)
            return self.it.binop("/", s, n)
        return self.put_out(self.reduce(a, lambda xs: D.div(total(xs), len(xs)) if xs else NAN, axis, keepdims, d), out)

    def var(self, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None):
        if correction is not None:
            ddof = correction

        def f(xs):
            m = D.div(total(xs), len(xs))
            return D.div(total([D.mul(D.sub(x, m), D.sub(x, m)) for x in xs]), D.sub(len(xs), ddof))
        return self.reduce(a, f, axis, keepdims, "f")

    def std(self, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, correction=None):
        v = self.var(a, axis, dtype, out, ddof, keepdims, correction)
        return self.ew(lambda x: D.un("sqrt", x), v, dt="f")

    def prod(self, a, axis=None, dtype=None, out=None, keepdims=False):
        return self.reduce(a, lambda xs: fold(D.mul, xs, 1.0), axis, keepdims)

    def max(self, a, axis=None, out=None, keepdims=False, initial=None, where=None):
        return self._ext(D.fmax, a, axis, keepdims, initial, out)

    def min(self, a, axis=None, out=None, keepdims=False, initial=None, where=None):
        return self._ext(D.fmin, a, axis, keepdims, initial, out)

    def _ext(self, f, a, axis, keepdims, initial, out):
        def g(xs):
            if initial is not None:
                xs = [initial] + xs
            if not xs:
                self.it.throw("ValueError", "zero-size array to reduction operation")
            return fold(f, xs, None)
        return self.put_out(self.reduce(a, g, axis, keepdims), out)

    def any(self, a, axis=None, out=None, keepdims=False):
        return self.reduce(a, lambda xs: fold(D.or_, [D.truth(x) for x in xs], False), axis, keepdims, "b")

    def all(self, a, axis=None, out=None, keepdims=False):
        return self.reduce(a, lambda xs: fold(D.and_, [D.truth(x) for x in xs], True), axis, keepdims, "b")

    def argext(self, name, a, axis=None, out=None, keepdims=False):
        def f(xs):
            if not xs:
                self.it.throw("ValueError", "attempt to get an arg-extremum of an empty sequence")
            r = self.matop(name, oarr(xs, (len(xs),)), n=1)[0]
            if isinstance(r, D.Node):
                return D.item(r.args[0], 0, isint=True, lo=0, hi=len(xs) - 1) if r.op == "item" else r
            return int(r)
        return self.reduce(a, f, axis, keepdims, "i")

    def median(self, a, axis=None, out=None, overwrite_input=False, keepdims=False):
        return self.reduce(a, lambda xs: self.matop("median", oarr(xs, (len(xs),)), n=1)[0], axis, keepdims, "f")

    def quantile(self, a, q, axis=None, **k):
        q = self.it.force(q)
        if not is_number(q):
            self.it.und("vector quantile")
        return self.reduce(a, lambda xs: self.matop("quantile", oarr(xs, (len(xs),)), (q,), n=1)[0], axis, False, "f")

    def trace(self, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        o = self.sq(a)
        return total(list(np.diagonal(o, offset)))

    def sort(self, a, axis=-1, kind=None, order=None):
        o, d = self.num(a)
        if o.ndim == 0:
            self.it.throw("ValueError", "axis -1 is out of bounds")
        if axis is None:
            o = o.ravel()
            axis = -1
        t = np.moveaxis(o, axis, -1)
        out = np.empty(t.shape, dtype=object)
        for ix in np.ndindex(*t.shape[:-1]):
            out[ix] = self.matop("sort", t[ix], n=t.shape[-1])
        return self.from_o(np.moveaxis(out, -1, axis), d)

    def argsort(self, a, axis=-1, kind=None, order=None):
        o, _ = self.num(a)
        if o.ndim != 1:
            self.it.und("argsort of a matrix")
        r = self.matop("argsort", o, n=o.size)
        if any(isinstance(x, D.Node) for x in r):
            r = [D.item(x.args[0], x.args[1], isint=True, lo=0, hi=o.size - 1) for x in r]
        else:
            r = [int(x) for x in r]
        return self.arr(r, (o.size,), "i")

    # ------------------------------------------------------------ shapes
    def shp(self, s):
        it = self.it
        s = it.force(s)
        if isinstance(s, NArr):
            s = tuple(self.cells(s)) if s.ndim else self.cells(s)[0]
        if isinstance(s, Ref):
            s = tuple(it.iterate(s))
        if not isinstance(s, tuple):
            s = (s,)
        out = []
        for x in s:
            x = it.force(x)
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, float):
                it.throw("TypeError", "'float' object cannot be interpreted as an integer")
            if not isinstance(x, int):
                it.und("array of symbolic shape")
            if x < 0:
                it.throw("ValueError", "negative dimensions are not allowed")
            out.append(x)
        return tuple(out)

    def full(self, shape, v, dtype=None, order=None):
        s = self.shp(shape)
        o, d = self.num(v)
        dt = self.dtcode(dtype) if dtype is not None else d
        try:
            o = np.broadcast_to(o, s)
        except ValueError:
            self.it.throw("ValueError", "could not broadcast")
        return self.arr([self.conv(c, dt) for c in o.ravel()], s, dt)

    def zeros(self, shape, dtype=None, order=None, like=None):
        return self.full(shape, 0.0 if dtype is None else 0, dtype if dtype is not None else DType("f"))

    def ones(self, shape, dtype=None, order=None, like=None):
        return self.full(shape, 1.0 if dtype is None else 1, dtype if dtype is not None else DType("f"))

    def empty(self, shape, dtype=None, order=None):
        s = self.shp(shape)
        dt = self.dtcode(dtype)
        n = int(np.prod(s)) if s else 1
        return self.arr([self.uninit() if dt in "fs" else 0 for _ in range(n)], s, dt)

    def like(self, f):
        def g(a, *x, dtype=None, **k):
            a = self.asarray(a)
            return f(a.shape, *x, dtype=dtype if dtype is not None else DType(a.dt))
        return g

    def eye(self, n, m=None, k=0, dtype=None):
        n = self.shp(n)[0]
        m = n if m is None else self.shp(m)[0]
        dt = self.dtcode(dtype)
        e = np.eye(n, m, k)
        return self.arr([self.conv(float(x), dt) for x in e.ravel()], (n, m), dt)

    def arange(self, *a, dtype=None):
        it = self.it
        a = [it.force(x) for x in a]
        if any(isinstance(x, D.Node) for x in a):
            it.und("arange of symbolic bounds")
        r = np.arange(*a)
        dt = self.dtcode(dtype) if dtype is not None else ("i" if r.dtype.kind == "i" else "f")
        return self.arr([self.conv(x.item(), dt) for x in r], r.shape, dt)

    def linspace(self, a, b, num=50, endpoint=True, dtype=None):
        n = num
        d = n - 1 if endpoint else n
        return self.arr([D.add(a, D.mul(D.sub(b, a), k / d)) if d else a for k in range(n)], (n,))

    def reposition(self, f, a, copy=False):
        a = self.asarray(a)
        try:
            p = f(self.pos(a))
        except ValueError as e:
            self.it.throw("ValueError", str(e))
        if copy:
            c = self.it.h.r(a.buf).c
            return self.arr([c[int(i)] for i in p.ravel()], p.shape, a.dt)
        return self.view(a, p)

    def whole(self, k):
        """A count, or a sequence of counts, that NumPy takes as an argument."""
        k = self.it.force(k)
        if isinstance(k, D.Node):
            self.it.und("symbolic count")
        if k is None or isinstance(k, (int, tuple)):
            return k
        return [int(x) for x in (self.cells(k) if isinstance(k, NArr) else self.it.iterate(k))]

    def concat(self, f, seq):
        items = [self.num(x) for x in self.it.iterate(seq)]
        if not items:
            self.it.throw("ValueError", "need at least one array to concatenate")
        dt = max((d for _, d in items), key=lambda d: _ord[d])
        try:
            r = f([o for o, _ in items])
        except (ValueError, np.exceptions.AxisError) as e:
            self.it.throw("ValueError", str(e))
        return self.from_o(r, dt)

    def block(self, rows):
        it = self.it

        def depth(v):
            v = it.force(v)
            if isinstance(v, Ref) and it.h.m[v.oid].kind == "list":
                return 1 + max((depth(x) for x in it.h.m[v.oid].v), default=0)
            return 0

        def lift(v):
            v = it.force(v)
            if isinstance(v, Ref) and it.h.m[v.oid].kind == "list":
                return [lift(x) for x in it.h.m[v.oid].v]
            o, d = self.num(v)
            dts.append(d)
            return o
        dts: list = []
        try:
            r = np.block(lift(rows))
        except ValueError as e:
            it.throw("ValueError", str(e))
        return self.from_o(r, max(dts, key=lambda d: _ord[d]))

    def tensordot(self, a, b, axes=2):
        A, B = self.asarray(a), self.asarray(b)
        axes = self.it.force(axes)
        if isinstance(axes, int):
            xa, xb = list(range(A.ndim - axes, A.ndim)), list(range(axes))
        else:
            xa, xb = [self.it.force(x) for x in self.it.iterate(axes)]
            xa = [xa] if isinstance(xa, int) else [int(x) for x in self.it.iterate(xa)]
            xb = [xb] if isinstance(xb, int) else [int(x) for x in self.it.iterate(xb)]
        la = [chr(97 + i) for i in range(A.ndim)]
        lb = [chr(110 + i) for i in range(B.ndim)]
        for i, j in zip(xa, xb):
            lb[j] = la[i]
        keep = [c for i, c in enumerate(la) if i not in [x % A.ndim for x in xa]] + \
               [c for j, c in enumerate(lb) if j not in [x % B.ndim for x in xb]]
        return self.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(keep), A, B)

    def take_along(self, a, idx, axis=-1):
        a, idx = self.asarray(a), self.asarray(idx)
        ax = axis % a.ndim
        grid = []
        for k in range(a.ndim):
            if k == ax:
                grid.append(idx)
            else:
                q = np.arange(idx.shape[k]).reshape([-1 if j == k else 1 for j in range(a.ndim)])
                q = np.broadcast_to(q, idx.shape)
                grid.append(self.arr([int(v) for v in q.ravel()], q.shape, "i"))
        return self.getitem(a, tuple(grid))

    def meshgrid(self, *xs, indexing="xy", **k):
        os_ = [self.num(x) for x in xs]
        r = np.meshgrid(*[o for o, _ in os_], indexing=indexing)
        return self.it.new_list([self.from_o(o, d) for o, (_, d) in zip(r, os_)])

    def split(self, strict):
        def f(a, k, axis=0):
            a = self.asarray(a)
            p = self.pos(a)
            k = self.whole(k)
            try:
                parts = (np.split if strict else np.array_split)(p, k, axis=axis)
            except ValueError as e:
                self.it.throw("ValueError", str(e))
            return self.it.new_list([self.view(a, q) for q in parts])
        return f

    def diag(self, a, k=0):
        a = self.asarray(a)
        if a.ndim == 1:
            o = np.full((a.size, a.size), 0.0 if a.dt in "fs" else 0, dtype=object)
            for i, c in enumerate(self.cells(a)):
                o[i, i] = c
            if k:
                self.it.und("diag offset")
            return self.from_o(o, a.dt)
        if a.ndim == 2:
            return self.view(a, np.diagonal(self.pos(a), k))
        self.it.throw("ValueError", "Input must be 1- or 2-d.")

    def diagonal(self, a, offset=0, axis1=0, axis2=1):
        a = self.asarray(a)
        r = self.view(a, np.diagonal(self.pos(a), offset))
        r.ro = True
        return r

    def fill_diagonal(self, a, val, wrap=False):
        a = self.it.force(a)
        n = min(a.shape)
        o, _ = self.num(val)
        vals = [o[()]] * n if o.ndim == 0 else [o.ravel()[i % o.size] for i in range(n)]
        p = self.pos(a)
        self.store(NArr(a.buf, [int(p[(i,) * a.ndim]) for i in range(n)], (n,), a.dt) if not getattr(a, "ro", False)
                   else a, vals)

    def tri(self, up):
        def f(a, k=0):
            o, d = self.num(a)
            m = (np.triu if up else np.tril)(np.ones(o.shape, dtype=bool), k)
            return self.from_o(np.where(m, o, 0.0 if d in "fs" else 0), d)
        return f

    def outer(self, a, b, out=None):
        x, dx = self.num(a)
        y, dy = self.num(b)
        dt = dx if _ord[dx] >= _ord[dy] else dy
        x, y = x.ravel(), y.ravel()
        return self.put_out(self.arr([self.conv(D.mul(p, q), dt) for p in x for q in y], (x.size, y.size), dt), out)

    def kron(self, a, b):
        A, B = self.num(a)[0], self.num(b)[0]
        if A.ndim != 2 or B.ndim != 2:
            self.it.und("kron")
        out = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
        for i, j in np.ndindex(*A.shape):
            for k, m in np.ndindex(*B.shape):
                out[i * B.shape[0] + k, j * B.shape[1] + m] = D.mul(A[i, j], B[k, m])
        return self.from_o(out)

    def where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        a, b = ab
        C = self.num(c)[0]
        if not any(isinstance(x, D.Node) for x in C.ravel()) or True:
            return self.ew(lambda p, x, y: D.sel(D.truth(p), x, y), c, a, b,
                           dt=max((self.dtof(a), self.dtof(b)), key=lambda d: _ord[d]))

    def nonzero(self, a):
        o, _ = self.num(a)
        m = []
        for c in o.ravel():
            t = D.truth(c)
            d = self.it.decide(t)
            if d is None:
                self.it.und("nonzero of symbolic values")
            m.append(d)
        ix = np.nonzero(np.array(m, dtype=bool).reshape(o.shape))
        return tuple(self.arr([int(x) for x in q], q.shape, "i") for q in ix)

    def clip(self, a, lo=None, hi=None, out=None, min=None, max=None):
        lo = min if lo is None else lo
        hi = max if hi is None else hi
        lo, hi = self.it.force(lo), self.it.force(hi)
        r = a
        if lo is not None and hi is not None:
            return self.ew(lambda x, l, h: D.fmin(D.fmax(x, l), h), a, lo, hi, out=out)
        if lo is not None:
            return self.ew(D.fmax, a, lo, out=out)
        if hi is not None:
            return self.ew(D.fmin, a, hi, out=out)
        return r

    def cov(self, m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
        it = self.it
        if y is not None or fweights is not None:
            it.und("cov form")
        o, _ = self.num(m)
        if o.ndim == 1:
            o = o[None, :]
        elif not rowvar and o.shape[0] != 1:
            o = o.T
        elif not rowvar:
            o = o.T
        p, n = o.shape
        if ddof is None:
            ddof = 0 if bias else 1
        if aweights is not None:
            w = list(self.num(aweights)[0].ravel())
            sw = total(w)
            mu = [D.div(total([D.mul(wi, x) for wi, x in zip(w, o[i])]), sw) for i in range(p)]
            fact = D.sub(sw, D.mul(ddof, D.div(total([D.mul(x, x) for x in w]), sw))) if ddof else sw
        else:
            w = [1] * n
            mu = [D.div(total(list(o[i])), n) for i in range(p)]
            fact = n - ddof
        out = np.empty((p, p), dtype=object)
        for i in range(p):
            for j in range(p):
                out[i, j] = D.div(total([D.mul(wi, D.mul(D.sub(x, mu[i]), D.sub(z, mu[j])))
                                         for wi, x, z in zip(w, o[i], o[j])]), fact)
        if p == 1:
            return self.arr([out[0, 0]], ())
        return self.from_o(out)

    def corrcoef(self, m, y=None, rowvar=True, **k):
        c = self.cov(m, y, rowvar)
        o = self.o(c)
        if o.ndim == 0:
            return 1.0
        d = [D.un("sqrt", o[i, i]) for i in range(len(o))]
        out = np.empty(o.shape, dtype=object)
        for i, j in np.ndindex(*o.shape):
            out[i, j] = D.div(D.div(o[i, j], d[i]), d[j])
        return self.from_o(out)

    def nanfilter(self, f):
        def g(a, axis=None, **k):
            def h(xs):
                xs2 = []
                for x in xs:
                    n = isnan(x)
                    d = self.it.decide(n)
                    if d is None:
                        d = self.assume_finite(n) if isinstance(n, D.Node) else n
                    if not d:
                        xs2.append(x)
                return f(xs2)
            return self.reduce(a, h, axis, False, "f")
        return g

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return self.ew(lambda x, y: D.le(D.un("abs", D.sub(x, y)), D.add(atol, D.mul(rtol, D.un("abs", y)))), a, b,
                       dt="b")

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return self.all(self.isclose(a, b, rtol, atol))

    def array_equal(self, a, b, equal_nan=False):
        x, y = self.num(a)[0], self.num(b)[0]
        if x.shape != y.shape:
            return False
        return fold(D.and_, [D.eq(p, q) for p, q in zip(x.ravel(), y.ravel())], True)

    def average(self, a, axis=None, weights=None, returned=False, keepdims=False):
        if weights is None:
            return self.mean(a, axis)
        w = self.asarray(weights)
        x = self.asarray(a)
        if axis is None or x.ndim == 1:
            return self.it.binop("/", self.sum(self.it.binop("*", x, w)), self.sum(w))
        if axis == 0 and w.ndim == 1:
            return self.it.binop("/", self.matmul(w, x), self.sum(w))
        self.it.und("average")

    def cumsum(self, a, axis=None, dtype=None, out=None):
        o, d = self.num(a)
        if axis is None:
            o = o.ravel()
            axis = 0
        t = np.moveaxis(o, axis, 0)
        out_ = np.empty(t.shape, dtype=object)
        for i in range(t.shape[0]):
            for ix in np.ndindex(*t.shape[1:]):
                out_[(i,) + ix] = t[(i,) + ix] if i == 0 else D.add(out_[(i - 1,) + ix], t[(i,) + ix])
        return self.from_o(np.moveaxis(out_, 0, axis), "i" if d == "b" else d)

    def diff(self, a, n=1, axis=-1):
        a = self.asarray(a)
        for _ in range(n):
            p = self.pos(a)
            hi = self.view(a, np.take(p, range(1, p.shape[axis]), axis=axis))
            lo = self.view(a, np.take(p, range(0, p.shape[axis] - 1), axis=axis))
            a = self.it.binop("-", hi, lo)
        return a

    def unique(self, a, *x, **k):
        o, d = self.num(a)
        cs = list(o.ravel())
        if x or k or any(isinstance(c, D.Node) for c in cs):
            self.it.und("unique")
        r = sorted(set(cs))
        return self.arr(r, (len(r),), d)

    def ix_(self, *seqs):
        out = []
        for k, s in enumerate(seqs):
            a = self.asarray(s)
            if a.dt == "b":
                a = self.nonzero(a)[0]
            if a.size == 0:
                a = self.arr([], (0,), "i")
            sh = [1] * len(seqs)
            sh[k] = a.size
            out.append(self.view(a, self.pos(a).reshape(sh)))
        return tuple(out)

    def idx(self, f):
        def g(n, *x, **k):
            r = f(n, *x, **k)
            return tuple(self.arr([int(v) for v in q], q.shape, "i") for q in r)
        return g

    # ------------------------------------------------------------ attributes of arrays
    def array_attr(self, a, name):
        it = self.it
        if name == "shape":
            return a.shape
        if name == "ndim":
            return a.ndim
        if name == "size":
            return a.size
        if name == "nbytes":
            return a.size * {"f": 8, "s": 4, "i": 8, "b": 1}.get(a.dt, 8)
        if name == "itemsize":
            return 8
        if name == "dtype":
            return DType(a.dt)
        if name == "T":
            return self.view(a, self.pos(a).T)
        if name == "real":
            return a
        if name == "imag":
            return self.zeros(a.shape)
        if name == "flat":
            return self.view(a, self.pos(a).ravel())
        if name == "base":
            b = self.it.h.r(a.buf)
            if len(a.ix) == len(b.c) and list(a.ix) == list(range(len(b.c))):
                return None
            return self.view(a, np.arange(len(b.c)))
        if name == "flags":
            from .interp import NS
            return NS("flags", writeable=not getattr(a, "ro", False), owndata=True, array=a, c_contiguous=True)
        m = self.methods.get(name)
        if m is not None:
            return Builtin("ndarray." + name, lambda *x, **k: m(a, *x, **k))
        if name in self.generic:
            f = self.tab[name]
            return Builtin("ndarray." + name, lambda *x, **k: f.fn(a, *x, **k))
        if name in ("__class__",):
            return self.tab["ndarray"]
        if name.startswith("__") and name.endswith("__"):
            ops = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__truediv__": "/", "__pow__": "**",
                   "__matmul__": "@"}
            if name in ops:
                return Builtin(name, lambda x: it.binop(ops[name], a, x))
            if name == "__len__":
                return Builtin(name, lambda: a.shape[0])
            if name == "__getitem__":
                return Builtin(name, lambda i: self.getitem(a, i))
            if name == "__setitem__":
                return Builtin(name, lambda i, v: self.setitem(a, i, v))
            if name == "__iter__":
                return Builtin(name, lambda: it.new_iter(self.rows(a)))
            if name in ("__array__",):
                return Builtin(name, lambda *x, **k: a)
            if name in ("__copy__", "__deepcopy__"):
                return Builtin(name, lambda *x: self.copy(a))
        it.throw("AttributeError", f"'numpy.ndarray' object has no attribute {name!r}")

    def array_setattr(self, a, name, x):
        if name == "shape":
            a.shape = self.reposition(lambda p: p.reshape(x), a).shape
            return
        if name == "flat":
            return self.assign(a, x)
        self.it.und(f"array attribute store {name}")

    def set_flags(self, a, write=None, **k):
        if write is False:
            a.ro = True
        elif write is True:
            a.ro = False

    def copy(self, a, order=None, subok=False):
        a = self.it.force(a)
        if isinstance(a, Phi):
            return self.it.lift(lambda x: self.copy(x), a)
        if not isinstance(a, NArr):
            return self.array(a)
        return self.arr(self.cells(a), a.shape, a.dt)

    def tolist(self, a):
        if a.ndim == 0:
            return plain(self.cells(a)[0])
        if a.ndim == 1:
            return self.it.new_list([plain(c) for c in self.cells(a)])
        return self.it.new_list([self.tolist(r) for r in self.rows(a)])

    def astype(self, a, dtype, order=None, casting=None, subok=True, copy=True):
        dt = self.dtcode(dtype)
        if dt == a.dt and copy is False:
            return a
        return self.arr([self.conv(c, dt) for c in self.cells(a)], a.shape, dt)

    def item(self, a, *i):
        if not i:
            if a.size != 1:
                self.it.throw("ValueError", "can only convert an array of size 1 to a Python scalar")
            return plain(self.cells(a)[0])
        if len(i) == 1 and not isinstance(i[0], tuple):
            return plain(self.cells(a)[i[0]])
        return plain(self.getitem(a, i if len(i) > 1 else i[0]))

    def reshape(self, a, *s, order="C", shape=None, **k):
        if shape is not None:
            s = (shape,)
        s = s[0] if len(s) == 1 else s
        s = self.it.force(s)
        if isinstance(s, Ref):
            s = tuple(self.it.iterate(s))
        return self.reposition(lambda p: p.reshape(s), a)

    def transpose(self, a, *ax):
        ax = ax[0] if len(ax) == 1 and not isinstance(ax[0], int) else (ax or None)
        return self.reposition(lambda p: p.transpose(ax), a)

    def builtin_attr(self, v, name):
        f = self.ufuncs.get(v.name)
        if f is None:
            return ABSENT
        fn, op, dt = f
        if name == "outer":
            def g(a, b):
                A, B = self.asarray(a), self.asarray(b)
                a2 = self.view(A, self.pos(A).reshape(A.shape + (1,) * B.ndim))
                return self.ew(fn, a2, B, op=op, dt=dt)
            return Builtin(v.name + ".outer", g)
        if name == "reduce":
            return Builtin(v.name + ".reduce", lambda a, axis=0, dtype=None, out=None, keepdims=False, initial=None:
                           self.reduce(a, lambda xs: fold(fn, ([initial] if initial is not None else []) + xs, 0.0),
                                       axis, keepdims))
        if name == "at":
            def at(a, idx, b=None):
                it = self.it
                idx = it.force(idx)
                if isinstance(idx, tuple):
                    cols = [self.asarray(x) for x in idx]
                else:
                    cols = [self.asarray(idx)]
                n = max((c.size for c in cols), default=0)
                cs = [self.cells(c) for c in cols]
                if any(isinstance(x, D.Node) for c in cs for x in c):
                    it.und("ufunc.at at a symbolic index")
                for i in range(n):
                    k = tuple(int(c[i if len(c) > 1 else 0]) for c in cs)
                    k = k if len(k) > 1 else k[0]
                    v = self.getitem(a, k)
                    if b is not None:
                        bb = self.asarray(b)
                        bv = self.getitem(bb, i) if bb.ndim and bb.shape[0] == n else b
                        self.setitem(a, k, self.ew(fn, v, bv, op=op, dt=dt))
                    else:
                        self.setitem(a, k, self.ew(fn, v, op=op, dt=dt))
            return Builtin(v.name + ".at", at)
        return ABSENT

    # ------------------------------------------------------------ random numbers
    def rng(self, seed=None, *a, **k):
        from .interp import NS
        it = self.it
        seed = it.force(seed)
        if it.isobj(seed, "inst") or isinstance(seed, NS):
            return seed                     # an existing generator is returned as it is
        lab = None if seed is None else (str(seed) if isinstance(seed, (int, str)) else
                                         "?" if isinstance(seed, D.Node) else "obj")
        cnt = [0]

        def draw(kind, size, dist="data", **kw):
            s = () if size is None else self.shp(size)
            n = int(np.prod(s)) if s else 1
            out = []
            for _ in range(n):
                cnt[0] += 1
                if lab is None:
                    out.append(it.nondet("random"))
                else:
                    out.append(D.sym(f"rng:{lab}:{kind}:{cnt[0]}", dist, **kw))
            return out[0] if s == () else self.arr(out, s)
        from .vals import Builtin as B
        return NS("rng",
                  standard_normal=B("standard_normal", lambda size=None, **k: draw("n", size)),
                  normal=B("normal", lambda loc=0.0, scale=1.0, size=None: it.binop(
                      "+", loc, it.binop("*", scale, draw("n", size)))),
                  random=B("random", lambda size=None: draw("u", size, "unit")),
                  uniform=B("uniform", lambda low=0.0, high=1.0, size=None: it.binop(
                      "+", low, it.binop("*", it.binop("-", high, low), draw("u", size, "unit")))),
                  )

    # ------------------------------------------------------------ table
    def reg(self, name, f, tab=None):
        it = self.it
        tab = self.tab if tab is None else tab

        def fix(v):
            v = it.force(v)
            return v

        def g(*a, **k):
            for i, v in enumerate(a):
                v = fix(v)
                if isinstance(v, Phi):
                    m = self.materialize(v) if name not in ("asarray", "array", "fill_diagonal", "copyto") else v
                    if isinstance(m, Phi):
                        return it.lift(lambda x: g(*a[:i], x, *a[i + 1:], **k), m)
                    v = m
                a = a[:i] + (v,) + a[i + 1:]
            for kk, v in list(k.items()):
                v = fix(v)
                if isinstance(v, Phi):
                    return it.lift(lambda x: g(*a, **{**k, kk: x}), v)
                k[kk] = v
            return f(*a, **k)
        tab[name] = Builtin(name, g)

    def _install(self):
        it = self.it
        R = self.reg
        self.tab.update({
            "pi": math.pi, "e": math.e, "nan": NAN, "NaN": NAN, "inf": math.inf, "newaxis": None, "euler_gamma":
                0.5772156649015329,
            "float64": DType("f"), "float32": DType("s"), "int64": DType("i"), "int32": DType("i"), "intp": DType("i"),
            "bool_": DType("b"), "float16": DType("s"), "double": DType("f"), "int_": DType("i"), "object_": DType("o"),
            "longdouble": DType("f"), "uint8": DType("i"), "single": DType("s"),
            "ndarray": TypeV("ndarray", None), "generic": TypeV("generic", None), "number": TypeV("np.number", None),
            "floating": TypeV("np.floating", None), "integer": TypeV("np.integer", None),
            "__version__": "2.0.0",
        })
        B = D
        binary = {
            "add": (D.add, "+", None), "subtract": (D.sub, "-", None), "multiply": (D.mul, "*", None),
            "divide": (D.div, "/", None), "true_divide": (D.div, "/", None), "power": (D.power, "**", None),
            "float_power": (D.power, "**", "f"), "maximum": (D.fmax, "max", None), "minimum": (D.fmin, "min", None),
            "fmax": (_nanskip(D.fmax), "max", None), "fmin": (_nanskip(D.fmin), "min", None),
            "floor_divide": (D.floordiv, "//", None), "mod": (D.mod, "%", None), "remainder": (D.mod, "%", None),
            "less": (D.lt, "<", "b"), "less_equal": (D.le, "<=", "b"), "greater": (lambda a, b: D.lt(b, a), ">", "b"),
            "greater_equal": (lambda a, b: D.le(b, a), ">=", "b"), "equal": (D.eq, "==", "b"),
            "not_equal": (lambda a, b: D.not_(D.eq(a, b)), "!=", "b"),
            "logical_and": (lambda a, b: D.and_(D.truth(a), D.truth(b)), "&", "b"),
            "logical_or": (lambda a, b: D.or_(D.truth(a), D.truth(b)), "|", "b"),
            "logical_xor": (lambda a, b: _xor(D.truth(a), D.truth(b)), "^", "b"),
            "bitwise_and": (lambda a, b: it.num_op("&", a, b, True), "&", None),
            "bitwise_or": (lambda a, b: it.num_op("|", a, b, True), "|", None),
            "hypot": (lambda a, b: D.un("sqrt", D.add(D.mul(a, a), D.mul(b, b))), "hypot", "f"),
            "copysign": (lambda a, b: D.sel(D.lt(b, 0), D.neg(D.un("abs", a)), D.un("abs", a)), "cs", "f"),
            "heaviside": (lambda a, b: D.sel(D.lt(a, 0), 0.0, D.sel(D.eq(a, 0), b, 1.0)), "hs", "f"),
        }
        un = D.un
        unary = {
            "negative": (D.neg, "neg", None), "positive": (lambda x: x, "pos", None),
            "sqrt": (lambda x: un("sqrt", x), "f", "F"), "exp": (lambda x: un("exp", x), "f", "F"),
            "log": (lambda x: un("log", x), "f", "F"), "log1p": (lambda x: un("log1p", x), "f", "F"),
            "expm1": (lambda x: un("expm1", x), "f", "F"), "log2": (lambda x: un("log2", x), "f", "F"),
            "log10": (lambda x: un("log10", x), "f", "F"), "abs": (lambda x: un("abs", x), "abs", None),
            "absolute": (lambda x: un("abs", x), "abs", None), "fabs": (lambda x: un("abs", x), "abs", "F"),
            "square": (lambda x: D.mul(x, x), "sq", None), "sign": (lambda x: un("sign", x), "sign", None),
            "floor": (lambda x: un("float", un("floor", x)) if isinstance(x, D.Node) else float(math.floor(x)),
                      "fl", "F"),
            "ceil": (lambda x: un("float", un("ceil", x)) if isinstance(x, D.Node) else float(math.ceil(x)), "fl", "F"),
            "trunc": (lambda x: un("float", un("trunc", x)) if isinstance(x, D.Node) else float(math.trunc(x)),
                      "fl", "F"),
            "rint": (lambda x: un("rint", x), "fl", "F"), "sin": (lambda x: un("sin", x), "f", "F"),
            "cos": (lambda x: un("cos", x), "f", "F"), "tanh": (lambda x: un("tanh", x), "f", "F"),
            "arctan": (lambda x: un("atan", x), "f", "F"),
            "isnan": (isnan, "isnan", "b"), "isfinite": (isfinite, "isfin", "b"),
            "isinf": (lambda x: D.and_(D.not_(isfinite(x)), D.not_(isnan(x))), "isinf", "b"),
            "logical_not": (lambda x: D.not_(D.truth(x)), "not", "b"),
            "invert": (lambda x: D.not_(x) if D.is_bool(x) else it.unary_invert(x), "inv", None),
            "reciprocal": (lambda x: D.div(1.0, x), "rec", "F"), "conj": (lambda x: x, "id", None),
            "conjugate": (lambda x: x, "id", None), "real": (lambda x: x, "id", None),
            "spacing": (lambda x: un("spacing", x), "sp", "F"),
        }
        for name, (fn, op, dt) in binary.items():
            self.ufuncs[name] = (fn, op, dt)

            def f(a, b, out=None, where=True, dtype=None, fn=fn, op=op, dt=dt, **k):
                return self.ew(fn, a, b, op=op, dt=self.dtcode(dtype) if dtype is not None else dt, out=out,
                               where=where)
            R(name, f)
        for name, (fn, op, dt) in unary.items():
            def f(a, out=None, where=True, dtype=None, fn=fn, op=op, dt=dt, **k):
                d = dt
                if dt == "F":
                    x = self.dtof(a)
                    d = x if x in "fs" else "f"
                return self.ew(fn, a, op=op, dt=d, out=out, where=where)
            R(name, f)
        R("nan_to_num", lambda a, copy=True, nan=0.0, posinf=None, neginf=None: self.ew(
            lambda x: D.sel(isnan(x), nan, x), a))
        R("round", lambda a, decimals=0, out=None: self.round(a, decimals))
        self.tab["around"] = self.tab["round"]
        for n in ("array", "asarray", "zeros", "ones", "full", "empty", "eye", "arange", "linspace", "sum", "mean",
                  "var", "std", "prod", "max", "min", "any", "all", "median", "quantile", "trace", "sort", "argsort",
                  "diag", "diagonal", "fill_diagonal", "outer", "kron", "where", "nonzero", "clip", "cov", "corrcoef",
                  "isclose", "allclose", "array_equal", "average", "cumsum", "diff", "unique", "ix_", "matmul", "dot",
                  "einsum", "copy", "reshape", "transpose"):
            R(n, getattr(self, n))
        for n in ("asanyarray", "ascontiguousarray", "asfortranarray"):
            R(n, self.asarray)
        R("amax", self.max)
        R("amin", self.min)
        R("identity", lambda n, dtype=None: self.eye(n, dtype=dtype))
        R("zeros_like", self.like(lambda s, dtype=None: self.full(s, 0, dtype)))
        R("ones_like", self.like(lambda s, dtype=None: self.full(s, 1, dtype)))
        R("empty_like", self.like(lambda s, dtype=None: self.empty(s, dtype)))
        R("full_like", self.like(lambda s, v, dtype=None: self.full(s, v, dtype)))
        R("percentile", lambda a, q, axis=None, **k: self.quantile(a, it.binop("/", q, 100.0), axis))
        R("argmax", lambda a, axis=None, **k: self.argext("argmax", a, axis))
        R("argmin", lambda a, axis=None, **k: self.argext("argmin", a, axis))
        R("ptp", lambda a, axis=None: it.binop("-", self.max(a, axis), self.min(a, axis)))
        R("inner", lambda a, b: self.matmul(a, b) if self.asarray(b).ndim == 1 else self.matmul(
            a, self.transpose(b)))
        R("vdot", lambda a, b: self.matmul(self.reposition(np.ravel, a), self.reposition(np.ravel, b)))
        R("multiply_outer", self.outer)
        R("triu", self.tri(True))
        R("tril", self.tri(False))
        R("nansum", self.nanfilter(lambda xs: total(xs)))
        R("nanmean", self.nanfilter(lambda xs: D.div(total(xs), len(xs)) if xs else NAN))
        R("nanmax", self.nanfilter(lambda xs: fold(D.fmax, xs, NAN)))
        R("nanmin", self.nanfilter(lambda xs: fold(D.fmin, xs, NAN)))
        R("count_nonzero", lambda a, axis=None: self.reduce(
            a, lambda xs: total([D._unbool(D.truth(x)) if isinstance(D.truth(x), D.Node) else int(D.truth(x))
                                 for x in xs], 0), axis, False, "i"))
        R("flatnonzero", lambda a: self.nonzero(self.reposition(np.ravel, a))[0])
        R("isscalar", lambda v: is_number(v) or isinstance(v, str))
        R("ndim", lambda v: self.num(v)[0].ndim)
        R("shape", lambda v: self.num(v)[0].shape)
        R("size", lambda v, axis=None: self.num(v)[0].size if axis is None else self.num(v)[0].shape[axis])
        R("ravel", lambda a, order="C": self.reposition(np.ravel, a))
        R("squeeze", lambda a, axis=None: self.reposition(lambda p: np.squeeze(p, axis), a))
        R("expand_dims", lambda a, axis: self.reposition(lambda p: np.expand_dims(p, axis), a))
        R("swapaxes", lambda a, i, j: self.reposition(lambda p: np.swapaxes(p, i, j), a))
        R("moveaxis", lambda a, i, j: self.reposition(lambda p: np.moveaxis(p, i, j), a))
        R("broadcast_to", self.broadcast_to)
        R("atleast_1d", lambda a: self.reposition(np.atleast_1d, a))
        R("atleast_2d", lambda a: self.reposition(np.atleast_2d, a))
        R("flip", lambda a, axis=None: self.reposition(lambda p: np.flip(p, axis), a))
        R("fliplr", lambda a: self.reposition(np.fliplr, a))
        R("flipud", lambda a: self.reposition(np.flipud, a))
        R("roll", lambda a, k, axis=None: self.reposition(lambda p: np.roll(p, self.whole(k), axis), a, True))
        R("tile", lambda a, k: self.reposition(lambda p: np.tile(p, self.whole(k)), a, True))
        R("repeat", lambda a, k, axis=None: self.reposition(lambda p: np.repeat(p, self.whole(k), axis), a, True))
        R("take", lambda a, i, axis=None, **k: self.take(a, i, axis))
        R("delete", lambda a, i, axis=None: self.reposition(lambda p: np.delete(p, self.whole(i), axis), a, True))
        R("concatenate", lambda s, axis=0, **k: self.concat(lambda o: np.concatenate(o, axis=axis), s))
        R("vstack", lambda s, **k: self.concat(np.vstack, s))
        R("hstack", lambda s, **k: self.concat(np.hstack, s))
        R("column_stack", lambda s: self.concat(np.column_stack, s))
        R("stack", lambda s, axis=0, **k: self.concat(lambda o: np.stack(o, axis=axis), s))
        R("append", lambda a, v, axis=None: self.concat(
            lambda o: np.concatenate([o[0].ravel(), o[1].ravel()] if axis is None else o, axis=axis or 0), (a, v)))
        R("block", self.block)
        R("tensordot", self.tensordot)
        R("take_along_axis", self.take_along)
        R("triu_indices_from", lambda a, k=0: self.idx(np.triu_indices)(self.asarray(a).shape[0], k))
        R("tril_indices_from", lambda a, k=0: self.idx(np.tril_indices)(self.asarray(a).shape[0], k))
        R("diag_indices_from", lambda a: self.idx(np.diag_indices)(self.asarray(a).shape[0]))
        R("ndindex", lambda *s: it.new_list([tuple(int(v) for v in q) for q in np.ndindex(
            *(self.shp(s[0]) if len(s) == 1 else self.shp(s)))]))
        R("ndenumerate", lambda a: it.new_list([(tuple(int(v) for v in q), c) for q, c in zip(
            np.ndindex(*self.asarray(a).shape), self.cells(self.asarray(a)))]))
        R("fromiter", lambda x, dtype=None, count=-1: self.array(it.new_list(list(it.iterate(x))), dtype=dtype))
        R("rollaxis", lambda a, i, s=0: self.reposition(lambda p: np.rollaxis(p, i, s), a))
        R("rot90", lambda a, k=1: self.reposition(lambda p: np.rot90(p, k), a))
        R("meshgrid", self.meshgrid)
        R("insert", lambda a, i, v, axis=None: self.concat(
            lambda o: np.insert(o[0], i, o[1] if o[1].ndim else o[1].item(), axis), (a, v)))
        R("nanvar", self.nanfilter(lambda xs: _var(xs)))
        R("nanstd", self.nanfilter(lambda xs: D.un("sqrt", _var(xs))))
        R("split", self.split(True))
        R("array_split", self.split(False))
        R("diag_indices", self.idx(np.diag_indices))
        R("triu_indices", self.idx(np.triu_indices))
        R("tril_indices", self.idx(np.tril_indices))
        R("diagflat", self.diag)
        R("copyto", lambda dst, src, casting=None, where=True: self.copyto(dst, src, where))
        R("may_share_memory", lambda a, b, **k: a.buf == b.buf)
        R("shares_memory", lambda a, b, **k: a.buf == b.buf and bool(set(a.ix) & set(b.ix)))
        R("iscomplexobj", lambda a: False)
        R("isrealobj", lambda a: True)
        from .interp import NS
        R("errstate", lambda **k: NS("errstate"))
        R("finfo", lambda t=None: NS("finfo", eps=2.220446049250313e-16, tiny=2.2250738585072014e-308,
                                     max=1.7976931348623157e308, min=-1.7976931348623157e308,
                                     smallest_normal=2.2250738585072014e-308))
        R("iinfo", lambda t=None: NS("iinfo", max=2 ** 63 - 1, min=-2 ** 63))
        R("dtype", lambda d: DType(self.dtcode(d)))
        R("result_type", lambda *a: DType("f"))

        def glob(nm):
            def f(*a, **k):
                it.events.append(("global-config", nm, it.where))
            return f
        for n in ("seterr", "set_printoptions", "seterrcall"):
            R(n, glob(n))
        L = self.linalg
        for n in ("inv", "pinv", "solve", "cholesky", "eigh", "eigvalsh", "eigvals", "svd", "qr", "slogdet", "det",
                  "norm", "cond", "matrix_rank"):
            R(n, getattr(self, n), L)
        R("multi_dot", lambda s: fold(self.matmul, list(it.iterate(s)), None), L)
        R("svdvals", lambda a: self.svd(a, compute_uv=False), L)
        R("matrix_power", self.matrix_power, L)
        S = self.random
        R("default_rng", self.rng, S)
        for n in ("rand", "randn", "random", "normal", "standard_normal", "uniform", "randint", "choice", "permutation",
                  "shuffle", "random_sample"):
            R(n, self.legacy(n), S)
        R("seed", glob("random.seed"), S)
        self.tab["linalg"] = ModuleV("numpy.linalg", None)
        self.tab["random"] = ModuleV("numpy.random", None)
        self.methods = {
            "copy": self.copy, "tolist": self.tolist, "astype": self.astype, "item": self.item,
            "reshape": self.reshape, "transpose": self.transpose, "flatten": lambda a, order="C": self.reposition(
                np.ravel, a, True), "ravel": lambda a, order="C": self.reposition(np.ravel, a),
            "setflags": self.set_flags, "view": lambda a, *x: self.view(a, self.pos(a)),
            "fill": lambda a, v: self.assign(a, v), "dot": self.dot, "conj": lambda a: a,
            "sort": lambda a, axis=-1, **k: self.assign(a, self.sort(a, axis)),
            "squeeze": lambda a, axis=None: self.reposition(lambda p: np.squeeze(p, axis), a),
            "swapaxes": lambda a, i, j: self.reposition(lambda p: np.swapaxes(p, i, j), a),
            "argmax": lambda a, axis=None, **k: self.argext("argmax", a, axis),
            "argmin": lambda a, axis=None, **k: self.argext("argmin", a, axis),
            "round": lambda a, decimals=0: self.round(a, decimals),
            "itemset": lambda a, *x: self.setitem(a, x[:-1] if len(x) > 2 else x[0], x[-1]),
            "repeat": lambda a, k, axis=None: self.reposition(lambda p: np.repeat(p, self.whole(k), axis), a, True),
        }
        self.generic = {"sum", "mean", "var", "std", "prod", "max", "min", "any", "all", "trace", "diagonal", "clip",
                        "cumsum", "nonzero", "argsort", "ptp", "take"}

    def legacy(self, n):
        def f(*a, **k):
            size = k.get("size")
            if n in ("rand", "randn"):
                size = a
            elif n in ("random", "random_sample", "standard_normal") and a:
                size = a[0]
            elif n in ("normal", "uniform") and len(a) > 2:
                size = a[2]
            s = () if size is None or size == () else self.shp(size)
            m = int(np.prod(s)) if s else 1
            cs = [self.it.nondet("numpy.random." + n) for _ in range(m)]
            return cs[0] if s == () else self.arr(cs, s)
        return f

    def round(self, a, decimals=0):
        s = 10.0 ** decimals
        f = lambda x: D.div(D.un("rint", D.mul(x, s)), s) if isinstance(x, D.Node) else float(np.round(x, decimals))
        return self.ew(f, a, dt="f" if self.dtof(a) in "fs" else None)

    def broadcast_to(self, a, s, subok=False):
        s = self.shp(s)
        r = self.reposition(lambda p: np.broadcast_to(p, s), a)
        r.ro = True
        return r

    def take(self, a, i, axis=None):
        i = self.it.force(i)
        if axis is None:
            return self.getitem(self.reposition(np.ravel, a), i)
        return self.getitem(self.asarray(a), (slice(None),) * axis + (i,))

    def copyto(self, dst, src, where):
        if where is True:
            return self.assign(dst, src)
        self.assign(dst, self.ew(lambda m, x, y: D.sel(D.truth(m), x, y), where, src, dst))

    def matrix_power(self, a, n):
        n = self.it.force(n)
        if not isinstance(n, int):
            self.it.throw("TypeError", "exponent must be an integer")
        if n < 0:
            a, n = self.inv(a), -n
        r = self.eye(self.asarray(a).shape[0])
        for _ in range(n):
            r = self.matmul(r, a)
        return r


class _Symbolic(Exception):
    pass


def _var(xs):
    if not xs:
        return NAN
    m = D.div(total(xs), len(xs))
    return D.div(total([D.mul(D.sub(x, m), D.sub(x, m)) for x in xs]), len(xs))


def _nanskip(f):
    def g(a, b):
        if not isinstance(a, D.Node) and a != a:
            return b
        if not isinstance(b, D.Node) and b != b:
            return a
        return f(a, b)
    return g


def _xor(a, b):
    return D.or_(D.and_(a, D.not_(b)), D.and_(D.not_(a), b))


def words(v):
    """A choice between strings?"""
    return words(v.a) and words(v.b) if isinstance(v, Phi) else isinstance(v, str)
