"""Abstract values and the abstract heap."""
from __future__ import annotations

import itertools

from . import dag as D


class Undecided(Exception):
    """The source uses a construct the analysis does not model: no verdict."""


class AbsRaise(Exception):
    """The analysed code raises on every path from here."""

    def __init__(self, exc):
        self.exc = exc


class AbsDead(Exception):
    """No path continues from here (all of them are recorded as exits)."""


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"Ref({self.oid})"


_oid = itertools.count(1)
_ep = itertools.count(1)


class HObj:
    __slots__ = ("ep", "tag")


class ListO(HObj):
    __slots__ = ("v", "alts")
    kind = "list"

    def __init__(self, v, alts=None):
        self.v = v
        self.alts = alts      # where v is None: ((condition, items), ...), one for each possible length

    def copy(self):
        return ListO(None if self.v is None else list(self.v), self.alts)


class DictO(HObj):
    __slots__ = ("d", "ty")
    kind = "dict"

    def __init__(self, d, ty="dict"):
        self.d = d
        self.ty = ty      # dict | defaultdict(factory) | scope | OrderedDict

    def copy(self):
        return DictO(dict(self.d), self.ty)


class SetO(HObj):
    __slots__ = ("d", "frozen")
    kind = "set"

    def __init__(self, d, frozen=False):
        self.d = d
        self.frozen = frozen

    def copy(self):
        return SetO(dict(self.d), self.frozen)


class InstO(HObj):
    __slots__ = ("cls", "dref")
    kind = "inst"

    def __init__(self, cls, dref):
        self.cls, self.dref = cls, dref

    def copy(self):
        return InstO(self.cls, self.dref)


class BufO(HObj):
    __slots__ = ("c",)
    kind = "buf"

    def __init__(self, c):
        self.c = c

    def copy(self):
        return BufO(list(self.c))


class IterO(HObj):
    __slots__ = ("items", "pos")
    kind = "iter"

    def __init__(self, items, pos=0):
        self.items, self.pos = items, pos

    def copy(self):
        return IterO(self.items, self.pos)


class DequeO(ListO):
    __slots__ = ("maxlen",)
    kind = "deque"

    def copy(self):
        d = DequeO(list(self.v))
        d.maxlen = self.maxlen
        return d


class Seg:
    """Objects created, changed or dropped since a heap was forked or merged."""
    __slots__ = ("parent", "depth", "keys")

    def __init__(self, parent, keys=None):
        self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.keys = set() if keys is None else keys


def changed_since_split(a, b):
    """(nearest common ancestor of two segments, keys touched since on either side)."""
    keys = set()
    while a is not b:
        if b is None or (a is not None and a.depth >= b.depth):
            keys |= a.keys
            a = a.parent
        else:
            keys |= b.keys
            b = b.parent
    return a, keys


class Heap:
    __slots__ = ("m", "ep", "seg")

    def __init__(self, m=None, seg=None):
        self.m = {} if m is None else m
        self.ep = next(_ep)
        self.seg = Seg(None) if seg is None else seg

    def fork(self):
        self.ep = next(_ep)
        old = self.seg
        self.seg = Seg(old)
        return Heap(dict(self.m), Seg(old))

    def drop(self, oid):
        if self.m.pop(oid, None) is not None:
            self.seg.keys.add(oid)

    def new(self, o, tag=None):
        oid = next(_oid)
        o.ep = self.ep
        o.tag = tag
        self.m[oid] = o
        self.seg.keys.add(oid)
        return oid

    def r(self, oid):
        return self.m[oid]

    def w(self, oid):
        o = self.m[oid]
        if o.ep != self.ep:
            t = o.tag
            o = o.copy()
            o.ep = self.ep
            o.tag = t
            self.m[oid] = o
            self.seg.keys.add(oid)
        return o


class NArr:
    """Array descriptor: a view of positions of a buffer."""
    __slots__ = ("buf", "ix", "shape", "dt", "ro")

    def __init__(self, buf, ix, shape, dt="f"):
        self.ro = False
        self.buf, self.ix, self.shape, self.dt = buf, tuple(ix), tuple(shape), dt

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"NArr(buf{self.buf},{self.shape})"


class Phi:
    """a where the condition holds, else b."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Phi({self.a!r},{self.b!r})"


class Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = Absent()


class SymStr:
    """A string with a symbolic part (messages, reprs)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            out.extend(p.parts if isinstance(p, SymStr) else [p])
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class FuncV:
    __slots__ = ("node", "mod", "clos", "defaults", "kwdefaults", "name", "cls", "attrs", "qual", "scope")

    def __init__(self, node, mod, clos, defaults, kwdefaults, name, scope, cls=None, qual=None):
        self.node, self.mod, self.clos = node, mod, clos
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.cls, self.scope = cls, scope
        self.attrs = {}
        self.qual = qual or name

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundM:
    __slots__ = ("self", "fn")

    def __init__(self, s, fn):
        self.self, self.fn = s, fn

    def __eq__(self, o):
        return isinstance(o, BoundM) and o.self == self.self and o.fn is self.fn

    def __hash__(self):
        return hash((self.self, id(self.fn)))


class Builtin:
    __slots__ = ("name", "fn", "raw")

    def __init__(self, name, fn, raw=False):
        self.name, self.fn, self.raw = name, fn, raw

    def __repr__(self):
        return f"<builtin {self.name}>"


class ClassV:
    def __init__(self, name, bases, dref, mod, py=None):
        self.name, self.bases, self.dref, self.mod, self.py = name, bases, dref, mod, py
        self.mro = [self] + _merge_mro([b.mro for b in bases] + [list(bases)])

    def __repr__(self):
        return f"<class {self.name}>"


def _merge_mro(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Undecided("inconsistent MRO")
        out.append(c)
        seqs = [[x for x in t if x is not c] for t in seqs]
        seqs = [t for t in seqs if t]
    return out


class TypeV:
    """A builtin type."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<type {self.name}>"


class ModuleV:
    def __init__(self, name, dref, file=None):
        self.name, self.dref, self.file = name, dref, file

    def __repr__(self):
        return f"<module {self.name}>"


class PropV:
    def __init__(self, fget=None, fset=None, cached=None):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """An inert value identified by a label (typing objects, versions, ...)."""

    def __init__(self, label):
        self.label = label

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.label == self.label

    def __hash__(self):
        return hash(self.label)

    def __repr__(self):
        return f"<opaque {self.label}>"


class Unknown(Opaque):
    """The value of a module-level name whose computation is not modelled: any use is undecided."""


class DType:
    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        return isinstance(o, DType) and o.code == self.code

    def __hash__(self):
        return hash(self.code)


def is_number(v):
    return isinstance(v, (bool, int, float, D.Node))


# ---------------------------------------------------------------- scalars taken out of an array
# They behave like the Python value but print differently (numpy 2) and integers are not JSON.
class NpStr(str):
    pass


def _ops(cls, base, names):
    for n in names:
        f = getattr(base, n)

        def op(self, *a, _f=f):
            r = _f(self, *a)
            if type(r) is int:
                return NpInt(r)
            if type(r) is float:
                return NpFloat(r)
            return r
        setattr(cls, n, op)


class NpInt(int):
    pass


class NpFloat(float):
    pass


_B = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__rfloordiv__", "__mod__",
      "__rmod__", "__truediv__", "__rtruediv__", "__neg__", "__pos__", "__abs__", "__pow__", "__rpow__", "__round__"]
_ops(NpInt, int, _B)
_ops(NpFloat, float, _B)


def npscalar(v):
    """v, marked as coming out of an array."""
    t = type(v)
    return NpInt(v) if t is int else NpFloat(v) if t is float else NpStr(v) if t is str else v


def plain(v):
    t = type(v)
    return int(v) if t is NpInt else float(v) if t is NpFloat else str(v) if t is NpStr else v
