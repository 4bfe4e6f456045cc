"""Abstract interpreter for the Python subset the analysed code is written in.

Values are value numbers (dag.py), arrays of fixed shape with value-number cells, and heap objects.
A branch on a value the analysis cannot decide is analysed on both sides and the two abstract states
are *joined* (cell by cell `sel` nodes, `Phi` for references): there is one abstract state per program
point, no path enumeration and no solver.  Loops over containers are expanded (their shapes are part of
the analysed context); loops with an undecidable test are expanded to a stated bound.
"""
from __future__ import annotations

import ast
import builtins
import os

from . import dag as D
from .vals import (Unknown, Seg, changed_since_split, ABSENT, AbsDead, AbsRaise, BoundM, Builtin, BufO, ClassMV, ClassV, DequeO, DictO, DType, FuncV,
                   Heap, InstO, IterO, ListO, ModuleV, NArr, Opaque, Phi, PropV, Ref, SetO, StaticV, SuperV, SymStr,
                   TypeV, Undecided, is_number, npscalar)

NEXT, RET, BRK, CNT, EXC = "next", "return", "break", "continue", "raise"


class Diverge:
    """Marks executions that need more iterations than the analysis expands."""
    name = "<bound>"


class NS:
    """Inert namespace object (signature parameters, finfo, ...)."""

    def __init__(self, label, **attrs):
        self.label, self.attrs = label, attrs

    def __repr__(self):
        return f"<{self.label}>"


class FrozenKey:
    def __init__(self, ref, keys):
        self.ref, self.keys = ref, keys

    def __eq__(self, o):
        return isinstance(o, FrozenKey) and o.keys == self.keys

    def __hash__(self):
        return hash(self.keys)


class Frame:
    __slots__ = ("loc", "clos", "mod", "globs", "nonl", "localnames", "func", "excs", "yields", "cls", "self0",
                 "classscope", "captured")

    def __init__(self, loc, clos, mod):
        self.loc, self.clos, self.mod = loc, clos, mod
        self.globs, self.nonl, self.localnames = (), (), None
        self.func = None
        self.excs = []
        self.yields = None
        self.cls = None
        self.self0 = None
        self.classscope = False
        self.captured = False


class _Scope(ast.NodeVisitor):
    """Names bound in one function body."""

    def __init__(self):
        self.bound, self.globs, self.nonl = set(), set(), set()
        self.gen = False
        self.inner = False

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        self.inner = True
        for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.inner = True
        for d in n.args.defaults:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.bound.add(n.name)
        self.inner = True

    def _comp(self, n):
        self.inner = True
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.bound.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)


_scopes: dict = {}


def scope_of(node):
    s = _scopes.get(node)
    if s is None:
        s = _Scope()
        if isinstance(node, ast.Lambda):
            s.visit(node.body)
        else:
            for st in node.body:
                s.visit(st)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            s.bound.add(x.arg)
        s.bound -= s.globs | s.nonl
        _scopes[node] = s
    return s


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "//": "floordiv", "%": "mod",
          "@": "matmul", "&": "and", "|": "or", "^": "xor"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class Interp:
    MAXSTEP = 4_000_000
    MAXDEPTH = 80
    UNROLL = 3               # iterations of a loop that factorises a matrix each time round
    UNROLL_PLAIN = 8

    def __init__(self, root):
        from . import npm, pybuiltins
        self.root = root
        self.h = Heap()
        self.facts: dict = {}
        self.implied: dict = {}      # what the facts imply, until they change
        self.trail: list = []
        self.pend: list = []
        self.live = True
        self.steps = 0
        self.depth = 0
        self.mods: dict = {}
        self.sources: dict = {}
        self.trycatch: list = []
        self.events: list = []
        self.oracle = "a"
        self.nd = 0
        self.loading = 0
        self.where = None
        self.calls: set = set()
        self.assumed: set = set()
        self.extmods: dict = {}
        self.mergecnt = 0
        self.drivers: set = set()
        self.np = npm.NP(self)
        pybuiltins.install(self)

    # ------------------------------------------------------------ helpers
    def und(self, why):
        loc = self.where
        raise Undecided(f"{why} at {loc[0]}:{loc[1]}" if loc else why)

    def exc(self, name, *args):
        """Instance of a builtin exception."""
        cls = self.exc_classes[name] if isinstance(name, str) else name
        d = self.h.new(DictO({"args": tuple(args)}))
        return Ref(self.h.new(InstO(cls, d)))

    def throw(self, name, *args):
        raise AbsRaise(self.exc(name, *args))

    def new_list(self, items):
        return Ref(self.h.new(ListO(list(items)), self.tag()))

    def new_dict(self, d, ty="dict"):
        return Ref(self.h.new(DictO(dict(d), ty), self.tag()))

    def new_set(self, keys, frozen=False):
        return Ref(self.h.new(SetO({self.hkey(k): k for k in keys}, frozen), self.tag()))

    def new_iter(self, items):
        return Ref(self.h.new(IterO(list(items)), self.tag()))

    def tag(self):
        return "global" if self.loading else None

    def obj(self, ref):
        o = self.h.m.get(ref.oid)
        if o is None:
            self.und("dangling reference")
        return o

    def wobj(self, oid):
        o = self.h.m[oid]
        if o.tag == "global" and not self.loading:
            self.events.append(("global-write", oid, self.where))
        return self.h.w(oid)

    def isobj(self, v, kind):
        return isinstance(v, Ref) and self.obj(v).kind == kind

    def nondet(self, what):
        self.nd += 1
        self.events.append(("nondet", what, self.where))
        return D.sym(f"nondet:{self.oracle}:{what}:{self.nd}", "data")

    # ------------------------------------------------------------ facts
    def decide(self, c):
        if not isinstance(c, D.Node):
            return bool(c)
        r = self.facts.get(c.id)
        if r is not None:
            return r
        if c.op not in ("not", "and"):
            return None
        m = self.implied
        r = m.get(c.id, m)
        if r is not m:
            return r
        if c.op == "not":
            r = self.decide(c.args[0])
            r = None if r is None else not r
        else:
            a = self.decide(c.args[0])
            if a is False:
                r = False
            else:
                b = self.decide(c.args[1])
                r = False if b is False else True if a and b else None
        m[c.id] = r
        return r

    def assume(self, c, val):
        if not isinstance(c, D.Node):
            return
        if c.op == "not":
            self.assume(c.args[0], not val)
            return
        if c.op == "and" and val:
            self.assume(c.args[0], True)
            self.assume(c.args[1], True)
        if c.id not in self.facts:
            self.facts[c.id] = val
            self.trail.append(c.id)
            self.implied = {}
            if c.op == "and" and not val:
                a, b = c.args
                if self.decide(a) is True:
                    self.assume(b, False)
                elif self.decide(b) is True:
                    self.assume(a, False)

    def pop_facts(self, mark):
        if len(self.trail) > mark:
            self.implied = {}
        while len(self.trail) > mark:
            del self.facts[self.trail.pop()]

    def force(self, v):
        while True:
            if isinstance(v, Phi):
                d = self.decide(v.c)
                if d is None:
                    return v
                v = v.a if d else v.b
            elif isinstance(v, D.Node) and v.op == "sel":
                d = self.decide(v.args[0])
                if d is None:
                    return v
                v = v.args[1] if d else v.args[2]
            else:
                return v

    # ------------------------------------------------------------ joins
    def fork_eval(self, c, f, g):
        d = self.decide(c)
        if d is not None:
            return f() if d else g()
        pend0, live0, h0 = self.pend, self.live, self.h
        h1, h2 = h0, h0.fork()
        res = []
        for h, val, fn in ((h1, True, f), (h2, False, g)):
            self.h, self.pend, self.live = h, [], True
            mark = len(self.trail)
            self.assume(c, val)
            v, dead = None, False
            try:
                v = fn()
            except AbsRaise as e:
                self.pend.append((self.live, self.h, e.exc))
                dead = True
            except AbsDead:
                dead = True
            self.pop_facts(mark)
            res.append((v, dead, self.h, self.pend, self.live))
        self.pend, self.live = pend0, live0
        for (v, dead, h, pend, live), cc in zip(res, (c, D.not_(c))):
            for (pc, ph, pe) in pend:
                self.pend.append((D.and_(live0, D.and_(cc, pc)), ph, pe))
        (v1, d1, h1, _, l1), (v2, d2, h2, _, l2) = res
        if d1 and d2:
            raise AbsDead()
        if d1 or d2:
            self.h = h2 if d1 else h1
            cc = D.and_(D.not_(c), l2) if d1 else D.and_(c, l1)
            self.live = D.and_(live0, cc)
            self.assume(cc, True)
            return v2 if d1 else v1
        h, (v,) = self.merge(c, h1, h2, [(v1, v2)])
        self.h = h
        if l1 is not True or l2 is not True:
            cc = D.or_(D.and_(c, l1), D.and_(D.not_(c), l2))
            self.live = D.and_(live0, cc)
            self.assume(cc, True)
        return v

    def merge(self, c, h1, h2, vals):
        """State that is h1 where c holds and h2 elsewhere, with pairs of values merged alike."""
        self.mergecnt += 1
        if h1 is h2:
            return h1, [self.mval(c, a, b, None) for a, b in vals]
        ctx = _Merge(self, c, h1, h2)
        ctx.run()
        out = [self.mval(c, a, b, ctx) for a, b in vals]
        return ctx.r, out

    def mval(self, c, a, b, ctx):
        if a is b:
            return a
        if is_number(a) and is_number(b):
            return D.sel(c, a, b)
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is Diverge:
                return a
            if ta is Ref:
                if a.oid == b.oid:
                    return a
                if ctx is not None:
                    m = ctx.pair(a.oid, b.oid)
                    if m is not None:
                        return Ref(m)
                return Phi(c, a, b)
            if ta is NArr:
                if a.buf == b.buf and a.ix == b.ix and a.shape == b.shape:
                    return a
                if ctx is not None and a.shape == b.shape and a.ix == b.ix and a.dt == b.dt:
                    m = ctx.pair(a.buf, b.buf)
                    if m is not None:
                        return NArr(m, a.ix, a.shape, a.dt)
                return Phi(c, a, b)
            if ta is tuple and len(a) == len(b):
                return tuple(self.mval(c, x, y, ctx) for x, y in zip(a, b))
            if ta in (str, bytes, type(None), Opaque, DType, SymStr, range, FrozenKey) and a == b:
                return a
            if ta is BoundM and a.fn is b.fn and a.self == b.self:
                return a
            if ta is slice and a == b:
                return a
            if ta is Phi and a.c is b.c:
                return Phi(a.c, self.mval(c, a.a, b.a, ctx), self.mval(c, a.b, b.b, ctx))
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        if a is b:
            return a
        return Phi(c, a, b)

    def join_exits(self, exits):
        """[(cond, heap, value)] with disjoint conditions -> one."""
        c, h, v = exits[0]
        for c2, h2, v2 in exits[1:]:
            h, (v,) = self.merge(c, h, h2, [(v, v2)])
            c = D.or_(c, c2)
        return c, h, v

    def group(self, exits):
        """Join the exits of the same kind (exceptions: of the same class)."""
        by: dict = {}
        order = []
        for k, c, h, v in exits:
            if c is False:
                continue
            key = k
            if k == EXC:
                key = (k, self.exc_name(v, h))
            if key not in by:
                by[key] = []
                order.append((key, k))
            by[key].append((c, h, v))
        out = []
        for key, k in order:
            c, h, v = self.join_exits(by[key])
            out.append((k, c, h, v))
        return out

    def exc_name(self, v, h=None):
        if isinstance(v, Diverge):
            return v.name
        o = (h or self.h).m[v.oid]
        return o.cls.name

    # ------------------------------------------------------------ lists of undecided length
    def ragged(self, v):
        """A list whose length is not decided here."""
        if type(v) is not Ref:
            return False
        o = self.h.m.get(v.oid)
        if o is None or o.kind != "list" or o.v is not None or o.alts is None:
            return False
        left = []
        for c, xs in o.alts:
            d = self.decide(c)
            if d:
                left = [(c, xs)]
                break
            if d is None:
                left.append((c, xs))
        if len(left) == 1:
            w = self.h.w(v.oid)
            w.v, w.alts = list(left[0][1]), None
            return False
        return bool(left)

    def uneven(self, v):
        """A choice between containers of different length."""
        if type(v) is not Phi:
            return False
        if not all(isinstance(x, (tuple, Phi)) or type(x) is Ref and self.obj(x).kind in ("list", "iter") for x in (v.a, v.b)):
            return False
        return self.uneven(v.a) or self.uneven(v.b) or self.iterate_len(v.a) != self.iterate_len(v.b)

    def by_length(self, v, fn):
        """fn() under each possible length of the list."""
        if not self.ragged(v):
            return fn()
        was = self.obj(v).alts
        c = next(c for c, _ in was if self.decide(c) is None)
        r = self.fork_eval(c, lambda: self.by_length(v, fn), lambda: self.by_length(v, fn))
        now = self.obj(v)
        if now.v is None and now.alts:
            old = {len(xs): xs for _, xs in was}
            if all(len(xs) in old and all(x is y for x, y in zip(xs, old[len(xs)])) for _, xs in now.alts):
                self.h.w(v.oid).alts = was        # only read
        return r

    # ------------------------------------------------------------ lifting over Phi
    def lift(self, fn, *args):
        """Apply fn to arguments, splitting over Phi values."""
        for i, a in enumerate(args):
            a = self.force(a)
            if isinstance(a, Phi):
                pa, pb = a.a, a.b
                return self.fork_eval(a.c,
                                      lambda: self.lift(fn, *args[:i], pa, *args[i + 1:]),
                                      lambda: self.lift(fn, *args[:i], pb, *args[i + 1:]))
            if self.ragged(a):
                return self.by_length(a, lambda: self.lift(fn, *args))
            args = args[:i] + (a,) + args[i + 1:]
        return fn(*args)

    def raise_if(self, cond, exc_cls, *msg):
        d = self.decide(cond)
        if d is False:
            return
        if d is True:
            self.throw(exc_cls, *msg)
        h2 = self.h.fork()
        hs, self.h = self.h, h2
        e = self.exc(exc_cls, *msg)
        self.h = hs
        self.pend.append((D.and_(self.live, cond), h2, e))
        self.live = D.and_(self.live, D.not_(cond))
        self.assume(cond, False)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Phi):
            return self.lift(self.truth, v)
        if is_number(v):
            return D.truth(v)
        if v is None:
            return False
        if isinstance(v, (str, tuple, range, bytes)):
            return len(v) > 0
        if isinstance(v, NArr):
            if v.size == 1:
                return D.truth(self.np.cells(v)[0])
            if v.size == 0:
                return False
            self.throw("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Ref):
            if self.ragged(v):
                return self.by_length(v, lambda: self.truth(v))
            o = self.obj(v)
            if o.kind in ("list", "deque"):
                return len(o.v) > 0
            if o.kind in ("dict", "set"):
                if any(isinstance(x, Phi) for x in (o.d.values() if o.kind == "dict" else ())):
                    r = False
                    for x in o.d.values():
                        r = D.or_(r, self.present(x))
                    return r
                return len(o.d) > 0
            if o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    f = self.class_attr(o.cls, nm)
                    if f is not None:
                        return self.truth(self.call(BoundM(v, f), [], {}))
            return True
        return True

    def phikey(self, d, k, v, cond):
        """Store under a key that depends on the data (drivers opt in: the order of keys is then not tracked)."""
        if isinstance(k, Phi):
            self.phikey(d, k.a, v, D.and_(cond, k.c))
            self.phikey(d, k.b, v, D.and_(cond, D.not_(k.c)))
            return
        if cond is False:
            return
        k = self.hkey(k)
        old = d.get(k, ABSENT)
        if cond is True:
            d[k] = v
            return
        new = self.mval(cond, v, old, None)
        if D.or_(cond, self.present(old)) is True:
            def strip(m):
                if isinstance(m, Phi):
                    a, b = strip(m.a), strip(m.b)
                    return b if a is ABSENT else a if b is ABSENT else self.mval(m.c, a, b, None)
                return m
            new = strip(new)
        d[k] = new

    def present(self, x):
        x = self.force(x)
        if x is ABSENT:
            return False
        if isinstance(x, Phi):
            return D.or_(D.and_(x.c, self.present(x.a)), D.and_(D.not_(x.c), self.present(x.b)))
        return True

    def branch(self, v):
        """Truth value as Python bool if decidable else Node."""
        t = self.truth(v)
        d = self.decide(t)
        return t if d is None else d

    # ------------------------------------------------------------ keys
    def hkey(self, v):
        v = self.force(v)
        if isinstance(v, (str, int, float, bool, type(None), bytes, ClassV, FuncV, TypeV, Opaque, FrozenKey, Builtin,
                          BoundM)):
            return v
        if isinstance(v, tuple):
            return tuple(self.hkey(x) for x in v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "set" and o.frozen:
                return FrozenKey(v, frozenset(o.d))
            if o.kind == "inst":
                if self.class_attr(o.cls, "__hash__") is not None or self.class_attr(o.cls, "__eq__") is not None:
                    self.und("user-defined hash")
                return v
            self.throw("TypeError", "unhashable type")
        if isinstance(v, NArr):
            self.throw("TypeError", "unhashable type: numpy.ndarray")
        self.und(f"symbolic key {v!r}")

    def unkey(self, k):
        return k.ref if isinstance(k, FrozenKey) else k

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (str, range, bytes)):
            return list(v)
        if isinstance(v, NArr):
            r = self.np.rows(v)
            return [npscalar(c) for c in r] if v.ndim == 1 and (v.dt != "o" or self.np.words(v)) else r
        if isinstance(v, Phi):
            a, b = self.iterate_len(v.a), self.iterate_len(v.b)
            if a is not None and a == b:
                r = self.fork_eval(v.c, lambda: tuple(self.iterate(v.a)), lambda: tuple(self.iterate(v.b)))
                return list(r)
            r = self.fork_eval(v.c, lambda: tuple(self.iterate(v.a)), lambda: tuple(self.iterate(v.b)))
            if isinstance(r, tuple):
                return list(r)
            self.und("iteration over containers of different length")
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "deque"):
                if o.v is None:
                    self.und("list of unknown length")
                return list(o.v)
            if o.kind == "dict":
                return self.dict_keys(o)
            if o.kind == "set":
                ks = [self.unkey(k) for k in o.d]
                if len(ks) > 1 and not all(isinstance(k, (int, bool)) for k in ks):
                    self.events.append(("set-order", v.oid, self.where))
                    if self.oracle == "b":
                        ks.reverse()
                return ks
            if o.kind == "iter":
                w = self.wobj(v.oid)
                if w.pos < 0:
                    self.und("iterator consumed on one branch")
                r = w.items[w.pos:]
                w.pos = len(w.items)
                return r
            if o.kind == "inst":
                f = self.class_attr(o.cls, "__iter__")
                if f is not None:
                    r = self.call(BoundM(v, f), [], {})
                    if r == v:
                        self.und("user-defined iterator")
                    return self.iterate(r)
                if self.class_attr(o.cls, "__getitem__") is not None and self.class_attr(o.cls, "__len__") is not None:
                    n = self.call(self.getattr(v, "__len__"), [], {})
                    return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, NS) and "iter" in v.attrs:
            return v.attrs["iter"]()
        if is_number(v) or v is None or isinstance(v, (FuncV, ClassV, Builtin)):
            self.throw("TypeError", "object is not iterable")
        self.und(f"iteration over {v!r}")

    def iterate_len(self, v):
        v = self.force(v)
        if isinstance(v, (tuple, str, range)):
            return len(v)
        if isinstance(v, NArr):
            return v.shape[0] if v.shape else None
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "deque") and o.v is not None:
                return len(o.v)
            if o.kind in ("dict", "set"):
                return len(o.d)
            if o.kind == "iter" and o.pos >= 0:
                return len(o.items) - o.pos
        return None

    def dict_keys(self, o):
        out = []
        for k, x in o.d.items():
            x = self.force(x)
            if x is ABSENT:
                continue
            if isinstance(x, Phi):
                p = self.decide(self.present(x))
                if p is None:
                    self.und("iteration over a dict with undecided membership")
                if not p:
                    continue
            out.append(self.unkey(k))
        return out

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.mro:
            if c.dref is None:
                if c.py is not None:
                    continue
                continue
            d = self.h.m[c.dref].d
            if name in d:
                return d[name]
        return None

    def getattr(self, v, name, default=ABSENT):
        v = self.force(v)
        if isinstance(v, Phi):
            return self.lift(lambda x: self.getattr(x, name, default), v)
        try:
            return self._getattr(v, name)
        except AbsRaise as e:
            if default is not ABSENT and isinstance(e.exc, Ref) and \
                    self.obj(e.exc).cls is self.exc_classes["AttributeError"]:
                return default
            raise

    def _getattr(self, v, name):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return Ref(o.dref)
                ca = self.class_attr(o.cls, name)
                if isinstance(ca, PropV):
                    if ca.cached:
                        d = self.h.m[o.dref].d
                        if name in d:
                            return d[name]
                        r = self.call(BoundM(v, ca.fget), [], {})
                        self.wobj(self.obj(v).dref).d[name] = r
                        return r
                    if ca.fget is None:
                        self.throw("AttributeError", name)
                    return self.call(BoundM(v, ca.fget), [], {})
                d = self.h.m[o.dref].d
                if name in d:
                    x = self.force(d[name])
                    if x is not ABSENT and not (isinstance(x, Phi) and (x.a is ABSENT or x.b is ABSENT)):
                        return x
                    if isinstance(x, Phi):
                        return self.lift(lambda y: self._absent_attr(v, name, y), x)
                if ca is not None:
                    return self.bind(ca, v, o.cls)
                if o.cls.py is not None or any(c.py for c in o.cls.mro):
                    r = self.exc_attr(v, o, name)
                    if r is not ABSENT:
                        return r
                r = self.inst_default(v, o, name)
                if r is not ABSENT:
                    return r
                ga = self.class_attr(o.cls, "__getattr__")
                if ga is not None:
                    return self.call(BoundM(v, ga), [name], {})
                self.throw("AttributeError", f"{o.cls.name!r} object has no attribute {name!r}")
            return self.container_attr(v, o, name)
        if isinstance(v, NArr):
            return self.np.array_attr(v, name)
        if isinstance(v, ModuleV):
            return self.module_attr(v, name)
        if isinstance(v, ClassV):
            if name == "__name__" or name == "__qualname__":
                return v.name
            if name == "__mro__":
                return tuple(v.mro)
            if name == "__bases__":
                return tuple(v.bases)
            if name == "__module__":
                return v.mod.name if v.mod else "builtins"
            if name == "__dict__":
                return Ref(v.dref)
            if name == "mro":
                return Builtin("mro", lambda: self.new_list(v.mro))
            if name == "__subclasses__":
                self.und("__subclasses__")
            ca = self.class_attr(v, name)
            if ca is not None:
                if isinstance(ca, ClassMV):
                    return BoundM(v, ca.f)
                if isinstance(ca, StaticV):
                    return ca.f
                return ca
            if name == "__init__":
                return self.object_init
            if name == "__new__":
                return Builtin("__new__", lambda cls, *a, **k: self.new_instance(cls))
            if name == "__setattr__":
                return Builtin("__setattr__", lambda o, n, x: self.raw_setattr(o, n, x))
            if name == "__doc__":
                return None
            self.throw("AttributeError", f"type object {v.name!r} has no attribute {name!r}")
        if isinstance(v, SuperV):
            o = self.obj(v.obj) if isinstance(v.obj, Ref) else None
            mro = (o.cls if o else v.obj).mro
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if c.dref is None:
                    continue
                d = self.h.m[c.dref].d
                if name in d:
                    ca = d[name]
                    if isinstance(ca, PropV):
                        return self.call(BoundM(v.obj, ca.fget), [], {})
                    if o is None and isinstance(ca, FuncV):
                        return ca
                    return self.bind(ca, v.obj, o.cls if o else v.obj)
            if o is not None and name in ("__getstate__",):
                return Builtin(name, lambda: Ref(o.dref))
            if o is not None and name == "__setattr__":
                return Builtin(name, lambda n, x: self.raw_setattr(v.obj, n, x))
            if o is not None and name == "__repr__":
                return Builtin(name, lambda: SymStr(("<object>",)))
            if name in ("__init__", "__init_subclass__", "__post_init__"):
                if o is not None and any(c.py for c in o.cls.mro):
                    def init(*a, **k):
                        self.wobj(self.obj(v.obj).dref).d["args"] = tuple(a)
                    return Builtin("__init__", init)
                return Builtin(name, lambda *a, **k: None)
            if name == "__new__":
                return Builtin("__new__", lambda cls, *a, **k: self.new_instance(cls))
            self.throw("AttributeError", f"super object has no attribute {name!r}")
        if isinstance(v, FuncV):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name in v.attrs:
                return v.attrs[name]
            if name == "__doc__":
                return None
            if name == "__module__":
                return v.mod.name
            if name == "__dict__":
                return self.new_dict(v.attrs)
            if name == "__defaults__":
                return tuple(v.defaults) or None
            if name == "__get__":
                return Builtin("__get__", lambda o, t=None: BoundM(o, v))
            self.throw("AttributeError", f"function has no attribute {name!r}")
        if isinstance(v, BoundM):
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.fn
            return self._getattr(v.fn, name)
        if isinstance(v, NS):
            if name in v.attrs:
                return v.attrs[name]
            self.throw("AttributeError", name)
        if isinstance(v, (str, bytes)):
            return self.str_attr(v, name)
        if isinstance(v, SymStr):
            return Builtin(name, lambda *a, **k: SymStr((v, name)))
        if is_number(v):
            return self.num_attr(v, name)
        if isinstance(v, tuple):
            if name == "index":
                return Builtin("index", lambda x: self.seq_index(v, x))
            if name == "count":
                return Builtin("count", lambda x: sum(1 for y in v if self.decide(self.eq(x, y)) is True))
            self.throw("AttributeError", name)
        if isinstance(v, TypeV):
            return self.type_attr(v, name)
        if isinstance(v, DType):
            if name == "kind":
                return {"f": "f", "s": "f", "i": "i", "b": "b", "o": "O"}.get(v.code, "f")
            if name == "name":
                return {"f": "float64", "s": "float32", "i": "int64", "b": "bool", "o": "object"}.get(v.code)
            if name == "type":
                return v
            if name == "itemsize":
                return {"f": 8, "s": 4, "i": 8, "b": 1}.get(v.code, 8)
        if isinstance(v, Builtin):
            if name in ("__name__", "__qualname__"):
                return v.name
            r = self.np.builtin_attr(v, name)
            if r is not ABSENT:
                return r
        if isinstance(v, Opaque):
            if type(v) is Unknown and not self.loading:
                self.und(f"{v.label}.{name}")
            return type(v)(v.label + "." + name)
        if isinstance(v, PropV) and name in ("setter", "getter", "fget", "fset"):
            if name == "setter":
                return Builtin("setter", lambda f: PropV(v.fget, f))
            if name == "getter":
                return Builtin("getter", lambda f: PropV(f, v.fset))
            return v.fget if name == "fget" else v.fset
        if isinstance(v, slice) and name in ("start", "stop", "step"):
            return getattr(v, name)
        if isinstance(v, range) and name in ("start", "stop", "step"):
            return getattr(v, name)
        if v is None or v is NotImplemented or v is Ellipsis:
            if name == "__class__":
                return TypeV("NoneType", None)
            self.throw("AttributeError", f"{v!r} has no attribute {name!r}")
        self.und(f"attribute {name} of {v!r}")

    def _absent_attr(self, v, name, y):
        if y is ABSENT:
            ca = self.class_attr(self.obj(v).cls, name)
            if ca is not None:
                return self.bind(ca, v, self.obj(v).cls)
            self.throw("AttributeError", name)
        return y

    def bind(self, ca, v, cls):
        if isinstance(ca, FuncV):
            return BoundM(v, ca)
        if isinstance(ca, Builtin) and ca.raw:
            return BoundM(v, ca)
        if isinstance(ca, ClassMV):
            return BoundM(cls, ca.f)
        if isinstance(ca, StaticV):
            return ca.f
        return ca

    def setattr(self, v, name, x):
        v = self.force(v)
        if isinstance(v, Phi):
            return self.lift(lambda y: self.setattr(y, name, x), v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "inst":
                ca = self.class_attr(o.cls, name)
                if isinstance(ca, PropV) and not ca.cached:
                    if ca.fset is None:
                        self.throw("AttributeError", f"can't set attribute {name!r}")
                    self.call(BoundM(v, ca.fset), [x], {})
                    return None
                sa = self.class_attr(o.cls, "__setattr__")
                if sa is not None:
                    self.call(BoundM(v, sa), [name, x], {})
                    return None
                if name == "__class__":
                    self.wobj(v.oid).cls = x
                    return None
                if name == "__dict__":
                    self.wobj(v.oid).dref = x.oid
                    return None
                self.wobj(o.dref).d[name] = x
                return None
            self.und(f"attribute store on {o.kind}")
        if isinstance(v, ClassV):
            if v.dref is None:
                self.und("attribute store on builtin class")
            self.wobj(v.dref).d[name] = x
            return None
        if isinstance(v, ModuleV):
            self.wobj(v.dref).d[name] = x
            return None
        if isinstance(v, FuncV):
            if not self.loading:
                self.events.append(("global-write", v.qual, self.where))
                self.und("function attribute store")
            v.attrs[name] = x
            return None
        if isinstance(v, NArr):
            return self.np.array_setattr(v, name, x)
        if isinstance(v, SuperV):
            return self.setattr(v.obj, name, x)
        self.und(f"attribute store on {v!r}")

    def raw_setattr(self, v, name, x):
        self.wobj(self.obj(self.force(v)).dref).d[name] = x

    def delattr(self, v, name):
        v = self.force(v)
        if self.isobj(v, "inst"):
            d = self.wobj(self.obj(v).dref).d
            if name in d:
                del d[name]
                return
            self.throw("AttributeError", name)
        if isinstance(v, Phi):
            return self.lift(lambda y: self.delattr(y, name), v)
        self.und("del attribute")

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, i):
        v = self.force(v)
        i = self.force(i)
        if isinstance(v, Phi):
            return self.lift(lambda x: self.getitem(x, i), v)
        if isinstance(v, NArr):
            return self.np.getitem(v, i)
        if isinstance(i, Phi):
            return self.lift(lambda x: self.getitem(v, x), i)
        if isinstance(v, (tuple, str, range, bytes)):
            if isinstance(i, slice):
                return v[self.cslice(i)]
            if isinstance(i, D.Node):
                return self.sel_index(list(v), i)
            if not isinstance(i, int):
                self.throw("TypeError", "indices must be integers")
            if -len(v) <= i < len(v):
                return v[i]
            self.throw("IndexError", "index out of range")
        if isinstance(v, Ref):
            if self.ragged(v):
                return self.by_length(v, lambda: self.getitem(v, i))
            o = self.obj(v)
            if o.kind in ("list", "deque"):
                if o.v is None:
                    self.und("list of unknown length")
                if isinstance(i, slice):
                    return self.new_list(o.v[self.cslice(i)])
                if isinstance(i, D.Node):
                    return self.sel_index(o.v, i)
                if isinstance(i, float):
                    self.throw("TypeError", "list indices must be integers")
                if not isinstance(i, int):
                    if isinstance(i, NArr) and i.size == 1:
                        return self.getitem(v, self.np.cells(i)[0])
                    self.throw("TypeError", "list indices must be integers")
                if -len(o.v) <= i < len(o.v):
                    return o.v[i]
                self.throw("IndexError", "list index out of range")
            if o.kind == "dict":
                k = self.hkey(i)
                if k in o.d:
                    x = self.force(o.d[k])
                    if x is ABSENT:
                        self.throw("KeyError", i)
                    if isinstance(x, Phi) and self.decide(self.present(x)) is not True:
                        p = self.present(x)
                        self.raise_if(D.not_(p), "KeyError", i)
                        x = self.strip_absent(x)
                    return x
                if isinstance(o.ty, tuple) and o.ty[0] == "defaultdict" and o.ty[1] is not None:
                    r = self.call(o.ty[1], [], {})
                    self.wobj(v.oid).d[k] = r
                    return r
                self.throw("KeyError", i)
            if o.kind == "inst":
                f = self.class_attr(o.cls, "__getitem__")
                if f is not None:
                    return self.call(BoundM(v, f), [i], {})
        if isinstance(v, (ClassV, TypeV, Opaque)):
            return v                      # generic alias
        if isinstance(v, NS) and "getitem" in v.attrs:
            return v.attrs["getitem"](i)
        if is_number(v) and (i is Ellipsis or i == ()):
            return v
        if v is None or is_number(v):
            self.throw("TypeError", "object is not subscriptable")
        self.und(f"subscript of {v!r}")

    def strip_absent(self, x):
        if isinstance(x, Phi):
            a, b = self.strip_absent(x.a), self.strip_absent(x.b)
            if a is ABSENT:
                return b
            if b is ABSENT:
                return a
            return Phi(x.c, a, b)
        return x

    def sel_index(self, items, i):
        if not items:
            self.throw("IndexError", "index out of range")
        n = len(items)
        if i.fin:
            out = D.by_choice(i, lambda k: not -n <= k < n)
            self.raise_if(out, "IndexError", "index out of range")
            return D.by_choice(i, lambda k: items[k] if -n <= k < n else D.OUT,
                               lambda c, a, b: b if a is D.OUT else a if b is D.OUT else self.mval(c, a, b, None))
        i2 = D.sel(D.lt(i, 0), D.add(i, n), i)
        self.raise_if(D.or_(D.lt(i2, 0), D.le(n, i2)), "IndexError", "index out of range")
        r = items[-1]
        for k in range(n - 2, -1, -1):
            r = self.mval(D.eq(i2, k), items[k], r, None)
        return r

    def cslice(self, s):
        def c(x):
            x = self.force(x)
            if x is None or isinstance(x, int):
                return x
            if isinstance(x, NArr) and x.size == 1:
                return c(self.np.cells(x)[0])
            if isinstance(x, float):
                self.throw("TypeError", "slice indices must be integers")
            self.und("symbolic slice bound")
        return slice(c(s.start), c(s.stop), c(s.step))

    def setitem(self, v, i, x):
        v = self.force(v)
        i = self.force(i)
        if isinstance(v, Phi):
            return self.lift(lambda y: self.setitem(y, i, x), v)
        if isinstance(v, NArr):
            return self.np.setitem(v, i, x)
        if isinstance(v, Ref):
            if self.ragged(v):
                return self.by_length(v, lambda: self.setitem(v, i, x))
            o = self.obj(v)
            if o.kind in ("list", "deque"):
                if o.v is None:
                    self.und("list of unknown length")
                if isinstance(i, slice):
                    w = self.wobj(v.oid)
                    w.v[self.cslice(i)] = self.iterate(x)
                    return None
                if isinstance(i, D.Node):
                    w = self.wobj(v.oid)
                    for k in range(len(w.v)):
                        w.v[k] = self.mval(D.eq(i, k), x, w.v[k], None)
                    return None
                if -len(o.v) <= i < len(o.v):
                    self.wobj(v.oid).v[i] = x
                    return None
                self.throw("IndexError", "list assignment index out of range")
            if o.kind == "dict":
                if isinstance(i, Phi) and self.lax:
                    self.phikey(self.wobj(v.oid).d, i, x, True)
                    return None
                k = self.hkey(i)
                d = self.wobj(v.oid).d
                if k in d and self.force(d[k]) is ABSENT:
                    del d[k]
                d[k] = x
                return None
            if o.kind == "inst":
                f = self.class_attr(o.cls, "__setitem__")
                if f is not None:
                    return self.call(BoundM(v, f), [i, x], {})
            self.throw("TypeError", "object does not support item assignment")
        if isinstance(v, (tuple, str)):
            self.throw("TypeError", "object does not support item assignment")
        self.und(f"item store on {v!r}")

    def delitem(self, v, i):
        v = self.force(v)
        i = self.force(i)
        if isinstance(v, Phi) or isinstance(i, Phi):
            return self.lift(lambda y, j: self.delitem(y, j), v, i)
        if isinstance(v, Ref):
            if self.ragged(v):
                return self.by_length(v, lambda: self.delitem(v, i))
            o = self.obj(v)
            if o.kind in ("list", "deque"):
                w = self.wobj(v.oid)
                if isinstance(i, slice):
                    del w.v[self.cslice(i)]
                    return None
                if isinstance(i, int) and -len(w.v) <= i < len(w.v):
                    del w.v[i]
                    return None
                if isinstance(i, int):
                    self.throw("IndexError", "list index out of range")
            if o.kind == "dict":
                k = self.hkey(i)
                if k in o.d:
                    x = self.force(o.d[k])
                    p = self.decide(self.present(x)) if isinstance(x, Phi) or x is ABSENT else True
                    if p is False:
                        self.throw("KeyError", i)
                    if p is None:
                        self.raise_if(D.not_(self.present(x)), "KeyError", i)
                    del self.wobj(v.oid).d[k]
                    return None
                self.throw("KeyError", i)
            if o.kind == "inst":
                f = self.class_attr(o.cls, "__delitem__")
                if f is not None:
                    return self.call(BoundM(v, f), [i], {})
        self.und("del item")

    # ------------------------------------------------------------ operators
    def arr_like(self, v):
        return isinstance(v, NArr)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        na, nb = is_number(a), is_number(b)
        if na and nb:
            return self.num_op(op, a, b)
        pa, pb = isinstance(a, Phi), isinstance(b, Phi)
        if pa or pb:
            # arrays on both sides of the join: combine cell by cell
            a2, b2 = self.np.materialize(a), self.np.materialize(b)
            if isinstance(a2, Phi) or isinstance(b2, Phi):
                return self.lift(lambda x, y: self.binop(op, x, y), a2, b2)
            a, b = a2, b2
        aa, bb = isinstance(a, NArr), isinstance(b, NArr)
        if aa or bb:
            if op == "@":
                return self.np.matmul(a, b)
            x, y = a, b
            if self.isobj(x, "list") or isinstance(x, tuple):
                x = self.np.asarray(x)
            if self.isobj(y, "list") or isinstance(y, tuple):
                y = self.np.asarray(y)
            if (is_number(x) or isinstance(x, NArr)) and (is_number(y) or isinstance(y, NArr)):
                return self.np.ew(lambda p, q: self.num_op(op, p, q, True), x, y, op=op)
            if self.isobj(x, "inst") or self.isobj(y, "inst"):
                pass
            else:
                self.throw("TypeError", f"unsupported operand for {op}")
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x in (a, b):
                if self.ragged(x):
                    return self.by_length(x, lambda: self.binop(op, a, b))
            oa = self.obj(a) if isinstance(a, Ref) else None
            ob = self.obj(b) if isinstance(b, Ref) else None
            if oa is not None and oa.kind == "inst":
                f = self.class_attr(oa.cls, f"__{DUNDER.get(op)}__")
                if f is not None:
                    r = self.call(BoundM(a, f), [b], {})
                    if r is not NotImplemented:
                        return r
            if ob is not None and ob.kind == "inst":
                f = self.class_attr(ob.cls, f"__r{DUNDER.get(op)}__")
                if f is not None:
                    return self.call(BoundM(b, f), [a], {})
            if op == "+" and oa is not None and ob is not None and oa.kind == ob.kind == "list":
                return self.new_list(oa.v + ob.v)
            if op == "*" and oa is not None and oa.kind == "list" and isinstance(b, int):
                return self.new_list(oa.v * b)
            if op == "*" and ob is not None and ob.kind == "list" and isinstance(a, int):
                return self.new_list(ob.v * a)
            if oa is not None and ob is not None and oa.kind == ob.kind == "set":
                return self.set_op(op, oa, ob)
            if op == "|" and oa is not None and ob is not None and oa.kind == ob.kind == "dict":
                return self.new_dict({**oa.d, **ob.d})
            if (oa and oa.kind in ("set", "dict")) and isinstance(b, NS) or isinstance(a, NS):
                return self.binop(op, self.as_set(a), self.as_set(b))
        if isinstance(a, NS) or isinstance(b, NS):
            return self.binop(op, self.as_set(a), self.as_set(b))
        if isinstance(a, (str, tuple, bytes)) or isinstance(b, (str, tuple)):
            if op == "+" and (type(a) is type(b) or isinstance(a, str) and isinstance(b, str)):
                return a + b
            if op == "*" and isinstance(b, int):
                return a * b
            if op == "*" and isinstance(a, int):
                return a * b
            if op == "%" and isinstance(a, str):
                return self.str_mod(a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if op == "+":
                return SymStr((a, b))
            if op == "%":
                return SymStr((a,))
        if isinstance(a, (ClassV, TypeV, Opaque)) or isinstance(b, (ClassV, TypeV, Opaque)):
            if op == "|":
                return Opaque("union")
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                self.und(f"operator {op} on an unmodelled value")
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            self.throw("TypeError", f"unsupported operand type(s) for {op}")
        self.und(f"operator {op} on {a!r}, {b!r}")

    def as_set(self, v):
        if isinstance(v, NS):
            return self.new_set(self.iterate(v))
        return v

    def str_mod(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        if all(isinstance(x, (str, int, float)) for x in args):
            return a % b
        return SymStr((a,) + tuple(args))

    def set_op(self, op, a, b):
        da, db = a.d, b.d
        if op == "|":
            r = {**da, **db}
        elif op == "&":
            r = {k: v for k, v in da.items() if k in db}
        elif op == "-":
            r = {k: v for k, v in da.items() if k not in db}
        elif op == "^":
            r = {**{k: v for k, v in da.items() if k not in db}, **{k: v for k, v in db.items() if k not in da}}
        else:
            self.throw("TypeError", "set operator")
        return Ref(self.h.new(SetO(r, a.frozen), self.tag()))

    def num_op(self, op, a, b, array=False):
        if op == "+":
            return D.add(a, b)
        if op == "-":
            return D.sub(a, b)
        if op == "*":
            return D.mul(a, b)
        if op == "/":
            if not array and not isinstance(b, D.Node) and b == 0 and not isinstance(a, D.Node):
                self.throw("ZeroDivisionError", "division by zero")
            return D.div(a, b)
        if op == "**":
            return D.power(a, b)
        if op == "//":
            return D.floordiv(a, b)
        if op == "%":
            return D.mod(a, b)
        if op in ("&", "|", "^"):
            if D.is_bool(a) and D.is_bool(b):
                if op == "&":
                    return D.and_(a, b)
                if op == "|":
                    return D.or_(a, b)
                return D.or_(D.and_(a, D.not_(b)), D.and_(D.not_(a), b))
            if isinstance(a, int) and isinstance(b, int):
                return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        if op in ("<<", ">>") and isinstance(a, int) and isinstance(b, int):
            return a << b if op == "<<" else a >> b
        self.und(f"numeric operator {op}")

    def unary(self, op, v):
        v = self.force(v)
        if op is ast.Not:
            return D.not_(self.truth(v)) if not isinstance(v, Phi) else D.not_(self.truth(v))
        if isinstance(v, Phi):
            v = self.np.materialize(v)
            if isinstance(v, Phi):
                return self.lift(lambda x: self.unary(op, x), v)
        if is_number(v):
            if op is ast.USub:
                return D.neg(v)
            if op is ast.UAdd:
                return v
            if op is ast.Invert:
                if D.is_bool(v) and isinstance(v, D.Node):
                    return D.not_(v)
                if isinstance(v, int):
                    return ~v
        if isinstance(v, NArr):
            if op is ast.USub:
                return self.np.ew(D.neg, v, op="neg")
            if op is ast.UAdd:
                return v
            if op is ast.Invert:
                return self.np.ew(lambda x: D.not_(D.truth(x)), v, dt="b")
        if self.isobj(v, "inst"):
            nm = {ast.USub: "__neg__", ast.Invert: "__invert__", ast.UAdd: "__pos__"}[op]
            f = self.class_attr(self.obj(v).cls, nm)
            if f is not None:
                return self.call(BoundM(v, f), [], {})
        self.throw("TypeError", "bad operand type for unary operator")

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if op in ("is", "is not"):
            r = self.is_(a, b)
            return r if op == "is" else D.not_(r)
        for x in (a, b):
            if self.ragged(x):
                return self.by_length(x, lambda: self.compare(op, a, b))
        if op in ("in", "not in"):
            r = self.contains(b, a)
            return r if op == "in" else D.not_(r)
        if is_number(a) and is_number(b):
            return self.num_cmp(op, a, b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            a2, b2 = self.np.materialize(a), self.np.materialize(b)
            if isinstance(a2, Phi) or isinstance(b2, Phi):
                return self.lift(lambda x, y: self.compare(op, x, y), a2, b2)
            a, b = a2, b2
        if isinstance(a, NArr) or isinstance(b, NArr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == "!="
            return self.np.ew(lambda x, y: self.num_cmp(op, x, y), a, b, dt="b")
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return D.not_(self.eq(a, b))
        if isinstance(a, (tuple,)) and isinstance(b, tuple) or \
                (self.isobj(a, "list") and self.isobj(b, "list")):
            return self.lex(op, self.iterate(a), self.iterate(b))
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        a, b = self.as_set(a), self.as_set(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == ob.kind == "set":
                sa, sb = set(oa.d), set(ob.d)
                return {"<": sa < sb, "<=": sa <= sb, ">": sa > sb, ">=": sa >= sb}[op]
        if isinstance(a, Ref) and self.obj(a).kind == "inst":
            nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            f = self.class_attr(self.obj(a).cls, nm)
            if f is not None:
                return self.call(BoundM(a, f), [b], {})
        self.throw("TypeError", f"{op!r} not supported between these operands")

    def lex(self, op, xs, ys):
        """Lexicographic comparison."""
        strict = op in ("<", ">")
        less = op in ("<", "<=")

        def go(i):
            if i == len(xs) or i == len(ys):
                if len(xs) == len(ys):
                    return not strict
                return (len(xs) < len(ys)) if less else (len(xs) > len(ys))
            x, y = xs[i], ys[i]
            e = self.truth(self.eq(x, y))
            de = self.decide(e)
            if de is True:
                return go(i + 1)
            c = self.compare("<" if less else ">", x, y)
            if de is False:
                return c
            return D.or_(D.and_(D.not_(e), c), D.and_(e, go(i + 1)))
        return go(0)

    def num_cmp(self, op, a, b):
        if op == "<":
            return D.lt(a, b)
        if op == "<=":
            return D.le(a, b)
        if op == ">":
            return D.lt(b, a)
        if op == ">=":
            return D.le(b, a)
        if op == "==":
            return D.eq(a, b)
        if op == "!=":
            return D.not_(D.eq(a, b))
        self.und(op)

    def is_(self, a, b):
        if isinstance(a, Phi):
            return D.or_(D.and_(a.c, self.is_(self.force(a.a), b)), D.and_(D.not_(a.c), self.is_(self.force(a.b), b)))
        if isinstance(b, Phi):
            return self.is_(b, a)
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, (bool, D.Node)) and isinstance(b, (bool, D.Node)) and D.is_bool(a) and D.is_bool(b):
            return D.eq(a, b)
        if type(a) is type(b) and isinstance(a, (str, int, float, TypeV, Opaque, DType, tuple)):
            return a == b
        if isinstance(a, NArr) and isinstance(b, NArr):
            return a.buf == b.buf and a.ix == b.ix and a.shape == b.shape
        return False

    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Phi) or isinstance(b, Phi):
            return self.lift(self.eq, a, b)
        if is_number(a) and is_number(b):
            return D.eq(a, b)
        if isinstance(a, NArr) or isinstance(b, NArr):
            return self.compare("==", a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.eqseq(a, b)
        a, b = self.as_set(a), self.as_set(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == "inst":
                f = self.class_attr(oa.cls, "__eq__")
                if f is not None:
                    return self.call(BoundM(a, f), [b], {})
                return False
            if oa.kind != ob.kind:
                return False
            if oa.kind in ("list", "deque"):
                return self.eqseq(self.iterate(a), self.iterate(b))
            if oa.kind == "dict":
                if set(oa.d) != set(ob.d):
                    return False
                r = True
                for k in oa.d:
                    r = D.and_(r, self.truth(self.eq(oa.d[k], ob.d[k])))
                return r
            if oa.kind == "set":
                return set(oa.d) == set(ob.d)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if self.isobj(x, "inst"):
                    f = self.class_attr(self.obj(x).cls, "__eq__")
                    if f is not None:
                        return self.call(BoundM(x, f), [y], {})
            return False
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr) and a == b:
                return True
            self.und("comparison of symbolic strings")
        if type(a) is type(b) or isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, DType) or isinstance(b, DType):
            return self.np.dtcode(a) == self.np.dtcode(b)
        return False

    def eqseq(self, a, b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = D.and_(r, self.truth(self.eq(x, y)))
            if r is False:
                return False
        return r

    def contains(self, c, x):
        c, x = self.force(c), self.force(x)
        if isinstance(c, Phi):
            return self.lift(lambda y: self.contains(y, x), c)
        if self.ragged(c):
            return self.by_length(c, lambda: self.contains(c, x))
        if isinstance(x, Phi):
            return self.lift(lambda y: self.contains(c, y), x)
        if isinstance(c, str):
            return (x in c) if isinstance(x, str) else self.und("in string")
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if isinstance(c, Ref):
            o = self.obj(c)
            if o.kind == "dict":
                if isinstance(x, D.Node):
                    self.und("symbolic key")
                k = self.hkey(x)
                if k not in o.d:
                    return False
                return self.present(o.d[k])
            if o.kind == "set":
                if self.isobj(x, "set"):
                    x = Ref(self.h.new(SetO(dict(self.obj(x).d), True)))
                return self.hkey(x) in o.d
            if o.kind == "inst":
                f = self.class_attr(o.cls, "__contains__")
                if f is not None:
                    return self.truth(self.call(BoundM(c, f), [x], {}))
        if isinstance(c, NArr):
            r = False
            for y in self.np.cells(c):
                r = D.or_(r, D.eq(y, x))
            return r
        r = False
        for y in self.iterate(c):
            r = D.or_(r, self.truth(self.eq(y, x)))
            if r is True:
                return True
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Phi):
            return self.lift(lambda g: self.call(g, args, kw), f)
        if isinstance(f, BoundM):
            fn = f.fn
            if isinstance(fn, FuncV):
                return self.call_func(fn, [f.self] + list(args), kw)
            return self.call(fn, [f.self] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.name != "append":
                for x in (*args, *kw.values()):
                    if self.ragged(x):
                        return self.by_length(x, lambda: self.call(f, args, kw))
                for i, x in enumerate(args):
                    if type(x) is Phi:
                        x = self.force(x)
                        if self.uneven(x):
                            rest = list(args)
                            return self.fork_eval(x.c, lambda: self.call(f, rest[:i] + [x.a] + rest[i + 1:], kw),
                                                  lambda: self.call(f, rest[:i] + [x.b] + rest[i + 1:], kw))
            try:
                return f.fn(*args, **kw)
            except TypeError as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                self.und(f"builtin {f.name}: {e} [{tb[-1].name}:{tb[-1].lineno}]")
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeV):
            if f.fn is None:
                self.und(f"call of type {f.name}")
            for x in (*args, *kw.values()):
                if self.ragged(x):
                    return self.by_length(x, lambda: self.call(f, args, kw))
            return f.fn(*args, **kw)
        if isinstance(f, DType):
            return self.np.dtype_call(f, *args)
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == "inst":
                g = self.class_attr(o.cls, "__call__")
                if g is not None:
                    return self.call(BoundM(f, g), args, kw)
        if isinstance(f, Opaque):
            if type(f) is Unknown and not self.loading:
                self.und(f"{f.label}()")
            return type(f)(f.label + "()")
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, NS) and "call" in f.attrs:
            return f.attrs["call"](*args, **kw)
        self.throw("TypeError", f"{f!r} is not callable")

    def new_instance(self, cls):
        d = self.h.new(DictO({}), self.tag())
        return Ref(self.h.new(InstO(cls, d), self.tag()))

    def instantiate(self, cls, args, kw):
        if cls.py is not None and cls.dref is None:
            return self.exc(cls, *args)
        nw = self.class_attr(cls, "__new__")
        if nw is not None:
            r = self.call(nw.f if isinstance(nw, StaticV) else nw, [cls] + list(args), kw)
            if not (self.isobj(r, "inst") and cls in self.obj(r).cls.mro):
                return r
        else:
            r = self.new_instance(cls)
            if any(c.py for c in cls.mro):
                self.wobj(self.obj(r).dref).d["args"] = tuple(args)
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call(BoundM(r, init), args, kw)
        elif args or kw:
            if not any(c.py for c in cls.mro) and nw is None:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return r

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.throw("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for nm, v in zip(pos, args):
            loc[nm] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        npo = len(a.posonlyargs)
        for i, nm in enumerate(pos):
            if nm in kw and i >= npo:
                if nm in loc:
                    self.throw("TypeError", f"{f.name}() got multiple values for argument {nm!r}")
                loc[nm] = kw.pop(nm)
        for x, dflt in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif dflt is not ABSENT:
                loc[x.arg] = dflt
            else:
                self.throw("TypeError", f"{f.name}() missing keyword-only argument {x.arg!r}")
        nd = len(f.defaults)
        for i, nm in enumerate(pos):
            if nm not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw("TypeError", f"{f.name}() missing required argument: {nm!r}")
                loc[nm] = f.defaults[j]
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new_dict(kw)
        elif kw:
            self.throw("TypeError", f"{f.name}() got an unexpected keyword argument {sorted(kw)[0]!r}")
        return loc

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            self.und("recursion bound")
        if not self.loading:
            if f.mod.name not in self.drivers:
                self.calls.add(f"{f.mod.name}.{f.qual}")
        try:
            loc = self.bind_args(f, list(args), kw)
            sc = f.scope
            fr = Frame(self.h.new(DictO(loc, "scope")), f.clos, f.mod)
            fr.globs, fr.nonl, fr.localnames = sc.globs, sc.nonl, sc.bound
            fr.func, fr.cls = f, f.cls
            a = f.node.args
            ps = a.posonlyargs + a.args
            fr.self0 = ps[0].arg if ps else None
            where = self.where
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body, fr)
                self.where = where
                return r
            if sc.gen:
                fr.yields = self.h.new(ListO([]))
            pend, live = self.pend, self.live
            exits = self.exec_block(f.node.body, fr)
            self.pend, self.live = pend, live
            if not sc.inner:
                for _, _, h, _ in exits:
                    h.drop(fr.loc)
            r = self.absorb(exits)
            self.where = where
            if sc.gen:
                return self.new_iter(self.h.m[fr.yields].v)
            return r
        finally:
            self.depth -= 1

    def absorb(self, exits):
        """Turn the exits of a callee into a value, pending exceptions and a state."""
        rets = []
        for k, c, h, v in exits:
            if k == EXC:
                cc = D.and_(self.live, c)
                if cc is not False:
                    self.pend.append((cc, h, v))
            else:
                rets.append((c, h, v if k == RET else None))
        if not rets:
            raise AbsDead()
        c, h, v = self.join_exits(rets)
        self.h = h
        if len(rets) < len(exits) and c is not True:
            self.live = D.and_(self.live, c)
            self.assume(c, True)
        return v

    # ------------------------------------------------------------ names
    def load(self, name, fr):
        if fr.localnames is None or name in fr.localnames:
            d = self.h.m[fr.loc].d
            if name in d:
                v = d[name]
                if isinstance(v, (Phi, D.Node)):
                    v = self.force(v)
                    if v is ABSENT:
                        self.throw("UnboundLocalError", name)
                    if isinstance(v, Phi) and (v.a is ABSENT or v.b is ABSENT):
                        p = self.present(v)
                        self.raise_if(D.not_(p), "UnboundLocalError", name)
                        v = self.strip_absent(v)
                elif v is ABSENT:
                    self.throw("UnboundLocalError", name)
                return v
            if fr.localnames is not None:
                self.throw("UnboundLocalError", name)
        if name not in fr.globs:
            for oid in fr.clos:
                d = self.h.m[oid].d
                if name in d:
                    return self.force(d[name])
        d = self.h.m[fr.mod.dref].d
        if name in d:
            return self.force(d[name])
        b = self.builtins.get(name, ABSENT)
        if b is not ABSENT:
            return b
        if hasattr(builtins, name):
            self.und(f"builtin {name}")
        self.throw("NameError", f"name {name!r} is not defined")

    def store(self, name, v, fr):
        if name in fr.globs:
            self.wobj(fr.mod.dref).d[name] = v
            return
        if name in fr.nonl:
            for oid in fr.clos:
                if name in self.h.m[oid].d:
                    self.wobj(oid).d[name] = v
                    return
        self.h.w(fr.loc).d[name] = v

    # ------------------------------------------------------------ statements
    def exec_loading(self, st, fr):
        """A module-level statement; what it cannot model leaves its names unknown."""
        h, pend, live, mark, depth = self.h, self.pend, self.live, len(self.trail), self.depth
        try:
            return self.exec_stmt(st, fr)
        except Undecided as e:
            if isinstance(st, ast.ImportFrom):
                if st.level or st.module.split(".")[0] in ("precise", "research"):
                    raise
                names = [a.asname or a.name for a in st.names]
            else:
                ts = [] if isinstance(st, ast.Expr) else st.targets if isinstance(st, ast.Assign) else [st.target]
                if not all(isinstance(t, ast.Name) for t in ts):
                    raise
                names = [t.id for t in ts]
            self.h, self.pend, self.live, self.depth = h, pend, live, depth
            self.pop_facts(mark)
            for n in names:
                self.store(n, Unknown(f"unmodelled: {e}"), fr)
            return [(NEXT, True, self.h, None)]

    def exec_block(self, stmts, fr):
        """-> exits [(kind, condition relative to block entry, heap, value)]"""
        exits = []
        live = True
        mark = len(self.trail)
        pend0, live0 = self.pend, self.live
        for st in stmts:
            if self.loading and type(st) in (ast.Assign, ast.AnnAssign, ast.Expr, ast.ImportFrom) and fr.loc == fr.mod.dref:
                outs = self.exec_loading(st, fr)
            else:
                outs = self.exec_stmt(st, fr)
            nxt = None
            if len(outs) == 1 and outs[0][0] == NEXT and outs[0][1] is True:
                self.h = outs[0][2]
                continue
            for k, c, h, v in outs:
                if k == NEXT:
                    nxt = (c, h) if nxt is None else self.join_exits([(nxt[0], nxt[1], None), (c, h, None)])[:2]
                else:
                    cc = D.and_(live, c)
                    if cc is not False:
                        exits.append((k, cc, h, v))
            if nxt is None or nxt[0] is False:
                self.pop_facts(mark)
                self.pend, self.live = pend0, live0
                return self.group(exits) if len(exits) > 1 else exits
            c, h = nxt
            self.h = h
            if c is not True:
                live = D.and_(live, c)
                self.assume(c, True)
        exits.append((NEXT, live, self.h, None))
        self.pop_facts(mark)
        self.pend, self.live = pend0, live0
        return self.group(exits) if len(exits) > 1 else exits

    def exec_stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            self.und("step budget")
        self.where = (fr.mod.file or fr.mod.name, st.lineno)
        try:
            return self.exits(lambda: getattr(self, "s_" + type(st).__name__)(st, fr))
        except AttributeError as e:
            if "s_" in str(e) or "e_" in str(e):
                self.und(f"unsupported syntax {type(st).__name__}: {e}")
            raise

    def exits(self, fn):
        """The exits of fn(), which runs statements, with the exceptions raised on the way."""
        pend0, live0 = self.pend, self.live
        self.pend, self.live = [], True
        try:
            try:
                outs = fn()
                if outs is None:
                    outs = [(NEXT, self.live, self.h, None)]
                elif self.live is not True:
                    outs = [(k, D.and_(self.live, c), h, v) for k, c, h, v in outs]
            except AbsRaise as e:
                outs = [(EXC, self.live, self.h, e.exc)]
            except AbsDead:
                outs = []
            if self.pend:
                outs = [(EXC, c, h, e) for c, h, e in self.pend] + outs
            return outs
        finally:
            self.pend, self.live = pend0, live0

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        return None

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if fr.classscope and isinstance(st.target, ast.Name):
            d = self.h.w(fr.loc).d
            an = d.setdefault("__annotations__", ())
            d["__annotations__"] = an + (st.target.id,)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                vals = items[:i] + [self.new_list(items[i:len(items) - after])] + items[len(items) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.und(f"assignment target {type(t).__name__}")

    def s_AugAssign(self, st, fr):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            r = self.inplace(op, cur, self.eval(st.value, fr))
            self.store(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.inplace(op, cur, self.eval(st.value, fr))
            self.setattr(o, t.attr, r)
        else:
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            cur = self.getitem(o, i)
            r = self.inplace(op, cur, self.eval(st.value, fr))
            self.setitem(o, i, r)

    def inplace(self, op, cur, rhs):
        cur = self.force(cur)
        if isinstance(cur, Phi):
            return self.lift(lambda x: self.inplace(op, x, rhs), cur)
        if isinstance(cur, NArr):
            r = self.binop(op, cur, rhs)
            if not isinstance(r, NArr) or r.shape != cur.shape:
                self.throw("ValueError", "non-broadcastable output operand")
            if cur.dt in "ib" and r.dt in "fs":
                self.throw("TypeError", "Cannot cast ufunc output from float64 to int64")
            self.np.assign(cur, r)
            return cur
        if isinstance(cur, Ref):
            for x in (cur, rhs):
                if self.ragged(x):
                    return self.by_length(x, lambda: self.inplace(op, cur, rhs))
            o = self.obj(cur)
            if o.kind == "list" and op == "+":
                items = self.iterate(rhs)
                self.wobj(cur.oid).v.extend(items)
                return cur
            if o.kind == "set" and not o.frozen and op in ("|", "&", "-", "^"):
                r = self.obj(self.set_op(op, o, self.obj(self.as_set(rhs))))
                self.wobj(cur.oid).d = dict(r.d)
                return cur
            if o.kind == "dict" and op == "|":
                self.wobj(cur.oid).d.update(self.obj(rhs).d)
                return cur
            if o.kind == "inst":
                f = self.class_attr(o.cls, f"__i{DUNDER.get(op)}__")
                if f is not None:
                    return self.call(BoundM(cur, f), [rhs], {})
        return self.binop(op, cur, rhs)

    def s_Return(self, st, fr):
        v = None if st.value is None else self.eval(st.value, fr)
        return [(RET, True, self.h, v)]

    def s_Break(self, st, fr):
        return [(BRK, True, self.h, None)]

    def s_Continue(self, st, fr):
        return [(CNT, True, self.h, None)]

    def s_Global(self, st, fr):
        if fr.localnames is None:
            fr.globs = tuple(fr.globs) + tuple(st.names)

    def s_Nonlocal(self, st, fr):
        return None

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                d = self.h.w(fr.loc).d
                if t.id in fr.globs:
                    d = self.wobj(fr.mod.dref).d
                if t.id not in d:
                    self.throw("NameError", t.id)
                del d[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr)
            else:
                self.und("del target")

    def s_Assert(self, st, fr):
        t = self.branch(self.eval(st.test, fr))
        self.raise_if(D.not_(t), "AssertionError")

    def s_Raise(self, st, fr):
        if st.exc is None:
            if not fr.excs:
                self.throw("RuntimeError", "No active exception to reraise")
            raise AbsRaise(fr.excs[-1])
        e = self.force(self.eval(st.exc, fr))
        if st.cause is not None:
            self.eval(st.cause, fr)
        if isinstance(e, ClassV):
            e = self.call(e, [], {})
        if isinstance(e, Phi):
            self.fork_eval(e.c, lambda: self._raise(e.a), lambda: self._raise(e.b))
        self._raise(e)

    def _raise(self, e):
        if isinstance(e, ClassV):
            e = self.call(e, [], {})
        if not self.isobj(e, "inst"):
            self.throw("TypeError", "exceptions must derive from BaseException")
        raise AbsRaise(e)

    def s_If(self, st, fr):
        t = self.branch(self.eval(st.test, fr))
        if t is True:
            return self.exec_block(st.body, fr)
        if t is False:
            return self.exec_block(st.orelse, fr)
        return self.branch_exec(t, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr))

    def branch_exec(self, t, f, g):
        h1 = self.h
        h2 = h1.fork()
        out = []
        for h, val, fn in ((h1, True, f), (h2, False, g)):
            self.h = h
            mark = len(self.trail)
            self.assume(t, val)
            ex = fn()
            self.pop_facts(mark)
            cc = t if val else D.not_(t)
            out.extend((k, D.and_(cc, c), h, v) for k, c, h, v in ex)
        return self.group(out)

    def s_For(self, st, fr):
        return self.for_over(self.eval(st.iter, fr), st, fr)

    def for_over(self, src, st, fr):
        src = self.force(src)
        if isinstance(src, Phi):
            n = self.iterate_len(src.a)
            if n is None or n != self.iterate_len(src.b):
                return self.branch_exec(src.c, lambda: self.exits(lambda: self.for_over(src.a, st, fr)),
                                        lambda: self.exits(lambda: self.for_over(src.b, st, fr)))
        elif isinstance(src, NS) and "count" in src.attrs:
            n = src.attrs.get("n", 0)
            return self.s_While(st, fr, lambda i: src.attrs["count"](n + i))
        elif self.ragged(src):
            c = next(c for c, _ in self.obj(src).alts if self.decide(c) is None)
            again = lambda: self.exits(lambda: self.for_over(src, st, fr))
            return self.branch_exec(c, again, again)
        items = self.iterate(src)
        pre_live = self.live
        done, brks = [], []
        live = True
        mark = len(self.trail)
        for it in items:
            self.live = D.and_(pre_live, live)
            self.assign(st.target, it, fr)
            live = D.and_(live, True) if self.live is D.and_(pre_live, live) else self.live
            r = self.loop_body(st.body, fr, live, done, brks)
            if r is None:
                live = False
                break
            live = r
        self.live = pre_live
        return self.loop_end(st, fr, live, done, brks, mark)

    def loop_body(self, body, fr, live, done, brks):
        exits = self.exec_block(body, fr)
        nx = []
        for k, c, h, v in exits:
            cc = D.and_(live, c)
            if cc is False:
                continue
            if k in (NEXT, CNT):
                nx.append((c, h, None))
            elif k == BRK:
                brks.append((cc, h, None))
            else:
                done.append((k, cc, h, v))
        if not nx:
            return None
        c, h, _ = self.join_exits(nx)
        self.h = h
        if c is not True:
            self.assume(c, True)
            live = D.and_(live, c)
        return live

    def loop_end(self, st, fr, live, done, brks, mark):
        outs = list(done)
        if live is not False:
            if st.orelse:
                for k, c, h, v in self.exec_block(st.orelse, fr):
                    outs.append((k, D.and_(live, c), h, v))
            else:
                outs.append((NEXT, live, self.h, None))
        self.pop_facts(mark)
        outs.extend((NEXT, c, h, None) for c, h, _ in brks)
        return self.group(outs)

    def s_While(self, st, fr, nxt=None):
        """A while loop, or (nxt given) a for loop over an endless iterator."""
        pre_live = self.live
        done, brks = [], []
        falls = []
        live = True
        mark = len(self.trail)
        k = 0
        total = 0
        heavy = False
        while True:
            total += 1
            if total > 100000:
                self.und("loop bound")
            self.live = D.and_(pre_live, live)
            mats = D.mats[0]
            if nxt is None:
                t = self.branch(self.eval(st.test, fr))
            else:
                self.assign(st.target, nxt(total - 1), fr)
                t = True
            if self.live is not D.and_(pre_live, live):
                live = self.live
            if t is False:
                falls.append((live, self.h, None))
                break
            if t is not True:
                k += 1
                h2 = self.h.fork()
                falls.append((D.and_(live, D.not_(t)), h2, None))
                heavy = heavy or D.mats[0] != mats
                if k > (self.UNROLL if heavy else self.UNROLL_PLAIN):
                    self.assumed.add(f"loop at {self.where[0]}:{self.where[1]} expanded {k - 1} times")
                    done.append((EXC, D.and_(live, t), self.h, Diverge()))
                    break
                self.assume(t, True)
                live = D.and_(live, t)
            r = self.loop_body(st.body, fr, live, done, brks)
            heavy = heavy or D.mats[0] != mats
            if r is None:
                break
            if t is True and r is not live:
                k += 1
                if k >= (self.UNROLL if heavy else self.UNROLL_PLAIN):
                    self.assumed.add(f"loop at {self.where[0]}:{self.where[1]} expanded {k} times")
                    done.append((EXC, r, self.h, Diverge()))
                    break
            live = r
        self.live = pre_live
        outs = list(done)
        self.pop_facts(mark)
        for c, h, _ in falls:
            if st.orelse:
                self.h = h
                for kk, c2, h2, v in self.exec_block(st.orelse, fr):
                    outs.append((kk, D.and_(c, c2), h2, v))
            else:
                outs.append((NEXT, c, h, None))
        outs.extend((NEXT, c, h, None) for c, h, _ in brks)
        return self.group(outs)

    def s_With(self, st, fr):
        exits_needed = []
        for itm in st.items:
            cm = self.force(self.eval(itm.context_expr, fr))
            if self.isobj(cm, "inst"):
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits_needed.append(cm)
            elif isinstance(cm, (NS, Opaque)):
                v = cm
                if isinstance(cm, NS) and cm.label == "suppress":
                    self.trycatch.append(cm.attrs["types"])
                    try:
                        outs = self.exec_block(st.body, fr)
                    finally:
                        self.trycatch.pop()
                    return self.group([(NEXT, c, h, None) if k == EXC and self.exc_match(e, cm.attrs["types"], h)
                                       else (k, c, h, e) for k, c, h, e in outs])
            else:
                self.und("context manager")
            if itm.optional_vars is not None:
                self.assign(itm.optional_vars, v, fr)
        outs = self.exec_block(st.body, fr)
        for cm in reversed(exits_needed):
            new = []
            for k, c, h, v in outs:
                self.h = h
                pend, live = self.pend, self.live
                self.pend, self.live = [], True
                r = self.call(self.getattr(cm, "__exit__"), [None, None, None] if k != EXC else [None, v, None], {})
                self.pend, self.live = pend, live
                if k == EXC and self.branch(r) is True:
                    k, v = NEXT, None
                new.append((k, c, self.h, v))
            outs = new
        return outs

    def exc_match(self, e, types, h):
        """Does exception instance e match a handler type?"""
        if isinstance(e, Diverge):
            return False
        cls = h.m[e.oid].cls
        for t in types:
            if t is None:
                return True
            if t in cls.mro:
                return True
        return False

    def handler_types(self, hd, fr):
        if hd.type is None:
            return [None]
        t = self.force(self.eval(hd.type, fr))
        ts = list(t) if isinstance(t, tuple) else [t]
        for x in ts:
            if not isinstance(x, ClassV):
                self.und(f"exception type {x!r}")
        return ts

    def catching(self, name):
        """Is there a handler around us that would catch this builtin exception?"""
        cls = self.exc_classes[name]
        for types in reversed(self.trycatch):
            for t in types:
                if t is None or t in cls.mro:
                    return True
        return False

    def s_Try(self, st, fr):
        types = []
        handlers = []
        for hd in st.handlers:
            ts = self.handler_types(hd, fr)
            types.extend(ts)
            handlers.append((hd, ts))
        # the analysis' own driver programs catch what escapes the library, but must not make every
        # matrix inversion fork on failure
        self.trycatch.append([] if fr.mod.name in self.drivers else types)
        try:
            exits = self.exec_block(st.body, fr)
        finally:
            self.trycatch.pop()
        outs = []
        for k, c, h, v in exits:
            if k == EXC:
                hit = None
                for hd, ts in handlers:
                    if self.exc_match(v, ts, h):
                        hit = hd
                        break
                if hit is None:
                    outs.append((k, c, h, v))
                    continue
                self.h = h
                mark = len(self.trail)
                self.assume(c, True)
                if hit.name:
                    self.store(hit.name, v, fr)
                fr.excs.append(v)
                hx = self.exec_block(hit.body, fr)
                fr.excs.pop()
                self.pop_facts(mark)
                outs.extend((k2, D.and_(c, c2), h2, v2) for k2, c2, h2, v2 in hx)
            elif k == NEXT and st.orelse:
                self.h = h
                mark = len(self.trail)
                self.assume(c, True)
                hx = self.exec_block(st.orelse, fr)
                self.pop_facts(mark)
                outs.extend((k2, D.and_(c, c2), h2, v2) for k2, c2, h2, v2 in hx)
            else:
                outs.append((k, c, h, v))
        if st.finalbody:
            new = []
            for k, c, h, v in outs:
                self.h = h
                mark = len(self.trail)
                self.assume(c, True)
                fx = self.exec_block(st.finalbody, fr)
                self.pop_facts(mark)
                for k2, c2, h2, v2 in fx:
                    if k2 == NEXT:
                        new.append((k, D.and_(c, c2), h2, v))
                    else:
                        new.append((k2, D.and_(c, c2), h2, v2))
            outs = new
        return self.group(outs)

    s_TryStar = s_Try

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for dec in reversed(st.decorator_list):
            v = self.decorate(dec, v, fr)
        self.store(st.name, v, fr)

    def make_func(self, node, fr, name=None):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [ABSENT if d is None else self.eval(d, fr) for d in a.kw_defaults]
        clos = fr.clos if fr.classscope else ((fr.loc,) + tuple(fr.clos) if fr.localnames is not None or fr.captured
                                              else tuple(fr.clos))
        nm = name or getattr(node, "name", "<lambda>")
        qual = nm
        if fr.classscope and fr.cls:
            qual = f"{fr.cls}.{nm}"
        return FuncV(node, fr.mod, clos, defaults, kwd, nm, scope_of(node), None, f"{fr.mod.name}.{qual}")

    def decorate(self, dec, v, fr):
        d = self.force(self.eval(dec, fr))
        return self.call(d, [v], {})

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.force(self.eval(b, fr))
            if isinstance(v, ClassV):
                bases.append(v)
            elif isinstance(v, TypeV) and v.name == "object":
                continue
            elif isinstance(v, (Opaque, Builtin)):
                continue
            elif isinstance(v, TypeV) and v.name in ("tuple", "dict", "list", "str", "int", "float", "set"):
                self.und(f"subclass of {v.name}")
            else:
                self.und(f"base class {v!r}")
        dref = self.h.new(DictO({}, "scope"), self.tag())
        cf = Frame(dref, ((fr.loc,) + tuple(fr.clos)) if fr.localnames is not None else tuple(fr.clos), fr.mod)
        cf.classscope = True
        cf.cls = st.name
        exits = self.exec_block(st.body, cf)
        for k, c, h, v in exits:
            if k != NEXT or c is not True:
                if k == EXC:
                    self.pend.append((D.and_(self.live, c), h, v))
                    if len(exits) == 1:
                        raise AbsDead()
                else:
                    self.und("class body")
            else:
                self.h = h
        cls = ClassV(st.name, bases, dref, fr.mod)
        for x in self.h.m[dref].d.values():
            for f in self._funcs(x):
                f.cls = cls
        for b in bases:
            isub = self.class_attr(b, "__init_subclass__")
            if isub is not None:
                fn = isub.f if isinstance(isub, ClassMV) else isub
                self.call(fn, [cls], {k.arg: self.eval(k.value, fr) for k in st.keywords})
                break
        v = cls
        for dec in reversed(st.decorator_list):
            v = self.decorate(dec, v, fr)
        self.store(st.name, v, fr)

    def _funcs(self, x):
        if isinstance(x, FuncV):
            yield x
            if "__wrapped__" in x.attrs:
                yield from self._funcs(x.attrs["__wrapped__"])
        elif isinstance(x, PropV):
            for y in (x.fget, x.fset):
                yield from self._funcs(y)
        elif isinstance(x, (StaticV, ClassMV)):
            yield from self._funcs(x.f)

    # ------------------------------------------------------------ imports
    def s_Import(self, st, fr):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_module(top), fr)

    def s_ImportFrom(self, st, fr):
        name = st.module or ""
        if st.level:
            pkg = fr.mod.name.split(".")
            if not (fr.mod.file or "").endswith("__init__.py"):
                pkg = pkg[:-1]
            if st.level > 1:
                pkg = pkg[:-(st.level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                d = self.h.m[m.dref].d
                allv = d.get("__all__")
                names = self.iterate(allv) if allv is not None else [k for k in d if not k.startswith("_")]
                for k in names:
                    self.store(k, self.module_attr(m, k), fr)
                continue
            try:
                v = self.module_attr(m, a.name)
            except AbsRaise:
                sub = self.find_source(f"{name}.{a.name}")
                if sub:
                    v = self.import_module(f"{name}.{a.name}")
                else:
                    self.throw("ImportError", f"cannot import name {a.name!r} from {name!r}")
            self.store(a.asname or a.name, v, fr)

    def find_source(self, name):
        for root in self.roots:
            p = os.path.join(root, *name.split("."))
            if os.path.isfile(os.path.join(p, "__init__.py")):
                return os.path.join(p, "__init__.py")
            if os.path.isfile(p + ".py"):
                return p + ".py"
        return None

    def import_module(self, name):
        if name in self.mods:
            m = self.mods[name]
            if isinstance(m, str):
                self.throw("ImportError", m)
            return m
        ext = self.external_module(name)
        if ext is not None:
            return ext
        parent = name.rpartition(".")[0]
        if parent:
            self.import_module(parent)
            if name in self.mods:
                return self.mods[name]
        path = self.find_source(name)
        if path is None:
            if getattr(self, "unloadable", False):
                self.throw("ImportError", f"{name} was built against another binary interface")
            self.throw("ModuleNotFoundError", f"No module named {name!r}")
        if not self.loading and name.startswith("precise"):
            self.events.append(("late-import", name, self.where))
        return self.load_module(name, path)

    def load_module(self, name, path, src=None):
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        tree = ast.parse(src, path)
        self.sources[name] = (path, src, tree)
        self.loading += 1
        where = self.where
        try:
            dref = self.h.new(DictO({"__name__": name, "__file__": path, "__doc__": None}, "scope"), "global")
            rel = os.path.relpath(path, self.root) if path.startswith(self.root) else path
            m = ModuleV(name, dref, rel)
            self.mods[name] = m
            fr = Frame(dref, (), m)
            pend, live = self.pend, self.live
            exits = self.exec_block(tree.body, fr)
            self.pend, self.live = pend, live
            self.absorb(exits)
            parent, _, last = name.rpartition(".")
            if parent and parent in self.mods and isinstance(self.mods[parent], ModuleV):
                self.h.w(self.mods[parent].dref).d[last] = m
            return m
        except (AbsRaise, AbsDead):
            self.mods.pop(name, None)
            raise
        finally:
            self.loading -= 1
            self.where = where

    def module_attr(self, m, name):
        if m.dref is not None:
            d = self.h.m[m.dref].d
            if name in d:
                if type(d[name]) is Unknown and not self.loading:
                    self.und(f"{m.name}.{name} ({d[name].label})")
                return self.force(d[name])
            if name == "__name__":
                return m.name
            if f"{m.name}.{name}" in self.mods:
                return self.mods[f"{m.name}.{name}"]
            ga = d.get("__getattr__")
            if ga is not None:
                return self.call(ga, [name], {})
            self.throw("AttributeError", f"module {m.name!r} has no attribute {name!r}")
        return self.ext_attr(m, name)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        return getattr(self, "e_" + type(e).__name__)(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        v = self.load(e.id, fr)
        if type(v) is Unknown and not self.loading:
            self.und(f"{e.id} ({v.label})")
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, a, fr):
        return a

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.force(self.eval(x, fr))
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.new_set(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.force(self.eval(v, fr))
                if isinstance(m, Phi):
                    m = self.lift(lambda x: self.new_dict(self.mapping(x)), m)
                    if isinstance(m, Phi):
                        keys = [self.mapping(self.force(x)) for x in (m.a, m.b)]
                        if set(keys[0]) != set(keys[1]):
                            self.und("dict display over differing mappings")
                        m = {kk: self.mval(m.c, keys[0][kk], keys[1][kk], None) for kk in keys[0]}
                        d.update(m)
                        continue
                d.update(self.mapping(m))
            else:
                kk = self.hkey(self.eval(k, fr))
                d[kk] = self.eval(v, fr)
        return self.new_dict(d)

    def mapping(self, m):
        m = self.force(m)
        if isinstance(m, Ref):
            o = self.obj(m)
            if o.kind == "dict":
                return dict(o.d)
            if o.kind == "inst" and self.class_attr(o.cls, "keys") is not None:
                return {self.hkey(k): self.getitem(m, k) for k in self.iterate(self.call(self.getattr(m, "keys"), [], {}))}
        if isinstance(m, NS) and "map" in m.attrs:
            return m.attrs["map"]()
        self.und("mapping")

    def e_BinOp(self, e, fr):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        return self.unary(type(e.op), self.eval(e.operand, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            t = self.branch(v)
            if t is True:
                return go(i + 1) if isand else v
            if t is False:
                return v if isand else go(i + 1)
            if isand:
                return self.fork_eval(t, lambda: go(i + 1), lambda: v if not D.is_bool(v) else False)
            return self.fork_eval(t, lambda: v if not D.is_bool(v) else True, lambda: go(i + 1))
        return go(0)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(CMPOPS[type(e.ops[0])], left, self.eval(e.comparators[0], fr))
        r = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            x = self.compare(CMPOPS[type(op)], left, right)
            r = D.and_(r, self.truth(x))
            if r is False:
                return False
            left = right
        return r

    def e_IfExp(self, e, fr):
        t = self.branch(self.eval(e.test, fr))
        return self.fork_eval(t, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_Starred(self, e, fr):
        self.und("starred expression")

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
                continue
            v = self.force(self.eval(x.value, fr))
            if x.conversion == 114:
                s = self.repr_(v)
            else:
                s = self.str_(v)
            spec = ""
            if x.format_spec is not None:
                sp = self.e_JoinedStr(x.format_spec, fr)
                spec = sp if isinstance(sp, str) else "?"
                if isinstance(v, (int, float, str)) and isinstance(sp, str) and x.conversion == -1:
                    s = format(v, sp)
                elif isinstance(s, str) and isinstance(sp, str) and isinstance(v, (Ref, ClassV, FuncV)):
                    pass
            parts.append(s)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return SymStr(parts)

    def e_FormattedValue(self, e, fr):
        return self.str_(self.eval(e.value, fr))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if fr.func is not None and fr.func.cls is not None:
                return SuperV(fr.func.cls, self.load(fr.self0, fr))
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.force(self.eval(k.value, fr))
                for kk, vv in self.mapping(m).items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if isinstance(f, Builtin) and f.name in ("locals", "globals", "vars", "dir", "eval", "exec") and f.raw:
            return f.fn(fr, *args, **kw)
        self.where = (fr.mod.file or fr.mod.name, e.lineno)
        return self.call(f, args, kw)

    # comprehensions ---------------------------------------------------
    def comp(self, gens, fr, emit):
        """Run generators; emit(frame, cond) called for each element that may be produced."""
        cf = Frame(self.h.new(DictO({}, "scope")), ((fr.loc,) + tuple(fr.clos)) if fr.localnames is not None or
                   fr.captured or fr.classscope else tuple(fr.clos), fr.mod)
        cf.localnames = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        cf.func, cf.self0, cf.cls = fr.func, fr.self0, fr.cls
        cf.captured = True
        cf.globs, cf.nonl = fr.globs, ()

        def go(i, cond):
            if i == len(gens):
                emit(cf, cond)
                return
            g = gens[i]
            src = self.force(self.eval(g.iter, fr if i == 0 else cf))
            for p, it in self.maybe_items(src):
                if p is True:
                    each(i, it, cond)
                else:
                    self.fork_eval(p, lambda: each(i, it, D.and_(cond, p)), lambda: None)

        def each(i, it, cond):
            self.assign(gens[i].target, it, cf)
            test(i, 0, cond)

        def test(i, j, cond):
            if j == len(gens[i].ifs):
                return go(i + 1, cond)
            t = self.branch(self.eval(gens[i].ifs[j], cf))
            if t is True:
                test(i, j + 1, cond)
            elif t is not False:
                self.fork_eval(t, lambda: test(i, j + 1, D.and_(cond, t)), lambda: None)
        go(0, True)

    def e_ListComp(self, e, fr):
        out = []

        def emit(cf, c):
            out.append((c, self.eval(e.elt, cf)))
        self.comp(e.generators, fr, emit)
        return self.cond_list(out)

    def maybe_items(self, src):
        """[(condition, item)]: the items of a container, each with the condition under which it is there."""
        if not self.ragged(src) and not self.uneven(src):
            return [(True, x) for x in self.iterate(src)]

        def flat(v, c):
            v = self.force(v)
            if self.ragged(v):
                return [(D.and_(c, k), xs) for k, xs in self.obj(v).alts if self.decide(k) is not False]
            if isinstance(v, Phi):
                return flat(v.a, D.and_(c, v.c)) + flat(v.b, D.and_(c, D.not_(v.c)))
            return [(c, self.iterate(v))]
        alts = [(c, xs) for c, xs in flat(src, True) if c is not False]
        out = []
        n0 = min(len(xs) for _, xs in alts)
        for k in range(max(len(xs) for _, xs in alts)):
            here = [(c, xs[k]) for c, xs in alts if len(xs) > k]
            p, v = here[-1]
            for c, x in reversed(here[:-1]):
                p, v = D.or_(c, p), self.mval(c, x, v, None)
            out.append((True if k < n0 else p, v))
        return out

    def cond_list(self, out):
        """List whose elements may be present under conditions."""
        if all(c is True for c, _ in out):
            return self.new_list([v for _, v in out])
        if sum(c is not True for c, _ in out) > 4:
            by = {0: (True, [])}
            for c, v in out:
                new = {}
                for n, (pc, xs) in by.items():
                    for cc, ys in ((c, xs + [v]), (D.not_(c), xs)):
                        cc = D.and_(pc, cc)
                        if cc is False:
                            continue
                        old = new.get(len(ys))
                        new[len(ys)] = (cc, ys) if old is None else (D.or_(cc, old[0]), [
                            self.mval(cc, x, y, None) for x, y in zip(ys, old[1])])
                by = new
            if len(by) > 1:
                r = self.new_list([])
                w = self.h.w(r.oid)
                w.v, w.alts = None, tuple(by[n] for n in sorted(by))
                return r
            return self.new_list(next(iter(by.values()))[1])
        # join over the undecided memberships
        acc = [(True, ())]
        for c, v in out:
            if c is True:
                acc = [(pc, xs + (v,)) for pc, xs in acc]
            else:
                if len(acc) > 16:
                    self.und("filtered list with undecided membership")
                acc = [(D.and_(pc, c), xs + (v,)) for pc, xs in acc] + [(D.and_(pc, D.not_(c)), xs) for pc, xs in acc]
        acc = [(c, xs) for c, xs in acc if c is not False]
        r = self.new_list(acc[-1][1])
        for c, xs in reversed(acc[:-1]):
            r = Phi(c, self.new_list(xs), r)
        return r

    def e_GeneratorExp(self, e, fr):
        out = []

        def emit(cf, c):
            out.append((c, self.eval(e.elt, cf)))
        self.comp(e.generators, fr, emit)
        if all(c is True for c, _ in out):
            return self.new_iter([v for _, v in out])
        return self.cond_list(out)

    def e_SetComp(self, e, fr):
        out = []

        def emit(cf, c):
            if c is not True:
                self.und("filtered set with undecided membership")
            out.append(self.eval(e.elt, cf))
        self.comp(e.generators, fr, emit)
        return self.new_set(out)

    def e_DictComp(self, e, fr):
        d = {}

        def emit(cf, c):
            k = self.force(self.eval(e.key, cf))
            v = self.eval(e.value, cf)
            if isinstance(k, Phi) and self.lax:
                self.phikey(d, k, v, c)
                return
            k = self.hkey(k)
            if c is not True:
                d[k] = Phi(c, v, d.get(k, ABSENT))
            else:
                d[k] = v
        self.comp(e.generators, fr, emit)
        return self.new_dict(d)

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        self.h.w(fr.yields).v.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        items = self.iterate(self.eval(e.value, fr))
        self.h.w(fr.yields).v.extend(items)
        return None

    # match statement (literal, sequence-free subset)
    def s_Match(self, st, fr):
        subj = self.eval(st.subject, fr)

        def go(i):
            if i == len(st.cases):
                return [(NEXT, True, self.h, None)]
            case = st.cases[i]
            t = self.pattern(case.pattern, subj, fr)
            if case.guard is not None:
                t = D.and_(t, self.truth(self.eval(case.guard, fr)))
            d = self.decide(t)
            if d is True:
                return self.exec_block(case.body, fr)
            if d is False:
                return go(i + 1)
            return self.branch_exec(t, lambda: self.exec_block(case.body, fr), lambda: go(i + 1))
        return go(0)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(self.force(v), p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                t = self.pattern(p.pattern, v, fr)
            else:
                t = True
            if p.name:
                self.store(p.name, v, fr)
            return t
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                r = D.or_(r, self.pattern(q, v, fr))
            return r
        self.und("match pattern")


class _Merge:
    def __init__(self, it, c, h1, h2):
        self.it, self.c, self.h1, self.h2 = it, c, h1, h2
        self.memo = {}
        self.used1, self.used2 = {}, {}

    def run(self):
        h1, h2 = self.h1, self.h2
        h1.ep = h2.ep = None          # both are consumed
        m1, m2 = h1.m, h2.m
        base, keys = changed_since_split(h1.seg, h2.seg)
        self.only1, self.only2, diff = set(), set(), []
        for k in keys:
            if k in m1:
                if k not in m2:
                    self.only1.add(k)
                elif m1[k] is not m2[k]:
                    diff.append(k)
            elif k in m2:
                self.only2.add(k)
        self.r = r = Heap(m1, Seg(base, keys))
        diff.sort()
        old = {k: m1[k] for k in diff}
        for k in self.only2:
            m1[k] = m2[k]
        for k in diff:
            m1[k] = self.obj(old[k], m2[k])

    def pair(self, a, b):
        """Merge two objects each allocated on one side only (nothing else can see them)."""
        if a not in self.only1 or b not in self.only2:
            return None
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        if a in self.used1 or b in self.used2:
            return None
        o1, o2 = self.r.m[a], self.r.m[b]
        if o1.kind != o2.kind:
            return None
        if o1.kind == "list" and (o1.v is None or o2.v is None or len(o1.v) != len(o2.v)):
            return None
        if o1.kind == "dict" and (set(o1.d) != set(o2.d) or o1.ty != o2.ty):
            return None
        if o1.kind == "set" and (set(o1.d) != set(o2.d)):
            return None
        if o1.kind == "inst" and o1.cls is not o2.cls:
            return None
        if o1.kind == "buf" and len(o1.c) != len(o2.c):
            return None
        if o1.kind == "iter" and (len(o1.items) != len(o2.items) or o1.pos != o2.pos):
            return None
        self.used1[a] = self.used2[b] = True
        self.memo[k] = a
        o = self.obj(o1, o2)
        self.r.m[a] = o
        # every reference to b now means the merged object
        self.r.m[b] = o if o.kind in ("buf",) else o2
        return a

    def lengths(self, o1, o2):
        """The possible contents of a list whose length depends on the side."""
        a = ((True, o1.v),) if o1.v is not None else o1.alts
        b = ((True, o2.v),) if o2.v is not None else o2.alts
        if a is None or b is None:
            return None
        c, nc = self.c, D.not_(self.c)
        da, db = {len(x): (D.and_(c, k), x) for k, x in a}, {len(x): (D.and_(nc, k), x) for k, x in b}
        out = []
        for n in sorted(set(da) | set(db)):
            if n not in db:
                out.append((da[n][0], list(da[n][1])))
            elif n not in da:
                out.append((db[n][0], list(db[n][1])))
            else:
                out.append((D.or_(da[n][0], db[n][0]),
                            [self.it.mval(c, x, y, self) for x, y in zip(da[n][1], db[n][1])]))
        return tuple(out) if len(out) <= 40 else None

    def obj(self, o1, o2):
        it, c = self.it, self.c
        mv = it.mval
        if o1.kind == "buf":
            n = BufO([mv(c, x, y, self) for x, y in zip(o1.c, o2.c)])
        elif o1.kind in ("list", "deque"):
            if o1.v is None or o2.v is None or len(o1.v) != len(o2.v):
                n = ListO(None, self.lengths(o1, o2) if o1.kind == "list" else None)
            else:
                n = o1.copy()
                n.v = [mv(c, x, y, self) for x, y in zip(o1.v, o2.v)]
        elif o1.kind == "dict":
            d = {}
            for k, x in o1.d.items():
                y = o2.d.get(k, ABSENT)
                d[k] = mv(c, x, y, self)
            for k, y in o2.d.items():
                if k not in o1.d:
                    d[k] = mv(c, ABSENT, y, self)
            n = DictO(d, o1.ty)
        elif o1.kind == "set":
            if set(o1.d) != set(o2.d):
                it.und("set with undecided membership")
            n = o1.copy()
        elif o1.kind == "inst":
            if o1.cls is not o2.cls:
                it.und("class changed on one branch")
            n = o1.copy()
            if o1.dref != o2.dref:
                m = self.pair(o1.dref, o2.dref)
                if m is None:
                    it.und("instance dictionaries replaced on one branch")
                n.dref = m
        elif o1.kind == "iter":
            if o1.pos != o2.pos or len(o1.items) != len(o2.items):
                n = IterO([], -1)     # consumed further on one side than on the other
            else:
                n = IterO([mv(c, x, y, self) for x, y in zip(o1.items, o2.items)], o1.pos)
        else:
            it.und("merge")
        n.ep = self.r.ep
        n.tag = o1.tag
        return n
