"""Obligations: driver programs interpreted over the library's source, and the comparison of what
they can observe.

A driver program (sa/scen/*.py) is ordinary Python that uses the library the way a caller would.  It
is never executed: the engine interprets it, together with every library function it reaches, on
symbolic data.  An obligation names a driver function and its (finite) configuration.  Its result is
a list of labelled pairs (expected, actual) of abstract values, which must be equal in every
interpretation of the symbols.
"""
from __future__ import annotations

import os
import sys
import time
import traceback

import numpy as np

from . import dag as D
from .interp import Diverge, Interp, NS
from .vals import (ABSENT, AbsDead, AbsRaise, BoundM, Builtin, ClassV, DictO, DType, FuncV, NArr, Opaque, Phi, Ref,
                   SymStr, TypeV, Undecided, plain)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """The analysis cannot find what it is anchored to."""


# ---------------------------------------------------------------- session
class Session:
    def __init__(self, oracle="a", bare=False, fresh=True):
        """bare: nothing is installed but numpy (no stand-ins for optional packages);
        bare="unloadable": the optional packages are there but cannot be loaded."""
        sys.setrecursionlimit(200000)
        if fresh:
            D.reset()
        self.it = it = Interp(REPO)
        it.oracle = oracle
        it.roots = [REPO, os.path.join(HERE, "scen"), *(() if bare else (os.path.join(HERE, "stubs"),))]
        self.bare = bare
        it.unloadable = bare == "unloadable"
        self.intrinsics()

    def intrinsics(self):
        it = self.it

        def sym(name, dist="data", lo=None, hi=None, **kw):
            isint = dist in ("count", "int")
            return D.sym(name, dist, isint=isint, isbool=dist == "coin", lo=lo, hi=hi, **kw)

        def row(p, i, name="x"):
            return it.np.arr([D.sym(f"{name}{i}_{j}", "data", row=i, col=j) for j in range(p)], (p,))

        def rows(T, p, name="x", start=0):
            return it.np.arr([D.sym(f"{name}{i}_{j}", "data", row=i, col=j)
                              for i in range(start, start + T) for j in range(p)], (T, p))

        def wholes(T, p, kind, as_float, name="w"):
            """Rows of whole numbers: as an integer or boolean array, or as floats of the same value."""
            ns = [D.sym(f"{name}{i}_{j}", "coin", isbool=True) if kind == "bool" else
                  D.sym(f"{name}{i}_{j}", "int", isint=True, lo=-40, hi=40) for i in range(T) for j in range(p)]
            if as_float:
                return it.np.arr([it.np.conv(n, "f") for n in ns], (T, p))
            return it.np.arr(ns, (T, p), "b" if kind == "bool" else "i")

        def rowlist(T, p, name="x", start=0):
            return it.new_list([row(p, i, name) for i in range(start, start + T)])

        def spd(p, name):
            cells = {}
            for i in range(p):
                for j in range(i + 1):
                    cells[i, j] = (D.sym(f"{name}L{i}_{j}", "pos", lo=1e-6) if i == j
                                   else D.sym(f"{name}L{i}_{j}", "data"))
            out = []
            for i in range(p):
                for j in range(p):
                    acc = 0.0
                    for k in range(min(i, j) + 1):
                        acc = D.add(acc, D.mul(cells[i, k], cells[j, k]))
                    out.append(acc)
            return it.np.arr(out, (p, p))

        def flag(v):
            it.flags.append(v)

        it.lib.mods["av"] = {
            "sym": Builtin("sym", sym), "row": Builtin("row", row), "rows": Builtin("rows", rows),
            "rowlist": Builtin("rowlist", rowlist), "wholes": Builtin("wholes", wholes), "spd": Builtin("spd", spd),
            "scribble": Builtin("scribble", self.scribble), "size": Builtin("size", self.size),
            "shares": Builtin("shares", self.shares),
            "attempt": Builtin("attempt", self.attempt), "steps": Builtin("steps", lambda: it.steps),
            "flag": Builtin("flag", flag), "lax": Builtin("lax", lambda: setattr(it, "lax", True)), "tables": Builtin("tables", self.tables), "mods": Builtin("mods", self.import_all)}
        it.flags = []

    def tables(self, text):
        """The literal tables of generated source text."""
        import ast
        if not isinstance(text, str):
            raise Undecided("generated text is not constant")
        try:
            t = ast.parse(text)
        except SyntaxError as e:
            self.it.throw("SyntaxError", str(e))
        out = {}
        bound = set()
        for n in t.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in bound and x.id not in (
                        "True", "False", "None", "float", "int", "str", "list", "tuple", "dict"):
                    self.it.throw("NameError", f"name {x.id!r} is not defined")
                if isinstance(x, ast.alias):
                    bound.add(x.asname or x.name.split(".")[0])
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    bound.add(x.id)
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(x, ast.Name):
                        try:
                            out[x.id] = self.arg(ast.literal_eval(n.value))
                        except ValueError:
                            raise Undecided(f"{x.id} is not a literal table") from None
        return self.it.new_dict(out)

    def import_all(self):
        out = []
        for base, _, files in sorted(os.walk(os.path.join(REPO, "precise"))):
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(base, f), REPO)[:-3].replace(os.sep, ".")
                    out.append(rel[:-9] if rel.endswith(".__init__") else rel)
        return self.it.new_list(out)

    # -- caller-side misuse of data handed over or handed back
    def reach(self, v, into_instances=False):
        """Objects of the heap reachable from v (phi-aware)."""
        it = self.it
        seen, out, st = set(), [], [v]
        while st:
            x = st.pop()
            if isinstance(x, Phi):
                st += [x.a, x.b]
            elif isinstance(x, tuple):
                st += list(x)
            elif isinstance(x, NArr):
                if ("b", x.buf) not in seen:
                    seen.add(("b", x.buf))
                    out.append(x)
            elif isinstance(x, BoundM) and into_instances:
                st.append(x.self)
            elif isinstance(x, Ref):
                if x.oid in seen:
                    continue
                seen.add(x.oid)
                o = it.h.m[x.oid]
                if o.kind == "inst":
                    if into_instances:
                        out.append(x)
                        st.append(Ref(o.dref))
                    continue
                out.append(x)
                if o.kind == "dict":
                    st += list(o.d.values())
                elif o.kind == "set":
                    st += list(o.d.values())
                elif o.kind in ("list", "deque"):
                    st += list(o.v)
                elif o.kind == "iter":
                    st += list(o.items)
            elif into_instances and isinstance(x, FuncV):
                for c in x.clos or ():
                    st.append(Ref(c) if isinstance(c, int) else c)
                st += list(x.attrs.values())
        return out

    def scribble(self, v, name="scribble", structure=True):
        """Overwrite everything a caller could reach in v with junk."""
        it = self.it
        n = [0]

        def junk(old):
            if isinstance(old, bool) or (isinstance(old, D.Node) and old.isbool):
                return D.not_(old)
            n[0] += 1
            return D.sym(f"{name}:{n[0]}", "free")

        def isnum(x):
            return isinstance(x, (int, float, D.Node, bool))
        for x in self.reach(v):
            if isinstance(x, NArr):
                if x.ro:
                    continue
                b = it.wobj(x.buf)
                for i in range(len(b.c)):
                    if isnum(b.c[i]):
                        b.c[i] = junk(b.c[i])
                continue
            o = it.wobj(x.oid)
            if o.kind == "dict":
                for k in list(o.d):
                    if isnum(o.d[k]):
                        o.d[k] = junk(o.d[k])
                if structure and o.ty != "scope":
                    ks = list(o.d)
                    if len(ks) > 1:
                        del o.d[ks[0]]
                    o.d[f"{name}-key"] = junk(0.0)
            elif o.kind in ("list", "deque"):
                for k in range(len(o.v)):
                    if isnum(o.v[k]):
                        o.v[k] = junk(o.v[k])
                if structure:
                    o.v.reverse()
                    o.v.append(f"{name}-item")
            elif o.kind == "set" and not o.frozen and structure:
                o.d[f"{name}-key"] = f"{name}-key"
        return None

    def size(self, v):
        """Number of values stored in the data reachable from v (the largest alternative)."""
        it = self.it
        memo: dict = {}

        def alt(x, seen):
            n = 0
            st = [x]
            while st:
                x = st.pop()
                if isinstance(x, Phi):
                    key = (id(x.a), id(x.b))
                    if key in memo:
                        n += memo[key]
                        continue
                    s1, s2 = set(seen), set(seen)
                    m = max(alt(x.a, s1), alt(x.b, s2))
                    memo[key] = m
                    seen |= s1 | s2
                    n += m
                elif isinstance(x, tuple):
                    n += len(x)
                    st += list(x)
                elif isinstance(x, NArr):
                    if ("b", x.buf) not in seen:
                        seen.add(("b", x.buf))
                        n += len(it.h.m[x.buf].c)
                elif isinstance(x, BoundM):
                    st.append(x.self)
                elif isinstance(x, FuncV):
                    if id(x) not in seen:
                        seen.add(id(x))
                        st += [Ref(c) for c in (x.clos or ()) if isinstance(c, int)]
                elif isinstance(x, Ref):
                    if x.oid in seen:
                        continue
                    seen.add(x.oid)
                    o = it.h.m[x.oid]
                    if o.kind == "inst":
                        st.append(Ref(o.dref))
                    elif o.kind in ("dict", "set"):
                        n += len(o.d)
                        st += list(o.d.values())
                    elif o.kind in ("list", "deque"):
                        n += len(o.v)
                        st += list(o.v)
                    elif o.kind == "iter":
                        n += len(o.items)
                        st += list(o.items)
                    elif o.kind == "buf":
                        n += len(o.c)
            return n
        return alt(v, set())

    def shares(self, a, b):
        """Do two values share mutable data?"""
        def ids(v):
            return {("b", x.buf) if isinstance(x, NArr) else ("o", x.oid) for x in self.reach(v, True)
                    if not (isinstance(x, Ref) and self.it.h.m[x.oid].tag == "global")}
        return bool(ids(a) & ids(b))

    def attempt(self, f, *args, **kw):
        it = self.it
        return it.call(it.module_attr(it.mods["lib"], "attempt"), [f, *args], kw)

    def load(self, module, source=None):
        it = self.it
        it.drivers |= {"lib", module}
        try:
            it.import_module("precise")
            it.import_module("lib")
            if source is not None and module not in it.mods:
                it.drivers |= {"docs"}
                it.import_module("docs")
                return it.load_module(module, module + ".py", source)
            return it.import_module(module)
        except AbsRaise as e:
            raise Broken(f"importing {module}: {exc_text(it, e.exc)}")
        except AbsDead:
            raise Broken(f"importing {module}: " + "; ".join(exc_text(it, e, h) for _, h, e in it.pend[-3:]))

    def run(self, module, fn, args, source=None):
        """Interpret one driver function from a copy of the freshly imported heap."""
        it = self.it
        m = self.load(module, source)
        mods0 = dict(it.mods)
        h0 = it.h
        it.h = h0.fork()
        it.pend, it.live, it.flags, it.lax = [], True, [], False
        it.facts.clear()
        it.implied = {}
        it.trail.clear()
        nev = len(it.events)
        r = Run()
        try:
            r.value = it.call(it.module_attr(m, fn), [self.arg(a) for a in args], {})
            r.live = it.live
        except AbsRaise as e:
            r.value, r.live = None, False
            it.pend.append((it.live, it.h, e.exc))
        except AbsDead:
            r.value, r.live = None, False
        r.heap, r.pend = it.h, it.pend
        r.events = it.events[nev:]
        r.flags = it.flags
        r.it = it
        it.h = h0
        it.mods = mods0
        it.facts.clear()
        it.implied = {}
        it.trail.clear()
        return r

    def arg(self, a):
        if isinstance(a, list):
            return self.it.new_list([self.arg(x) for x in a])
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        if isinstance(a, dict):
            return self.it.new_dict({k: self.arg(x) for k, x in a.items()})
        return a


class Run:
    value = heap = pend = events = it = flags = None
    live = True


def exc_text(it, e, h=None):
    if isinstance(e, Diverge):
        return e.name
    if isinstance(e, Phi):
        return exc_text(it, e.a, h)
    o = (h or it.h).m[e.oid]
    d = (h or it.h).m[o.dref].d
    a = d.get("args", ())
    return f"{o.cls.name}: {text(a)}"


def text(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- comparison
class Skip(Exception):
    pass


def conc(v, h, ev, k, depth=0):
    """The value v takes in interpretation k."""
    while isinstance(v, Phi):
        v = v.a if truth_at(v.c, ev, k) else v.b
    if isinstance(v, D.Node):
        x = ev.get(v)[k]
        if v.isbool:
            return bool(x)
        return float(x)
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return plain(v)
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, tuple):
        return tuple(conc(x, h, ev, k, depth + 1) for x in v)
    if isinstance(v, NArr):
        b = h.m[v.buf].c
        cells = [conc(b[i], h, ev, k) for i in v.ix]
        return ("array", tuple(v.shape), tuple(cells))
    if isinstance(v, Ref):
        o = h.m[v.oid]
        if depth > 40:
            raise Undecided("recursive data")
        if o.kind in ("list", "deque"):
            return ["list"] + [conc(x, h, ev, k, depth + 1) for x in o.v]
        if o.kind == "dict":
            out = {}
            for kk, x in o.d.items():
                p = present_at(x, ev, k)
                if p is not ABSENT:
                    out[kk if not isinstance(kk, tuple) else repr(kk)] = conc(p, h, ev, k, depth + 1)
            return out
        if o.kind == "set":
            return ("set", frozenset(kk for kk, x in o.d.items() if present_at(x, ev, k) is not ABSENT))
        if o.kind == "inst":
            return ("instance", o.cls.name)
        if o.kind == "iter":
            return ["iter"] + [conc(x, h, ev, k, depth + 1) for x in o.items[o.pos:]]
    if isinstance(v, SymStr):
        return ("str",) + tuple(conc(x, h, ev, k, depth + 1) for x in v.parts)
    if isinstance(v, ClassV):
        return ("class", v.name)
    if isinstance(v, (TypeV,)):
        return ("type", v.name)
    if isinstance(v, FuncV):
        return ("function", v.qual)
    if isinstance(v, BoundM):
        return ("method", getattr(v.fn, "name", "?"))
    if isinstance(v, (Opaque, DType)):
        return ("opaque", repr(v))
    if v is ABSENT:
        return "absent"
    if isinstance(v, range):
        return ["list"] + [float(x) for x in v]
    if isinstance(v, NS):
        return ("ns", repr(v))
    return ("other", type(v).__name__)


def present_at(x, ev, k):
    while isinstance(x, Phi):
        x = x.a if truth_at(x.c, ev, k) else x.b
    return x


def truth_at(c, ev, k):
    if isinstance(c, D.Node):
        x = ev.get(c)[k]
        if x != x:
            return True
        return bool(x)
    return bool(c)


def nums(x, out):
    if isinstance(x, bool):
        return
    if isinstance(x, float):
        if np.isfinite(x):
            out.append(abs(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            nums(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            nums(y, out)


def differ(a, b, scale, tol, path=""):
    """None when equal up to rounding, else (path, a, b)."""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, float)) and isinstance(b, (bool, float)) and float(a) == float(b):
            return None
        return (path, a, b)
    if isinstance(a, float) and isinstance(b, float):
        return None if D.close(a, b, scale, tol) else (path, a, b)
    if type(a) is not type(b):
        return (path, a, b)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return (path, a, b)
        if len(a) == 3 and a[0] == "array" and b[0] == "array":
            if a[1] != b[1]:
                return (path + ".shape", a[1], b[1])
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                r = differ(x, y, scale, tol, f"{path}[{','.join(str(int(q)) for q in np.unravel_index(i, a[1]))}]"
                           if a[1] else path)
                if r:
                    return r
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, scale, tol, f"{path}.{i}")
            if r:
                return r
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return (path + ".keys", sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = differ(a[k], b[k], scale, tol, f"{path}.{k}")
            if r:
                return r
        return None
    return None if a == b else (path, a, b)


def same(a, ha, b, hb, seen=None):
    """Identical value numbers, structurally."""
    if a is b and not isinstance(a, (Ref, NArr)):
        if not isinstance(a, tuple):
            return True
    if isinstance(a, NArr) and isinstance(b, NArr):
        if a.shape != b.shape:
            return False
        ca, cb = ha.m[a.buf].c, hb.m[b.buf].c
        return all(_sv(ca[i], cb[j]) for i, j in zip(a.ix, b.ix))
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = ha.m[a.oid], hb.m[b.oid]
        if oa.kind != ob.kind:
            return False
        if oa.kind in ("list", "deque"):
            return len(oa.v) == len(ob.v) and all(same(x, ha, y, hb) for x, y in zip(oa.v, ob.v))
        if oa.kind == "dict":
            return oa.d.keys() == ob.d.keys() and all(same(oa.d[k], ha, ob.d[k], hb) for k in oa.d)
        if oa.kind == "inst":
            return oa.cls is ob.cls
        return oa is ob
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, ha, y, hb) for x, y in zip(a, b))
    if isinstance(a, Phi) and isinstance(b, Phi):
        return a.c is b.c and same(a.a, ha, b.a, hb) and same(a.b, ha, b.b, hb)
    if isinstance(a, (int, float, str, bool, type(None))):
        return _sv(a, b)
    return False


def _sv(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    return isinstance(a, str) and isinstance(b, str) and a == b


class Verdict:
    def __init__(self):
        self.pairs = self.identical = self.evaluated = self.skipped = 0
        self.bad = None
        self.conds = set()


def outcome(run, ev, k):
    """None if the run returns normally in interpretation k, else the name of what it raises."""
    for c, h, e in run.pend:
        if truth_at(c, ev, k):
            e2 = e
            while isinstance(e2, Phi):
                e2 = e2.a if truth_at(e2.c, ev, k) else e2.b
            if isinstance(e2, Diverge):
                raise Skip
            return exc_text(run.it, e2, h)
    if isinstance(run.live, D.Node) and not truth_at(run.live, ev, k):
        return "no return"
    if run.live is False:
        return "no return"
    return None


def collect_nodes(v, h, out, seen):
    if isinstance(v, Phi):
        if isinstance(v.c, D.Node):
            out.append(v.c)
        collect_nodes(v.a, h, out, seen)
        collect_nodes(v.b, h, out, seen)
    elif isinstance(v, D.Node):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            collect_nodes(x, h, out, seen)
    elif isinstance(v, SymStr):
        for x in v.parts:
            collect_nodes(x, h, out, seen)
    elif isinstance(v, NArr):
        b = h.m[v.buf].c
        out.extend(b[i] for i in v.ix if isinstance(b[i], D.Node))
    elif isinstance(v, Ref):
        if v.oid in seen:
            return
        seen.add(v.oid)
        o = h.m[v.oid]
        for x in (o.v if o.kind in ("list", "deque") else o.d.values() if o.kind == "dict" else ()):
            collect_nodes(x, h, out, seen)


def compare(pairs, ra, rb, seed, K=48, rounds=1, tol=1e-6, modes=None, rel=None):
    """Compare labelled pairs [(label, a, b)] (a in run ra, b in run rb)."""
    vd = Verdict()
    todo = []
    for label, a, b in pairs:
        vd.pairs += 1
        if same(a, ra.heap, b, rb.heap):
            vd.identical += 1
        else:
            todo.append((label, a, b))
    if not todo and not ra.pend and not rb.pend:
        return vd
    live = 0
    hits: dict = {}
    for rnd in range(rounds):
        for mode in (modes or (0,)):
            ev = D.Interp(K, seed * 1000 + rnd * 17 + 1, modes=np.full(K, mode))
            pv = None
            for k in range(K):
                try:
                    oa, ob = outcome(ra, ev, k), outcome(rb, ev, k)
                except Skip:
                    vd.skipped += 1
                    continue
                live += 1
                if oa is not None or ob is not None:
                    if (oa or "").split(":")[0] != (ob or "").split(":")[0]:
                        hits.setdefault("outcome", []).append((k, rnd, mode, ("", oa or "returns", ob or "returns")))
                    elif oa is not None and rb is ra:
                        hits.setdefault("outcome", []).append((k, rnd, mode, ("", "returns", oa)))
                    continue
                for label, a, b in todo:
                    x, y = conc(a, ra.heap, ev, k), conc(b, rb.heap, ev, k)
                    ns: list = []
                    nums(x, ns)
                    nums(y, ns)
                    sc = max(ns, default=0.0)
                    d, cell = differ(x, y, sc, tol), None
                    vd.evaluated += 1
                    if d is None and ev.kind[k] == 16:
                        d = cell = by_cell(x, y, 1e-4)
                    if d is None:
                        continue
                    if pv is None:
                        pv = [D.Interp(K, ev.seed, modes=np.full(K, mode), pert=1e-11),
                              D.Interp(K, ev.seed, modes=np.full(K, mode), pert=-1e-9),
                              D.Interp(K, ev.seed, modes=np.full(K, mode), pert=3e-13),
                              D.Interp(K, ev.seed, modes=np.full(K, mode), pert=-7e-12)]
                    if unstable(a, b, ra, rb, x, y, pv, k, tol, cell):
                        vd.skipped += 1
                        continue
                    hits.setdefault(label, []).append((k, rnd, mode, d))
    vd.live = live
    vd.hits = hits
    return vd


def by_cell(x, y, tol):
    """Do two covariance matrices differ in an entry by an amount that matters in that entry's own units?"""
    if not (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 3 and x[0] == "array" == y[0] and x[1] == y[1]
            and len(x[1]) == 2 and x[1][0] == x[1][1] > 1):
        return None
    p = x[1][0]
    if not all(isinstance(v, float) for v in x[2] + y[2]):
        return None
    var = [x[2][i * p + i] for i in range(p)]
    if not all(v > 0 for v in var):
        return None
    for i in range(p):
        for j in range(p):
            u, v = x[2][i * p + j], y[2][i * p + j]
            if abs(u - v) > tol * (var[i] * var[j]) ** 0.5:
                return (f"[{i},{j}]", u, v)
    return None


def unstable(a, b, ra, rb, x, y, pv, k, tol, cell=None):
    """Does the value move appreciably under a tiny change of the data?  Then rounding decides it."""
    for p in pv:
        try:
            outcome(ra, p, k), outcome(rb, p, k)
        except Skip:
            return True
        x2, y2 = conc(a, ra.heap, p, k), conc(b, rb.heap, p, k)
        for u, v in ((x, x2), (y, y2)):
            ns: list = []
            nums(u, ns)
            nums(v, ns)
            if differ(u, v, max(ns, default=0.0), tol) is not None or cell and by_cell(u, v, 1e-7):
                return True
    return False


# ---------------------------------------------------------------- obligations
_sess: list = [None, 0]


def session(module, bare=False):
    """A session of this process, renewed before its table of values grows large."""
    s, n = _sess
    if s is None or n >= 30 or len(D._table) > 150_000 or s.bare != bare:
        s, n = Session(bare=bare), 0
    _sess[:] = [s, n + 1]
    it = s.it
    it.calls, it.assumed, it.steps, it.where, it.nd = set(), set(), 0, None, 0
    it.events = []
    it.trycatch = []
    it.depth = 0
    it.loading = 0
    return s


def in_library(it, where):
    return bool(where) and place(it, where).startswith("precise")


def place(it, where):
    return ":".join(str(x) for x in where) if isinstance(where, (tuple, list)) else str(where)


def drop_session():
    _sess[0] = None


def discharge(ob):
    """Decide one obligation.  ob: dict(id, module, fn, args, two, tol, modes, K, rounds, oracle)."""
    t = time.time()
    res = {"id": ob["id"], "status": "ok", "pairs": 0, "identical": 0, "evaluated": 0, "skipped": 0, "why": None}
    it = None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        kw = dict(K=ob.get("K", 48), rounds=ob.get("rounds", 1), tol=ob.get("tol", 1e-6), modes=ob.get("modes"))
        s = session(ob["module"], ob.get("bare", False))
        it = s.it
        if ob.get("two"):
            ra = s.run(ob["module"], ob["fn"], ["A", *ob["args"]])
            if ob.get("oracle"):           # another process: own imports, other random draws, ids, hashes, set order
                drop_session()
                s = Session("b", fresh=False)
            rb = s.run(ob["module"], ob["fn"], ["B", *ob["args"]])
            pa = labelled(ra)
            pb = labelled(rb)
            pairs = []
            for (la, a), (lb, b) in zip(pa, pb):
                if la != lb:
                    pairs.append((f"{la}/{lb}", la, lb))
                else:
                    pairs.append((la, a, b))
            if len(pa) != len(pb) and ra.value is not None and rb.value is not None:
                pairs.append(("number of observations", float(len(pa)), float(len(pb))))
        else:
            ra = rb = s.run(ob["module"], ob["fn"], list(ob["args"]), ob.get("source"))
            pairs = []
            if ra.value is not None:
                for t3 in seq(ra, ra.value):
                    label, a, b = seq(ra, t3)
                    pairs.append((label, a, b))
        if ob.get("minpairs") and ra.value is not None and rb.value is not None and len(pairs) < ob["minpairs"]:
            raise Broken(f"only {len(pairs)} observations")
        vd = compare(pairs, ra, rb, seed, **kw)
        res.update(pairs=vd.pairs, identical=vd.identical, evaluated=vd.evaluated, skipped=vd.skipped)
        hits = getattr(vd, "hits", {})
        found = []
        for label, hs in hits.items():
            if len(hs) >= ob.get("minhits", 2):
                k, rnd, mode, (path, a, b) = hs[0]
                found.append((label, f"{label}{path}: expected {text(a, 200)}, the source computes {text(b, 200)} "
                                     f"(in {len(hs)} interpretations)"))
        if found:
            res["status"] = "violation"
            res["label"], res["why"] = found[0]
            res["found"] = found
        elif getattr(vd, "live", 1) == 0:
            res["status"] = "undecided"
            res["why"] = "every interpretation leaves the analysed loop bound or is numerically unstable"
        if res["status"] == "ok" and (ra.value is None or not pairs):
            res["status"] = "undecided"
            res["why"] = "nothing observed: " + "; ".join(exc_text(it, e, h) for _, h, e in ra.pend[:3])
        ev = [e for r in {id(ra): ra, id(rb): rb}.values() for e in r.events]
        if ob.get("events") and res["status"] == "ok":
            for e in ev:
                if e[0] == "global-write" and in_library(it, e[2]):
                    res["status"] = "violation"
                    res["label"] = f"writes module- or class-level data at {place(it, e[2])}"
                    res["why"] = res["label"]
                    break
        res["events"] = [[str(x) for x in e] for e in ev][:50]
    except Undecided as e:
        res["status"], res["why"] = "undecided", str(e)
    except Broken as e:
        res["status"], res["why"] = "broken", str(e)
        if ob.get("bare") and ("ImportError" in str(e) or "ModuleNotFoundError" in str(e)):
            res["status"], res["label"] = "violation", "the package imports with numpy alone"
    except RecursionError:
        res["status"], res["why"] = "undecided", "expression too deep"
    except MemoryError:
        res["status"], res["why"] = "undecided", "out of memory"
    except Exception as e:  # a construct the analysis mishandles: no verdict
        res["status"] = "undecided"
        res["why"] = f"internal: {type(e).__name__}: {e} @ {traceback.format_exc(limit=-3)[-600:]}"
        res["internal"] = True
    if res["status"] in ("undecided", "broken"):
        drop_session()
    if it is not None:
        res["functions"] = sorted(it.calls) if all(isinstance(x, str) for x in it.calls) else sorted(map(str, it.calls))
        res["steps"] = it.steps
        res["assumed"] = sorted(it.assumed)
        res["where"] = list(it.where) if it.where else None
    res["wall"] = round(time.time() - t, 3)
    return res


def seq(run, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ref):
        o = run.heap.m[v.oid]
        if o.kind == "list":
            return list(o.v)
    raise Undecided(f"driver result is {type(v).__name__}")


def labelled(run):
    if run.value is None:
        return []
    return [tuple(seq(run, x)) for x in seq(run, run.value)]
