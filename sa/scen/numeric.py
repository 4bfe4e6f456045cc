"""Driver programs for what each estimator computes (properties C16 to C29)."""
import pickle

import av
import numpy as np
import spec
from lib import *


def cfgs(e):
    return e.get_params()


def cases(p, T, r):
    """Rows and rate of an obligation: symbolic rate unless one is given."""
    return av.rowlist(T, p), (rate() if r is None else r)


def at(rows, marks):
    return marks if marks else [len(rows)]


# ------------------------------------------------------------------ C18
def empirical(p, T, marks, perm):
    rows = av.rowlist(T, p)
    e = P.EmpiricalCovariance()
    out = []
    seen = []
    order = list(range(T)) if not perm else perm
    for n, i in enumerate(order):
        e.partial_fit(rows[i])
        seen.append(rows[i])
        if n + 1 in marks:
            m, c = spec.mean_cov(seen) if n < 20 else spec.welford(seen)
            out.append((f"location_ after {n + 1}", m, e.location_))
            out.append((f"covariance_ after {n + 1}", c, e.covariance_))
    return out


def empirical_order(v, p, T, how):
    rows = av.rowlist(T, p)
    e = P.EmpiricalCovariance()
    if v == "A":
        e.fit(av.rows(T, p))
    elif how == "reversed":
        for x in rows[::-1]:
            e.partial_fit(x)
    elif how == "rotated":
        for x in rows[2:] + rows[:2]:
            e.partial_fit(x)
    else:
        e.partial_fit(av.rows(T, p)[3:])
        e.partial_fit(av.rows(T, p)[:3])
    return estimates(e)


# ------------------------------------------------------------------ C19
def ewa(p, T, marks, r):
    rows, r = cases(p, T, r)
    e = P.EwaCovariance(r=r)
    out = []
    path = spec.ewa_path(rows, r) if T <= 14 else None
    for t, x in enumerate(rows):
        e.partial_fit(x)
        if t + 1 in marks:
            m, c = (path[t][0], path[t][1]) if path else spec.ewa(rows[:t + 1], r)
            out.append((f"location_ after {t + 1}", m, e.location_))
            out.append((f"covariance_ after {t + 1}", c, e.covariance_))
    return out


def locations(cfg, p, T, r):
    """Every estimator's location is the same recency-weighted mean."""
    rows = av.rowlist(T, p)
    e = make(cfg)
    if r is None:
        r = rate()
    else:
        e.set_params(r=r)
    fed(e, rows)
    return [("location_", spec.running_mean(rows, r), e.location_)]


# ------------------------------------------------------------------ C20
def shrinkage(kind, p, T, r, target=None):
    rows, r = cases(p, T, r)
    delta = unit("delta") if kind == "shrunk" else None
    if kind == "ledoitwolf":
        e = P.LedoitWolfCovariance(r=r)
        m, c, t, a = spec.ledoit_wolf(rows, r)
    elif kind == "oas":
        e = P.OASCovariance(r=r)
        m, c, t, a = spec.oas(rows, r)
    else:
        e = P.ShrunkCovariance(r=r, delta=delta, target=target)
        m, c, t, a = spec.shrunk(rows, r, delta, target)
    fed(e, rows)
    got = e.covariance_
    s = 0.0
    for i in range(p):
        s = s + got[i, i]
    return [("location_", m, e.location_),
            ("covariance_ = (1-a) S + a T", (1 - a) * c + a * t, got),
            ("total variance", np.trace(c), s)]


def shrink_intensity(kind, p, T, r):
    """Off-diagonal entries are those of S times one factor in [0, 1]."""
    rows, r = cases(p, T, r)
    e = P.LedoitWolfCovariance(r=r) if kind == "ledoitwolf" else P.OASCovariance(r=r)
    fed(e, rows)
    got = e.covariance_
    m, c = spec.ewa(rows, r)
    out = []
    f = got[0, 1] * c[0, 1]
    out.append(("factor not negative", True, f >= -1e-12 * abs(c[0, 1] * c[0, 1])))
    out.append(("factor at most one", True, abs(got[0, 1]) <= abs(c[0, 1]) * (1 + 1e-9)))
    if p > 2:
        out.append(("one factor for all entries", got[0, 1] * c[1, 2], got[1, 2] * c[0, 1]))
    return out


# ------------------------------------------------------------------ C21
def schur(p, T, n_blocks, r, gamma):
    rows, r = cases(p, T, r)
    g = unit("gamma") if gamma is None else gamma
    e = P.SchurCovariance(r=r, n_blocks=n_blocks, gamma=g)
    fed(e, rows)
    m, c = spec.ewa(rows, r)
    return [("location_", m, e.location_),
            ("covariance_", spec.floor_pd(spec.damp(c, n_blocks, g)), e.covariance_)]


def schur_geodesic(p, T, n_blocks, r, gamma):
    rows, r = cases(p, T, r)
    g = unit("gamma") if gamma is None else gamma
    e = P.SchurCovariance(r=r, n_blocks=n_blocks, gamma=g, interpolation="geodesic")
    fed(e, rows)
    m, c = spec.ewa(rows, r)
    bd = spec.damp(c, n_blocks, 0.0)
    want = spec.geodesic(bd, c, g)
    if gamma == 0.0:
        want = spec.floor_pd(bd)
    elif gamma == 1.0:
        want = spec.floor_pd(c)
    return [("location_", m, e.location_), ("covariance_", want, e.covariance_)]


def schur_lw(p, T, n_blocks, r):
    rows, r = cases(p, T, r)
    e = P.SchurLedoitWolfCovariance(r=r, n_blocks=n_blocks)
    fed(e, rows)
    m, c, g = spec.schur_lw(rows, r, n_blocks)
    out = [("location_", m, e.location_),
           ("covariance_", spec.floor_pd(spec.damp(c, n_blocks, g)), e.covariance_)]
    return out + [("reported damping", g, e.gamma_)]


def schur_cond(p, T, n_blocks, r):
    rows, r = cases(p, T, r)
    e = P.SchurConditionalCovariance(r=r, n_blocks=n_blocks)
    fed(e, rows)
    m, c, g = spec.schur_conditional(rows, r, n_blocks)
    return [("location_", m, e.location_), ("covariance_", c, e.covariance_), ("reported damping", g, e.gamma_)]


# ------------------------------------------------------------------ C22
def diagonal(p, T, r):
    rows, r = cases(p, T, r)
    e = fed(P.DiagonalCovariance(r=r), rows)
    m, v = spec.marginal(rows, r)
    got = e.covariance_
    out = [("location_", m, e.location_), ("covariance_", np.diag(v), got)]
    for j in range(p):
        one = fed(P.DiagonalCovariance(r=r), [x[j:j + 1] for x in rows])
        out.append((f"variance {j} from variable {j} alone", one.covariance_[0, 0], got[j, j]))
        for i in range(p):
            if i != j:
                out.append((f"entry {i},{j} is exactly zero", True, got[i, j] == 0.0))
    return out


def block(p, T, n_blocks, r):
    rows, r = cases(p, T, r)
    e = fed(P.BlockCovariance(r=r, n_blocks=n_blocks), rows)
    got, loc, pre = e.covariance_, e.location_, e.precision_
    out = [("covariance_ shape", (p, p), got.shape)]
    bl = spec.blocks(p, n_blocks)
    for a, b in bl:
        m, c = spec.ewa([x[a:b] for x in rows], r)
        c = spec.floor_pd(c)
        out.append((f"block {a}:{b} covariance", c, got[a:b, a:b]))
        out.append((f"block {a}:{b} location", m, loc[a:b]))
        out.append((f"block {a}:{b} precision", np.linalg.inv(c), pre[a:b, a:b]))
        sub = fed(P.EwaCovariance(r=r), [x[a:b] for x in rows])
        out.append((f"block {a}:{b} as an estimator of its own", spec.floor_pd(sub.covariance_), got[a:b, a:b]))
    x = spec.cross(p, n_blocks)
    for i in range(p):
        for j in range(p):
            if x[i][j]:
                out.append((f"covariance {i},{j} is exactly zero", True, got[i, j] == 0.0))
                out.append((f"precision {i},{j} is exactly zero", True, pre[i, j] == 0.0))
    return out


# ------------------------------------------------------------------ C23, C24
def huber(p, T, r, c):
    rows, r = cases(p, T, r)
    c = av.sym("c", "pos", lo=0.01, mid=1.5) if c is None else c
    e = fed(P.HuberCovariance(r=r, c=c), rows)
    m, k = spec.huber(rows, r, c)
    return [("location_", m, e.location_), ("covariance_", k, e.covariance_)]


def huber_bound(p, T, r):
    """An observation far along a direction counts like the one at the cutoff on that direction."""
    rows = av.rowlist(T, p)
    d = av.row(p, 99)
    a = fed(P.HuberCovariance(r=r, c=2.0), rows)
    b = fed(P.HuberCovariance(r=r, c=2.0), rows)
    m, cv = a.location_, a.covariance_
    q = d @ spec.inverse(cv) @ d
    lim = 4.0 * p
    far = d * np.sqrt(lim / q) * (3.0 + av.sym("far", "pos", lo=0.0, spread=3.0))
    edge = d * np.sqrt(lim / q) * (1 - 1e-12)
    a.partial_fit(m + far)
    b.partial_fit(m + edge)
    return [("location_", b.location_, a.location_), ("covariance_", b.covariance_, a.covariance_)]


def adaptive(p, T, r, max_r):
    rows, r = cases(p, T, r)
    max_r = av.sym("max_r", "unit", lo=0.0, hi=1.0) if max_r is None else max_r
    e = fed(P.AdaptiveEwaCovariance(r=r, max_r=max_r), rows)
    m, c = spec.adaptive(rows, r, max_r)
    return [("location_", m, e.location_), ("covariance_", c, e.covariance_)]


# ------------------------------------------------------------------ C25
def dcc(p, T, r, own):
    rows, r = cases(p, T, r)
    vol = av.sym("vol_r", "rate", lo=0.001, hi=1.0) if own else r
    e = fed(P.DCCCovariance(r=r, vol_r=vol if own else None), rows)
    m, h, R, H = spec.dcc(rows, r, vol)
    got = e.covariance_
    out = [("location_", m, e.location_), ("covariance_", H, got)]
    for i in range(p):
        out.append((f"variance {i} is the series' own", max(h[i], 1e-12), max(got[i, i], 1e-12)))
    return out


def still(kind, p, T):
    """A series that lands exactly on its own mean: the correlation keeps its unit diagonal, the variance its value."""
    def build():
        if kind == "dcc":
            return P.DCCCovariance(r=1.0, vol_r=0.5)
        return P.ConditionalCovariance(P.EwaCovariance(r=0.5), P.EwaCovariance(r=1.0))
    e = build()
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    x = np.array(av.row(p, T))
    x[0] = e.location_[0]
    alone = build()
    for y in [z[0:1] for z in av.rowlist(T, p)] + [x[0:1]]:
        alone.partial_fit(y)
    before = e.covariance_[0, 0]
    e.partial_fit(x)
    got = e.covariance_
    R = e.correlation_
    out = [("the variance halves", max(0.5 * before, 1e-12), got[0, 0]), ("the variance alone", alone.covariance_[0, 0], got[0, 0])]
    for i in range(p):
        out.append((f"correlation {i},{i}", 1.0, R[i, i]))
        if i and kind == "dcc":
            out.append((f"correlation 0,{i}", 0.0, R[0, i]))
    return out


def series_alone(kind, p, T, r):
    """A series' published variance is a function of that series only."""
    rows, r = cases(p, T, r)

    def build():
        if kind == "dcc":
            return P.DCCCovariance(r=r, vol_r=0.3)
        return P.ConditionalCovariance(P.EwaCovariance(r=r), P.EwaCovariance(r=0.3))
    got = fed(build(), rows).covariance_
    out = []
    for j in range(p):
        one = fed(build(), [x[j:j + 1] for x in rows])
        out.append((f"variance of series {j}", one.covariance_[0, 0], got[j, j]))
    return out


def composite(p, T, kind):
    rows = av.rowlist(T, p)

    def vol():
        if kind == "huber":
            return P.HuberCovariance(r=0.3, c=2.0)
        if kind == "empirical":
            return P.EmpiricalCovariance()
        return P.EwaCovariance(r=rate())

    def cor():
        if kind == "huber":
            return P.TylerCovariance(r=0.25)
        if kind == "empirical":
            return P.LedoitWolfCovariance(r=0.2)
        return P.EwaCovariance(r=0.3)
    if kind == "default":
        e = P.ConditionalCovariance()
        vols = [P.EwaCovariance() for _ in range(p)]
        co = P.EwaCovariance()
    elif kind == "skater":
        e = P.ConditionalCovariance(P.from_skater(skater), cor())
        vols = [Skate() for _ in range(p)]
        co = cor()
    elif kind in SKATERS:
        f, model = SKATERS[kind]
        e = P.ConditionalCovariance(P.from_skater(f), cor())
        vols = [model() for _ in range(p)]
        co = cor()
    else:
        e = P.ConditionalCovariance(vol(), cor())
        vols = [vol() for _ in range(p)]
        co = cor()
    out = []
    for t, x in enumerate(rows):
        e.partial_fit(x)
        m = np.array([v.location_[0] if v.n_samples_ else 0.0 for v in vols])
        s = np.array([np.sqrt(max(v.covariance_[0, 0], 1e-12)) if v.n_samples_ else 1.0 for v in vols])
        co.partial_fit((x - m) / s)
        for i in range(p):
            vols[i].partial_fit(np.array([x[i]]))
        if t in (0, 1, T // 2, T - 1):
            d = np.array([np.sqrt(max(v.covariance_[0, 0], 1e-12)) for v in vols])
            want = co.correlation_ * np.outer(d, d)
            got = e.covariance_
            out.append((f"covariance_ after {t + 1}", want, got))
            out.append((f"location_ after {t + 1}", np.array([v.location_[0] for v in vols]), e.location_))
            for i in range(p):
                out.append((f"variance {i} after {t + 1}", max(vols[i].covariance_[0, 0], 1e-12), got[i, i]))
    return out


def skater(y, state):
    """A univariate model in the skaters calling convention."""
    s = Skate()
    if state is not None:
        s.m, s.v, s.n_samples_ = state
    s.push(y)
    return [Dist(s.m, s.v ** 0.5)], (s.m, s.v, s.n_samples_)


class Dist:
    def __init__(self, mean, std):
        self.mean = mean
        self.std = std


class Skate:
    """The same model with the estimator surface."""

    def __init__(self):
        self.m = 0.0
        self.v = 1.0
        self.n_samples_ = 0

    def push(self, y):
        self.v = 0.8 * self.v + 0.2 * (y - self.m) * (y - self.m) + 0.01
        self.m = 0.7 * self.m + 0.3 * y
        self.n_samples_ += 1

    def partial_fit(self, y):
        self.push(y[0])

    @property
    def location_(self):
        return [self.m]

    @property
    def covariance_(self):
        return np.array([[self.v]])


def counting_skater(y, state):
    """A model whose whole state is one number, which passes through zero."""
    n = -3 if state is None else state + 1
    return [Dist(0.25 * n, 2.0 + 0.5 * (n + 3))], n


class Counting:
    def __init__(self):
        self.n_samples_ = 0

    def partial_fit(self, y):
        self.n_samples_ += 1

    @property
    def location_(self):
        return np.array([0.25 * (self.n_samples_ - 4)])

    @property
    def covariance_(self):
        s = 2.0 + 0.5 * (self.n_samples_ - 1)
        return np.array([[s * s]])


def history_skater(y, state):
    """A model that keeps one list, grows it in place and forecasts several steps ahead."""
    if state is None:
        state = []
    state.append(y)
    m = sum(state) / len(state)
    return [Dist(m, 1.0 + 0.5 * len(state)), Dist(m + 7.0, 100.0), Dist(m - 7.0, 0.01)], state


class History(Counting):
    def __init__(self):
        self.n_samples_ = 0
        self.total = 0.0

    def partial_fit(self, y):
        self.n_samples_ += 1
        self.total = self.total + y[0]

    @property
    def location_(self):
        return np.array([self.total / self.n_samples_])

    @property
    def covariance_(self):
        s = 1.0 + 0.5 * self.n_samples_
        return np.array([[s * s]])


def flat_skater(y, state):
    """A model without state whose forecast has no spread at all."""
    return (Dist(y, 0.0),), None


class Flat(Counting):
    def partial_fit(self, y):
        self.n_samples_ += 1
        self.y = y[0]

    @property
    def location_(self):
        return np.array([self.y])

    @property
    def covariance_(self):
        return np.array([[0.0]])


SKATERS = {"counting skater": (counting_skater, Counting), "history skater": (history_skater, History),
           "flat skater": (flat_skater, Flat)}


# ------------------------------------------------------------------ C26
def factor(p, T, k, r):
    rows, r = cases(p, T, r)
    e = fed(P.FactorCovariance(k=k, r=r), rows)
    m, v, G, cap, want = spec.factor(rows, k, r)
    got = e.covariance_
    out = [("location_", m, e.location_), ("covariance_", want, got)]
    for i in range(p):
        out.append((f"variance {i} at least the tracked one", True, got[i, i] >= v[i] * (1 - 1e-9)))
        out.append((f"variance {i}", max(v[i], cap[i]), got[i, i]))
    return out


# ------------------------------------------------------------------ C27
def geodesic_function(p, g):
    from precise._linalg import geodesic_step
    A, B = av.spd(p, "A"), av.spd(p, "B")
    t = unit("t") if g is None else g
    out = []
    ka, kb = A.copy(), B.copy()
    G = geodesic_step(A, B, t)
    out.append(("arguments", (ka, kb), (A, B)))
    want = A if g == 0.0 else B if g == 1.0 else spec.geodesic(A, B, t)
    out.append(("geodesic", want, G))
    out.append(("reversed", geodesic_step(B, A, 1 - t), G))
    out.append(("symmetric", G.T, G))
    return out


def geodesic_far(p, g):
    """Matrices of very different size: neither end may be bounded away from the other."""
    from precise._linalg import geodesic_step
    t = unit("t") if g is None else g
    out = []
    for a, b in ((1e7, 1e-5), (1e-5, 1e7), (1e12, 1.0)):
        A, B = a * av.spd(p, "A"), b * av.spd(p, "B")
        G = geodesic_step(A, B, t)
        want = A if g == 0.0 else B if g == 1.0 else spec.geodesic(A, B, t)
        out.append((f"geodesic from {a} to {b}", want, G))
        out.append((f"symmetric from {a} to {b}", G.T, G))
    return out


def geodesic_ewa(p, T, r):
    rows, r = cases(p, T, r)
    e = fed(P.GeodesicEwaCovariance(r=r), rows)
    m, c = spec.geodesic_ewa(rows, r)
    return [("location_", m, e.location_), ("covariance_", c, e.covariance_)]


# ------------------------------------------------------------------ C28
def partial(p, T, r):
    rows, r = cases(p, T, r)
    e = fed(P.PartialMomentsCovariance(r=r), rows)
    m, quad, total = spec.partial(rows, r)
    want = 0.5 * (total + total.T)
    out = [("location_", m, e.location_)]
    # the projection may only matter where the sum is not clearly positive definite
    low = np.min(np.linalg.eigvalsh(want))
    if low > 1e-6 * np.trace(want):
        out.append(("covariance_", want, e.covariance_))
    else:
        out.append(("covariance_", 0.0, 0.0))
    return out


def partial_state(p, T, r):
    """The four matrices, as the saved state shows them."""
    rows, r = cases(p, T, r)
    e = fed(P.PartialMomentsCovariance(r=r), rows)
    m, quad, total = spec.partial(rows, r)
    s = e.get_state()
    got = np.array(s["quadrants"])
    out = []
    for i, (a, b) in enumerate(((1, 1), (-1, 1), (1, -1), (-1, -1))):
        out.append((f"quadrant {a},{b}", quad[a, b], got[i]))
    return out


# ------------------------------------------------------------------ C29
def tyler(p, T, r):
    rows, r = cases(p, T, r)
    e = fed(P.TylerCovariance(r=r), rows)
    m, c = spec.tyler(rows, r)
    return [("location_", m, e.location_), ("covariance_", c, e.covariance_)]


def tyler_zero(p, T, r, where):
    """Zero deviations keep the estimate defined."""
    rows = av.rowlist(T, p)
    e = P.TylerCovariance(r=rate() if r is None else r)
    out = []
    seen = []
    for t, x in enumerate(rows):
        y = x
        if t in where:
            y = e.location_ if e.n_samples_ else np.zeros(p)
        e.partial_fit(y)
        seen.append(y)
        c = e.covariance_
        for i in range(p):
            out.append((f"diagonal {i} after {t + 1}", 1.0, c[i, i]))
            for j in range(i):
                out.append((f"entry {i},{j} after {t + 1} is a correlation", True, abs(c[i, j]) <= 1 + 1e-9))
    m, c = spec.tyler(seen, rate() if r is None else r)
    return out + [("covariance_", c, e.covariance_), ("location_", m, e.location_)]


def tyler_scale(p, T, r):
    """Stretching one observation along its own direction changes nothing (beyond the location)."""
    rows = av.rowlist(T, p)
    s = av.sym("s", "pos", lo=1e-3, spread=2.0)
    a = fed(P.TylerCovariance(r=r), rows)
    b = fed(P.TylerCovariance(r=r), rows)
    x = av.row(p, 50)
    m = a.location_
    a.partial_fit(m + x)
    b.partial_fit(m + s * x)
    return [("covariance_", a.covariance_, b.covariance_)]


# ------------------------------------------------------------------ C16
def valid(cfg, p, T, diff, marks, constant=False):
    e = make(cfg, diff)
    out = []
    rows = av.rowlist(T, p)
    for t, x in enumerate(rows):
        if constant:
            x = x.copy()
            x[p - 1] = rows[0][p - 1]
        e.partial_fit(x)
        if t + 1 not in marks or (diff and t == 0):
            continue
        c = e.covariance_
        out.append((f"shape after {t + 1}", (p, p), c.shape))
        for i in range(p):
            for j in range(i):
                out.append((f"entry {i},{j} against {j},{i} after {t + 1}", c[j, i], c[i, j]))
        w = np.linalg.eigvalsh(c)
        out.append((f"no negative eigenvalue after {t + 1}", True, w[0] >= -1e-7 * max(abs(w[0]), w[p - 1])))
        for i in range(p):
            out.append((f"variance {i} after {t + 1} not negative", True, c[i, i] >= 0.0))
            for j in range(i):
                out.append((f"|entry {i},{j}| within the variances after {t + 1}", True,
                            c[i, j] * c[i, j] <= c[i, i] * c[j, j] * (1 + 1e-7)))
    return out


def bitwise_symmetric(cfg, p, T, diff):
    """Entry by entry, the two triangles are the same expression."""
    e = make(cfg, diff)
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    c = e.covariance_
    return [("transpose", c.T, c)]


def projections(p, which):
    from precise import _linalg
    a = av.rows(p, p, "a")
    k = a.copy()
    if which == "make_pos_def":
        b = _linalg.make_pos_def(a)
        s = 0.5 * (k + k.T)
        w, V = np.linalg.eigh(s)
        want = V @ np.diag(np.maximum(w, 1e-8)) @ V.T
        return [("argument", k, a), ("projection", want, b), ("symmetric", b.T, b)]
    b = _linalg.nearest_pos_def(a)
    w = np.linalg.eigvalsh(b)
    s = 0.5 * (k + k.T)
    u = np.linalg.eigvalsh(s)
    out = [("argument", k, a), ("symmetric", b.T, b),
           ("positive", True, w[0] >= -1e-9 * max(abs(w[p - 1]), 1e-300))]
    size = np.maximum(abs(u[0]), abs(u[p - 1])) * np.eye(p)       # compare on the scale of the argument
    if u[0] > 1e-6 * abs(u[p - 1]):
        out.append(("a positive definite matrix is its own projection", s + size, b + size))
    else:
        ev, V = np.linalg.eigh(s)
        near = V @ np.diag(np.maximum(ev, 0.0)) @ V.T
        out.append(("the nearest positive semidefinite matrix", near + size, b + size))
    return out


# ------------------------------------------------------------------ C17
def derived_ok(cfg, p, T, diff, scale):
    e = make(cfg, diff)
    for x in av.rowlist(T, p):
        e.partial_fit(x * scale)
    return follows(e, cfg, p, scale)


def derived_again(cfg, p, T, diff, how):
    """Read, changed, and read again: the derived quantities are those of the covariance now."""
    e = make(cfg, diff)
    e.partial_fit(av.rows(T, p, "old"))
    estimates(e)
    derived(e, av.rows(2, p, "q"))
    if how == "next row":
        e.partial_fit(av.row(p, 0))
    elif how == "fitted":
        e.fit(av.rows(T, p))
    elif how == "restored":
        o = make(cfg, diff)
        o.partial_fit(av.rows(T, p))
        e.set_state(o.get_state())
    elif how == "undone":
        s = e.get_state()
        e.partial_fit(av.row(p, 0))
        estimates(e)
        derived(e, av.rows(2, p, "q"))
        e.set_state(s)
        e.partial_fit(av.row(p, 1))
    elif how == "copied":
        o = e
        e = pickle.loads(pickle.dumps(o))
        e.partial_fit(av.row(p, 0))
        o.partial_fit(av.row(p, 1))
        derived(o, av.rows(2, p, "q"))
    return follows(e, cfg, p, 1.0)


def scored(cfg, p, T, n):
    e = make(cfg)
    e.partial_fit(av.rows(T, p))
    return follows(e, cfg, p, 1.0, n)


def follows(e, cfg, p, scale, n=3):
    c, m = e.covariance_, e.location_
    Q = av.rows(n, p, "q") * scale
    out = [("correlation_", spec.corr_of(c), e.correlation_)]
    k = e.correlation_
    for i in range(p):
        out.append((f"correlation_ diagonal {i}", 1.0, k[i, i]))
    pre = e.precision_
    if cfg in ("block", "block1"):
        bl = spec.blocks(p, 2 if cfg == "block" else 1)
        want = np.zeros((p, p))
        for a, b in bl:
            want[a:b, a:b] = np.linalg.inv(c[a:b, a:b])
    else:
        want = spec.inverse(c)
    out.append(("precision_", want, pre))
    out.append(("get_precision", pre, e.get_precision()))
    d2 = []
    for q in Q:
        d2.append((q - m) @ pre @ (q - m))
    out.append(("mahalanobis", np.array(d2), e.mahalanobis(Q)))
    out.append(("mahalanobis of one row", np.array(d2[:1]), e.mahalanobis(Q[0])))
    out.append(("mahalanobis of lists", np.array(d2), e.mahalanobis([list(q) for q in Q])))
    sgn, ld = np.linalg.slogdet(pre)
    tot = 0.0
    for d in d2:
        tot = tot + 0.5 * (ld - d - p * np.log(2 * np.pi))
    out.append(("score", tot / len(d2), e.score(Q)))
    out.append(("score of one row", 0.5 * (ld - d2[0] - p * np.log(2 * np.pi)), e.score(Q[0])))
    return out


def constant_column(cfg, p, T):
    """A variable that never moves correlates with nothing, and everything stays finite."""
    e = make(cfg)
    for x in av.rowlist(T, p):
        y = x.copy()
        y[0] = 2.5
        e.partial_fit(y)
    k = e.correlation_
    out = []
    for i in range(p):
        out.append((f"correlation_ diagonal {i}", 1.0, k[i, i]))
    return out + [("correlation_", spec.corr_of(e.covariance_), k)]
