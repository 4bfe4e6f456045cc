"""Every estimator, shipped or written by the user, in every role the library offers."""
import copy
import json
import pickle

import numpy as np

import av
import precise as P
from lib import attempt, derived, estimates, make, rate
from precise.base import BaseOnlineCovariance


# ------------------------------------------------------------------ as part of a composite
def chained(e, vols, co, rows, out, when):
    """The composite e against its parts run by hand: H = D R D, residuals formed one step ahead."""
    p = len(rows[0])
    for t, x in enumerate(rows):
        e.partial_fit(x)
        m = np.array([v.location_[0] if v.n_samples_ else 0.0 for v in vols])
        s = np.array([np.sqrt(max(v.covariance_[0, 0], 1e-12)) if v.n_samples_ else 1.0 for v in vols])
        co.partial_fit((x - m) / s)
        for i in range(p):
            vols[i].partial_fit(np.array([x[i]]))
        if t + 1 in when:
            d = np.array([np.sqrt(max(v.covariance_[0, 0], 1e-12)) if v.n_samples_ else 1.0 for v in vols])
            mean = np.array([v.location_[0] if v.n_samples_ else 0.0 for v in vols])
            want = attempt(lambda: co.correlation_ * np.outer(d, d))
            out.append((f"covariance_ after {t + 1}", want, attempt(lambda: e.covariance_)))
            out.append((f"location_ after {t + 1}", mean, e.location_))
            out.append((f"rows after {t + 1}", t + 1, e.n_samples_))
    return out


def kind(name, diff):
    if name == "own":
        return Own(rate(), diff)
    if name == "own2":
        return Spread(diff=diff)
    if name == "own3":
        return Plain(diff=diff)
    return make(name, diff)


def as_vol(c, diff, p, T):
    e = P.ConditionalCovariance(vol=kind(c, diff), corr=P.EwaCovariance(r=0.3))
    return chained(e, [kind(c, diff) for _ in range(p)], P.EwaCovariance(r=0.3), av.rowlist(T, p), [], (1, 2, T // 2, T))


def as_corr(c, diff, p, T):
    e = P.ConditionalCovariance(vol=P.EwaCovariance(r=rate()), corr=kind(c, diff))
    return chained(e, [P.EwaCovariance(r=rate()) for _ in range(p)], kind(c, diff), av.rowlist(T, p), [], (1, 2, T // 2, T))


def as_both(c, p, T):
    one = kind(c, False)
    e = P.ConditionalCovariance(one, one)
    out = chained(e, [kind(c, False) for _ in range(p)], kind(c, False), av.rowlist(T, p), [], (1, T))
    out.append(("the prototype stays unfitted", 0, one.n_samples_))
    return out


# ------------------------------------------------------------------ behind a keyed adapter
def as_keyed(c, diff, dynamic, T):
    names = ["b", "c", "a"]
    rows = av.rowlist(T, 3)
    flat = kind(c, diff)
    k = P.keyed(kind(c, diff), dynamic=dynamic)
    for x in rows:
        flat.partial_fit(x)
        k.update({n: x[i] for i, n in enumerate(names)})
    out = []
    cov, cor = flat.covariance_, flat.correlation_
    gc, gr = k.covariance_, k.correlation_
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            out.append((f"covariance {a},{b}", cov[i, j], gc[a][b]))
            out.append((f"correlation {a},{b}", cor[i, j], gr[a][b]))
    sub = k.get_cov(["a", "b"])
    out.append(("asked for a and b", cov[0, 2], sub[1, 0]))
    return out


def as_gappy(c, diff, impute, T):
    """A fixed universe over c with names missing now and then, against c on the rows filled in by hand."""
    names = ["b", "c", "a"]
    gaps = [[], [], [0], [], [1, 2], [2], []]
    rows = av.rowlist(T, 3)
    flat = kind(c, diff)
    k = P.keyed(kind(c, diff), impute=impute)
    last = [0.0, 0.0, 0.0]
    out = []
    for t, x in enumerate(rows):
        gap = gaps[t % len(gaps)]
        y = np.array(x)
        for i in gap:
            if impute == "zero":
                y[i] = 0.0
            elif impute == "mean" and flat.n_samples_ > 0:
                y[i] = flat.location_[i]
            else:
                y[i] = last[i]
        flat.partial_fit(y)
        k.learn_one({n: x[i] for i, n in enumerate(names) if i not in gap})
        for i in range(3):
            if i not in gap:
                last[i] = x[i]
        if t in (2, T - 1):
            out.append((f"covariance after {t + 1}", flat.covariance_, k.cov_array()[0]))
    return out


# ------------------------------------------------------------------ an estimator the user wrote
class Own(BaseOnlineCovariance):
    """The two hooks only; an exponential second moment, deliberately not symmetric."""

    def __init__(self, r=0.1, diff=False):
        self.r = r
        self.diff = diff
        super().__init__()

    def _init_state(self, n_dim):
        return {"n_dim": n_dim, "n_samples": 0, "mean": np.zeros(n_dim), "cov": np.zeros((n_dim, n_dim))}

    def _update_state(self, state, x):
        d = x - state["mean"]
        mean = state["mean"] + self.r * d
        return {"n_dim": state["n_dim"], "n_samples": state["n_samples"] + 1, "mean": mean,
                "cov": (1.0 - self.r) * (state["cov"] + self.r * np.outer(d, d) + self.r * skew(d))}


class Spread(BaseOnlineCovariance):
    """All four hooks, scalar and list valued state, and a parameter without a default value."""

    def __init__(self, scale=2.0, diff=False):
        self.scale = scale
        self.diff = diff
        super().__init__()

    def _init_state(self, n_dim):
        return {"n_dim": n_dim, "n_samples": 0, "total": np.zeros(n_dim), "sq": 0.0}

    def _update_state(self, state, x):
        return {**state, "n_samples": state["n_samples"] + 1, "total": state["total"] + x,
                "sq": state["sq"] + float(np.sum(x * x))}

    def _state_to_cov(self, state):
        m = state["total"] / state["n_samples"]
        return np.eye(state["n_dim"]) * (self.scale + state["sq"]) + np.outer(m, m)

    def _state_to_mean(self, state):
        return state["total"] / state["n_samples"]


class Plain(Spread):
    """Keeps nothing in its state but what its own update needs."""

    def _init_state(self, n_dim):
        return {"n_samples": 0, "total": np.zeros(n_dim), "sq": 0.0}

    def _state_to_cov(self, state):
        m = state["total"] / state["n_samples"]
        return np.eye(len(m)) * (self.scale + state["sq"]) + np.outer(m, m)


def skew(d):
    """An antisymmetric matrix: what the estimator publishes must not show it."""
    p = len(d)
    return np.array([[float((i > j)) - float(i < j) for j in range(p)] for i in range(p)]) * (d[0] * d[p - 1])


def by_hand(name, rows, r):
    p = len(rows[0])
    if name == "own":
        m, C = [0.0] * p, [[0.0] * p for _ in range(p)]
        for x in rows:
            d = [x[i] - m[i] for i in range(p)]
            m = [m[i] + r * d[i] for i in range(p)]
            C = [[(1.0 - r) * (C[i][j] + r * d[i] * d[j]) for j in range(p)] for i in range(p)]
        return np.array(m), np.array(C)
    n = len(rows)
    m = [sum(x[i] for x in rows) / n for i in range(p)]
    s = 2.0 + sum(x[i] * x[i] for x in rows for i in range(p))
    return np.array(m), np.array([[m[i] * m[j] + (s if i == j else 0.0) for j in range(p)] for i in range(p)])


def differences(rows):
    return [[b[i] - a[i] for i in range(len(a))] for a, b in zip(rows[:-1], rows[1:])]


def user_written(name, diff, p, T, how):
    rows = av.rowlist(T, p)
    e = kind(name, diff)
    if how == "rows":
        for x in rows:
            e.partial_fit(x)
    elif how == "batches":
        e.partial_fit(np.array(rows[:T // 2]))
        e.partial_fit(np.array(rows[T // 2:]))
    elif how == "fit":
        e.partial_fit(av.rows(3, p, "o"))
        e.fit(np.array(rows))
    elif how == "fit wider":
        e.partial_fit(av.rows(3, p + 1, "o"))
        e.fit(np.array(rows))
    else:
        for x in rows[:T // 2]:
            e.partial_fit(x)
        if how == "pickle":
            e = pickle.loads(pickle.dumps(e))
        elif how == "deepcopy":
            e = copy.deepcopy(e)
        else:
            s = json.loads(json.dumps(e.get_state()))
            e = kind(name, diff)
            e.set_state(s)
        for x in rows[T // 2:]:
            e.partial_fit(x)
    used = differences(rows) if diff else rows
    m, C = by_hand(name, used, rate())
    out = [("location_", m, e.location_), ("covariance_", C, e.covariance_), ("n_samples_", len(used), e.n_samples_),
           ("n_features_in_", p if how != "json" or name != "own3" else e.n_features_in_, e.n_features_in_), ("get_precision", e.precision_, e.get_precision())]
    R = e.correlation_
    for i in range(p):
        out.append((f"correlation {i}", 1.0, R[i, i]))
        for j in range(i):
            out.append((f"correlation {i},{j}", 0.0 if min(C[i, i], C[j, j]) <= 0.0 else C[i, j] / np.sqrt(C[i, i] * C[j, j]), R[i, j]))
    q = av.rows(2, p, "q")
    Q = np.linalg.inv(e.covariance_)
    want = np.array([np.dot(q[i] - m, Q @ (q[i] - m)) for i in range(2)])
    if name != "own":
        out.append(("precision_", Q, e.precision_))
        out.append(("mahalanobis", want, e.mahalanobis(q)))
        ll = [-0.5 * np.linalg.slogdet(e.covariance_)[1] - 0.5 * want[i] - 0.5 * p * np.log(2 * np.pi) for i in range(2)]
        out.append(("score", (ll[0] + ll[1]) / 2.0, e.score(q)))
    return out


def user_contract(name, diff):
    out = []
    e = kind(name, diff)
    for n, f in (("covariance_", lambda: e.covariance_), ("location_", lambda: e.location_),
                 ("precision_", lambda: e.precision_), ("score", lambda: e.score([[1.0]]))):
        out.append((f"{n} before any row", ("raises", "NotFittedError"), attempt(f)))
    first = "r" if name == "own" else "scale"
    out.append(("parameters", [first, "diff"], list(e.get_params())))
    out.append(("parameter values", [rate() if name == "own" else 2.0, diff], list(e.get_params().values())))
    out.append(("chainable", True, e.set_params(**{first: 0.5}) is e))
    out.append(("parameter set", 0.5, e.get_params()[first]))
    out.append(("shown", f"{type(e).__name__}({first}=0.5, diff={diff})", repr(e)))
    e.partial_fit(av.rows(4, 2))
    before = (e.location_, e.covariance_)
    out.append(("a wider row", "ValueError", attempt(lambda: e.partial_fit([[1.0, 2.0, 3.0]]))[1]))
    out.append(("location_ afterwards", before[0], e.location_))
    out.append(("covariance_ afterwards", before[1], e.covariance_))
    m = e.location_
    m[0] = 1e6
    C = e.covariance_
    C[0, 0] = 1e6
    out.append(("location_ is private", before[0], e.location_))
    out.append(("covariance_ is private", before[1], e.covariance_))
    out.append(("a flat batch is refused by fit", "ValueError", attempt(lambda: e.fit([1.0, 2.0]))[1]))
    return out


# ------------------------------------------------------------------ constructed with nothing
def by_default(name):
    """Any listed class works as it comes: built without arguments, fed, read, saved, wrapped, assessed."""
    cls = P.estimator_from_name(name)
    X = av.rows(8, 3)
    e = cls()
    out = [("fit returns the estimator", True, e.fit(X) is e), ("partial_fit returns it too", True, e.partial_fit(X[0]) is e)]
    for n, v in estimates(e) + derived(e, av.rows(2, 3, "q")):
        out.append((n, "returns", v[0]))
    C = e.covariance_
    for a in P.all_assessors():
        out.append((f"scored by {a.name}", "returns",
                    attempt(lambda: a.score(C, X_test=av.rows(5, 3, "t"), true_cov=av.spd(3, "s")))[0]))
    out.append(("rebuilt from its parameters", repr(cls()), repr(cls(**cls().get_params()))))
    out.append(("named in what it shows", True, repr(cls()).startswith(name + "(")))
    k = P.keyed(cls(), dynamic=True)
    for t, h in enumerate(["ab", "ba", "abc", "ab", "abc"]):
        k.learn_one({n: av.sym(f"{n}{t}", "data") for n in h})
    out.append(("keyed", "returns", attempt(lambda: k.covariance_)[0]))
    return out
