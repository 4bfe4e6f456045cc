"""What the documentation says about the values its examples show."""
import numpy as np

import av
import precise as P
from precise.base import BaseOnlineCovariance

NAMES = ["AAPL", "MSFT", "NVDA"]


def feed(how):
    """The stream an example leaves to the reader: rows, lists of numbers, or dicts keyed by name."""
    rows = av.rowlist(7, 3)
    if how == "rows":
        return rows
    if how == "lists":
        return [[x[i] for i in range(3)] for x in rows]
    return [{NAMES[i]: x[i] for i in range(3)} for x in rows]


def vectors():
    return av.rowlist(7, 3)


def keyed(owner):
    return isinstance(owner, (P.FixedUniverse, P.DynamicUniverse))


def said(label, owner, attr, v):
    """Claims about `owner.attr`, which the example evaluated to v."""
    out = []
    if keyed(owner):
        if attr in ("covariance_", "correlation_", "covariance"):
            live = list(owner.x) if isinstance(owner, P.DynamicUniverse) else list(owner.keys)
            out.append((label + ": names", sorted(live), sorted(v)))
            for a in live:
                out.append((label + f": names in {a}", sorted(live), sorted(v[a])))
                for b in live:
                    out.append((label + f": symmetric {a},{b}", v[a][b], v[b][a]))
                    out.append((label + f": a number {a},{b}", True, isinstance(v[a][b], float)))
        return out
    if not isinstance(owner, BaseOnlineCovariance):
        return [(label, True, v is not None)]
    C = owner.covariance_
    n = owner.n_features_in_
    if attr == "location_":
        out.append((label + ": one value per variable", (n,), v.shape))
    if attr in ("covariance_", "correlation_", "precision_"):
        out.append((label + ": square", (n, n), v.shape))
        out.append((label + ": symmetric", v, v.T))
    if attr == "correlation_":
        for i in range(n):
            out.append((label + f": unit diagonal {i}", 1.0, v[i, i]))
            for j in range(i):
                out.append((label + f": correlation {i},{j}", C[i, j], v[i, j] * np.sqrt(C[i, i] * C[j, j])))
    if attr == "precision_":
        out.append((label + ": inverse", C, C @ v @ C))
    if attr == "covariance_":
        for i in range(n):
            out.append((label + f": variance {i} is not negative", True, bool(v[i, i] >= 0.0)))
    out.append((label, True, v is not None))
    return out


def called(label, owner, name, first, kw, v):
    """Claims about a call the example makes."""
    out = [(label, True, True)]
    if name in ("fit", "partial_fit", "update", "learn_one"):
        out.append((label + ": returns the estimator", True, v is owner))
    if name == "fit" and not keyed(owner):
        out.append((label + ": rows learned", len(first), owner.n_samples_))
        out.append((label + ": width", first.shape[1], owner.n_features_in_))
    if name == "all_estimators":
        out.append((label + ": classes", [True] * len(v), [issubclass(c, BaseOnlineCovariance) for c in v]))
        out.append((label + ": every one listed", sorted(P.estimator_names()), sorted(c.__name__ for c in v)))
        for c in v:
            e = c()
            for x in vectors():
                e.partial_fit(x)
            out.append((label + f": {c.__name__} in one loop", (3, 3), e.covariance_.shape))
    if name == "estimator_from_name":
        out.append((label + ": the class of that name", first, v.__name__))
    if name == "all_assessors":
        out.append((label + ": scoring rules", True, len(v) > 5))
    if name == "suggest":
        out.append((label + ": as many as asked", kw.get("top", 1), len(v)))
        for c in v:
            out.append((label + f": estimator classes", True, c in P.all_estimators()))
            out.append((label + f": {c.__name__} learns", (3, 3), c().fit(first).covariance_.shape))
    if name == "to_frame":
        live = list(owner.x) if isinstance(owner, P.DynamicUniverse) else list(owner.keys)
        C = owner.get_cov(live)
        out.append((label + ": rows", live, list(v.index)))
        out.append((label + ": columns", live, list(v.columns)))
        out.append((label + ": values", C, np.asarray(v.values)))
    if name == "keyed":
        dyn = kw.get("dynamic", False)
        out.append((label + ": kind", "DynamicUniverse" if dyn else "FixedUniverse", type(v).__name__))
    if isinstance(v, BaseOnlineCovariance) and name.endswith("Covariance"):
        for k, x in kw.items():
            out.append((label + f": {k}", True, v.get_params()[k] is x or v.get_params()[k] == x
                        or repr(v.get_params()[k]) == repr(x)))
        e = type(v)(**v.get_params())
        for x in vectors():
            e.partial_fit(x)
        out.append((label + ": learns", (3, 3), e.covariance_.shape))
    return out


def named(names):
    out = []
    for n in names:
        c = getattr(P, n, None)
        if c is None:
            for a in P.all_assessors():
                if type(a).__name__ == n:
                    c = type(a)
        out.append((f"{n} can be found", True, c is not None))
        if c is not None and isinstance(c, type) and issubclass(c, BaseOnlineCovariance):
            try:
                listed = P.estimator_from_name(n) is c
            except Exception:
                listed = False
            out.append((f"{n} is listed or composed", True, listed or n == "ConditionalCovariance"))
    return out
