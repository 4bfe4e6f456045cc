"""Driver programs for the registries, the recommender, the assessors, imports and determinism."""
import importlib
import math

import av
import numpy as np
import precise as P
import precise.assessment as A
import spec
from lib import *


# ------------------------------------------------------------------ C15
def nuisance():
    """Other work a process may have done before."""
    o = P.EwaCovariance(r=0.2)
    o.partial_fit(av.rows(3, 2, "n"))
    P.keyed(dynamic=True).learn_one({"u": 1.0, "v": 2.0})
    P.all_estimators()
    P.suggest([[1.0, 2.0], [2.0, 1.0], [0.5, 0.1]])


def repeatable(v, cfg, p, T, diff):
    if v == "B":
        nuisance()
    e = make(cfg, diff)
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    out = estimates(e) + derived(e, av.rows(2, p, "q"))
    out.append(("state", attempt(lambda: e.get_state())))
    f = make(cfg, diff)
    f.fit(av.rows(T, p))
    return out + tagged("fitted", estimates(f))


def repeatable_keyed(v, cfg, dyn, history):
    if v == "B":
        nuisance()
    k = P.keyed(make(cfg), dynamic=dyn)
    for t, h in enumerate(history):
        k.learn_one({n: av.sym(f"{n}{t}", "data", row=t, col=ord(n) - 97) for n in h})
    names = list(attempt(lambda: k.cov_array())[1][1])
    return [("names", names), ("matrix", attempt(lambda: k.get_cov())), ("dict", attempt(lambda: k.covariance_)),
            ("order", list(k.covariance_)), ("some", attempt(lambda: k.get_cov(["c", "a"]))),
            ("correlation", attempt(lambda: k.correlation_))]


def repeatable_rest(v, n, p):
    if v == "B":
        nuisance()
    X = av.rows(n, p)
    out = [("features", attempt(lambda: P.covariance_features(X))), ("estimators", P.all_estimators()),
           ("names", P.estimator_names()), ("assessors", [a.name for a in P.all_assessors()])]
    C, S = av.spd(p, "c"), av.spd(p, "s")
    for a in P.all_assessors():
        out.append((a.name, attempt(lambda: a.score(C, X_test=X, true_cov=S))))
    Z = [[float((3 * i * i + 5 * j + i * j) % 7) - 3.0 for j in range(p)] for i in range(n + 3)]
    out.append(("suggestion", attempt(lambda: [c.__name__ for c in P.suggest(Z, top=17)])))
    return out


# ------------------------------------------------------------------ C35
NEEDS_A_MODEL = ["ConditionalCovariance"]


def registry():
    out = []
    regs = P.all_estimators()
    names = P.estimator_names()
    exported = []
    for n in P.__all__:
        got = attempt(lambda: getattr(P, n))
        out.append((f"precise.{n} exists", "returns", got[0]))
        if got[0] == "returns" and isinstance(got[1], type) and issubclass(got[1], BaseOnlineCovariance):
            if n != "BaseOnlineCovariance" and n not in NEEDS_A_MODEL:
                exported.append((n, got[1]))
    for n, c in exported:
        out.append((f"{n} listed once by all_estimators", 1, len([r for r in regs if r is c])))
        out.append((f"{n} listed once by estimator_names", 1, len([m for m in names if m == n])))
        out.append((f"{n} found by its own name", c, attempt(lambda: P.estimator_from_name(n))[1]))
        out.append((f"{n} is called {n}", n, c.__name__))
    for c in regs:
        out.append((f"{c.__name__} is an estimator class", True, isinstance(c, type)
                    and issubclass(c, BaseOnlineCovariance)))
        out.append((f"{c.__name__} is listed once", 1, len([r for r in regs if r is c])))
        out.append((f"{c.__name__} is exported", True, c.__name__ in P.__all__))
        out.append((f"{c.__name__} found by its name", c, attempt(lambda: P.estimator_from_name(c.__name__))[1]))
        got = attempt(c)
        out.append((f"{c.__name__}() is built", "returns", got[0]))
        if got[0] == "returns":
            out.append((f"{c.__name__}() is unfitted", 0, got[1].n_samples_))
            out.append((f"type of {c.__name__}()", c, type(got[1])))
    out.append(("same order", [c.__name__ for c in regs], names))
    for n in ("", "NoSuchEstimator", "ewacovariance", "EwaCovariance ", "Ewa", "BaseOnlineCovariance", "Covariance"):
        out.append((f"unknown estimator {n!r}", ("raises", "KeyError"), attempt(lambda: P.estimator_from_name(n))))
    return out


def assessors():
    out = []
    exported = []
    for n in A.__all__:
        got = attempt(lambda: getattr(A, n))
        out.append((f"precise.assessment.{n} exists", "returns", got[0]))
        if got[0] == "returns" and isinstance(got[1], type) and issubclass(got[1], A.Assessor) and n != "Assessor":
            exported.append((n, got[1]))
    listed = P.all_assessors()
    for n, c in exported:
        out.append((f"{n} listed once by all_assessors", 1, len([a for a in listed if type(a) is c])))
        got = attempt(lambda: P.assessor_from_name(n))
        out.append((f"{n} found by its own name", "returns", got[0]))
        if got[0] == "returns":
            out.append((f"type found under {n}", c, type(got[1])))
            out.append((f"name of {n}", n, got[1].name))
        out.append((f"{n}() is built", "returns", attempt(c)[0]))
    for a in listed:
        out.append((f"{a.name} is exported", True, type(a).__name__ in A.__all__))
        out.append((f"{a.name} is an assessor", True, isinstance(a, A.Assessor)))
    for n in ("", "NoSuchAssessor", "loglikelihood", "Assessor", "LogLikelihood "):
        out.append((f"unknown assessor {n!r}", ("raises", "KeyError"), attempt(lambda: P.assessor_from_name(n))))
    return out


def exports():
    """Every name any module of the package exports exists."""
    out = []
    for m in av.mods():
        if m.startswith("precise.skaters"):
            continue
        mod = importlib.import_module(m)
        out.append((f"{m} imports", True, mod is not None))
        for n in getattr(mod, "__all__", []):
            out.append((f"{m}.{n} exists", "returns", attempt(lambda: getattr(mod, n))[0]))
    return out


# ------------------------------------------------------------------ C36, C37
def model():
    import precise._recommender_model as M
    return M


def tree():
    """Every node of the frozen tree reachable from the root."""
    M = model()
    n = len(M.FEATURE)
    out = [("tables of one length", [n, n, n, n], [len(M.THRESHOLD), len(M.LEFT), len(M.RIGHT), len(M.VALUE)]),
           ("one mean per feature", len(M.FEATURES), len(M.MEAN)),
           ("one scale per feature", len(M.FEATURES), len(M.STD))]
    known = P.covariance_features(av.rows(4, 2))
    for i, f in enumerate(M.FEATURES):
        out.append((f"feature {f} is computed", True, f in known))
        out.append((f"scale of {f} is positive", True, i < len(M.STD) and M.STD[i] > 0 and M.STD[i] < float("inf")))
        out.append((f"mean of {f} is finite", True, i < len(M.MEAN) and abs(M.MEAN[i]) < float("inf")))
    names = P.estimator_names()
    for i, c in enumerate(M.CLASSES):
        out.append((f"class {c} is registered", True, c in names))
        out.append((f"class {c} appears once", 1, len([d for d in M.CLASSES if d == c])))
    seen = []
    todo = [(0, ())]
    while todo:
        k, above = todo.pop()
        ok = isinstance(k, int) and 0 <= k < n
        out.append((f"node {k} exists", True, ok))
        if not ok or k in above:
            out.append((f"node {k} is not below itself", False, k in above))
            continue
        seen.append(k)
        if M.FEATURE[k] == -2:
            v = M.VALUE[k] if k < len(M.VALUE) else []
            out.append((f"leaf {k} has a count per class", len(M.CLASSES), len(v)))
            out.append((f"leaf {k} counts are not negative", True, all([c >= 0 for c in v])))
            out.append((f"leaf {k} prefers an estimator", True, any([c > 0 for c in v])))
            continue
        out.append((f"node {k} reads a feature", True, 0 <= M.FEATURE[k] < len(M.FEATURES)))
        out.append((f"node {k} has a threshold", True, abs(M.THRESHOLD[k]) < float("inf")))
        todo.append((M.LEFT[k], above + (k,)))
        todo.append((M.RIGHT[k], above + (k,)))
    out.append(("a tree, not a graph", len(seen), len(set(seen))))
    return out


def leaves():
    """(leaf, {feature index: (low, high)}) in standardised units."""
    M = model()
    out = []
    todo = [(0, {})]
    while todo:
        k, box = todo.pop()
        f = M.FEATURE[k]
        if f == -2:
            out.append((k, box))
            continue
        t = M.THRESHOLD[k]
        lo, hi = box.get(f, (-9.0, 9.0))
        for child, b in ((M.LEFT[k], (lo, min(hi, t))), (M.RIGHT[k], (max(lo, t), hi))):
            nb = dict(box)
            nb[f] = b
            todo.append((child, nb))
    return out


HEURISTIC_HIGH = ["FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance"]


def heuristic(f):
    s = {n: 0.0 for n in P.estimator_names()}
    for n in (HEURISTIC_HIGH if f["p_over_n"] > 0.25 or f["sphericity"] < 0.6 or f["condition_number"] > 50.0
              else ["EmpiricalCovariance", "EwaCovariance"]):
        s[n] = s[n] + 2.0
    if f["avg_excess_kurtosis"] > 1.0:
        for n in ("HuberCovariance", "TylerCovariance"):
            s[n] = s[n] + 1.5
    s["LedoitWolfCovariance"] = s["LedoitWolfCovariance"] + 0.5
    return s


def leaf_of(f):
    M = model()
    k = 0
    for _ in range(len(M.FEATURE)):
        i = M.FEATURE[k]
        if i == -2:
            return k
        z = (f[M.FEATURES[i]] - M.MEAN[i]) / M.STD[i]
        k = M.LEFT[k] if z <= M.THRESHOLD[k] else M.RIGHT[k]
    return k


def ranking(f, with_model):
    """Registered names, best first: by leaf count, then heuristic score, then registry order."""
    names = P.estimator_names()
    h = heuristic(f)
    w = {n: 0 for n in names}
    if with_model:
        M = model()
        v = M.VALUE[leaf_of(f)]
        for i, c in enumerate(M.CLASSES):
            w[c] = v[i]
    left = list(names)
    out = []
    while left:
        best = left[0]
        for n in left[1:]:
            if w[n] > w[best] or (w[n] == w[best] and h[n] > h[best]):
                best = n
        out.append(best)
        left = [n for n in left if n != best]
    return out


def asked(f, top=None):
    """suggest for data with the features f."""
    import precise.recommend as R
    old = R.covariance_features
    R.covariance_features = lambda X: dict(f)
    try:
        X = [[0.0, 1.0], [1.0, 0.0], [0.5, 0.2]]
        got = R.suggest(X, top=top) if top is not None else R.suggest(X)
        return [c.__name__ for c in got]
    finally:
        R.covariance_features = old


def base_features():
    return {"n": 60, "p": 30, "p_over_n": 0.5, "effective_rank": 6.0, "sphericity": 0.2, "condition_number": 1e3,
            "mean_abs_offdiag_corr": 0.3, "avg_excess_kurtosis": 0.0}


def probe_features(kind):
    """Feature vectors reaching every leaf (its middle, and its edges on either side)."""
    M = model()
    out = []
    for k, box in leaves():
        for edge in ((None,) if kind == "middle" else tuple(box)):
            f = base_features()
            for i, (lo, hi) in box.items():
                z = 0.5 * (lo + hi)
                if edge == i:
                    z = hi if kind == "upper" else lo
                x = M.MEAN[i] + z * M.STD[i]
                if edge == i:                      # hit the threshold exactly where floats allow
                    step = abs(x) * 2.3e-16 + 1e-300
                    for s in (0, 1, -1, 2, -2, 3, -3):
                        if (x + s * step - M.MEAN[i]) / M.STD[i] == z:
                            x = x + s * step
                            break
                f[M.FEATURES[i]] = x
            out.append((k, edge, f))
    return out


def swapped(counts, f, top=None, tables=None):
    """suggest with the shipped tree, except for the given leaf counts (so that every leaf prefers something)."""
    import precise._recommender_model as M
    old = M.VALUE
    M.VALUE = counts
    try:
        return asked(f, top), ranking(f, True)
    finally:
        M.VALUE = old


def suggestions(kind):
    """The ranking at every leaf, with the shipped counts and with counts that prefer something everywhere."""
    M = model()
    n, c = len(M.FEATURE), len(M.CLASSES)
    fake = [[(5 * k + 3 * j * j + k * j) % 7 for j in range(c)] for k in range(n)]
    out = []
    for k, edge, f in probe_features(kind):
        out.append((f"leaf {k} edge {edge}", ranking(f, True), asked(f, 17)))
        got, want = swapped(fake, f, 17)
        out.append((f"leaf {k} edge {edge}, distinct counts", want, got))
    return out


def tops():
    out = []
    for kurt in (0.0, 1.0, 1.5):
        for hd in (0.1, 0.25, 0.3):
            for sph in (0.5, 0.6, 0.9):
                for cond in (10.0, 50.0, 60.0):
                    f = base_features()
                    f["avg_excess_kurtosis"] = kurt
                    f["p_over_n"] = hd
                    f["sphericity"] = sph
                    f["condition_number"] = cond
                    f["p"] = 3
                    out.append((f"k={kurt} p/n={hd} s={sph} c={cond}", ranking(f, True), asked(f, 17)))
    f = base_features()
    r = ranking(f, True)
    for t in (0, 1, 2, 3, 5, 16, 17, 18, 100):
        out.append((f"top {t}", r[:t], asked(f, t)))
    out.append(("three by default", r[:3], asked(f)))
    X = [[float((3 * i * i + 5 * j + i * j) % 7) - 3.0 for j in range(3)] for i in range(9)]
    got = P.suggest(X, top=17)
    out.append(("registered classes", True, all([c in P.all_estimators() for c in got])))
    out.append(("distinct", 17, len(set([c.__name__ for c in got]))))
    out.append(("from the data", ranking(P.covariance_features(X), True), [c.__name__ for c in got]))
    return out


def without_model():
    import precise.recommend as R
    old = R._MODEL
    R._MODEL = None
    out = []
    try:
        for kurt in (0.0, 1.5):
            for hd in (0.1, 0.3):
                for cond in (10.0, 60.0):
                    f = base_features()
                    f["avg_excess_kurtosis"] = kurt
                    f["p_over_n"] = hd
                    f["sphericity"] = 0.8
                    f["condition_number"] = cond
                    out.append((f"no model, k={kurt} p/n={hd} c={cond}", ranking(f, False), asked(f, 17)))
                    out.append((f"no model, top 2, k={kurt} p/n={hd} c={cond}", ranking(f, False)[:2], asked(f, 2)))
    finally:
        R._MODEL = old
    return out


def walk_any():
    """The leaf reached for arbitrary features (standardised features are free symbols)."""
    import precise.recommend as R
    M = model()
    c = len(M.CLASSES)
    f = base_features()
    for i, name in enumerate(M.FEATURES):
        f[name] = M.MEAN[i] + M.STD[i] * av.sym(f"z{i}", "data", row=0, col=i)
    old = M.VALUE
    M.VALUE = [[(31 * k + 7 * j) % 101 for j in range(c)] for k in range(len(M.FEATURE))]
    try:
        got = R._trained_weights(f)
        want = {M.CLASSES[j]: below(0, f, j) for j in range(c)}
    finally:
        M.VALUE = old
    return [("leaf counts", want, {k: got[k] for k in want})]


def below(k, f, j):
    M = model()
    i = M.FEATURE[k]
    if i == -2:
        return M.VALUE[k][j]
    z = (f[M.FEATURES[i]] - M.MEAN[i]) / M.STD[i]
    return below(M.LEFT[k], f, j) if z <= M.THRESHOLD[k] else below(M.RIGHT[k], f, j)


def features(n, p, kind):
    X = av.rows(n, p)
    if kind == "list":
        X = [list(x) for x in X]
    elif kind == "vector":
        X = av.row(p, 0)
    elif kind == "constant":
        X = X * np.array([1.0] * (p - 1) + [0.0])
    f = P.covariance_features(X)
    R = av.rows(n, p) if kind != "vector" else av.rows(1, p)
    if kind == "constant":
        R = X
    n = len(R)
    m, S = spec.mean_cov([R[i] for i in range(n)])
    w = np.maximum(np.linalg.eigvalsh(S), 1e-12)
    er = np.sum(w) * np.sum(w) / np.sum(w * w)
    var = [max(S[i, i], 1e-12) for i in range(p)]
    corr = [abs(S[i, j]) / math.sqrt(var[i] * var[j]) for i in range(p) for j in range(p) if i != j]
    kurt = 0.0
    for j in range(p):
        m4 = 0.0
        for i in range(n):
            d = R[i, j] - m[j]
            m4 = m4 + d * d * d * d / n
        kurt = kurt + (m4 / (var[j] * var[j]) - 3.0) / p
    return [("n", n, f["n"]), ("p", p, f["p"]), ("p_over_n", p / n, f["p_over_n"]),
            ("effective_rank", er, f["effective_rank"]), ("sphericity", er / p, f["sphericity"]),
            ("condition_number", w[p - 1] / w[0], f["condition_number"]),
            ("mean_abs_offdiag_corr", sum(corr) / len(corr) if corr else 0.0, f["mean_abs_offdiag_corr"]),
            ("avg_excess_kurtosis", kurt, f["avg_excess_kurtosis"])]


def untouched(n, p):
    """Functions of the package that take arrays leave them as they were."""
    from precise import _linalg
    out = []
    for name in ("covariance_features", "suggest") if p == 1 else ("covariance_features",):
        f = getattr(P, name)
        for what in (None, np.nan, np.inf):
            X = av.rows(n, p)
            if what is not None:
                X[0, p - 1] = what
            K = X.copy()
            attempt(f, X)
            out.append((f"array with {what} passed to {name}", K, X))
        L = [list(x) for x in av.rows(n, p)]
        K = [list(x) for x in L]
        attempt(f, L)
        out.append((f"list passed to {name}", K, L))
    return out


def untouched_linalg(p):
    from precise import _linalg
    out = []
    A = av.rows(p, p, "a")
    for name in ("to_symmetric", "make_pos_def", "nearest_pos_def", "cov_to_corrcoef", "try_invert", "is_positive_def"):
        f = getattr(_linalg, name, None)
        if f is None:
            continue
        S = A @ A.T + np.eye(p)
        for M, what in ((A.copy(), "any matrix"), (S, "positive definite matrix"), (np.zeros((p, p)), "zero matrix")):
            K = M.copy()
            attempt(f, M)
            out.append((f"{what} passed to {name}", K, M))
    return out


# ------------------------------------------------------------------ C38, C39
class Unused:
    """Stands for an argument an assessor says it does not need: any use of it fails."""

    def __getattr__(self, n):
        raise RuntimeError("used")

    def __len__(self):
        raise RuntimeError("used")

    def __iter__(self):
        raise RuntimeError("used")

    def __getitem__(self, k):
        raise RuntimeError("used")


def named(name):
    for a in P.all_assessors():
        if a.name == name:
            return a
    raise KeyError(name)


def variants(name):
    """The default instance, and others with the options the class documents."""
    if name == "BlockPseudoLikelihood":
        return [A.BlockPseudoLikelihood(), A.BlockPseudoLikelihood(1), A.BlockPseudoLikelihood(block_size=2)]
    if name == "SchurLikelihood":
        return [A.SchurLikelihood(), A.SchurLikelihood(0.0, 2), A.SchurLikelihood(1.0, 3),
                A.SchurLikelihood(gamma=0.3, n_blocks=2, interpolation="geodesic"), A.SchurLikelihood(0.7, 1)]
    return [named(name)]


def dependence(v, name, i, what):
    """The score with different data / truth / order of use."""
    p, n = 3, 4
    a = variants(name)[i]
    C, X, S = av.spd(p, "c"), av.rows(n, p), av.spd(p, "s")
    if what == "data" and v == "B":
        X = av.rows(n + 1, p, "other")
    if what == "truth" and v == "B":
        S = av.spd(p, "other")
    if what == "no data":
        X = av.rows(n, p) if v == "A" else None
    if what == "no truth":
        S = av.spd(p, "s") if v == "A" else None
    if what == "reuse" and v == "B":
        a.score(av.spd(p, "o"), X_test=av.rows(n, p, "o"), true_cov=av.spd(p, "o2"))
        a.score(av.spd(p - 1, "o"), X_test=av.rows(n + 2, p - 1, "o"), true_cov=av.spd(p - 1, "o2"))
        a.usable(have_data=True, have_truth=False)
        a.name
        repr(a)
        a.score(C, X_test=X, true_cov=S)
    if what == "others" and v == "B":
        for b in P.all_assessors():
            b.score(C, X_test=X, true_cov=S)
    return [("score", attempt(lambda: a.score(C, X_test=X, true_cov=S)))]


def reacts(name, i, needs_data, needs_truth):
    """The score does depend on the estimate, and on what the assessor needs."""
    p, n = 3, 4
    a = variants(name)[i]

    def s(c, x, t):
        return a.score(av.spd(p, c), X_test=av.rows(n, p, x), true_cov=av.spd(p, t))
    z = s("c", "x", "s")
    out = [("depends on the estimate", True, s("d", "x", "s") != z)]
    if needs_data:
        out.append(("depends on the data", True, s("c", "y", "s") != z))
    if needs_truth:
        out.append(("depends on the truth", True, s("c", "x", "u") != z))
    return out


def arguments(name, i):
    p, n = 3, 4
    a = variants(name)[i]
    C, X, S = av.spd(p, "c"), av.rows(n, p), av.spd(p, "s")
    c, x, s = C.copy(), X.copy(), S.copy()
    k = dict(a.__dict__)
    u = a.score(C, X_test=X, true_cov=S)
    w = a.score(C, X_test=X, true_cov=S)
    return [("estimate", c, C), ("data", x, X), ("truth", s, S), ("repeated", u, w),
            ("assessor", k, dict(a.__dict__))]


def flags():
    out = []
    for a in P.all_assessors():
        d, t = a.needs_data, a.needs_truth
        for hd in (False, True):
            for ht in (False, True):
                want = (hd or not d) and (ht or not t)
                out.append((f"{a.name}.usable(data={hd}, truth={ht})", want,
                            bool(a.usable(have_data=hd, have_truth=ht))))
        p = 3
        C = av.spd(p, "c")
        got = attempt(lambda: a.score(C, X_test=av.rows(4, p) if d else None, true_cov=av.spd(p, "s") if t else None))
        out.append((f"{a.name} scores with just what it needs", "returns", got[0]))
        if not d:
            got = attempt(lambda: a.score(C, X_test=Unused(), true_cov=av.spd(p, "s")))
            out.append((f"{a.name} leaves held-out data alone", "returns", got[0]))
        if not t:
            got = attempt(lambda: a.score(C, X_test=av.rows(4, p), true_cov=Unused()))
            out.append((f"{a.name} leaves the truth alone", "returns", got[0]))
        out.append((f"{a.name} needs something", True, d or t))
    return out


def declared():
    return [(a.name, a.needs_data, a.needs_truth) for a in P.all_assessors()]


def gauss(c, X):
    """Mean log-density of the rows of X under a centred Gaussian with covariance c."""
    q = spec.inverse(c)
    p = len(c)
    sign, ld = np.linalg.slogdet(q)
    total = 0.0
    for i in range(len(X)):
        total = total + float(X[i] @ q @ X[i])
    return 0.5 * ld - 0.5 * total / len(X) - 0.5 * p * math.log(2 * math.pi)


def loglik(p, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    return [("mean Gaussian log-likelihood", gauss(C, X), A.LogLikelihood().score(C, X_test=X)),
            ("from a list", gauss(C, X), A.LogLikelihood().score([list(r) for r in C], X_test=X))]


def block_lik(p, n, size):
    C, X = av.spd(p, "c"), av.rows(n, p)
    want = 0.0
    i = 0
    while i < p:
        j = min(i + size, p)
        want = want + gauss(C[i:j, i:j], X[:, i:j])
        i = j
    out = [("block log-likelihood", want, A.BlockPseudoLikelihood(size).score(C, X_test=X))]
    if size >= p:
        out.append(("one block is the full likelihood", A.LogLikelihood().score(C, X_test=X),
                    A.BlockPseudoLikelihood(block_size=size).score(C, X_test=X)))
    if size == 10:
        out.append(("blocks of ten by default", want, A.BlockPseudoLikelihood().score(C, X_test=X)))
    return out


def schur_lik(p, n, nb, gamma, interpolation):
    C, X = av.spd(p, "c"), av.rows(n, p)
    g = av.sym("gamma", "unit", lo=0.0, hi=1.0) if gamma is None else gamma
    if interpolation == "geodesic":
        D = spec.geodesic(spec.floor_pd(spec.damp(C, nb, 0.0)), spec.floor_pd(C), g)
        a = A.SchurLikelihood(g, nb, "geodesic")
    else:
        D = spec.damp(C, nb, g)
        a = A.SchurLikelihood(gamma=g, n_blocks=nb)
    s = a.score(C, X_test=X)
    out = [("damped likelihood", gauss(spec.floor_pd(D), X), s)]
    if gamma == 1.0 or nb == 1:
        out.append(("full likelihood", gauss(spec.floor_pd(C), X), s))
    if gamma == 0.5 and nb == 4 and interpolation == "linear":
        out.append(("defaults", s, A.SchurLikelihood().score(C, X_test=X)))
    return out


def stein(p, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    m, S = spec.mean_cov([X[i] for i in range(n)])
    M = spec.inverse(C) @ S
    sign, ld = np.linalg.slogdet(M)
    return [("negative Stein loss", -(np.trace(M) - ld - p), A.SteinLoss().score(C, X_test=X))]


def frobenius(p):
    C, S = av.spd(p, "c"), av.spd(p, "s")
    num = math.sqrt(sum([(C[i, j] - S[i, j]) * (C[i, j] - S[i, j]) for i in range(p) for j in range(p)]))
    den = math.sqrt(sum([S[i, j] * S[i, j] for i in range(p) for j in range(p)]))
    return [("negative relative distance", -num / den, A.FrobeniusToTruth().score(C, true_cov=S)),
            ("the truth itself", 0.0, A.FrobeniusToTruth().score(S, true_cov=S))]


def gmv(p, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    w = spec.inverse(C) @ np.ones(p)
    w = w / sum([w[i] for i in range(p)])
    want = 0.0
    for i in range(n):
        r = sum([X[i, j] * w[j] for j in range(p)])
        want = want - r * r / n
    return [("negative second moment of the portfolio", want, A.GMVVariance().score(C, X_test=X))]


def variogram(p, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    total = 0.0
    for t in range(n):
        for i in range(p):
            for j in range(p):
                e = math.sqrt(max(C[i, i] + C[j, j] - 2 * C[i, j], 0.0) * 2.0 / math.pi)
                d = abs(X[t, i] - X[t, j]) - e
                total = total + d * d
    return [("negative variogram score", -total / n, A.VariogramScore().score(C, X_test=X))]


# ------------------------------------------------------------------ C40, C41
def every_module():
    out = []
    for m in av.mods():
        if m.startswith("precise.skaters"):
            continue
        out.append((f"{m} imports with numpy alone", "returns", attempt(lambda: importlib.import_module(m))[0]))
    return out


def core(cfg):
    e = make(cfg)
    e.partial_fit(av.rows(7, 2))
    out = [(n, "returns", v[0]) for n, v in estimates(e) + derived(e, av.rows(2, 2, "q"))]
    out.append(("get_state", True, attempt(lambda: e.get_state()) in [attempt(lambda: e.get_state())]
                or attempt(lambda: e.get_state())[1] == "NotImplementedError"))
    for dyn in (False, True):
        k = P.keyed(make(cfg), dynamic=dyn)
        for t, h in enumerate(["ab", "ba", "abc", "a", "ab", "ba"]):
            k.learn_one({n: av.sym(f"{n}{t}", "data") for n in h})
        for n, f in (("covariance_", lambda: k.covariance_), ("correlation_", lambda: k.correlation_),
                     ("get_cov", lambda: k.get_cov(["b", "a"])), ("get_corr", lambda: k.get_corr())):
            out.append((f"keyed dynamic={dyn} {n}", "returns", attempt(f)[0]))
    return out


def core_rest():
    X = [[float((3 * i * i + 5 * j + i * j) % 7) - 3.0 for j in range(3)] for i in range(9)]
    out = [("suggest", "returns", attempt(lambda: P.suggest(X))[0]),
           ("covariance_features", "returns", attempt(lambda: P.covariance_features(X))[0])]
    for a in P.all_assessors():
        out.append((a.name, "returns", attempt(lambda: a.score(av.spd(3, "c"), X_test=av.rows(5, 3),
                                                               true_cov=av.spd(3, "s")))[0]))
    return out


def optional():
    out = []
    for dyn in (False, True):
        k = P.keyed(P.EwaCovariance(), dynamic=dyn)
        for t in range(2):
            k.learn_one({"a": 1.0 + t, "b": 2.0 - t * t})
        try:
            k.to_frame()
            got, text = "returns", ""
        except ImportError as exc:
            got, text = "ImportError", str(exc)
        except Exception as exc:
            got, text = type(exc).__name__, str(exc)
        out.append((f"to_frame without pandas (dynamic={dyn})", "ImportError", got))
        out.append((f"names the package (dynamic={dyn})", True, "pandas" in text))
        out.append((f"says how to get it (dynamic={dyn})", True, "install" in text.lower()))
    return out


def removed(name):
    out = []
    for again in range(2):
        try:
            importlib.import_module(name)
            got, text = "imported", ""
        except ImportError as exc:
            got, text = "ImportError", str(exc)
        except Exception as exc:
            got, text = type(exc).__name__, str(exc)
        out.append((f"importing {name} (attempt {again + 1})", "ImportError", got))
        out.append((f"names a replacement (attempt {again + 1})", True,
                    any([n in text for n in P.estimator_names()])))
        out.append((f"says the old interface is gone (attempt {again + 1})", True, "skater" in text))
    return out


def removed_from():
    out = []
    try:
        from precise.skaters import covariance
        got = "imported"
    except ImportError as exc:
        got = "ImportError"
    out.append(("from precise.skaters import covariance", "ImportError", got))
    try:
        from precise.skaters.covariance.ewapm import ewa_pm_emp_scov_r01_n100_t0
        got = "imported"
    except ImportError:
        got = "ImportError"
    out.append(("from precise.skaters.covariance.ewapm import a skater", "ImportError", got))
    try:
        import precise.skaters
        got = "imported"
    except ImportError:
        got = "ImportError"
    out.append(("import precise.skaters", "ImportError", got))
    P.suggest([[1.0, 2.0], [2.0, 1.0], [0.5, 0.1]])
    out.append(("the package works regardless", 0, P.EwaCovariance().n_samples_))
    return out
