"""Driver programs over the research studies (C43, C44, C45)."""
import math

import numpy as np
import sklearn.tree as T

import research.bakeoff as bakeoff
import research.oos as oos
import research.oos_equity as equity
import research.train_recommender as trainer
import av
from lib import attempt

LOG = []


class Rng:
    """A generator with fixed integer draws and symbolic data, tagged by the number of rows drawn."""

    def __init__(self, tags=None):
        self.tags = tags or {}
        self.k = 0
        self.ints = {}
        self.covs = []

    def tag(self, size):
        self.k = self.k + 1
        return self.tags.get(size, "z") + str(self.k) + "_"

    def integers(self, lo, hi=None, size=None):
        n = lo if hi is None else hi - lo
        self.ints[n] = self.ints.get(n, 0) + 1
        return (0 if hi is None else lo) + self.ints[n] % n

    def choice(self, a, size=None):
        return a[0]

    def multivariate_normal(self, mean, cov, size=None):
        p = len(cov)
        z = av.rows(size, p, self.tag(size))
        self.covs.append((size, cov))
        return z * np.array([cov[j, j] for j in range(p)]) + np.array([cov[0, j] for j in range(p)])

    def chisquare(self, df, size=None):
        n = size[0] if isinstance(size, tuple) else size
        t = self.tag(n)
        return np.array([[2.0 + av.sym(f"{t}c{i}", "pos", lo=0.5)] for i in range(n)])

    def standard_normal(self, size=None):
        t = self.tag("gen")
        if isinstance(size, tuple):
            return av.rows(size[0], size[1], t)
        return av.row(size, 0, t)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        t = self.tag("gen")
        n = size if not isinstance(size, tuple) else size[0]
        return np.array([lo + (hi - lo) * av.sym(f"{t}{i}", "unit", lo=0.0, hi=1.0) for i in range(n)])

    def random(self, size=None):
        return np.array([0.01 if i % 4 == 1 else 0.5 for i in range(size)])


class Base:
    def fit(self, X):
        X = np.array(X)
        LOG.append(("fit", type(self).__name__, X.copy()))
        p = X.shape[1]
        self.covariance_ = np.diag(np.array([1.0 + X[0, j] * X[0, j] * self.w + X[len(X) - 1, j] ** 2
                                             for j in range(p)]))
        return self

    def partial_fit(self, X):
        had = getattr(self, "covariance_", None)
        self.fit(X)
        if had is not None:
            self.covariance_ = self.covariance_ + had
        return self


class First(Base):
    w = 1.0


class Second(Base):
    w = 3.0


class Judge:
    """An assessor remembering what it judged."""
    name = "Judge"
    needs_data = True
    needs_truth = False

    def usable(self, have_data=False, have_truth=False):
        return have_data

    def score(self, cov, X_test=None, true_cov=None):
        LOG.append(("judged", cov.copy(), X_test.copy()))
        return cov[0, 0] * X_test[0, 0] + X_test[len(X_test) - 1, 0]


def chosen(X, top=3):
    LOG.append(("asked", np.array(X)))
    return [First, Second][:top]


def setup():
    av.lax()
    for m in (oos, equity, trainer, bakeoff):
        m.all_estimators = lambda: [First, Second]
    oos.suggest = chosen
    equity.suggest = chosen
    del LOG[:]
    del T.LOG[:]


def kept(kind):
    return [e[1:] for e in LOG if e[0] == kind]


def feats(f):
    def g(X):
        X = np.array(X)
        LOG.append(("features", X.copy()))
        v = X[0, 0] + X[len(X) - 1, 0]
        return {k: v * (i + 1.0) for i, k in enumerate(trainer.FEATURES)}
    return g


# ------------------------------------------------------------------ C43
def trial(v, heavy, recommender, changed):
    """One trial: with other held-out rows what is fitted and asked stays; with other training rows what is judged
    on stays."""
    setup()
    ntr, nte = 5, 4
    tags = {nte: "t", ntr: "r"}
    if v == "B":
        tags[nte if changed == "test" else ntr] = "other"
    rng = Rng(tags)
    gen = lambda p, rng: np.diag(np.array([1.0, 2.0]))

    def rec(X):
        LOG.append(("asked", np.array(X)))
        return "First"
    kw = {"recommender": rec} if recommender else {}
    oos._trial(gen, heavy, 2, ntr, nte, rng, Judge(), **kw)
    out = [("something was fitted", len(kept("fit"))), ("something was judged", len(kept("judged"))),
           ("something was asked", len(kept("asked")))]
    if changed == "test":
        out += [(f"fitted rows {i}", e) for i, e in enumerate(kept("fit"))]
        out += [(f"rows the recommender saw {i}", e) for i, e in enumerate(kept("asked"))]
        out += [(f"judged estimate {i}", e[0]) for i, e in enumerate(kept("judged"))]
    else:
        out += [(f"rows judged on {i}", e[1]) for i, e in enumerate(kept("judged"))]
    return out


def families(special, what):
    """Three families; the one called special draws scales named what, of the other sign if different."""
    def maker(name):
        tag = what if name == special else name
        sign = -1.0 if tag == "different" else 1.0

        def gen(p, rng):
            rng.k = rng.k + 1
            return np.diag(np.array([sign * (1.0 + av.sym(f"{tag}{rng.k}_{j}", "pos", lo=0.1)) for j in range(p)]))
        return gen
    return {n: (maker(n), False) for n in ("one", "two", "three")}


def held_out(v, study, held):
    """With another held-out family, its best fixed rival (and its tree) stay."""
    setup()
    oos.ENSEMBLES = families(held, "same" if v == "A" else "different")
    trainer.covariance_features = feats(0)
    kw = dict(p=2, n_train=5, n_test=4, trials=3, seed=Rng(), assessor=Judge())
    if study == "fixed":
        r = oos.leave_one_ensemble_out(**kw)
        return [("best fixed rival", r[held]["best_fixed"]), ("families studied", len(r))]
    kw["n_problems"] = 3
    r = oos.leave_one_family_out_trained(**kw)
    i = list(r).index(held)
    return [("best fixed rival", r[held]["best_fixed"]), ("families studied", len(r)), ("trees", len(T.LOG)),
            ("tree inputs", T.LOG[i][0]), ("tree labels", T.LOG[i][1])]


def tree_training(v, where, changed):
    """Features of a training problem ignore the rows its label is judged on, and the reverse."""
    setup()
    trainer.covariance_features = feats(0)
    tags = {400: "t", 10: "r"}
    if v == "B":
        tags[400 if changed == "test" else 10] = "other"
    rng = Rng(tags)
    fam = {"one": (lambda p, rng: np.eye(p) * 2.0, False), "two": (lambda p, rng: np.eye(p) * 3.0, True)}
    trainer.ENSEMBLES = fam
    oos.ENSEMBLES = fam
    trainer.GMVVariance = Judge
    if where == "trainer":
        trainer.generate(n_problems=1, seed=rng)
    else:
        oos._train_recommender(["one", "two"], 1, rng, Judge())
    out = [("fits", len(kept("fit"))), ("judgements", len(kept("judged"))), ("feature vectors", len(kept("features")))]
    if changed == "test":
        out += [(f"fitted rows {i}", e) for i, e in enumerate(kept("fit"))]
        out += [(f"rows described {i}", e) for i, e in enumerate(kept("features"))]
    else:
        out += [(f"rows judged on {i}", e[1][0]) for i, e in enumerate(kept("judged"))]
        out += [(f"last row judged on {i}", e[1][len(e[1]) - 1]) for i, e in enumerate(kept("judged"))]
    return out


def rolling(v, train, test, step, T_, cut):
    """Windows whose training part ends at or before row cut do not see later rows."""
    setup()
    R = av.rows(T_, 2)
    if v == "B":
        R = np.vstack([R[:cut], av.rows(T_ - cut, 2, "other")])
    equity.rolling_oos(R, train_len=train, test_len=test, step=step)
    fits, asked = kept("fit"), kept("asked")
    n = len(asked)
    out = [("windows", n), ("fits", len(fits))]
    t = 0
    i = 0
    while t + train <= cut and i < n:
        for k in range(2):
            out.append((f"rows fitted in window {i} by {k}", fits[2 * i + k]))
        out.append((f"rows the recommender saw in window {i}", asked[i]))
        t = t + step
        i = i + 1
    return out


def realised(train, test, step, T_):
    """The realised volatilities are those of each window's portfolio on the rows after it."""
    setup()
    R = av.rows(T_, 2)
    fixed, rec, oracle, ew, counts = equity.rolling_oos(R, train_len=train, test_len=test, step=step)
    per = {"First": [], "Second": []}
    ews, best = [], []
    t = 0
    while t + train + test <= T_:
        r2 = {}
        for E in (First, Second):
            C = E().fit(R[t:t + train]).covariance_
            w = np.array([1.0 / C[0, 0], 1.0 / C[1, 1]])
            w = w / (w[0] + w[1])
            total = 0.0
            for i in range(t + train, t + train + test):
                x = R[i, 0] * w[0] + R[i, 1] * w[1]
                total = total + x * x / test
            r2[E.__name__] = total
            per[E.__name__].append(total)
        best.append(min(r2["First"], r2["Second"]))
        ews.append(sum([(0.5 * R[i, 0] + 0.5 * R[i, 1]) ** 2 / test for i in range(t + train, t + train + test)]))
        t = t + step

    def vol(v):
        return math.sqrt(252.0 * sum(v) / len(v))
    return [("First", vol(per["First"]), fixed["First"]), ("Second", vol(per["Second"]), fixed["Second"]),
            ("recommender", vol(per["First"]), rec), ("oracle", vol(best), oracle), ("equal weight", vol(ews), ew),
            ("recommendations", {"First": len(best)}, counts)]


# ------------------------------------------------------------------ C44
class OnTruth:
    name = "OnTruth"
    needs_data = False
    needs_truth = True

    def usable(self, have_data=False, have_truth=False):
        return have_truth

    def score(self, cov, X_test=None, true_cov=None):
        return cov[0, 0] - true_cov[0, 0]


class OnData(OnTruth):
    name = "OnData"

    def usable(self, have_data=False, have_truth=False):
        return have_data

    def score(self, cov, X_test=None, true_cov=None):
        return cov[1, 1] * X_test[0, 1] + X_test[len(X_test) - 1, 0]


class Fails(OnTruth):
    name = "Fails"

    def score(self, cov, X_test=None, true_cov=None):
        raise ValueError("cannot be scored")


class Never(OnTruth):
    name = "Never"

    def usable(self, have_data=False, have_truth=False):
        return False

    def score(self, cov, X_test=None, true_cov=None):
        raise RuntimeError("not usable")


class Third(Base):
    """Remembers everything it was ever fitted to: only a fresh one is fair."""
    w = 2.0

    def __init__(self):
        self.before = 0.0

    def fit(self, X):
        self.before = self.before + X[0, 0]
        Base.fit(self, X)
        self.covariance_ = self.covariance_ + self.before
        return self


def bake():
    setup()
    bakeoff.all_estimators = lambda: [First, Second, Third]
    bakeoff.all_assessors = lambda: [OnTruth(), OnData(), Fails(), Never()]
    scs = []
    for k, name in enumerate(["a", "b", "c"]):
        m = 6 if k else 5
        scs.append((name, av.rows(m, 2, f"train{k}_"), av.rows(m - 1, 2, f"test{k}_"), av.spd(2, f"truth{k}_")))
    bakeoff.build_scenarios = lambda **kw: [(n, X.copy(), Y.copy(), S.copy()) for n, X, Y, S in scs]
    r = bakeoff.run()
    out = [("estimators", ["First", "Second", "Third"], list(r))]
    for E in (First, Second, Third):
        n = E.__name__
        out.append((f"scenarios of {n}", ["a", "b", "c"], list(r[n])))
        for name, X, Y, S in scs:
            c = E().fit(X).covariance_
            s = r[n][name]
            out.append((f"{n} {name} assessors", {"OnTruth", "OnData", "Fails"}, set(s)))
            out.append((f"{n} {name} on the truth", c[0, 0] - S[0, 0], s["OnTruth"]))
            out.append((f"{n} {name} on the test rows", c[1, 1] * Y[0, 1] + Y[len(Y) - 1, 0], s["OnData"]))
            out.append((f"{n} {name} failed", True, s["Fails"] == float("-inf")))
    return out


def bake_rows(v, what):
    """With other test rows or another truth nothing fitted changes."""
    setup()
    bakeoff.all_assessors = lambda: [OnTruth(), OnData()]
    Y, S = av.rows(4, 2, "y"), av.spd(2, "s")
    if v == "B" and what == "test":
        Y = av.rows(6, 2, "other")
    if v == "B" and what == "truth":
        S = av.spd(2, "other")
    bakeoff.build_scenarios = lambda **kw: [("a", av.rows(5, 2), Y, S)]
    bakeoff.run()
    return [("fits", len(kept("fit")))] + [(f"fit {i}", e) for i, e in enumerate(kept("fit"))]


def scenario_rows(v, what):
    """Scenarios: training and test rows are separate draws."""
    setup()
    tags = {5: "t"}
    if v == "B":
        tags = {5: "t", 8: "other", 4: "other", 60: "other"} if what == "train" else {5: "other"}
    scs = bakeoff.build_scenarios(d=3, n=8, n_test=5, seed=Rng(tags))
    return [("scenarios", len(scs))] + [(f"{n} {'test' if what == 'train' else 'train'} rows",
                                         (te if what == "train" else tr)[:, :3]) for n, tr, te, c in scs]


def scenario_truth():
    """The truth of a scenario is the covariance its test rows were drawn from."""
    setup()
    rng = Rng()
    scs = bakeoff.build_scenarios(d=3, n=8, n_test=5, seed=rng)
    drawn = [c for n, c in rng.covs if n == 5]
    out = [("one test set each", len(scs), len(drawn))]
    for (n, tr, te, c), d in zip(scs, drawn):
        k = 3.0 / 5.0 if n == "heavy_tailed" else 1.0
        out.append((f"truth of {n}", c * k, d))
        out.append((f"test rows of {n}", 5, len(te)))
    return out


TABLES = [
    {"u": {"s1": 3.0, "s2": 1.0, "s3": 2.0}, "v": {"s1": 2.0, "s2": 2.0, "s3": 1.0}, "w": {"s1": 1.0, "s2": 3.0, "s3": 3.0}},
    {"u": {"s1": -1.0, "s2": -3.0}, "v": {"s1": float("-inf"), "s2": -1.0}, "w": {"s1": -2.0, "s2": -2.0}},
    {"u": {"s1": 0.0, "s2": float("-inf")}, "v": {"s1": 0.5, "s2": 0.1}, "w": {"s1": 0.25, "s2": 0.2}},
    {"u": {"s1": -5.0}, "v": {"s1": -4.0}, "w": {"s1": None}},
]


def boards(k):
    """Leaderboard and winners: higher is better, a failed or missing score comes last."""
    t = TABLES[k]
    names = list(t)
    cells = list(t["u"])
    primary = "Main"
    res = {n: {c: ({} if t[n][c] is None else {primary: t[n][c], "Other": 1.0}) for c in cells} for n in names}
    inf = float("-inf")
    val = {n: {c: inf if t[n][c] is None else t[n][c] for c in cells} for n in names}
    avg = {}
    for n in names:
        total = 0
        for c in cells:
            total = total + 1 + len([m for m in names if val[m][c] > val[n][c]
                                     or val[m][c] == val[n][c] and names.index(m) < names.index(n)])
        avg[n] = total / len(cells)
    text = bakeoff.leaderboard(res, primary=primary)
    rows = [ln.split() for ln in text.split("\n")]
    rows = [r for r in rows if r and r[0] in names]
    out = [("rows", len(names), len(rows))]
    for i, r in enumerate(rows):
        out.append((f"average rank of {r[0]}", f"{avg[r[0]]:.2f}", r[1]))
        if i:
            out.append((f"row {i} is not better than row {i - 1}", True, avg[rows[i - 1][0]] <= avg[r[0]]))
    wins = bakeoff.per_scenario_winners(res, primary=primary)
    rows = [ln.split() for ln in wins.split("\n")]
    rows = {r[0]: r[-1] for r in rows if len(r) == 3 and r[0] in cells}
    for c in cells:
        best = names[0]
        for n in names[1:]:
            if val[n][c] > val[best][c]:
                best = n
        out.append((f"winner of {c}", best, rows.get(c)))
    return out


# ------------------------------------------------------------------ C45
class Paper:
    """Where the exporter writes."""

    def __init__(self):
        self.text = None

    def write_text(self, text, **kw):
        self.text = text
        return len(text)


class Tree:
    pass


class Clf:
    pass


def exported(proportions, weights):
    """The tables written for a small tree, whichever way the library reports its counts."""
    t = Tree()
    t.feature = np.array([2, 0, -2, -2, -2])
    t.threshold = np.array([12345.6789012, -0.0001234567, -2.0, -2.0, -2.0])
    t.children_left = np.array([1, 2, -1, -1, -1])
    t.children_right = np.array([4, 3, -1, -1, -1])
    counts = [[12, 9, 19], [12, 3, 5], [11, 1, 0], [1, 2, 5], [0, 6, 14]]
    t.n_node_samples = np.array([sum(c) for c in counts])
    t.weighted_n_node_samples = np.array([float(sum(c)) for c in counts])
    t.value = np.array([[[v / sum(c) if proportions else float(v) for v in c]] for c in counts])
    t.node_count = 5
    t.n_outputs = 1
    clf = Clf()
    clf.tree_ = t
    clf.classes_ = np.array(["EwaCovariance", "HuberCovariance", "LedoitWolfCovariance"])
    clf.n_classes_ = 3
    out = Paper()
    trainer._OUT = out
    mean = np.array([0.5, 12345678.1234567, -0.1234567, 0.0000123456, 5.0, -987.654321, 7.0])
    std = np.array([1.5, 22.2512345, 3.0, 40000.1234567, 5.0, 0.0654321, 0.0000001])
    trainer.export(clf, mean, std)
    m = av.tables(out.text)
    known = list(trainer.FEATURES)
    return [("features", known, m["FEATURES"]), ("classes", ["EwaCovariance", "HuberCovariance", "LedoitWolfCovariance"],
                                                 [str(c) for c in m["CLASSES"]]),
            ("split features", [2, 0, -2, -2, -2], m["FEATURE"]),
            ("left children", [1, 2, -1, -1, -1], m["LEFT"]), ("right children", [4, 3, -1, -1, -1], m["RIGHT"]),
            ("thresholds", True, close(m["THRESHOLD"], t.threshold)), ("mean", True, close(m["MEAN"], mean)),
            ("scale", True, close(m["STD"], std))] + \
        [(f"counts of leaf {k}", counts[k], m["VALUE"][k]) for k in (2, 3, 4)]


def close(a, b):
    return len(a) == len(b) and all([abs(a[i] - b[i]) < 6e-7 for i in range(len(a))])
