"""The synthetic families of the studies, for every random draw (C55)."""
import numpy as np

import research.bakeoff as bakeoff
import research.oos as oos
import av
from lib import attempt


class Draws:
    """A generator whose continuous draws are symbols; Gaussian rows carry the covariance they were asked for."""

    def __init__(self, name="z"):
        self.k = 0
        self.name = name
        self.means = []

    def tag(self):
        self.k = self.k + 1
        return f"{self.name}{self.k}_"

    def shape(self, size):
        return (size,) if not isinstance(size, tuple) else size

    def filled(self, size, cell):
        if size is None:
            return cell(0)
        s = self.shape(size)
        n = 1
        for d in s:
            n = n * d
        return np.array([cell(i) for i in range(n)]).reshape(s)

    def standard_normal(self, size=None):
        t = self.tag()
        return self.filled(size, lambda i: av.sym(f"{t}n{i}", "data"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        t = self.tag()
        return self.filled(size, lambda i: low + (high - low) * av.sym(f"{t}u{i}", "unit", lo=0.0, hi=1.0))

    def random(self, size=None):
        return self.filled(size, lambda i: 0.01 if i == 6 else 0.5)

    def integers(self, low, high=None, size=None):
        return 0 if high is None else low

    def chisquare(self, df, size=None):
        """Row i gets (1 + i) times the value at which the scale mixture has the mean weight."""
        return self.filled(size, lambda i: (df - 2.0) * (1.0 + i))

    def multivariate_normal(self, mean, cov, size=None):
        """A row of ones, then the rows of the covariance over and over."""
        self.means.append(np.array(mean))
        p = len(cov)
        return np.array([[1.0] * p if i == 0 else [cov[(i - 1) % p, j] for j in range(p)] for i in range(size)])


def law(rows, heavy, first=0):
    """The covariance rows were drawn with, as Draws coded it: all of it or the rows there are."""
    p = len(rows[0])
    w = [np.sqrt(1.0 + i) if heavy else 1.0 for i in range(len(rows))]
    k = rows[0][0] * w[0]
    return np.array([[rows[i][j] * w[i] * k for j in range(p)] for i in range(1, min(len(rows), p + 1))])


def member(name, p):
    """One family of the recommender studies: what its name says, for every draw."""
    gen, heavy = oos.ENSEMBLES[name]
    c = np.asarray(gen(p, Draws()))
    out = [("shape", (p, p), c.shape), ("symmetric", c.T, c), ("heavy tails", name.endswith("_heavy"), bool(heavy)),
           ("positive definite", True, bool(np.linalg.eigvalsh(c)[0] > 0.0))]
    off = [(i, j) for i in range(p) for j in range(i)]
    if "equicorr" in name or "ar1" in name:
        out.append(("unit variances", np.ones(p), np.diag(c)))
        out.append(("correlated", True, bool(0.0 < c[0, 1] < 1.0)))
    if "equicorr" in name:
        for i, j in off:
            out.append((f"one correlation {i},{j}", c[1, 0], c[i, j]))
    if "ar1" in name:
        for i, j in off:
            out.append((f"decay {i},{j}", c[1, 0] ** (i - j), c[i, j]))
    if "diag" in name:
        for i, j in off:
            out.append((f"uncorrelated {i},{j}", 0.0, c[i, j]))
    if "one_factor" in name:
        for i in range(2, p):
            for j in range(i + 1, p):
                out.append((f"one factor {i},{j}", c[0, i] * c[1, j], c[0, j] * c[1, i]))
        out.append(("more than the factor", True, bool(c[0, 0] > c[0, 1] * c[0, 2] / c[1, 2])))
    if "three_factor" in name and p >= 8:
        far = c[0:4, 4:8]
        out.append(("three factors", True, bool(abs(np.linalg.det(far)) <= 1e-9 * np.linalg.norm(far) ** 4)))
    if "spiked" in name:
        w = np.linalg.eigvalsh(c)
        for i in range(1, p - 3):
            out.append((f"bulk {i}", w[0], w[i]))
        out.append(("spikes", True, bool(w[p - 3] > w[p - 4])))
    return out


def names():
    return [("families", 6, min(6, len(oos.ENSEMBLES)))] + [
        (f"{n} there", True, any(n in k for k in oos.ENSEMBLES))
        for n in ("equicorr", "one_factor", "three_factor", "ar1", "spiked", "diag")] + [
        ("heavy tails among them", True, any(bool(h) for g, h in oos.ENSEMBLES.values())),
        ("light tails among them", True, any(not h for g, h in oos.ENSEMBLES.values()))]


def sampled(p, n, heavy):
    """Rows drawn for a covariance have that covariance and mean zero, heavy tails or not."""
    c = av.spd(p, "S")
    keep = c.copy()
    rng = Draws()
    X = oos._sample(c, n, rng, heavy)
    out = [("shape", (n, p), X.shape), ("covariance", keep[:min(n - 1, p)], law(X, heavy)), ("argument untouched", keep, c)]
    for m in rng.means:
        out.append(("mean", np.zeros(p), m))
    return out


def scenarios(d, n, n_test):
    """The bake-off's scenarios: training and test rows follow the stated truth."""
    rng = Draws()
    scs = bakeoff.build_scenarios(d=d, n=n, n_test=n_test, seed=rng)
    out = []
    for name, train, test, true in scs:
        p = len(true)
        heavy = "heavy" in name
        out.append((f"{name}: symmetric", true.T, true))
        if p <= 6:
            out.append((f"{name}: positive definite", True, bool(np.linalg.eigvalsh(true)[0] > 0.0)))
        out.append((f"{name}: width", (p, p), (train.shape[1], test.shape[1])))
        out.append((f"{name}: test rows", true[:min(n_test - 1, p)], law(test, heavy)))
        if name == "regime_change":
            h = len(train) // 2
            out.append((f"{name}: latest training rows", true[:min(h - 1, p)], law(train[h:], heavy)))
            out.append((f"{name}: the law changes", True, bool(np.max(np.abs(law(train[:h], heavy) - true[:min(h - 1, p)])) > 0.1)))
        elif name == "contaminated":
            out.append((f"{name}: clean training rows", true[:min(5, p)], law(train[:6], heavy)))
        else:
            out.append((f"{name}: training rows", true[:min(len(train) - 1, p)], law(train, heavy)))
    for i, m in enumerate(rng.means):
        out.append((f"mean {i}", np.zeros(len(m)), m))
    return out
