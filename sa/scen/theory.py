"""Driver programs over the judge-power study (C46) and the Schur-likelihood theory (C47)."""
import math

import numpy as np

import research.metric_power as power
import research.schur_gamma_star as star
import research.schur_godambe as godambe
import research.schur_likelihood_theory as theory
import research.schur_spiked as spiked
import av
import spec


def logdet(a):
    """Log-determinant of a positive definite matrix by elimination."""
    p = len(a)
    m = [[a[i, j] for j in range(p)] for i in range(p)]
    total = 0.0
    for k in range(p):
        total = total + np.log(m[k][k])
        for i in range(k + 1, p):
            f = m[i][k] / m[k][k]
            for j in range(k, p):
                m[i][j] = m[i][j] - f * m[k][j]
    return total


def trace(a):
    return sum([a[i, i] for i in range(len(a))])


def mul(a, b):
    return np.array([[sum([a[i, k] * b[k, j] for k in range(len(b))]) for j in range(b.shape[1])] for i in range(len(a))])


def quad(x, a):
    return sum([x[i] * a[i, j] * x[j] for i in range(len(x)) for j in range(len(x))])


def mean(v):
    return sum(v) / len(v)


def gauss(c, X):
    """Mean zero-mean Gaussian log-likelihood without its constant."""
    q = spec.inverse(c)
    return mean([-0.5 * logdet(c) - 0.5 * quad(x, q) for x in X])


def scatter(X):
    """Population covariance of the rows, centred."""
    m, c = spec.mean_cov([x for x in X])
    return c


def project(a, ratio=1e-3):
    w, V = np.linalg.eigh((a + a.T) / 2)
    top = w[len(w) - 1]
    w = [np.maximum(x, ratio * top) for x in w]
    p = len(a)
    return np.array([[sum([V[i, k] * w[k] * V[j, k] for k in range(p)]) for j in range(p)] for i in range(p)])


def sub(a, rows, cols):
    return np.array([[a[i, j] for j in cols] for i in rows])


# ------------------------------------------------------------------ C46: the judges' formulas
def judges(p, n):
    C, T, X = av.spd(p, "c"), av.spd(p, "t"), av.rows(n, p)
    S = scatter(X)
    Q = spec.inverse(C)
    out = [("likelihood", gauss(C, X), power._loglik(C, X)),
           ("divergence from the truth", 0.5 * (trace(mul(Q, T)) - p + logdet(C) - logdet(T)), power._kl(T, C)),
           ("Frobenius", -math.sqrt(sum([(C[i, j] - S[i, j]) ** 2 for i in range(p) for j in range(p)])),
            power._frobenius(C, X)),
           ("calibration", -abs(mean([quad(x, Q) for x in X]) - p), power._mahalanobis_cal(C, X))]
    if n > p:
        w = np.linalg.eigvalsh(S)
        full = bool(w[0] > 1e-6 * w[p - 1])  # the sample covariance of rows in general position
        out.append(("Stein", -(trace(mul(Q, S)) - (logdet(S) - logdet(C)) - p) if full else 0.0,
                    power._stein(C, X) if full else 0.0))
    w = [sum([Q[i, j] for j in range(p)]) for i in range(p)]
    total = sum(w)
    out.append(("minimum variance", -mean([sum([x[i] * w[i] for i in range(p)]) ** 2 / total ** 2 for x in X]),
                power._min_variance(C, X)))
    R = np.array([[av.sym(f"d{r}_{j}", "data") for j in range(p)] for r in range(3)])
    lls = []
    for d in R:
        v = quad(d, C)
        for x in X:
            z = sum([x[i] * d[i] for i in range(p)])
            lls.append(-0.5 * np.log(v) - 0.5 * z * z / v)
    out.append(("random projection", mean(lls), power._random_projection(C, X, R)))
    table = {"loglik": power._loglik(C, X), "frobenius": power._frobenius(C, X), "stein": None,
             "random_proj": power._random_projection(C, X, R), "min_variance": power._min_variance(C, X),
             "maha_calib": power._mahalanobis_cal(C, X)}
    out.append(("judges offered", set(table), set(power.METRICS)))
    for k, v in table.items():
        if v is not None:
            out.append((f"judge {k}", v, power.METRICS[k](C, X, R)))
    return out


def projections(p, k, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    Ws = [np.array([[av.sym(f"w{s}_{i}_{j}", "data") for j in range(p)] for i in range(k)]) for s in range(2)]
    want = []
    for W in Ws:
        D = mul(mul(W, C), W.T)
        want.append(gauss(D, mul(X, W.T)))
    return [("joint projection score", mean(want), power._kproj_loglik(C, X, Ws))]


def blockwise(p, b, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    want = 0.0
    for s in range(0, p, b):
        idx = list(range(s, min(s + b, p)))
        want = want + gauss(project(sub(C, idx, idx)), np.array([[x[i] for i in idx] for x in X])) \
            - 0.5 * len(idx) * math.log(2 * math.pi)
    out = [("block pseudo-likelihood", want, power.block_pseudo_loglik(C, X, b))]
    if b >= p:
        out.append(("one block is the full likelihood", gauss(project(C), X) - 0.5 * p * math.log(2 * math.pi),
                    power.block_pseudo_loglik(C, X, b)))
    return out


def damped(p, ids, n):
    C, X = av.spd(p, "c"), av.rows(n, p)
    before = C.copy()
    g = av.sym("g", "unit", lo=0.0, hi=1.0)
    D = np.array([[C[i, j] * (1.0 if ids[i] == ids[j] else g) for j in range(p)] for i in range(p)])
    return [("coupling-damped likelihood", gauss(project(D), X), power._schur_loglik(C, X, np.array(ids), g)),
            ("candidate untouched", before, C)]


def projecting(p):
    C = av.spd(p, "c")
    d = [av.sym(f"s{i}", "data") for i in range(p)]
    A = C - np.array([[d[i] * d[j] for j in range(p)] for i in range(p)])
    return [("projection to positive definite", project(A), power._project_pd(A))]


# ------------------------------------------------------------------ C46: fairness of the comparisons
class Gen:
    """A generator handing out fixed and symbolic draws, remembering what the test rows were drawn from."""

    def __init__(self, rows="x"):
        self.k = 0
        self.rows = rows
        self.drawn = []

    def next(self):
        self.k = self.k + 1
        return self.k

    def fixed(self, n):
        k = self.next()
        return [((i * 7 + k * 3 + i * i * k) % 11 - 4.5) / 3.0 for i in range(n)]

    def standard_normal(self, size=None):
        if size is None:
            return self.fixed(1)[0]
        if isinstance(size, tuple):
            v = self.fixed(size[0] * size[1])
            return np.array([[v[i * size[1] + j] for j in range(size[1])] for i in range(size[0])])
        return np.array(self.fixed(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        v = [lo + (hi - lo) * (x + 1.5) / 3.7 for x in self.fixed(1 if size is None else size)]
        return v[0] if size is None else np.array(v)

    def choice(self, a, size=None):
        return a[self.next() % len(a)]

    def permutation(self, n):
        k = self.next()
        return np.array([(i * (n - 1) + k) % n for i in range(n)])

    def multivariate_normal(self, mean, cov, size=None):
        self.drawn.append((mean, np.array(cov), size))
        return av.rows(size, len(cov), self.rows + str(len(self.drawn)) + "_")

    def __add__(self, k):
        return self


SEEN = []
NOW = []


def watch(score, C, X, *rest):
    """Remember what a judge is shown and in which trial (the number of test samples drawn so far)."""
    SEEN.append((len(NOW[0].drawn) - 1, C, np.array(X), rest))
    return score(C, X)


def begin():
    del SEEN[:]
    del NOW[:]
    NOW.append(Gen())
    return NOW[0]


def candidates(t):
    """The matrices judged in trial t, each once."""
    out = []
    for e in SEEN:
        if e[0] == t and not any([e[1] is c for c in out]):
            out.append(e[1])
    return out


def kl(T, C):
    return 0.5 * (trace(mul(spec.inverse(C), T)) - len(T) + logdet(C) - logdet(T))


def paired(trials, grid, sign):
    """Every judge of a trial sees the same two candidates on the same rows and directions; the power is the fraction of
    trials in which the one closer to the truth scores higher."""
    rng = begin()

    def score(C, X):
        return sign * X[len(X) - 1, 0] * C[0, 0]
    power.METRICS = {"one": lambda C, X, d: watch(score, C, X, d), "two": lambda C, X, d: -watch(score, C, X, d)}
    pw, gap, ng = power.run(p=2, n_grid=grid, trials=trials, n_dirs=3, min_gap=0.0, seed=rng)
    out = [("draws", trials, len(rng.drawn)), ("sample sizes", list(grid), list(ng)), ("judges", ["one", "two"], list(pw)),
           ("judgements", trials * len(grid) * 4, len(SEEN))]
    gaps = []
    wins = {n: 0.0 for n in grid}
    for t in range(trials):
        m, T, size = rng.drawn[t]
        out.append((f"trial {t} mean", np.zeros(2), m))
        X = av.rows(max(grid), 2, f"x{t + 1}_")
        mine = [e for e in SEEN if e[0] == t]
        two = candidates(t)
        out.append((f"trial {t} candidates", 2, len(two)))
        for n in grid:
            here = [e for e in mine if len(e[2]) == n]
            out.append((f"trial {t} judgements at {n}", [2, 2], [len([e for e in here if e[1] is c]) for c in two]))
            for e in here:
                out.append((f"trial {t} n={n} rows", X[:n], e[2]))
                out.append((f"trial {t} n={n} directions", mine[0][3][0], e[3][0]))
        for d in mine[0][3][0]:
            out.append((f"trial {t} direction length", 1.0, sum([v * v for v in d])))
        a, b = two if kl(T, two[0]) <= kl(T, two[1]) else (two[1], two[0])
        gaps.append(kl(T, b) - kl(T, a))
        for n in grid:
            wins[n] = wins[n] + (1.0 if score(a, X[:n]) > score(b, X[:n]) else 0.0)
    for n in grid:
        out.append((f"power at {n}", wins[n] / trials, pw["one"][n]))
    out.append(("mean gap", mean(gaps), gap))
    return out


def tied(gap):
    """Pairs closer than the least gap are left out; a judge that cannot tell the two apart wins nothing."""
    rng = begin()
    power.METRICS = {"one": lambda C, X, d: watch(lambda C, X: 1.0, C, X, d)}
    pw, g, ng = power.run(p=2, n_grid=(2, 3), trials=6, n_dirs=2, min_gap=gap, seed=rng)
    out = [("a judge that cannot tell", [0.0, 0.0], [pw["one"][n] for n in (2, 3)]), ("mean gap is enough", True, bool(g >= gap)),
           ("judged", len(rng.drawn) * 4, len(SEEN))]
    for t in range(len(rng.drawn)):
        a, b = candidates(t)
        T = rng.drawn[t][1]
        out.append((f"pair {t} is far enough apart", True, bool(abs(kl(T, a) - kl(T, b)) >= gap)))
    return out


def perfect(study, gap):
    """A judge that knows the truth wins every trial that counts, however many pairs are left out as tied."""
    rng = begin()

    def oracle(C, X, *rest):
        return -kl(rng.drawn[len(rng.drawn) - 1][1], C)
    if study == "run":
        power.METRICS = {"one": lambda C, X, d: watch(oracle, C, X)}
        pw, g, ng = power.run(p=2, n_grid=(2, 3), trials=6, n_dirs=2, min_gap=gap, seed=rng)
        won = [pw["one"][n] for n in (2, 3)]
    else:
        power._kproj_loglik = lambda C, X, subspaces: watch(oracle, C, X)
        pw, g = power.projection_power(p=2, k_list=(1, None), total_dirs=2, n_test=3, trials=6, min_gap=gap,
                                       eps_good=0.15, eps_bad=0.32, seed=rng)
        won = [pw[1], pw[None]]
    out = [("a judge that knows", [1.0, 1.0], won), ("judged", len(rng.drawn) * 4, len(SEEN)),
           ("some pairs count", True, len(rng.drawn) > 0)]
    gaps = []
    for t in range(len(rng.drawn)):
        a, b = candidates(t)
        T = rng.drawn[t][1]
        gaps.append(abs(kl(T, a) - kl(T, b)))
        out.append((f"pair {t} is far enough apart", True, bool(gaps[t] >= gap)))
    return out + [("mean gap", mean(gaps), g)]


def swap_judges():
    """Replace the scores by recording ones; a candidate's score reads its corner and the last row."""
    rng = begin()

    def score(C, X):
        return X[len(X) - 1, 0] * C[0, 0]
    power._loglik = lambda C, X: watch(score, C, X, "likelihood")
    power._stein = lambda C, X: watch(score, C, X, "stein")
    power._frobenius = lambda C, X: watch(score, C, X, "frobenius")
    power._kproj_loglik = lambda C, X, subspaces: watch(score, C, X, "projection", subspaces)
    power._schur_loglik = lambda cov, X, block_id, gamma: watch(score, cov, X, "coupling", block_id, gamma)
    power.block_pseudo_loglik = lambda cov, X, block_size: watch(score, cov, X, "blocks", block_size)
    return rng, score


def bulk_error(T, C, bulk):
    """Error of a candidate within the leading eigenvectors of the truth."""
    w, V = np.linalg.eigh(T)
    p = len(T)
    U = V[:, p - bulk:]
    return np.sum(mul(mul(U.T, C - T), U) ** 2)


def group_error(T, C, k):
    """Error of a candidate on the pairs the truth couples."""
    p = len(T)
    return sum([(C[i, j] - T[i, j]) ** 2 for i in range(p) for j in range(p) if i != j and abs(T[i, j]) > 1e-9])


STUDIES = {
    "projection": (lambda s: power.projection_power(p=3, k_list=(1, 2, None), total_dirs=4, n_test=3, trials=2, min_gap=0.0,
                                                    seed=s)[0], 3, lambda T, C: kl(T, C)),
    "noisy tail": (lambda s: power.proof_high_dim(p=4, bulk=2, k_list=(1, None), n_test=3, trials=2, seed=s), 5,
                   lambda T, C: bulk_error(T, C, 2)),
    "coupling": (lambda s: power.schur_power(p=4, g=2, sig_cross=0.02, gammas=(0.0, 1.0), n_test=3, trials=2, seed=s), 3,
                 lambda T, C: group_error(T, C, 2)),
    "blocks, noisy tail": (lambda s: power.pseudo_likelihood_power("noisy_tail", block_sizes=(2, None), p=4, bulk=2, n_test=3,
                                                                   trials=2, seed=s), 4, lambda T, C: bulk_error(T, C, 2)),
    "blocks, clean": (lambda s: power.pseudo_likelihood_power("clean", block_sizes=(2, None), p=3, bulk=2, n_test=3,
                                                              trials=2, seed=s), 4, lambda T, C: kl(T, C)),
}


def same_sample(name):
    """Both candidates of a comparison are judged on the one sample drawn from the truth in that trial, by the same judge."""
    rng, score = swap_judges()
    run, per, error = STUDIES[name]
    pw = run(rng)
    out = [("judges", per, len(pw)), ("comparisons", 4 * per, len(SEEN)), ("samples", 2, len(rng.drawn))]
    wins = 0.0
    for t in range(len(rng.drawn)):
        m, T, size = rng.drawn[t]
        p = len(T)
        out.append((f"trial {t} mean", np.zeros(p), m))
        X = av.rows(size, p, f"x{t + 1}_")
        mine = [e for e in SEEN if e[0] == t]
        two = candidates(t)
        out.append((f"trial {t} candidates", 2, len(two)))
        for e in mine:
            out.append((f"trial {t} rows shown to {e[3][0]}", X, e[2]))
        left = [e for e in mine if e[1] is two[0]]
        right = [e for e in mine if e[1] is two[1]]
        out.append((f"trial {t} each judge sees both", [e[3][0] for e in left], [e[3][0] for e in right]))
        for a, b in zip(left, right):
            out.append((f"trial {t} settings of {a[3][0]}", list(a[3]), list(b[3])))
        a, b = two if error(T, two[0]) <= error(T, two[1]) else (two[1], two[0])
        wins = wins + (1.0 if score(a, X) > score(b, X) else 0.0)
    for k in pw:
        out.append((f"power of {k}", wins / 2, pw[k]))
    return out


def subspaces(p, k, n):
    """Projection matrices have orthonormal rows."""
    out = [("how many", n, len(power._random_subspaces(p, k, n, Gen())))]
    for i, W in enumerate(power._random_subspaces(p, k, n, Gen())):
        out.append((f"subspace {i}", np.eye(k), mul(W, W.T)))
    return out


# ------------------------------------------------------------------ C47: the Schur-likelihood theory
def layout(sizes):
    out = []
    s = 0
    for k in sizes:
        out.append(list(range(s, s + k)))
        s = s + k
    return out


def operator(C, sizes, g):
    """The quadratic form and log-determinant of the damped block factorization."""
    p = sum(sizes)
    W = [[0.0 for j in range(p)] for i in range(p)]
    ld = 0.0
    prev = []
    for rows in layout(sizes):
        S = sub(C, rows, rows)
        T = [[1.0 if j == i else 0.0 for j in range(p)] for i in rows]
        if prev:
            B = mul(sub(C, rows, prev), spec.inverse(sub(C, prev, prev)))
            S = S - g * mul(B, sub(C, prev, rows))
            for a in range(len(rows)):
                for b in range(len(prev)):
                    T[a][prev[b]] = -g * B[a, b]
        Q = spec.inverse(S)
        ld = ld + logdet(S)
        T = np.array(T)
        M = mul(mul(T.T, Q), T)
        W = [[W[i][j] + M[i, j] for j in range(p)] for i in range(p)]
        prev = prev + rows
    return np.array(W), ld


def unit(name="u"):
    return av.sym(name, "unit", lo=0.0, hi=1.0)


def schur_operator(sizes):
    C = av.spd(sum(sizes), "c")
    p = sum(sizes)
    g = unit()
    W, ld = operator(C, sizes, g)
    w, l = godambe.schur_operator(C, sizes, g)
    out = [("operator", W, w), ("log-determinant", ld, l)]
    w, l = godambe.schur_operator(C, sizes, 1.0)
    out += [("full coupling is the inverse", spec.inverse(C), w), ("full log-determinant", logdet(C), l)]
    w, l = godambe.schur_operator(C, sizes, 0.0)
    D = [[0.0 for j in range(p)] for i in range(p)]
    total = 0.0
    for rows in layout(sizes):
        Q = spec.inverse(sub(C, rows, rows))
        total = total + logdet(sub(C, rows, rows))
        for a in range(len(rows)):
            for b in range(len(rows)):
                D[rows[a]][rows[b]] = Q[a, b]
    return out + [("no coupling inverts each block", np.array(D), w), ("sum of block log-determinants", total, l)]


def expected(sizes):
    C, T = av.spd(sum(sizes), "c"), av.spd(sum(sizes), "t")
    g = unit()
    W, ld = operator(C, sizes, g)
    out = [("expected likelihood", -0.5 * (ld + trace(mul(W, T))), theory.expected_schur_loglik(T, C, sizes, g))]
    p = sum(sizes)
    out.append(("full coupling", -0.5 * (logdet(C) + trace(mul(spec.inverse(C), T))),
                theory.expected_schur_loglik(T, C, sizes, 1.0)))
    w, l = godambe.schur_operator(C, sizes, g)
    out.append(("agrees with the operator", -0.5 * (l + np.trace(w @ T)), theory.expected_schur_loglik(T, C, sizes, g)))
    return out


def improper(p, k):
    """A candidate whose damped conditional covariance is not positive definite scores minus infinity."""
    C, T = av.spd(p, "c"), av.spd(p, "t")
    D = np.array(C)
    D[p - 1, p - 1] = -D[p - 1, p - 1]
    return [("not positive definite", True, theory.expected_schur_loglik(T, D, [p - 1, 1], 0.5) == float("-inf"))]


def maximizer(sizes):
    T = av.spd(sum(sizes), "t")
    g = 0.05 + 0.95 * unit()
    C = theory.closed_form_general(T, sizes, g)
    out = [("symmetric", C, C.T), ("at full coupling it is the truth", T, theory.closed_form_general(T, sizes, 1.0))]
    prev = []
    for rows in layout(sizes):
        if not prev:
            out.append(("first block", sub(T, rows, rows), sub(C, rows, rows)))
        else:
            B = mul(sub(T, rows, prev), spec.inverse(sub(T, prev, prev)))
            S = sub(T, rows, rows) - mul(B, sub(T, prev, rows))
            G = mul(sub(C, rows, prev), spec.inverse(sub(C, prev, prev)))
            out.append((f"regression of block from {rows[0]}", B, g * G))
            out.append((f"conditional covariance of block from {rows[0]}", S, sub(C, rows, rows) - g * mul(G, sub(C, prev, rows))))
        prev = prev + rows
    return out


def scalar():
    a, s = av.sym("a", "pos", lo=1e-6), av.sym("s", "pos", lo=1e-6)
    b = av.sym("b", "data")
    g = 0.05 + 0.95 * unit()
    A, C, D = theory.closed_form_maximizer(a, b, s, g)
    out = [("effective coefficient", b, g * C / A), ("conditional variance", s, D - g * C * C / A), ("marginal variance", a, A),
           ("inflated coupling", b * a / g, C), ("inflated variance", b * b * a + s + b * b * a * (1.0 / g - 1.0), D),
           ("positive definite exactly when", bool(A * D - C * C > 0), bool(theory.spd_threshold_holds(a, b, s, g)))]
    c = av.spd(2, "c")
    T = np.array([[a, b * a], [b * a, b * b * a + s]])
    W, ld = operator(c, [1, 1], g)
    out.append(("population likelihood", -0.5 * (ld + trace(mul(W, T))),
                theory.schur_loglik_population(a, b, s, g, c[0, 0], c[0, 1], c[1, 1])))
    out.append(("an impossible variance scores minus infinity", True,
                theory.schur_loglik_population(a, b, s, g, -c[0, 0], c[0, 1], c[1, 1]) == float("-inf")))
    out.append(("an impossible conditional variance scores minus infinity", True,
                theory.schur_loglik_population(a, b, s, g, c[0, 0], c[0, 1], -c[1, 1]) == float("-inf")))
    r = 0.05 + 0.9 * unit("rho")
    t = theory._solve_spd_threshold(r)
    out.append(("threshold", (1.0 - t) * r, t * t * (1.0 - r)))
    out.append(("threshold inside", True, bool(0.0 < t) and bool(t < 1.0)))
    return out


def ratio(sizes):
    p = sum(sizes)
    A, B, T = av.spd(p, "a"), av.spd(p, "b"), av.spd(p, "t")
    g = unit()
    (WA, la), (WB, lb) = operator(A, sizes, g), operator(B, sizes, g)
    M = mul(WA - WB, T)
    mu = -0.5 * (la - lb + trace(M))
    var = 0.5 * trace(mul(M, M))
    return [("discrimination ratio", mu / np.sqrt(var), godambe.snr(A, B, T, sizes, g)),
            ("the other way round", -mu / np.sqrt(var), godambe.snr(B, A, T, sizes, g)),
            ("divergence", kl(T, A), godambe._kl(A, T))]


def sampled(sizes, n, where):
    """The Monte-Carlo check measures the same score difference on rows drawn from the truth."""
    p = sum(sizes)
    A, B, T = av.spd(p, "a"), av.spd(p, "b"), av.spd(p, "t")
    g = unit()
    rng = Gen()
    got = godambe.snr_montecarlo(A, B, T, sizes, g, n=n, seed=rng)
    (WA, la), (WB, lb) = operator(A, sizes, g), operator(B, sizes, g)
    X = av.rows(n, p, "x1_")
    d = [-0.5 * (la - lb + quad(x, WA) - quad(x, WB)) for x in X]
    m = mean(d)
    return [("sampled ratio", m / np.sqrt(mean([(v - m) ** 2 for v in d])), got), ("drawn from the truth", T, rng.drawn[0][1]),
            ("about zero", np.zeros(p), rng.drawn[0][0])]


def gaps(sizes):
    p = sum(sizes)
    S, T = av.spd(p, "s"), av.spd(p, "t")
    g, x, y = unit(), unit("x"), unit("y")
    t = trace(S) / p
    A, B = [np.array([[(1.0 - k) * S[i, j] + (k * t if i == j else 0.0) for j in range(p)] for i in range(p)]) for k in (x, y)]
    a, b = spiked._estimates(S, x, y)
    (WA, la), (WB, lb) = operator(A, sizes, g), operator(B, sizes, g)
    n = av.sym("n", "pos", lo=1.0)
    G = av.spd(p, "q")
    M = mul(G, T)
    return [("first estimate", A, a), ("second estimate", B, b),
            ("score gap", -0.5 * (la - lb + trace(mul(WA - WB, T))), spiked._score_gap(S, sizes, g, T, x, y)),
            ("sampling variance of a linear form", 2.0 / n * trace(mul(M, M)), spiked._cov_quadform(G, T, n))]


def delta(sizes):
    """The first-order prediction: value at the truth, variance from the gradient there."""
    p = sum(sizes)
    T = av.spd(p, "t")
    g, x, y = unit(), unit("x"), unit("y")
    n = av.sym("n", "pos", lo=1.0)
    G = spiked._grad_score_gap(T, sizes, g, T, x, y)
    m, s, r = spiked.snr_delta(p, n, sizes, g, x, y, T)
    want = spiked._score_gap(T, sizes, g, T, x, y)
    M = mul(G, T)
    var = 2.0 / n * trace(mul(M, M))
    out = [("mean", want, m), ("spread", np.sqrt(var), s), ("ratio", want / np.sqrt(var) if var > 0 else float("inf"), r)]
    h = 1e-5
    for i in range(p):
        for j in range(i, p):
            E = np.zeros((p, p))
            E[i, j] = h
            E[j, i] = h
            d = (spiked._score_gap(T + E, sizes, g, T, x, y) - spiked._score_gap(T - E, sizes, g, T, x, y)) / (2 * h)
            out.append((f"gradient {i},{j}", d, G[i, j]))
            out.append((f"gradient {j},{i}", d, G[j, i]))
    return out


def trust():
    n = 2.0 + av.sym("n", "pos", lo=1e-3)
    r = 0.02 + 0.96 * unit("rho")
    g = star.gamma_star(n, r)
    a, b, s = star._ab_s_from(r)
    v = s / (a * (n - 2.0))
    out = [("reliability", b * b / (b * b + v), g), ("coupling of the model", r, b * b * a / (b * b * a + s)),
           ("inside", True, bool(g > 0.0) and bool(g < 1.0)), ("no coupling, no trust", 0.0, star.gamma_star(n, 0.0)),
           ("perfect coupling, full trust", 1.0, star.gamma_star(n, 1.0)),
           ("grows with the sample", True, bool(star.gamma_star(n + 1.0, r) > g)),
           ("grows with the coupling", True, bool(star.gamma_star(n, r + 0.01) > g))]

    def loss(k):
        return (b * b * (1.0 - k) ** 2 + k * k * v) * a + s
    for d in (0.01, -0.01):
        out.append((f"best trust is not improved by {d}", True, bool(loss(g + d) > loss(g))))
    return out


class Draws(Gen):
    def normal(self, loc=0.0, scale=1.0, size=None):
        k = self.next()
        return np.array([loc + scale * av.sym(f"e{k}_{i}", "data") for i in range(size)])


def residual(n, draws):
    g, a, s = unit(), av.sym("a", "pos", lo=1e-6), av.sym("s", "pos", lo=1e-6)
    b = av.sym("b", "data")
    got = star.residual_R(g, a, b, s, n, draws, Draws())
    d = Draws()
    total = []
    for k in range(draws):
        x1 = d.normal(0.0, np.sqrt(a), n)
        x2 = b * x1 + d.normal(0.0, np.sqrt(s), n)
        slope = sum([x1[i] * x2[i] for i in range(n)]) / sum([x1[i] * x1[i] for i in range(n)])
        total.append((b - g * slope) ** 2 * a + s)
    return [("predictive residual", mean(total), got)]


def best_trust(n, draws):
    """The simulated optimum is the grid fraction with the least predictive residual on the same kind of draws."""
    r = 0.02 + 0.96 * unit("rho")
    asked = []

    def loss(g, a, b, s, n_, k, rng):
        asked.append((g, a, b, s, n_, k))
        return (g - r) ** 2
    star.residual_R = loss
    got = star.empirical_gamma_star(r, n, n_draws=draws, seed=Gen())
    out = [("best of the grid", True, bool(abs(got - r) <= 0.5 * max([asked[i + 1][0] - asked[i][0] for i in range(50)]) + 1e-9)),
           ("grid starts at no trust", 0.0, asked[0][0]), ("grid ends at full trust", 1.0, asked[len(asked) - 1][0])]
    for g, a, b, s, n_, k in (asked[0], asked[len(asked) - 1]):
        out += [("coupling of the model", r, b * b * a / (b * b * a + s)), ("rows", n, n_), ("draws", draws, k)]
    s = av.sym("s", "pos", lo=1e-6)
    a, b, s2 = star._ab_s_from(r, s)
    return out + [("coupling at another noise level", r, b * b * a / (b * b * a + s2)), ("noise level", s, s2)]


def spiked_model(p, k):
    T, Q, w = godambe._spiked(p, n_spikes=k, spike=12.0, bulk=0.4, seed=Gen())
    return [("eigenvalues", [12.0] * k + [0.4] * (p - k), [x for x in w]), ("orthonormal", np.eye(p), mul(Q.T, Q)),
            ("truth", mul(mul(Q, np.diag(w)), Q.T), T), ("symmetric", T, T.T)]


def pairs_apart(p):
    """Two candidates off the truth in its noise subspace only, one uniformly closer."""
    a, b = 0.05 + 0.2 * unit("ea"), 0.3 + 0.2 * unit("eb")
    T, A, B = godambe._noise_subspace_pair(p, a, b, seed=1)
    DA, DB = A - T, B - T
    w, V = np.linalg.eigh(T)
    top = V[:, p - 3:]
    return [("size of the first error", a * a, np.sum(DA ** 2)), ("same direction", DA / a, DB / b),
            ("nothing in the signal subspace", np.zeros((p, 3)), mul(DA, top)), ("symmetric", A, A.T)]


def finite_pair(p, n):
    rng = Gen()
    made = godambe._spiked
    godambe._spiked = lambda p, seed=0, **k: made(p, seed=Gen(), **k)
    T, A, B, ka, kb = godambe._finite_sample_pair(p, n, seed=rng)
    X = av.rows(n, p, "x1_")
    S = scatter(X)
    t = trace(S) / p
    m, C, size = rng.drawn[0]
    I = np.eye(p)
    w = np.linalg.eigvalsh(S)
    full = bool(w[0] > 1e-6 * w[p - 1])
    return [("drawn from the truth", T, C), ("about zero", np.zeros(p), m), ("well shrunk", 0.5 * S + 0.5 * t * I, A),
            ("under-shrunk", 0.93 * S + 0.07 * t * I, B), ("first divergence", kl(T, A) if full else 0.0, ka if full else 0.0),
            ("second divergence", kl(T, B) if full else 0.0, kb if full else 0.0)]


def gap_of(A, B, T, sizes, g):
    (WA, la), (WB, lb) = operator(A, sizes, g), operator(B, sizes, g)
    return -0.5 * (la - lb + trace(mul(WA - WB, T)))


def general(X):
    """Rows in general position: their sample covariance is comfortably positive definite."""
    w = np.linalg.eigvalsh(scatter(X))
    return bool(w[0] > 1e-3 * w[len(w) - 1]) and bool(w[0] > 1e-6)


def over_draws(p, n, draws):
    """Per fraction, mean, spread and power of the expected score gap over training draws, on estimates of each draw."""
    rng = Gen()
    gs = [1.0, 0.5]
    T0 = godambe._spiked(p, seed=Gen())[0]
    out_, ka, kb = godambe.discrimination_power_over_draws(p, n, gs, n_draws=draws, seed=rng)
    out = [("draws", draws, len(rng.drawn))]
    sizes = [4] * (p // 4)
    D = {g: [] for g in gs}
    KA, KB = [], []
    ok = True
    for k in range(draws):
        m, T, size = rng.drawn[k]
        out += [(f"draw {k} rows", n, size), (f"draw {k} mean", np.zeros(p), m)]
        X = av.rows(n, p, f"x{k + 1}_")
        ok = ok and general(X)
        S = scatter(X)
        A = 0.5 * S + 0.5 * trace(S) / p * np.eye(p)
        B = S + 0.02 * trace(T) / p * np.eye(p)
        for g in gs:
            D[g].append(gap_of(A, B, T, sizes, g))
        KA.append(kl(T, A))
        KB.append(kl(T, B))
    out += [("first divergence", mean(KA) if ok else 0.0, ka if ok else 0.0),
            ("second divergence", mean(KB) if ok else 0.0, kb if ok else 0.0)]
    for g in gs:
        mu = mean(D[g])
        sd = np.sqrt(mean([(d - mu) ** 2 for d in D[g]]))
        pos = mean([1.0 if d > 0 else 0.0 for d in D[g]])
        good = ok and bool(sd > 1e-9 * abs(mu))
        for name, want in (("mean", mu), ("sd", sd), ("snr", mu / sd), ("power", pos)):
            out.append((f"{name} at {g}", want if good else 0.0, out_[g][name] if good else 0.0))
    return out


def structured(trials):
    """Each trial judges the candidate with the smaller within-group error against the other on one sample."""
    rng = begin()

    def op(C, sizes, g):
        SEEN.append((len(rng.drawn) - 1, C, list(sizes), (g,)))
        return C * g, C[0, 0] + C[0, 1] * g
    godambe.schur_operator = op
    gs = (1.0, 0.0)
    sp = godambe.structured_power_over_draws(p=4, g=2, sig_cross=0.02, gammas=gs, n_test=3, trials=trials, seed=rng)
    out = [("samples", trials, len(rng.drawn)), ("judgements", 4 * trials, len(SEEN)), ("fractions", list(gs), list(sp))]
    wins = {g: 0.0 for g in gs}
    for t in range(trials):
        m, T, size = rng.drawn[t]
        X = av.rows(3, 4, f"x{t + 1}_")
        two = candidates(t)
        out += [(f"trial {t} candidates", 2, len(two)), (f"trial {t} mean", np.zeros(4), m),
                (f"trial {t} groups", [[2, 2]] * 4, [e[2] for e in SEEN if e[0] == t])]
        a, b = two if group_error(T, two[0], 2) <= group_error(T, two[1], 2) else (two[1], two[0])
        for g in gs:
            sa, sb = [-0.5 * (c[0, 0] + c[0, 1] * g + mean([quad(x, c * g) for x in X])) for c in (a, b)]
            wins[g] = wins[g] + (1.0 if sa > sb else 0.0)
    for g in gs:
        out.append((f"power at {g}", wins[g] / trials, sp[g]))
    return out


def gap_sampled(p, n, draws):
    """Mean, spread and ratio of the score gap over sample covariances of rows drawn from the truth."""
    rng = Gen()
    T = av.spd(p, "t")
    x, y = 0.1 + 0.8 * unit("x"), 0.1 + 0.8 * unit("y")
    sizes = [1, p - 1]
    g = unit()
    m, s, r = spiked.snr_montecarlo(p, n, sizes, g, x, y, T, n_draws=draws, seed=rng)
    D = []
    ok = True
    out = [("draws", draws, len(rng.drawn))]
    for k in range(draws):
        mu, C, size = rng.drawn[k]
        out += [(f"draw {k} truth", T, C), (f"draw {k} mean", np.zeros(p), mu), (f"draw {k} rows", n, size)]
        X = av.rows(n, p, f"x{k + 1}_")
        ok = ok and general(X)
        D.append(spiked._score_gap(scatter(X), sizes, g, T, x, y))
    mu = mean(D)
    sd = np.sqrt(mean([(d - mu) ** 2 for d in D]))
    ok = ok and bool(sd > 1e-9 * abs(mu))
    return out + [(w, v if ok else 0.0, u if ok else 0.0) for w, v, u in (("mean", mu, m), ("spread", sd, s), ("ratio", mu / sd, r))]


def unusable(p):
    """Where an estimate is not positive definite there is no score gap, and such draws are left out."""
    T, S = av.spd(p, "t"), av.spd(p, "s")
    bad = np.array(S)
    bad[p - 1, p - 1] = -bad[p - 1, p - 1]
    sizes = [1] * p
    A = 0.9 * bad + 0.1 * trace(bad) / p * np.eye(p)
    B = bad
    return [("second is not positive definite", True, bool(np.isnan(spiked._score_gap(bad, sizes, 0.5, T, 1.0 if trace(bad) > 0 else 0.0, 0.0)))),
            ("first is not positive definite", True, bool(np.isnan(spiked._score_gap(bad, sizes, 0.5, T, 0.0, 1.0)))),
            ("is not positive definite", False, bool(theory._is_spd(bad))),
            ("is positive definite", True, bool(theory._is_spd(S + np.eye(p))))]


def canonical(p, q):
    """Squared canonical correlations: eigenvalues of the product of the two regressions, largest first."""
    a = [0.05 + 0.9 * unit(f"r{i}") for i in range(min(p, q))]
    n = p + q
    T = np.eye(n)
    for i in range(min(p, q)):
        T[i, p + i] = a[i]
        T[p + i, i] = a[i]
    d = [0.5 + av.sym(f"d{i}", "pos", lo=0.1) for i in range(n)]
    S = np.array([[T[i, j] * d[i] * d[j] for j in range(n)] for i in range(n)])
    got = theory.canonical_corr2(S, p)
    out = [("as many as the first block", p, len(got))]
    want = [x * x for x in a]
    out.append(("largest", max(want), got[0]))
    out.append(("sum", sum(want), sum([x for x in got])))
    for i in range(len(got) - 1):
        out.append((f"order {i}", True, bool(got[i] >= got[i + 1] - 1e-12)))
    return out


def canonical_any(p, q):
    """The same for any covariance, through the power sums of the (not symmetric) product of regressions;
    and rescaling the variables, or mixing those of one block, changes nothing."""
    S = av.spd(p + q, "s")
    M = np.linalg.inv(S[:p, :p]) @ S[:p, p:] @ np.linalg.inv(S[p:, p:]) @ S[p:, :p]
    got = theory.canonical_corr2(S, p)
    out = [("as many as the first block", p, len(got)), ("sum", np.trace(M), sum([x for x in got])),
           ("sum of squares", np.trace(M @ M), sum([x * x for x in got])),
           ("sum of cubes", np.trace(M @ M @ M), sum([x * x * x for x in got]))]
    for i in range(len(got) - 1):
        out.append((f"order {i}", True, bool(got[i] >= got[i + 1] - 1e-9)))
    B = np.zeros((p + q, p + q))
    for i in range(p + q):
        B[i, i] = 0.5 + av.sym(f"d{i}", "pos", lo=0.1)
    if p > 1:
        B[0, 1] = av.sym("b", "data")
    if q > 1:
        B[p + 1, p] = av.sym("b2", "data")
    out.append(("other units and mixtures within a block", got, theory.canonical_corr2(B @ S @ B.T, p)))
    return out


def searched(sizes, iters):
    """The local search reports how much better than the closed form the best valid perturbation is."""
    T = av.spd(sum(sizes), "t")
    p = sum(sizes)
    seen = []

    def score(T_, C, sizes_, g):
        seen.append(C)
        return C[0, 1] - C[0, 0]
    theory.expected_schur_loglik = score
    C0 = theory.closed_form_general(T, sizes, 1.0)
    ok = bool(theory._is_spd(C0, 0.5))
    got = theory._local_search_confirms(T, sizes, 1.0, seed=Gen(), iters=iters)
    rng = Gen()
    best = C0[0, 1] - C0[0, 0]
    base = best
    for k in range(iters):
        E = 0.02 * rng.standard_normal((p, p))
        C = C0 + E + E.T
        if theory._is_spd(C):
            v = C[0, 1] - C[0, 0]
            best = np.maximum(best, v)
    return [("best improvement", best - base if ok else 0.0, got if ok else 0.0)]
