"""Reference definitions, written from the documented behaviour (not from the implementation's layout).

Everything here is interpreted by the analysis as well; rows is a list of 1-d arrays."""
import math

import numpy as np


def inverse(a):
    """Inverse; where that fails pseudo-inverse; where that fails inverse of the ridged, shrunk matrix."""
    try:
        return np.linalg.inv(a)
    except np.linalg.LinAlgError:
        try:
            return np.linalg.pinv(a)
        except np.linalg.LinAlgError:
            n = a.shape[0]
            b = a + 0.01 * np.diag(np.diag(a))
            return np.linalg.inv(0.99 * b + 0.01 * (np.trace(b) / n) * np.eye(n))


def floor_pd(a, eps=1e-8):
    """Symmetric part with eigenvalues raised to eps."""
    a = 0.5 * (a + a.T)
    w, V = np.linalg.eigh(a)
    out = V @ np.diag(np.maximum(w, eps)) @ V.T
    return 0.5 * (out + out.T)


def corr_of(c):
    p = c.shape[0]
    out = np.eye(p)
    for i in range(p):
        for j in range(p):
            if i != j:
                si = np.sqrt(max(c[i, i], 0.0))
                sj = np.sqrt(max(c[j, j], 0.0))
                si = si if si > 0 else 1.0
                sj = sj if sj > 0 else 1.0
                out[i, j] = c[i, j] / (si * sj)
    return out


def mean_cov(rows):
    """Population mean and covariance."""
    n = len(rows)
    m = rows[0] * 0.0
    for x in rows:
        m = m + x / n
    c = np.zeros((len(m), len(m)))
    for x in rows:
        c = c + np.outer(x - m, x - m) / n
    return m, c


def burn(r):
    b = math.ceil(1.0 / r)
    if b < 5:
        b = 5
    if b > 250:
        b = 250
    return int(b)


def ewa_path(rows, r):
    """[(mean, cov, in_burn_in)] after each row."""
    out = []
    nb = burn(r)
    m = c = None
    for t, x in enumerate(rows):
        if t + 1 <= nb:
            m, c = mean_cov(rows[:t + 1])
            out.append((m, c, True))
        else:
            d = x - m
            c = (1 - r) * c + r * np.outer(d, d)
            m = (1 - r) * m + r * x
            out.append((m, c, False))
    return out


def running_mean(rows, r, nb=None):
    """Equal weights through the burn-in, weight r afterwards."""
    nb = burn(r) if nb is None else nb
    m = rows[0] * 0.0
    for t, x in enumerate(rows):
        w = 1.0 / (t + 1) if t + 1 <= nb else r
        m = m + w * (x - m)
    return m


def welford(rows):
    """The same as mean_cov, incrementally (cheap for long streams)."""
    m = rows[0] * 0.0
    c = np.zeros((len(m), len(m)))
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        m = m + d / n
        c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
    return m, c


def ewa(rows, r):
    nb = burn(r)
    m = rows[0] * 0.0
    c = np.zeros((len(m), len(m)))
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        if n <= nb:
            m = m + d / n
            c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
        else:
            m = m + r * d
            c = (1 - r) * c + r * np.outer(d, d)
    return m, c


def blocks(p, n_blocks):
    """Contiguous blocks, the first ones one longer when p is not divisible."""
    nb = max(1, min(n_blocks, p))
    out = []
    a = 0
    for i in range(nb):
        size = p // nb + (1 if i < p % nb else 0)
        out.append((a, a + size))
        a += size
    return out


def cross(p, n_blocks):
    """(i, j) in different blocks."""
    b = blocks(p, n_blocks)

    def of(i):
        for k, (lo, hi) in enumerate(b):
            if lo <= i < hi:
                return k
    return [[of(i) != of(j) for j in range(p)] for i in range(p)]


# ------------------------------------------------------------------ shrinkage
def dispersion_path(rows, r, weight):
    """EWA covariance together with the smoothed squared dispersion of each post-burn-in scatter."""
    nb = burn(r)
    m = rows[0] * 0.0
    c = np.zeros((len(m), len(m)))
    pi = 0.0
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        if n <= nb:
            m = m + d / n
            c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
        else:
            s = np.outer(d, d)
            pi = (1 - r) * pi + r * weight(s - c)
            m = m + r * d
            c = (1 - r) * c + r * s
    return m, c, pi


def ledoit_wolf(rows, r):
    p = len(rows[0])
    m, c, pi = dispersion_path(rows, r, lambda e: np.sum(e * e) / p)
    mu = np.trace(c) / p
    t = mu * np.eye(p)
    d2 = np.sum((c - t) ** 2) / p
    a = 0.0
    if d2 > 0 and pi > 0:
        a = min(pi * r / d2, 1.0)
    return m, c, t, a


def oas(rows, r):
    p = len(rows[0])
    m, c = ewa(rows, r)
    n = max(1.0 / r, 2.0)
    tr = np.trace(c)
    tr2 = np.sum(c * c)
    t = (tr / p) * np.eye(p)
    num = (1 - 2.0 / p) * tr2 + tr * tr
    den = (n + 1 - 2.0 / p) * (tr2 - tr * tr / p)
    a = 1.0
    if den > 0:
        a = min(max(num / den, 0.0), 1.0)
    return m, c, t, a


def shrunk(rows, r, delta, target):
    p = len(rows[0])
    m, c = ewa(rows, r)
    if target == "identity":
        t = (np.trace(c) / p) * np.eye(p)
    else:
        sd = [np.sqrt(max(c[i, i], 0.0)) for i in range(p)]
        div = [max(v, 1e-6) for v in sd]
        tot = 0.0
        for i in range(p):
            for j in range(p):
                if i != j:
                    tot = tot + c[i, j] / (div[i] * div[j])
        rbar = tot / (p * (p - 1)) if p > 1 else 0.0
        t = np.zeros((p, p))
        for i in range(p):
            for j in range(p):
                t[i, j] = c[i, i] if i == j else rbar * sd[i] * sd[j]
    return m, c, t, delta


# ------------------------------------------------------------------ Schur family
def damp(c, n_blocks, g):
    p = c.shape[0]
    x = cross(p, n_blocks)
    out = np.zeros((p, p))
    for i in range(p):
        for j in range(p):
            out[i, j] = g * c[i, j] if x[i][j] else c[i, j]
    return out


def schur_lw(rows, r, n_blocks):
    p = len(rows[0])
    x = cross(p, n_blocks)

    def w(e):
        tot = 0.0
        for i in range(p):
            for j in range(p):
                if x[i][j]:
                    tot = tot + e[i, j] * e[i, j]
        return tot
    m, c, pi = dispersion_path(rows, r, w)
    m2 = w(c)
    g = 1.0
    if m2 > 0:
        g = min(max(1.0 - pi * r / m2, 0.0), 1.0)
    return m, c, g


def geodesic(a, b, t):
    """A^(1/2) (A^(-1/2) B A^(-1/2))^t A^(1/2)."""
    a, b = floor_pd(a), floor_pd(b)
    w, V = np.linalg.eigh(a)
    w = np.maximum(w, 1e-12)
    root = V @ np.diag(np.sqrt(w)) @ V.T
    back = V @ np.diag(1.0 / np.sqrt(w)) @ V.T
    mid = back @ b @ back
    u, U = np.linalg.eigh(0.5 * (mid + mid.T))
    out = root @ (U @ np.diag(np.maximum(u, 0.0) ** t) @ U.T) @ root
    return 0.5 * (out + out.T)


def schur_conditional(rows, r, n_blocks):
    p = len(rows[0])
    m, c = ewa(rows, r)
    sd = np.array([np.sqrt(max(c[i, i], 1e-12)) for i in range(p)])
    R = corr_of(c)
    n_eff = max(2.0, min(float(len(rows)), (2.0 - r) / r))
    x = cross(p, n_blocks)
    num = 0.0
    den = 0.0
    any_cross = False
    for i in range(p):
        for j in range(p):
            if x[i][j]:
                any_cross = True
                s = R[i, j] * R[i, j]
                num = num + max(s - (1 + s) / n_eff, 0.0)
                den = den + s
    if not any_cross:
        g = 1.0
    else:
        g = min(max(num / den, 0.0), 1.0) if den > 0 else 0.0
    bl = blocks(p, n_blocks)
    a0, b0 = bl[0]
    out = R[a0:b0, a0:b0]
    for a, b in bl[1:]:
        Rcc, Rck, Rkk = R[:a, :a], R[:a, a:b], R[a:b, a:b]
        ridge = min(a / n_eff, 0.9)
        reg = (1 - ridge) * Rcc + ridge * np.diag(np.diag(Rcc))
        h = np.linalg.solve(reg + 1e-10 * np.eye(a), Rck)
        S = floor_pd(Rkk - Rck.T @ h)
        gh = g * h
        low = gh.T @ out
        corner = (1 - g) * Rkk + g * S + gh.T @ out @ gh
        out = np.block([[out, low.T], [low, corner]])
    return m, floor_pd(out) * np.outer(sd, sd), g


# ------------------------------------------------------------------ robust / adaptive
def start(rows, r):
    """Burn-in part of a stream: (mean, cov, remaining rows, symbolic-safe)."""
    return burn(r)


def huber(rows, r, cut):
    p = len(rows[0])
    nb = burn(r)
    m = rows[0] * 0.0
    c = np.zeros((p, p))
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        if n <= nb:
            m = m + d / n
            c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
        else:
            q = d @ inverse(c) @ d
            lim = cut * cut * p
            w = 1.0 if q <= lim else np.sqrt(lim / q)
            m = m + r * w * d
            c = (1 - r) * c + r * w * w * np.outer(d, d)
    return m, c


def adaptive(rows, r, max_r):
    p = len(rows[0])
    nb = burn(r)
    m = rows[0] * 0.0
    c = np.zeros((p, p))
    s = 1.0
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        if n <= nb:
            m = m + d / n
            c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
        else:
            q = d @ inverse(c) @ d
            s = 0.9 * s + 0.1 * q / p
            k = min(max(r * s, r), max_r)
            m = (1 - k) * m + k * x
            c = (1 - k) * c + k * np.outer(d, d)
    return m, c


def tyler(rows, r):
    p = len(rows[0])
    nb = burn(r)
    m = rows[0] * 0.0
    C = np.eye(p)
    for t, x in enumerate(rows):
        n = t + 1
        w = 1.0 / n if n <= nb else r
        d = x - m
        q = max(d @ inverse(C) @ d, 1e-12)
        N = (1 - w) * C + w * p * np.outer(d, d) / q
        tr = np.trace(N)
        if tr > 0:
            C = N * (p / tr)
        m = m + w * d
    return m, corr_of(C)


def geodesic_ewa(rows, r):
    p = len(rows[0])
    nb = burn(r)
    m = rows[0] * 0.0
    c = np.zeros((p, p))
    for t, x in enumerate(rows):
        n = t + 1
        d = x - m
        if n <= nb:
            m = m + d / n
            c = c * ((n - 1) / n) + np.outer(d, d) * ((n - 1) / (n * n))
        else:
            c = geodesic(c, np.outer(d, d), r)
            m = m + r * d
    return m, c


# ------------------------------------------------------------------ structure
def marginal(rows, r, nb=None):
    """Recency-weighted mean and mean squared deviation (about the mean known before) per variable."""
    nb = burn(r) if nb is None else nb
    m = rows[0] * 0.0
    v = rows[0] * 0.0
    for t, x in enumerate(rows):
        w = 1.0 / (t + 1) if t + 1 <= nb else r
        d = x - m
        v = (1 - w) * v + w * d * d
        m = m + w * d
    return m, v


def dcc(rows, r, vol_r):
    p = len(rows[0])
    nb = burn(min(r, vol_r))
    m = np.zeros(p)
    h = np.ones(p)
    Q = np.eye(p)
    for t, x in enumerate(rows):
        n = t + 1
        wv = 1.0 / n if n <= nb else vol_r
        wc = 1.0 / n if n <= nb else r
        d = x - m
        m = m + wv * d
        h = (1 - wv) * h + wv * d * d
        e = d / np.sqrt(np.maximum(h, 1e-12))
        Q = (1 - wc) * Q + wc * np.outer(e, e)
    R = np.eye(p)
    q = [np.sqrt(Q[i, i]) if Q[i, i] > 0.0 else 1.0 for i in range(p)]
    for i in range(p):
        for j in range(p):
            if i != j:
                R[i, j] = Q[i, j] / (q[i] * q[j])
    s = np.sqrt(np.maximum(h, 1e-12))
    return m, h, R, R * np.outer(s, s)


def partial(rows, r):
    """Mean, the four sign-quadrant matrices, and their sum."""
    p = len(rows[0])
    nb = burn(r)
    m = np.zeros(p)
    quad = {}
    for s1 in (1, -1):
        for s2 in (1, -1):
            quad[s1, s2] = np.zeros((p, p))
    for t, x in enumerate(rows):
        w = 1.0 / (t + 1) if t + 1 <= nb else r
        d = x - m
        up = np.maximum(d, 0.0)
        dn = np.minimum(d, 0.0)
        for s1 in (1, -1):
            for s2 in (1, -1):
                a = up if s1 > 0 else dn
                b = up if s2 > 0 else dn
                quad[s1, s2] = (1 - w) * quad[s1, s2] + w * np.outer(a, b)
        m = m + w * d
    total = np.zeros((p, p))
    for q in quad.values():
        total = total + q
    return m, quad, total


def factor(rows, k, r):
    """CCIPCA factors with deflation, tracked variances."""
    p = len(rows[0])
    k = min(k, p)
    nb = k + 1
    m = np.zeros(p)
    v = np.zeros(p)
    F = [np.zeros(p) for _ in range(k)]
    for t, x in enumerate(rows):
        w = 1.0 / (t + 1) if t + 1 <= nb else r
        d = x - m
        v = (1 - w) * v + w * d * d
        m = m + w * d
        F = ccipca(F, d, w, 0)
    G = np.zeros((p, p))
    cap = np.zeros(p)
    for f in F:
        lam = np.sqrt(f @ f)
        if lam > 1e-12:
            G = G + np.outer(f, f) / lam
            cap = cap + f * f / lam
    return m, v, G, cap, G + np.diag(np.maximum(v - cap, 0.0))


def ccipca(F, u, w, j):
    """Update factors j.. with the (deflated) innovation u: an empty factor takes it whole."""
    if j == len(F):
        return F
    lam = np.sqrt(F[j] @ F[j])
    if lam < 1e-12:
        return F[:j] + [u] + F[j + 1:]
    e = F[j] / lam
    s = u @ e
    new = F[:j] + [(1 - w) * F[j] + w * s * u] + F[j + 1:]
    return ccipca(new, u - s * e, w, j + 1)
