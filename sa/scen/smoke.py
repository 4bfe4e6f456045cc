import av
import numpy as np
from lib import *

def names():
    return P.estimator_names()

def stream(v, cfg, p, T, diff):
    e = make(cfg, diff)
    R = av.rowlist(T, p)
    if v == "A":
        fed(e, R)
    else:
        e.fit(av.rows(T, p))
    return estimates(e) + derived(e, av.rows(2, p, "q"))


def ragged(n):
    """Lists whose length depends on data, used in every way the engine knows (development aid)."""
    xs = [av.sym(f"x{i}", "data") for i in range(n)]
    a, b = [], [0.5]
    for x in xs:
        if x > 0:
            a.append(x)
        else:
            b.append(-x)
    out = [len(a), len(b), sum(a), sum(b), b[0], b[-1], (a + b)[n - 1], float(np.array(b).mean())]
    t = 0.0
    for i, v in enumerate(a):
        t = t + (i + 1) * v
    for v in b:
        if v > 1.0:
            continue
        t = t - v * v
    out.append(t)
    c = [2 * v for v in a if v < 0.7]
    out += [len(c), sum(c), sum(v * w for v, w in zip(a, b))]
    out.append(attempt(lambda: a[1]))
    out.append(attempt(lambda: a.pop()))
    out.append(len(a))
    b.extend(a)
    out += [len(b), sum(b), max(b), b == a, bool(a), b[1:2]]
    del b[0]
    b += [3.0]
    out += [sum(b), sum(sorted(b)[-2:]), [1.0 if v > 0 else 2.0 for v in b][-1], sum([1.0 / v for v in xs if v > 0])]
    d = [v for v in xs if v > 0.1]
    e = [v * v for v in d] if xs[0] > 0 else d + d
    out += [len(e), sum(e), sum([v for v in e])]
    return [(i, v) for i, v in enumerate(out)]
