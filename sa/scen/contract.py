"""Driver programs for the estimator contract (properties C01 to C14)."""
import copy
import json
import pickle

import av
import numpy as np
from lib import *
from precise.base import NotFittedError


def more(e, p, T, n=2):
    """Observe, learn n further rows, observe again."""
    out = tagged("now", estimates(e)) + tagged("now", derived(e, av.rows(2, p, "q")))
    for x in av.rowlist(n, p, "x", T):
        e.partial_fit(x)
    return out + tagged("later", estimates(e)) + tagged("later", derived(e, av.rows(2, p, "q")))


# ------------------------------------------------------------------ C01
WHOLE = {"integers": "int", "lists of integers": "int", "booleans": "bool"}


def stream(v, cfg, p, T, diff, how):
    e = make(cfg, diff)
    if how in WHOLE:
        X = av.wholes(T, p, WHOLE[how], v == "A")
        if v == "A":
            for x in X:
                e.partial_fit(x)
        elif how == "lists of integers":
            e.partial_fit(X[0].tolist())
            e.partial_fit(X[1:].tolist())
        else:
            e.partial_fit(X[0:1])
            e.partial_fit(X[1:])
        return more(e, p, T)
    X = av.rows(T, p)
    if v == "A":
        for x in av.rowlist(T, p):
            e.partial_fit(x)
    elif how == "fit":
        e.fit(X)
    elif how == "one":
        e.partial_fit(X)
    elif how == "split":
        e.partial_fit(X[0:3])
        e.partial_fit(X[3:4])
        e.partial_fit(X[4:])
    elif how == "split2":
        e.partial_fit(X[0])
        e.partial_fit(X[1:T - 1])
        e.partial_fit(X[T - 1:T])
    elif how == "lists":
        e.partial_fit([list(x) for x in X[0:2]])
        for x in X[2:]:
            e.partial_fit(list(x))
    elif how == "fit-then":
        e.fit(X[0:2])
        e.partial_fit(X[2:T - 2])
        e.partial_fit(X[T - 2:])
    elif how == "empty":
        e.partial_fit(X[0:2])
        e.partial_fit(X[0:0])
        e.partial_fit(X[2:])
    elif how == "fortran":
        e.partial_fit(np.array(X.T).T)
    elif how == "y":
        e.partial_fit(X[0:4], None)
        e.partial_fit(X[4:], y=None)
    return more(e, p, T)


# ------------------------------------------------------------------ C02
def refit(v, cfg, p, T, diff, before):
    e = make(cfg, diff)
    X = av.rows(T, p)
    if v == "B":
        if before == "same":
            e.partial_fit(av.rows(6, p, "old"))
        elif before == "other":
            e.partial_fit(av.rows(7, p + 1, "old"))
        elif before == "narrow":
            e.partial_fit(av.rows(6, 1, "old"))
        elif before == "one":
            e.partial_fit(av.row(p, 0, "old"))
        elif before == "fit":
            e.fit(av.rows(6, p, "old"))
            estimates(e)
            derived(e, av.rows(2, p, "q"))
        elif before == "reads":
            e.partial_fit(av.rows(6, p + 1, "old"))
            estimates(e)
            derived(e, av.rows(2, p + 1, "oq"))
            attempt(e.get_state)
        elif before == "equal":
            e.fit(av.rows(T, p, "old"))
            estimates(e)
            derived(e, av.rows(2, p, "q"))
        elif before == "restored":
            o = make(cfg, diff)
            o.partial_fit(av.rows(6, p, "old"))
            e = pickle.loads(pickle.dumps(o))
    r = e.fit(X)
    return [("fit returns the estimator", r is e)] + more(e, p, T)


# ------------------------------------------------------------------ C03
def saved(v, cfg, p, t, T, diff, how):
    e = make(cfg, diff)
    if how == "fit" and t:
        e.fit(av.rows(t, p))
    else:
        for x in av.rowlist(t, p):
            e.partial_fit(x)
    if v == "B":
        s = e.get_state()
        if how != "direct" and how != "alias":
            s = json.loads(json.dumps(s))
        o = make(cfg, diff)
        if how == "used":       # read, having seen as many other rows
            o.partial_fit(av.rows(t or 6, p, "old"))
            estimates(o)
            derived(o, av.rows(2, p, "q"))
        elif how == "wider":
            o.partial_fit(av.rows(6, p + 1, "old"))
        elif how == "pending":
            o.partial_fit(av.row(p + 2, 0, "old"))
        elif how == "whatif":   # another future is tried, read and undone
            o.partial_fit(av.rows(t, p))
            o.partial_fit(av.row(p, 0, "old"))
            estimates(o)
            derived(o, av.rows(2, p, "q"))
        o.set_state(s)
        if how == "alias":
            # the saved value is the caller's: the original keeps learning, the copy does not notice
            for x in av.rowlist(3, p, "o"):
                e.partial_fit(x)
            av.scribble(s)
        e = o
    out = tagged("restored", estimates(e)) + tagged("restored", derived(e, av.rows(2, p, "q")))
    for i, x in enumerate(av.rowlist(T - t, p, "x", t)):
        e.partial_fit(x)
        if i == 0:
            out += tagged("next", estimates(e)) + tagged("next", derived(e, av.rows(2, p, "q")))
    return out + tagged("later", estimates(e)) + tagged("later", derived(e, av.rows(2, p, "q")))


def saving(v, cfg, p, t, T, diff):
    """Saving itself, and restoring over, leave the original alone."""
    e = make(cfg, diff)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
    if v == "B":
        s = e.get_state()
        make(cfg, diff).set_state(s)
        o = make(cfg, diff).set_state(s)
        o.partial_fit(av.rows(3, p, "o"))
    return more(e, p, t)


def refusal(cfg, p, t):
    e = make(cfg)
    o = make(cfg)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
        o.partial_fit(x)
    out = [("get_state refuses", ("raises", "NotImplementedError"), attempt(e.get_state)),
           ("set_state refuses", ("raises", "NotImplementedError"), attempt(e.set_state, {"n_dim": p})),
           ("set_state refuses None", ("raises", "NotImplementedError"), attempt(e.set_state, None))]
    return out + pairs("after refusal", estimates(o), estimates(e))


# ------------------------------------------------------------------ C04
def copied(v, cfg, p, t, T, diff, how):
    e = make(cfg, diff)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
    params = e.get_params()
    out = []
    if v == "B":
        o = e
        if how == "pickle":
            e = pickle.loads(pickle.dumps(o))
        elif how == "deepcopy":
            e = copy.deepcopy(o)
        elif how == "twice":
            e = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o))))
        elif how == "isolated":
            e = copy.deepcopy(o)
            o.partial_fit(av.rows(4, p, "o"))
            av.scribble(attempt(lambda: o.location_))
        elif how == "source":
            e = o
            c = pickle.loads(pickle.dumps(o))
            c.partial_fit(av.rows(4, p, "o"))
            c2 = copy.deepcopy(o)
            c2.fit(av.rows(4, p + 1, "o"))
    got = e.get_params()
    for k in params:
        out.append((f"hyper-parameter {k}", val(got[k])))
    out.append(("hyper-parameter names", sorted(got)))
    out.append(("class", type(e).__name__))
    return out + more(e, p, T if False else t)


def val(x):
    """A hyper-parameter as a comparable value."""
    if isinstance(x, BaseOnlineCovariance):
        return (type(x).__name__, [(k, val(w)) for k, w in x.get_params().items()], x.n_samples_)
    if callable(x):
        return "callable"
    return x


def copy_shares(cfg, p, t, diff):
    e = make(cfg, diff)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
    c = copy.deepcopy(e)
    d = pickle.loads(pickle.dumps(e))
    return [("deepcopy shares data", False, av.shares(c, e)), ("pickle shares data", False, av.shares(d, e)),
            ("copies share data", False, av.shares(c, d))]


# ------------------------------------------------------------------ C05
def read_all(e, p, t):
    attempt(lambda: e.covariance_)
    attempt(lambda: e.correlation_)
    attempt(lambda: e.precision_)
    attempt(lambda: e.get_precision())
    attempt(lambda: e.location_)
    attempt(lambda: e.n_samples_)
    attempt(lambda: e.n_features_in_)
    attempt(lambda: e.mahalanobis(av.rows(2, p, "z")))
    attempt(lambda: e.score(av.rows(2, p, "z")))
    attempt(lambda: e.get_params())
    attempt(lambda: e.get_params(deep=False))
    attempt(lambda: e.get_state())
    attempt(lambda: repr(e))
    attempt(lambda: pickle.dumps(e))


def reads(v, cfg, p, T, diff, when):
    e = make(cfg, diff)
    if v == "B" and when != "late":
        read_all(e, p, 0)
    for i, x in enumerate(av.rowlist(T, p)):
        e.partial_fit(x)
        if v == "B" and (when == "always" or (when == "some" and i % 3 == 1) or (when == "late" and i >= 5)):
            read_all(e, p, i)
            if i % 2:
                read_all(e, p, i)
    return more(e, p, T)


def replaced(v, cfg, p, T, diff, how):
    """Reads of one stream leave nothing behind for the next one."""
    e = make(cfg, diff)
    for x in av.rowlist(T, p, "old"):
        e.partial_fit(x)
    if v == "B":
        read_all(e, p, T)
        if how == "fit twice":
            derived(e, av.rows(2, p, "q"))
            estimates(e)
    if how in ("fit", "fit twice"):
        e.fit(av.rows(T, p))
    elif how == "state":
        o = make(cfg, diff)
        o.partial_fit(av.rows(T, p))
        e.set_state(o.get_state())
    elif how == "setstate":
        o = make(cfg, diff)
        o.partial_fit(av.rows(T, p))
        e.__setstate__(copy.deepcopy(o.__getstate__()))
    elif how == "next":
        e.partial_fit(av.row(p, 0, "n"))
    elif how == "fit wider":
        e.fit(av.rows(T, p + 1))
        return more(e, p + 1, T)
    return more(e, p, T)


def reparametrised(v, cfg, p, T, diff, given):
    """What was read under the old settings does not outlive them."""
    e = make(cfg, diff)
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    if v == "B":
        read_all(e, p, T)
        read_all(e, p, T)
    e.set_params(**given)
    return more(e, p, T)


def rereads(cfg, p, T, diff):
    e = make(cfg, diff)
    out = []
    for i, x in enumerate(av.rowlist(T, p)):
        e.partial_fit(x)
        if i in (0, 3, T - 1):
            q = av.rows(2, p, "q")
            a = estimates(e) + derived(e, q) + [("get_state", attempt(e.get_state)), ("repr", attempt(repr, e))]
            read_all(e, p, i)
            b = estimates(e) + derived(e, q) + [("get_state", attempt(e.get_state)), ("repr", attempt(repr, e))]
            out += pairs(f"after row {i}, read again", a, b)
    return out


def read_order(v, cfg, p, T, diff):
    """The order of reads does not matter either."""
    e = make(cfg, diff)
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    q = av.rows(2, p, "q")
    if v == "A":
        return estimates(e) + derived(e, q)
    d = [("score", attempt(lambda: e.score(q))), ("mahalanobis", attempt(lambda: e.mahalanobis(q))),
         ("precision_", attempt(lambda: e.precision_)), ("correlation_", attempt(lambda: e.correlation_))]
    s = [("covariance_", attempt(lambda: e.covariance_)), ("location_", attempt(lambda: e.location_)),
         ("n_features_in_", attempt(lambda: e.n_features_in_)), ("n_samples_", attempt(lambda: e.n_samples_))]
    return s[::-1] + d[::-1]


# ------------------------------------------------------------------ C06
def caller_buffers(v, cfg, p, T, diff, how):
    """One buffer, reused (and ruined) by the caller after every call."""
    e = make(cfg, diff)
    if how == "buffer":
        buf = np.zeros(p)
        for x in av.rowlist(T, p):
            if v == "A":
                e.partial_fit(x.copy())
            else:
                buf[:] = x
                e.partial_fit(buf)
                av.scribble(buf)
    elif how == "batch":
        X = av.rows(T, p)
        for a, b in ((0, 3), (3, 4), (4, T)):
            if v == "A":
                e.partial_fit(X[a:b].copy())
            else:
                B = X[a:b].copy()
                e.partial_fit(B)
                av.scribble(B)
    elif how == "fit":
        X = av.rows(T, p)
        e.fit(X)
        if v == "B":
            av.scribble(X)
    elif how == "fit-more":
        X = av.rows(2, p)
        e.fit(X)
        if v == "B":
            av.scribble(X)
        Y = av.rows(T - 2, p, "x", 2)
        e.partial_fit(Y)
        if v == "B":
            av.scribble(Y)
    elif how == "lists":
        X = [list(x) for x in av.rows(T, p)]
        e.partial_fit(X)
        if v == "B":
            av.scribble(X)
    elif how == "queries":
        e.partial_fit(av.rows(T, p))
        Q = av.rows(2, p, "q")
        e.mahalanobis(Q)
        e.score(Q)
        if v == "B":
            av.scribble(Q)
    return more(e, p, T)


def caller_untouched(cfg, p, T, diff):
    e = make(cfg, diff)
    out = []
    for i, x in enumerate(av.rowlist(T, p)):
        k = x.copy()
        e.partial_fit(x)
        out.append((f"row passed to partial_fit ({i})", k, x))
    for name, call in (("partial_fit", e.partial_fit), ("mahalanobis", e.mahalanobis), ("score", e.score),
                       ("fit", e.fit), ("partial_fit after fit", e.partial_fit)):
        B = av.rows(4, p, "b")
        K = B.copy()
        call(B)
        out.append((f"batch passed to {name}", K, B))
        L = [list(r) for r in K]
        call(L)
        out.append((f"list passed to {name}", [list(r) for r in K], L))
    y = av.row(p, 0, "y")
    K = y.copy()
    e.partial_fit(av.row(p, 1, "y"), y)
    out.append(("y passed to partial_fit", K, y))
    return out


def caller_missing(cfg, p, diff):
    """Arguments are left alone also where the library cannot make sense of them."""
    out = []
    for what in (np.nan, np.inf):
        e = make(cfg, diff)
        e.partial_fit(av.rows(4, p))
        for name, call in (("mahalanobis", e.mahalanobis), ("score", e.score), ("partial_fit", e.partial_fit),
                           ("fit", e.fit)):
            B = av.rows(3, p, "b")
            B[1, 0] = what
            K = B.copy()
            attempt(call, B)
            out.append((f"batch with {what} passed to {name}", K, B))
        b = av.row(p, 0, "r")
        b[p - 1] = what
        K = b.copy()
        e = make(cfg, diff)
        e.partial_fit(av.rows(4, p))
        attempt(e.partial_fit, b)
        out.append((f"row with {what}", K, b))
    return out


# ------------------------------------------------------------------ C07
def returned(v, cfg, p, T, diff):
    e = make(cfg, diff)
    for i, x in enumerate(av.rowlist(T, p)):
        e.partial_fit(x)
        got = [attempt(lambda: e.covariance_), attempt(lambda: e.location_), attempt(lambda: e.correlation_),
               attempt(lambda: e.precision_), attempt(lambda: e.get_precision()),
               attempt(lambda: e.mahalanobis(av.rows(2, p, "z"))),
               attempt(lambda: e.get_state()), attempt(lambda: e.get_params())]
        if v == "B":
            av.scribble(got)
    out = more(e, p, T)
    return out + [("get_params", [(k, val(w)) for k, w in e.get_params().items()])]


def returned_unfitted(v, cfg, p, diff):
    e = make(cfg, diff)
    got = [attempt(lambda: e.get_state()), attempt(lambda: e.get_params())]
    if v == "B":
        av.scribble(got)
    e.partial_fit(av.row(p, 0))
    got = [attempt(lambda: e.get_state()), attempt(lambda: e.location_), attempt(lambda: e.covariance_)]
    if v == "B":
        av.scribble(got)
    return more(e, p, 1)


def registry_lists(v):
    lists = [P.all_estimators, P.estimator_names, P.all_assessors]
    names = [type(a).__name__ for a in P.all_assessors()]
    for _ in range(2):
        got = [f() for f in lists]
        if v == "B":
            for g in got:
                g.reverse()
                g.append("junk")
                g.pop(0)
                g.pop(0)
            for g in got:
                g.clear()
    out = [("all_estimators", P.all_estimators()), ("estimator_names", P.estimator_names()),
           ("all_assessors", [type(a).__name__ for a in P.all_assessors()])]
    for n in P.estimator_names():
        out.append((n, P.estimator_from_name(n)))
    for n in names:
        out.append((n, type(P.assessor_from_name(n)).__name__))
    X = [[1.0, 2.0], [2.0, 1.0], [0.5, 0.1]]
    got = P.suggest(X, top=4)
    if v == "B":
        got.clear()
    f = P.covariance_features(X)
    if v == "B":
        f.clear()
    out.append(("suggest", P.suggest(X, top=4)))
    return out + [("covariance_features", P.covariance_features(X))]


# ------------------------------------------------------------------ C08
def census(cfg, p, T1, T2, r=0.5):
    """Stored data after T1 rows and after T2 rows."""
    e = make_c(cfg, r)
    for x in av.rowlist(T1, p):
        e.partial_fit(x)
    read_all(e, p, 0)
    a = av.size(e)
    for x in av.rowlist(T2 - T1, p, "x", T1):
        e.partial_fit(x)
    read_all(e, p, 0)
    b = av.size(e)
    return [(f"numbers stored after {T2} rows, against {T1} rows", a, b)]


def make_c(cfg, r, **kw):
    """Like make, with concrete hyper-parameters (data stay symbolic)."""
    diff = kw.pop("diff", False)
    e = make(cfg, diff)
    ps = e.get_params()
    if "r" in ps:
        e.set_params(r=r)
    if "vol_r" in ps and ps["vol_r"] is not None:
        e.set_params(vol_r=r)
    if kw:
        e.set_params(**kw)
    return e


def growth(cfg, p, factor, slack, T, scale_blocks):
    """Storage at twice the dimension stays within factor times storage, plus slack."""
    sizes = []
    for q in (p, 2 * p):
        e = make_c(cfg, 0.5)
        if scale_blocks:
            e.set_params(n_blocks=q // 2)
        for x in av.rowlist(T, q):
            e.partial_fit(x)
        sizes.append(av.size(e))
    ok = sizes[1] <= factor * sizes[0] + slack
    return [(f"storage grows at most {factor}-fold from dimension {p} to {2 * p} (plus {slack})", True, ok)]


def work(cfg, p, T1, T2):
    """Abstract work (interpreted operations) of one update late and early in the stream."""
    e = make_c(cfg, 0.5)
    marks = []
    for i, x in enumerate(av.rowlist(T2 + 1, p)):
        s0 = av.steps()
        e.partial_fit(x)
        marks.append(av.steps() - s0)
    return [(f"update {T2} does no more work than update {T1}", True, marks[T2] <= 1.25 * marks[T1] + 40)]


# ------------------------------------------------------------------ C09
def batch_count(cfg, T, diff):
    """Every row of a large batch counts, whichever way it comes."""
    lag = 1 if diff else 0
    X = av.rows(T, 1)
    e, f, g = make(cfg, diff), make(cfg, diff), make(cfg, diff)
    e.partial_fit(X)
    f.fit(X)
    out = [("one batch", T - lag, e.n_samples_), ("fit", T - lag, f.n_samples_)]
    e.partial_fit(av.rows(T, 1, "b"))
    out.append(("another batch", 2 * T - lag, e.n_samples_))
    g.partial_fit([list(x) for x in av.rowlist(3, 1, "b")])
    g.partial_fit([list(x) for x in av.rowlist(T, 1)])
    out.append(("batches of lists", T + 3 - lag, g.n_samples_))
    return out


def counts(cfg, p, T, diff, r):
    e = make(cfg, diff) if r is None else make_c(cfg, r, diff=diff)
    out = [("new", 0, e.n_samples_)]
    lag = 1 if diff else 0
    for i, x in enumerate(av.rowlist(T, p)):
        e.partial_fit(x)
        out.append((f"after {i + 1} rows", max(0, i + 1 - lag), e.n_samples_))
    n = T - lag
    e.partial_fit(av.rows(3, p, "b"))
    out.append(("after a batch of 3", n + 3, e.n_samples_))
    e.partial_fit(av.rows(1, p, "c"))
    out.append(("after a batch of 1", n + 4, e.n_samples_))
    e.partial_fit(av.rows(2, p, "c")[0:0])
    out.append(("after an empty batch", n + 4, e.n_samples_))
    f = pickle.loads(pickle.dumps(e))
    out.append(("after pickling", n + 4, f.n_samples_))
    try:
        s = json.loads(json.dumps(e.get_state()))
    except NotImplementedError:
        s = None
    if s is not None:
        g = make(cfg, diff)
        g.partial_fit(av.rows(2, p, "old"))
        g.set_state(s)
        out.append(("after restoring", n + 4, g.n_samples_))
        g.partial_fit(av.row(p, 0, "d"))
        out.append(("one row after restoring", n + 5, g.n_samples_))
    e.fit(av.rows(4, p, "f"))
    out.append(("after fit on 4 rows", 4 - lag, e.n_samples_))
    e.fit(av.rows(1, p, "f"))
    out.append(("after fit on 1 row", 1 - lag, e.n_samples_))
    e.fit(av.rows(2, p, "f")[0:0])
    out.append(("after fit on no rows", 0, e.n_samples_))
    e.partial_fit(av.rows(3, p, "g"))
    out.append(("and 3 rows more", 3 - lag, e.n_samples_))
    return out


# ------------------------------------------------------------------ C10
def differences(v, cfg, p, T, how):
    X = av.rows(T + 1, p)
    e = make(cfg, v == "B")
    out = []
    if how == "stale":
        e.partial_fit(av.rows(5, p, "old"))
        e.fit(X if v == "B" else X[1:] - X[:-1])
    elif how == "fit":
        e.fit(X if v == "B" else X[1:] - X[:-1])
    elif how == "batches":
        if v == "B":
            e.partial_fit(X[0:1])
            e.partial_fit(X[1:3])
            e.partial_fit(X[3:4])
            e.partial_fit(X[4:])
        else:
            e.partial_fit(X[1:] - X[:-1])
    else:
        if v == "B":
            e.partial_fit(X[0])
        out += tagged("first row", [x for x in estimates(e) if x[0] != "n_features_in_"])
        for i in range(T):
            e.partial_fit(X[i + 1] if v == "B" else X[i + 1] - X[i])
            if i == 0:
                out += tagged("second row", estimates(e))
    last = X[T]
    out += tagged("now", estimates(e)) + tagged("now", derived(e, av.rows(2, p, "q")))
    for x in av.rowlist(2, p, "x", T + 1):
        e.partial_fit(x if v == "B" else x - last)
        last = x
    return out + tagged("later", estimates(e)) + tagged("later", derived(e, av.rows(2, p, "q")))


# ------------------------------------------------------------------ C11
def wrong_width(v, cfg, p, t, diff, w, how):
    e = make(cfg, diff)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
    out = []
    got = "ValueError"
    if v == "B":
        if how == "row":
            bad = av.row(w, 0, "bad")
        elif how == "list":
            bad = list(av.row(w, 0, "bad"))
        else:
            bad = av.rows(3, w, "bad")
        try:
            e.partial_fit(bad)
            got = "accepted"
        except ValueError:
            got = "ValueError"
        except Exception as exc:
            got = type(exc).__name__
    out.append((f"a row of width {w} after rows of width {p}", got))
    return out + more(e, p, t)


def new_dimension(v, cfg, p, w, diff):
    """fit accepts a new width, after which the old one is refused."""
    e = make(cfg, diff)
    if v == "B":
        e.partial_fit(av.rows(4, p, "old"))
    e.fit(av.rows(5, w))
    got = "ValueError"
    try:
        e.partial_fit(av.row(p, 0, "bad"))
        got = "accepted"
    except ValueError:
        pass
    return [("old width after fit", got), ("expected", "ValueError")] + more(e, w, 5)


def width_refused(cfg, p, w, diff, t):
    """Absolute form: the call raises ValueError."""
    e = make(cfg, diff)
    for x in av.rowlist(t, p):
        e.partial_fit(x)
    out = []
    for name, bad in (("row", av.row(w, 0, "bad")), ("batch", av.rows(2, w, "bad"))):
        try:
            e.partial_fit(bad)
            got = "accepted"
        except ValueError:
            got = "ValueError"
        out.append((f"{name} of width {w} after rows of width {p}", "ValueError", got))
    return out


# ------------------------------------------------------------------ C12
READS = ("covariance_", "correlation_", "precision_", "location_", "mahalanobis", "score")


def refuses(e, p, when):
    out = []
    for name, f in (("covariance_", lambda: e.covariance_), ("correlation_", lambda: e.correlation_),
                    ("precision_", lambda: e.precision_), ("get_precision", lambda: e.get_precision()),
                    ("location_", lambda: e.location_),
                    ("mahalanobis", lambda: e.mahalanobis(av.rows(2, p, "q"))),
                    ("score", lambda: e.score(av.rows(2, p, "q")))):
        try:
            f()
            got = "answered"
        except NotFittedError:
            got = "not fitted"
        except Exception as exc:
            got = type(exc).__name__
        out.append((f"{when}: {name}", "not fitted", got))
    out.append((f"{when}: n_samples_", 0, e.n_samples_))
    names = list(e.get_params())
    out.append((f"{when}: get_params", True, isinstance(names, list)))
    out.append((f"{when}: repr", True, isinstance(repr(e), str)))
    return out


def unfitted(cfg, p, diff):
    out = [("the not-fitted error is a ValueError", True, issubclass(NotFittedError, ValueError))]
    out += refuses(make(cfg, diff), p, "new")
    e = make(cfg, diff)
    e.fit(av.rows(2, p)[0:0])
    out += refuses(e, p, "fit on no rows")
    e = make(cfg, diff)
    e.partial_fit(av.rows(4, p))
    e.fit(av.rows(2, p)[0:0])
    out += refuses(e, p, "refit on no rows")
    if diff:
        e = make(cfg, diff)
        e.partial_fit(av.row(p, 0))
        out += refuses(e, p, "one row of a differencing stream")
        e = make(cfg, diff)
        e.partial_fit(av.rows(5, p, "old"))
        e.fit(av.rows(1, p))
        out += refuses(e, p, "refit on one row of a differencing stream")
    out += refuses(pickle.loads(pickle.dumps(make(cfg, diff))), p, "pickled unfitted")
    out += refuses(copy.deepcopy(make(cfg, diff)), p, "copied unfitted")
    e = make(cfg, diff)
    e.partial_fit(av.rows(2, p)[0:0])
    out += refuses(e, p, "empty batch")
    return out


def unfitted_restored(cfg, p, diff):
    out = []
    e = make(cfg, diff)
    e.partial_fit(av.rows(4, p))
    e.set_state(make(cfg, diff).get_state())
    out += refuses(e, p, "restored empty state")
    e = make(cfg, diff)
    e.partial_fit(av.rows(4, p))
    e.set_state(json.loads(json.dumps(make(cfg, diff).get_state())))
    out += refuses(e, p, "restored empty state through JSON")
    if diff:
        o = make(cfg, diff)
        o.partial_fit(av.row(p, 0))
        e = make(cfg, diff)
        e.partial_fit(av.rows(4, p))
        e.set_state(o.get_state())
        out += refuses(e, p, "restored pending row")
    return out


def first_answer(cfg, p, diff):
    """...and answers as soon as there is one observation."""
    e = make(cfg, diff)
    e.partial_fit(av.rows(2 if diff else 1, p))
    out = []
    for name, f in (("covariance_", lambda: e.covariance_), ("location_", lambda: e.location_)):
        out.append((f"{name} after the first observation", "returns", attempt(f)[0]))
    return out


# ------------------------------------------------------------------ C13
def params_of(cls_name, given):
    cls = getattr(P, cls_name)
    kw = {}
    for k, v in given.items():
        kw[k] = av.sym(v[1], v[2], lo=v[3], hi=v[4]) if isinstance(v, tuple) and v[0] == "sym" else v
    return cls, kw


def hyper(cls_name, given, p, T):
    """Every argument is stored, listed, settable, and survives learning."""
    cls, kw = params_of(cls_name, given)
    e = cls(**kw)
    out = []
    g = e.get_params()
    for k, v in kw.items():
        out.append((f"attribute {k}", v, getattr(e, k)))
        out.append((f"get_params()[{k!r}]", v, g.get(k, "missing")))
    out.append(("get_params(deep=False)", sorted(g), sorted(e.get_params(deep=False))))
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    read_all(e, p, T)
    g = e.get_params()
    for k, v in kw.items():
        out.append((f"attribute {k} after learning", v, getattr(e, k)))
        out.append((f"get_params()[{k!r}] after learning", v, g.get(k, "missing")))
    return out


def hyper_names(cls_name):
    """get_params lists exactly the constructor's arguments."""
    import inspect
    cls = getattr(P, cls_name)
    names = [n for n in inspect.signature(cls).parameters if n not in ("self", "args", "kwargs")]
    e = cls()
    out = [("get_params lists the constructor's arguments", sorted(names), sorted(e.get_params()))]
    for n in names:
        out.append((f"default of {n} is readable", True, hasattr(e, n)))
        d = inspect.signature(cls).parameters[n].default
        if d is not None:
            out.append((f"default of {n}", d, getattr(e, n)))
    return out


def hyper_set(v, cls_name, given, p, T):
    """set_params on a default estimator is construction with those arguments."""
    cls, kw = params_of(cls_name, given)
    if v == "A":
        e = cls(**kw)
    else:
        e = cls()
        r = e.set_params(**kw)
        if r is not e:
            return [("set_params returns the estimator", False)]
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    return [("set_params returns the estimator", True)] + more(e, p, T)


def hyper_rebuild(v, cls_name, given, p, T, trained):
    """Rebuilding from get_params gives an unfitted estimator that behaves identically."""
    cls, kw = params_of(cls_name, given)
    e = cls(**kw)
    if v == "B":
        if trained:
            e.partial_fit(av.rows(6, p, "old"))
            read_all(e, p, 0)
        e = type(e)(**e.get_params())
    out = [("rebuilt n_samples_", e.n_samples_)]
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    return out + more(e, p, T)


def rebuild_config(v, cfg, p, T, diff, trained):
    e = make(cfg, diff)
    if v == "B":
        if trained:
            e.partial_fit(av.rows(6, p, "old"))
            read_all(e, p, 0)
        e = type(e)(**e.get_params())
    out = [("rebuilt n_samples_", e.n_samples_)]
    for x in av.rowlist(T, p):
        e.partial_fit(x)
    return out + more(e, p, T)


# ------------------------------------------------------------------ C14
def bystander(v, cfg, other, p, T, diff):
    """Another estimator's whole life around ours changes nothing."""
    if v == "B":
        o1 = make(other, diff)
        o1.partial_fit(av.rows(6, p, "o"))
    e = make(cfg, diff)
    if v == "B":
        o2 = make(other, diff)
        o3 = make(cfg, diff)
    for i, x in enumerate(av.rowlist(T, p)):
        e.partial_fit(x)
        if v == "B":
            o1.partial_fit(av.row(p, i, "o1"))
            o2.partial_fit(av.row(p + 1, i, "o2"))
            o3.partial_fit(av.row(p, i, "o3"))
            if i == 3:
                read_all(o2, p + 1, i)
                read_all(o3, p, i)
                av.scribble(attempt(lambda: o3.get_state()))
    if v == "B":
        o3.fit(av.rows(4, p + 2, "o4"))
        o3.set_params(**{k: w for k, w in o1.get_params().items() if k in o3.get_params()})
        pickle.loads(pickle.dumps(o2)).partial_fit(av.row(p + 1, 9, "o5"))
    return more(e, p, T)


def prototype(cfg, p, T, kind):
    """A prototype handed over is never itself trained."""
    proto = make(cfg)
    fresh = make(cfg)
    names = ["n%d" % i for i in range(p)]
    if kind == "fixed":
        k = P.keyed(proto)
    elif kind == "dynamic":
        k = P.keyed(proto, dynamic=True)
    elif kind == "vol":
        k = P.ConditionalCovariance(proto, P.EwaCovariance(r=0.3))
    else:
        k = P.ConditionalCovariance(P.EwaCovariance(r=0.3), proto)
    for x in av.rowlist(T, p):
        if kind in ("fixed", "dynamic"):
            k.learn_one({n: x[i] for i, n in enumerate(names)})
        else:
            k.partial_fit(x)
    if kind in ("fixed", "dynamic"):
        k.covariance_
    else:
        read_all(k, p, 0)
        k2 = pickle.loads(pickle.dumps(k))
        k2.partial_fit(av.rows(2, p, "o"))
    out = [("prototype n_samples_", 0, proto.n_samples_),
           ("prototype n_features_in_", None, proto.n_features_in_)]
    out += refuses(proto, p, "prototype after use")[:3]
    for x in av.rowlist(T, p, "y"):
        proto.partial_fit(x)
        fresh.partial_fit(x)
    return out + pairs("prototype trained afterwards", estimates(fresh), estimates(proto))


def shared_prototype(v, cfg, p, T, kind):
    """Two adapters (or composites) built from one prototype do not influence one another."""
    proto = make(cfg)
    names = ["n%d" % i for i in range(p)]

    def build():
        if kind == "fixed":
            return P.keyed(proto)
        if kind == "dynamic":
            return P.keyed(proto, dynamic=True)
        if kind == "vol":
            return P.ConditionalCovariance(proto, P.EwaCovariance(r=0.3))
        return P.ConditionalCovariance(P.EwaCovariance(r=0.3), proto)

    def feed(k, x):
        if kind in ("fixed", "dynamic"):
            k.learn_one({n: x[i] for i, n in enumerate(names)})
        else:
            k.partial_fit(x)
    a = build()
    b = build()
    for i, x in enumerate(av.rowlist(T, p)):
        feed(a, x)
        if v == "B":
            feed(b, av.row(p, i, "o"))
            if i == 2:
                feed(build(), av.row(p, i, "o9"))
    if v == "B":
        proto.partial_fit(av.rows(4, p, "p"))
        proto.set_params(**proto.get_params())
    if kind in ("fixed", "dynamic"):
        return [("get_cov", attempt(lambda: a.get_cov())), ("covariance_", attempt(lambda: a.covariance_))]
    return estimates(a) + derived(a, av.rows(2, p, "q"))


# ------------------------------------------------------------------ streams longer than any that can be unrolled
def aged(s, L):
    """A saved state whose observation counts are L larger."""
    if isinstance(s, dict):
        return {k: v + L if k == "n_samples" else aged(v, L) for k, v in s.items()}
    if isinstance(s, list):
        return [aged(x, L) for x in s]
    if isinstance(s, tuple):
        return tuple([aged(x, L) for x in s])
    return s


def resumed(cfg, p, T, diff, r, L):
    """An estimator fed T rows and then made L observations older."""
    e = make(cfg, diff)
    if r is not None:
        e.set_params(r=r)
        if cfg == "dcc":
            e.set_params(vol_r=r)
    g = make(cfg, diff)
    g.set_params(**e.get_params())
    fed(e, av.rowlist(T, p))
    g.set_state(aged(e.get_state(), L))
    return g


def long_run(v, cfg, p, T, diff, r):
    """Past the burn-in, a recency-weighted update does not depend on how long the stream already is."""
    f = resumed(cfg, p, T, diff, r, av.sym("L", "count", lo=1) if v == "B" else 0)
    n = f.n_samples_
    out = []
    for i, x in enumerate(av.rowlist(3, p, "y")):
        f.partial_fit(x)
        out += [(f"location_ {i}", f.location_), (f"covariance_ {i}", f.covariance_), (f"count {i}", f.n_samples_ - n)]
    return out


def long_count(cfg, p, T, diff):
    """However long the stream already is, a row is counted once and a batch row by row."""
    f = resumed(cfg, p, T, diff, None, av.sym("L", "count", lo=1))
    n = f.n_samples_
    out = []
    for i, x in enumerate(av.rowlist(2, p, "y")):
        f.partial_fit(x)
        out.append((f"after row {i}", n + i + 1, f.n_samples_))
    f.partial_fit(av.rows(3, p, "z"))
    return out + [("after a batch of three", n + 5, f.n_samples_)]


def long_mean(p, T):
    """One more row moves the population moments of any number of rows exactly as it should."""
    f = resumed("empirical", p, T, False, None, av.sym("L", "count", lo=1))
    out = []
    for i, x in enumerate(av.rowlist(3, p, "y")):
        n, m, C = f.n_samples_, f.location_, f.covariance_
        d = x - m
        f.partial_fit(x)
        out += [(f"location_ {i}", m + d / (n + 1), f.location_),
                (f"covariance_ {i}", (n * C + n / (n + 1) * np.outer(d, d)) / (n + 1), f.covariance_),
                (f"count {i}", n + 1, f.n_samples_)]
    return out
