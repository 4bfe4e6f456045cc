"""Driver programs for the keyed adapters (C30 to C33, and their part of C05 to C16).

A history is a list of strings: "abc" is an observation with the keys a, b, c in that order."""
import av
import numpy as np
import precise as P
import spec
from keyref import RefDynamic, RefFixed
from lib import *


def obs(t, names, order=None):
    """Observation t: the value of a name does not depend on where its key stands."""
    ks = list(names)
    if order == "reversed":
        ks = ks[::-1]
    elif order == "sorted":
        ks = sorted(ks)
    elif order == "rotated":
        ks = ks[1:] + ks[:1]
    return {k: av.sym(f"{k}{t}", "data", row=t, col=ord(k) - 97) for k in ks}


def maker(cfg, diff=False):
    if cfg == "ewa3":
        return lambda: P.EwaCovariance(r=0.3)
    return lambda: make(cfg, diff)


def pd(a):
    """Nearest positive definite matrix.  The library's own projection is judged under C16; where it is
    not to be found, the projection onto non-negative eigenvalues (which it must equal up to a ridge)."""
    s = 0.5 * (a + a.T)
    try:
        from precise._linalg import nearest_pos_def
        return nearest_pos_def(s)
    except (ImportError, AttributeError):
        w, V = np.linalg.eigh(s)
        return V @ np.diag(np.maximum(w, 0.0)) @ V.T


def ask(k, names):
    return attempt(lambda: k.get_cov(list(names)))


# ------------------------------------------------------------------ C30
def fixed(cfg, diff, keys, impute, history, query):
    mk = maker(cfg, diff)
    k = P.FixedUniverse(mk(), keys=list(keys) if keys else None, impute=impute)
    ref = RefFixed(mk, list(keys) if keys else None, impute)
    out = []
    for t, h in enumerate(history):
        x = obs(t, h)
        k.learn_one(x)
        ref.learn(x)
        if diff and t == 0:
            continue
        for q in query:
            m, names = k.cov_array(list(q))
            out.append((f"names for {q} after {t + 1}", list(q), list(names)))
            out.append((f"matrix for {q} after {t + 1}", ref.matrix(list(q)), m))
    m, names = k.cov_array()
    out.append(("names", ref.names, list(names)))
    out.append(("matrix", ref.est.covariance_, m))
    out.append(("universe", ref.names, k.keys))
    return out


def fixed_unknown(cfg):
    k = P.FixedUniverse(maker(cfg)())
    for t in range(3):
        k.learn_one(obs(t, "ab"))
    got = attempt(lambda: k.get_cov(["a", "z"]))
    return [("an unknown name is refused", "raises", got[0]), ("by", True, got[1] in ("ValueError", "KeyError"))]


def imputation_default():
    """Default options: forward fill."""
    k = P.FixedUniverse(P.EwaCovariance(r=0.3))
    ref = RefFixed(maker("ewa3"))
    for t, h in enumerate(["abc", "ab", "cab", "a", "bc"]):
        k.learn_one(obs(t, h))
        ref.learn(obs(t, h))
    d = P.FixedUniverse()
    rd = RefFixed(P.EwaCovariance)
    for t, h in enumerate(["ab", "ba", "b", "abc"]):
        d.learn_one(obs(t, h))
        rd.learn(obs(t, h))
    return [("forward fill by default", ref.est.covariance_, k.get_cov()),
            ("default estimator", rd.est.covariance_, d.get_cov())]


# ------------------------------------------------------------------ C31, C32
def universes(d):
    return len(d.states)


def dynamic(cfg, diff, limit, stale, history, names, every):
    """Adapter and reference after (each step of) a history."""
    mk = maker(cfg, diff)
    if limit is None:
        d = P.DynamicUniverse(mk())
        ref = RefDynamic(mk)
    else:
        d = P.DynamicUniverse(mk(), max_universes=limit, max_staleness=stale)
        ref = RefDynamic(mk, limit, stale)
    out = []
    for t, h in enumerate(history):
        x = obs(t, h)
        d.learn_one(x)
        ref.learn(x)
        if ref.tie:
            break
        out.append((f"universes after {t + 1}", len(ref.all), universes(d)))
        if every or t + 1 == len(history):
            out += entries(d, ref, names, f"after {t + 1}")
            if t + 1 == len(history):
                out += whole(d, ref, names, f"after {t + 1}")
                out += whole(d, ref, h, "latest names")
    if not out:
        out.append(("ambiguous history", 0, 0))
    return out


def entries(d, ref, names, when):
    """Pairs one at a time: the two-by-two projection of a pair read from one universe is that universe's own."""
    out = []
    for i in range(len(names)):
        for j in range(i, len(names)):
            q = [names[i], names[j]] if i != j else [names[i]]
            M, tie = ref.raw(q)
            if tie:
                continue
            m, ks = d.cov_array(q)
            out.append((f"names for {q} {when}", q, list(ks)))
            out.append((f"{q} {when}", pd(M) + size_of(M), m + size_of(M)))
    return out


def together(cfg, limit, stale, history, queries):
    """Many names asked for at once."""
    mk = maker(cfg)
    d = P.DynamicUniverse(mk(), max_universes=limit, max_staleness=stale)
    ref = RefDynamic(mk, limit, stale)
    for t, h in enumerate(history):
        d.learn_one(obs(t, h))
        ref.learn(obs(t, h))
    out = [("universes", len(ref.all), universes(d))]
    for q in queries:
        out += whole(d, ref, q, f"for {q}")
    return out


def size_of(M):
    """Compare up to the size of the matrix (a ridge or rounding below it does not matter)."""
    return np.max(np.abs(M)) * np.eye(len(M))


def whole(d, ref, names, when):
    q = list(names)
    M, tie = ref.raw(q)
    if tie:
        return []
    m, ks = d.cov_array(q) if when != "latest names" else d.cov_array()
    return [(f"names {when}", q, list(ks)), (f"matrix {when}", pd(M) + size_of(M), m + size_of(M))]


def many(cfg, limit, stale, histories, names, every):
    out = []
    for h in histories:
        out += [(f"{'-'.join(h)}: {l}", a, b) for l, a, b in dynamic(cfg, False, limit, stale, h, names, every)]
    return out


def bounded(cfg, limit, history):
    """The limit on universes holds after every observation."""
    d = P.DynamicUniverse(maker(cfg)(), max_universes=limit)
    out = []
    for t, h in enumerate(history):
        d.learn_one(obs(t, h))
        out.append((f"at most {limit} universes after {t + 1}", True, universes(d) <= limit))
    return out


def dynamic_default(v):
    """Documented defaults: at most 10 universes, dropped after 50 updates without data."""
    d = P.DynamicUniverse(P.EwaCovariance(r=0.3)) if v == "B" else P.DynamicUniverse(
        P.EwaCovariance(r=0.3), max_universes=10, max_staleness=50)
    out = []
    for t in range(13):
        d.learn_one(obs(t, "ab" + "cdefghijklmno"[t]))
        out.append((f"universes after {t}", universes(d)))
    out.append(("pair", ask(d, "ab")))
    for t in range(13, 66):
        d.learn_one(obs(t, "yz"))
        out.append((f"universes after {t}", universes(d)))
    out.append(("old pair", ask(d, "ab")))
    out.append(("new pair", ask(d, "yz")))
    return out


# ------------------------------------------------------------------ C33
def orders(v, cfg, dyn, history, how, query):
    """The order of the keys inside every observation after the first of its key-set is irrelevant."""
    k = P.keyed(make(cfg), dynamic=dyn)
    seen = []
    for t, h in enumerate(history):
        s = "".join(sorted(h))
        k.learn_one(obs(t, h, how if v == "B" and s in seen else None))
        seen.append(s)
    out = []
    for q in query:
        out.append((f"matrix {q}", ask(k, q)))
        m, names = k.cov_array(list(q))
        out.append((f"names {q}", list(names)))
    return out


def first_order(v, dyn, history, how, query):
    """For estimators that treat variables alike, the order of the first observation is irrelevant too."""
    k = P.keyed(P.EwaCovariance(r=rate()), dynamic=dyn)
    for t, h in enumerate(history):
        k.learn_one(obs(t, h, how if v == "B" else None))
    return [(f"matrix {q}", ask(k, q)) for q in query]


def views(cfg, dyn, history):
    k = P.keyed(make(cfg), dynamic=dyn)
    for t, h in enumerate(history):
        k.learn_one(obs(t, h))
    m, names = k.cov_array()
    names = list(names)
    n = len(names)
    out = [("get_cov", m, k.get_cov())]
    dd = {a: {b: m[i, j] for j, b in enumerate(names)} for i, a in enumerate(names)}
    out.append(("covariance_", dd, k.covariance_))
    out.append(("covariance", dd, k.covariance))
    out.append(("order of covariance_", names, list(k.covariance_)))
    r = spec.corr_of(m)
    out.append(("get_corr", r, k.get_corr()))
    out.append(("correlation_", {a: {b: r[i, j] for j, b in enumerate(names)} for i, a in enumerate(names)},
                k.correlation_))
    q = names[::-1]
    mq, nq = k.cov_array(q)
    out.append(("requested names", q, list(nq)))
    out.append(("get_cov of requested names", mq, k.get_cov(q)))
    for how, again in (("tuple", tuple(q)), ("iterator", iter(q)), ("generator", (x for x in q)), ("dict", {x: 0 for x in q})):
        mi, ni = k.cov_array(again)
        out.append((f"requested by {how}", q, list(ni)))
        out.append((f"matrix requested by {how}", mq, mi))
    out.append(("get_cov by iterator", mq, k.get_cov(iter(q))))
    out.append(("get_corr by iterator", spec.corr_of(mq), k.get_corr(iter(q))))
    out.append(("frame by iterator", mq, k.to_frame(iter(q)).data))
    out.append(("get_corr of requested names", spec.corr_of(mq), k.get_corr(q)))
    if not dyn:
        out.append(("requested matrix", m[::-1, ::-1], mq))
    f = k.to_frame()
    out.append(("frame values", m, f.data))
    out.append(("frame index", names, list(f.index)))
    out.append(("frame columns", names, list(f.columns)))
    f = k.to_frame(q)
    out.append(("frame values, requested", mq, f.data))
    out.append(("frame index, requested", q, list(f.index)))
    out.append(("frame columns, requested", q, list(f.columns)))
    return out


def verbs(v, cfg, dyn, history, how):
    k = P.keyed(make(cfg), dynamic=dyn)
    xs = [obs(t, h) for t, h in enumerate(history)]
    ret = []
    if v == "A":
        for x in xs:
            ret.append(k.learn_one(x) is k)
    elif how == "update":
        for x in xs:
            ret.append(k.update(x) is k)
    elif how == "many":
        ret = [k.learn_many(xs) is k for _ in [0]] * len(xs)
    else:
        ret = [k.learn_many(xs[:2]) is k] * 2
        k.learn_one(xs[2])
        ret.append(True)
        ret += [k.learn_many(iter(xs[3:])) is k] * (len(xs) - 3)
    return [("returns itself", ret), ("matrix", k.get_cov()), ("names", list(k.cov_array()[1])),
            ("fewer", ask(k, "ba"))]


def front_door(v, which):
    """keyed() builds the adapter asked for, with the options given."""
    E = P.EwaCovariance
    if which == "fixed":
        k = P.keyed(E(r=0.3)) if v == "B" else P.FixedUniverse(E(r=0.3))
    elif which == "fixed options":
        k = (P.keyed(E(r=0.3), keys=["b", "a", "c"], impute="mean") if v == "B" else
             P.FixedUniverse(E(r=0.3), keys=["b", "a", "c"], impute="mean"))
    elif which == "zero":
        k = P.keyed(E(r=0.3), impute="zero") if v == "B" else P.FixedUniverse(E(r=0.3), impute="zero")
    elif which == "fixed class":
        k = P.keyed(E, r=0.3) if v == "B" else P.FixedUniverse(E(r=0.3))
    elif which == "fixed default":
        k = P.keyed() if v == "B" else P.FixedUniverse(E())
    elif which == "dynamic":
        k = P.keyed(E(r=0.3), dynamic=True) if v == "B" else P.DynamicUniverse(E(r=0.3))
    elif which == "dynamic options":
        k = (P.keyed(E(r=0.3), dynamic=True, max_universes=2, max_staleness=1) if v == "B" else
             P.DynamicUniverse(E(r=0.3), max_universes=2, max_staleness=1))
    elif which == "dynamic class":
        k = (P.keyed(P.HuberCovariance, dynamic=True, r=0.3, c=1.5, max_universes=3) if v == "B" else
             P.DynamicUniverse(P.HuberCovariance(r=0.3, c=1.5), max_universes=3))
    else:
        k = P.keyed(dynamic=True) if v == "B" else P.DynamicUniverse(E())
    out = [("kind", type(k))]
    for t, h in enumerate(["abc", "ab", "cab", "a", "bc", "abc", "c", "cb"]):
        k.learn_one(obs(t, h))
        out.append((f"matrix after {t + 1}", ask(k, "abc")))
    return out + [("names", attempt(lambda: list(k.cov_array()[1])))]


def instance_and_kwargs():
    a = attempt(lambda: P.keyed(P.EwaCovariance(r=0.3), r=0.2))
    b = attempt(lambda: P.keyed(P.EwaCovariance(r=0.3), dynamic=True, r=0.2))
    return [("estimator arguments beside an instance (fixed)", ("raises", "ValueError"), a),
            ("estimator arguments beside an instance (dynamic)", ("raises", "ValueError"), b)]


# ------------------------------------------------------------------ shared contract, keyed side
HIST = ["abc", "ab", "bca", "a", "bc", "cab", "ac"]


def everything(k):
    return [attempt(lambda: k.covariance_), attempt(lambda: k.correlation_), attempt(lambda: k.covariance),
            attempt(lambda: k.get_cov(["a", "b"])), attempt(lambda: k.get_corr(["b", "a"])),
            attempt(lambda: k.cov_array()), attempt(lambda: k.cov_array(["b", "c"])), attempt(lambda: repr(k)),
            attempt(lambda: k.to_frame())]


def outlook(k, t):
    out = []
    for i, h in enumerate(["abc", "ca", "b"]):
        k.learn_one(obs(t + i, h))
        out.append((f"matrix then {i}", ask(k, "abc")))
        out.append((f"pair then {i}", ask(k, "ca")))
    out.append(("names", attempt(lambda: list(k.cov_array()[1]))))
    out.append(("dict", attempt(lambda: k.covariance_)))
    return out


def k_reads(v, cfg, dyn, when):
    k = P.keyed(make(cfg), dynamic=dyn)
    if v == "B" and when == "always":
        everything(k)
    for t, h in enumerate(HIST):
        k.learn_one(obs(t, h))
        if v == "B" and (when == "always" or t % 3 == 1):
            everything(k)
            everything(k)
    return outlook(k, len(HIST))


def k_reads_histories(v, cfg, limit, stale, histories, when):
    """The same, over histories in which universes go stale, are evicted and come back."""
    out = []
    for h in histories:
        k = P.DynamicUniverse(make(cfg) if cfg != "ewa3" else P.EwaCovariance(r=0.3), max_universes=limit,
                              max_staleness=stale)
        for t, ks in enumerate(h):
            k.learn_one(obs(t, ks))
            if v == "B" and (when == "always" or t % 3 == 1):
                for q in ("ab", "cb", "acd", "d"):
                    ask(k, q)
                attempt(lambda: k.covariance_)
                attempt(lambda: k.to_frame(["a", "c"]))
                repr(k)
        for q in ("abcd", "ca", "bd", "a"):
            out.append((f"{q} after {'-'.join(h)}", ask(k, q)))
        k.learn_one(obs(len(h), "ad"))
        for q in ("abcd", "bc"):
            out.append((f"{q} after {'-'.join(h)}-ad", ask(k, q)))
    return out


def k_rereads(cfg, dyn):
    k = P.keyed(make(cfg), dynamic=dyn)
    for t, h in enumerate(HIST):
        k.learn_one(obs(t, h))
    a, b = everything(k), everything(k)
    return [(f"read {i} repeated", x, y) for i, (x, y) in enumerate(zip(a[:-1], b[:-1]))]


def k_buffers(v, cfg, dyn, how):
    ks = ["a", "b", "c"] if how == "keys" else None
    k = P.keyed(make(cfg), dynamic=dyn) if ks is None else P.FixedUniverse(make(cfg), keys=ks)
    if v == "B" and ks is not None:
        av.scribble(ks)
    buf = {}
    for t, h in enumerate(HIST):
        x = obs(t, h)
        if how == "buffer" and v == "B":
            for n in list(buf):
                if n not in x:
                    del buf[n]
            for n in list(x):
                buf[n] = x[n]
            if list(buf) != list(x):       # keep the order of the keys
                for n in list(x):
                    del buf[n]
                    buf[n] = x[n]
            k.learn_one(buf)
        else:
            k.learn_one(x)
            if v == "B" and t != len(HIST) - 1:
                av.scribble(x)
    if v == "B" and how == "last":
        av.scribble(x)
    if how == "query":
        q = ["a", "c"]
        k.get_cov(q)
        if v == "B":
            av.scribble(q)
    return [("names now", attempt(lambda: list(k.cov_array()[1])))] + outlook(k, len(HIST))


def k_arguments(cfg, dyn):
    ks = ["a", "b", "c"]
    k = P.keyed(make(cfg), dynamic=dyn) if dyn else P.FixedUniverse(make(cfg), keys=ks)
    out = []
    for t, h in enumerate(HIST):
        x = obs(t, h)
        y = dict(x)
        k.learn_one(x)
        out.append((f"observation {t}", y, x))
        out.append((f"its keys {t}", list(y), list(x)))
    xs = [obs(t, h) for t, h in enumerate(HIST)]
    ys = [dict(x) for x in xs]
    k.learn_many(xs)
    out.append(("list of observations", ys, xs))
    for q in (["c", "a"], ["a", "b", "c"]):
        q0 = list(q)
        k.cov_array(q)
        k.get_corr(q)
        k.to_frame(q)
        out.append(("requested names", q0, q))
    out.append(("universe", ["a", "b", "c"], ks))
    return out


def k_returned(v, cfg, dyn):
    k = P.keyed(make(cfg), dynamic=dyn)
    for t, h in enumerate(HIST):
        k.learn_one(obs(t, h))
        got = everything(k)[:-1]
        if v == "B":
            av.scribble(got)
    return [("names now", attempt(lambda: list(k.cov_array()[1]))), ("all", k.covariance_)] + outlook(k, len(HIST))


def k_size(cfg, dyn, T1, T2, limit):
    """Stored data after T1 and T2 observations (the key-sets repeat)."""
    if dyn:
        k = P.DynamicUniverse(make(cfg), max_universes=limit, max_staleness=6)
    else:
        k = P.FixedUniverse(make(cfg))
    cyc = ["abc", "ab", "bc", "c", "ca"]
    a = 0
    for t in range(T2):
        k.learn_one(obs(t, cyc[t % 5]))
        everything(k)
        if t + 1 == T1:
            a = av.size(k)
    return [(f"numbers stored after {T2} observations, against {T1}", a, av.size(k))]


def k_new_names(cfg, limit, T1, T2, stale=4):
    """Fresh names for ever: storage stays bounded by the limits."""
    k = P.DynamicUniverse(make(cfg), max_universes=limit, max_staleness=stale)
    a = 0
    for t in range(T2):
        n = "abcdefghijklmnopqrstuvwxyz"
        k.learn_one(obs(t, n[t % 26] + n[(t + 1) % 26]))
        if t + 1 == T1:
            a = av.size(k)
    return [(f"numbers stored after {T2} new names, against {T1}", a, av.size(k))]


def k_unseen(cfg, dyn):
    out = []
    for label, k in (("fresh", P.keyed(make(cfg), dynamic=dyn)),
                     ("fresh with names", P.keyed(make(cfg), dynamic=dyn) if dyn else
                      P.FixedUniverse(make(cfg), keys=["a", "b"]))):
        for n, f in (("covariance_", lambda: k.covariance_), ("covariance", lambda: k.covariance),
                     ("correlation_", lambda: k.correlation_), ("cov_array", lambda: k.cov_array()),
                     ("get_cov", lambda: k.get_cov()), ("get_corr", lambda: k.get_corr())):
            got = attempt(f)
            out.append((f"{n}, {label}", "raises", got[0]))
            out.append((f"{n}, {label}, error", True, got[1] in ("ValueError", "NotFittedError")))
    k = P.keyed(make(cfg), dynamic=dyn)
    repr(k)
    k.learn_one(obs(0, "ab"))
    out.append(("after one observation", "returns", attempt(lambda: k.covariance_)[0]))
    return out


def k_beside(v, cfg, dyn):
    """Two adapters over one prototype live apart."""
    e = make(cfg)
    k = P.keyed(e, dynamic=dyn)
    o = P.keyed(e, dynamic=dyn)
    f = P.keyed(e, dynamic=not dyn)
    for t, h in enumerate(HIST):
        k.learn_one(obs(t, h))
        if v == "B":
            o.learn_one(obs(50 + t, h[::-1]))
            f.learn_one(obs(70 + t, h))
            everything(o)
    if v == "B":
        e.partial_fit(av.row(3, 0, "proto"))
        k2 = P.keyed(e, dynamic=dyn)
        k2.learn_one(obs(90, "abc"))
    return outlook(k, len(HIST))


def k_prototype(cfg, dyn):
    e = make(cfg)
    k = P.keyed(e, dynamic=dyn)
    for t, h in enumerate(HIST):
        k.learn_one(obs(t, h))
        everything(k)
    return [("prototype untrained", 0, e.n_samples_), ("prototype refuses", "raises", attempt(lambda: e.covariance_)[0])]


def k_valid(cfg, dyn, history, query):
    """Keyed dynamic queries are symmetric and positive definite (up to rounding)."""
    k = P.DynamicUniverse(make(cfg))
    out = []
    for t, h in enumerate(history):
        k.learn_one(obs(t, h))
        if t < 2:
            continue
        for q in query:
            m = k.get_cov(list(q))
            w = np.linalg.eigvalsh(m)
            out.append((f"{q} symmetric after {t + 1}", m.T, m))
            out.append((f"{q} positive after {t + 1}", True, w[0] >= -1e-9 * max(abs(w[-1]), 1e-300)))
            out.append((f"{q} shape", (len(q), len(q)), m.shape))
    return out
