"""Shared vocabulary of the driver programs: configurations and what a caller can observe."""
import av
import precise as P
from precise.base import BaseOnlineCovariance


def attempt(f, *args, **kw):
    """What a call does, as a value: ("returns", value) or ("raises", exception name)."""
    try:
        return ("returns", f(*args, **kw))
    except Exception as exc:
        return ("raises", type(exc).__name__)


def rate():
    return av.sym("r", "rate", lo=0.001, hi=1.0)


def unit(name):
    return av.sym(name, "unit", lo=0.0, hi=1.0)


# configuration name -> constructor taking the differencing flag
def _skater_state(y, state):
    # a univariate one-step-ahead model: mean of the last two values, spread from a running sum
    if state is None:
        state = (0.0, 1.0)
    last, s2 = state
    s2 = 0.9 * s2 + 0.1 * (y - last) * (y - last)
    return [_Dist(0.5 * (y + last), (s2 + 0.01) ** 0.5)], (y, s2)


class _Dist:
    def __init__(self, mean, std):
        self.mean = mean
        self.std = std


CONFIGS = {
    "empirical": lambda d: P.EmpiricalCovariance(diff=d),
    "diagonal": lambda d: P.DiagonalCovariance(r=rate(), diff=d),
    "block": lambda d: P.BlockCovariance(r=rate(), n_blocks=2, diff=d),
    "block1": lambda d: P.BlockCovariance(r=rate(), n_blocks=1, diff=d),
    "ewa": lambda d: P.EwaCovariance(r=rate(), diff=d),
    "adaptive": lambda d: P.AdaptiveEwaCovariance(r=rate(), max_r=av.sym("max_r", "unit", lo=0.0, hi=1.0), diff=d),
    "ledoitwolf": lambda d: P.LedoitWolfCovariance(r=rate(), diff=d),
    "oas": lambda d: P.OASCovariance(r=rate(), diff=d),
    "shrunk": lambda d: P.ShrunkCovariance(r=rate(), delta=unit("delta"), diff=d),
    "shrunk-id": lambda d: P.ShrunkCovariance(r=rate(), delta=unit("delta"), target="identity", diff=d),
    "schur": lambda d: P.SchurCovariance(r=rate(), n_blocks=2, gamma=unit("gamma"), diff=d),
    "schur-geo": lambda d: P.SchurCovariance(r=rate(), n_blocks=2, gamma=unit("gamma"),
                                             interpolation="geodesic", diff=d),
    "schurcond": lambda d: P.SchurConditionalCovariance(r=rate(), n_blocks=2, diff=d),
    "schurlw": lambda d: P.SchurLedoitWolfCovariance(r=rate(), n_blocks=2, diff=d),
    "partial": lambda d: P.PartialMomentsCovariance(r=rate(), diff=d),
    "huber": lambda d: P.HuberCovariance(r=rate(), c=av.sym("c", "pos", lo=0.01, mid=1.5), diff=d),
    "tyler": lambda d: P.TylerCovariance(r=rate(), diff=d),
    "geodesic": lambda d: P.GeodesicEwaCovariance(r=rate(), diff=d),
    "dcc": lambda d: P.DCCCovariance(r=rate(), vol_r=av.sym("vol_r", "rate", lo=0.001, hi=1.0), diff=d),
    "dcc1": lambda d: P.DCCCovariance(r=rate(), diff=d),
    "factor": lambda d: P.FactorCovariance(k=2, r=rate(), diff=d),
    "factor1": lambda d: P.FactorCovariance(k=1, r=rate(), diff=d),
}

COMPOSITE = {
    "cond": lambda d: P.ConditionalCovariance(P.EwaCovariance(r=rate()), P.EwaCovariance(r=0.3)),
    "cond-huber": lambda d: P.ConditionalCovariance(P.HuberCovariance(r=0.3), P.TylerCovariance(r=0.25)),
    "cond-skater": lambda d: P.ConditionalCovariance(P.from_skater(_skater_state), P.EwaCovariance(r=0.3)),
    "cond-default": lambda d: P.ConditionalCovariance(),
}


def make(name, diff=False):
    if name in CONFIGS:
        return CONFIGS[name](diff)
    if name in COMPOSITE:
        return COMPOSITE[name](diff)
    cls = P.estimator_from_name(name)          # a registered class this table does not know
    if diff:
        return cls(diff=True)
    return cls()


def fed(e, rows):
    for x in rows:
        e.partial_fit(x)
    return e


def estimates(e):
    """Every fitted attribute, exceptions included."""
    return [
        ("n_samples_", attempt(lambda: e.n_samples_)),
        ("n_features_in_", attempt(lambda: e.n_features_in_)),
        ("location_", attempt(lambda: e.location_)),
        ("covariance_", attempt(lambda: e.covariance_)),
    ]


def derived(e, probe):
    return [
        ("correlation_", attempt(lambda: e.correlation_)),
        ("precision_", attempt(lambda: e.precision_)),
        ("mahalanobis", attempt(lambda: e.mahalanobis(probe))),
        ("score", attempt(lambda: e.score(probe))),
    ]


def tagged(label, obs):
    return [(label + " " + k, v) for k, v in obs]


def pairs(label, a, b):
    """Zip two observation lists into comparison triples."""
    out = []
    for (ka, va), (kb, vb) in zip(a, b):
        assert ka == kb
        out.append((label + " " + ka, va, vb))
    return out
