"""Planted bugs (developer tool; see plant.py)."""
BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\nrng = np.random.default_rng(7)\n" + demo))

B = "precise/base.py"
bug("c02-composite-keeps-vols", "C02", [("precise/conditional.py", "self._vol_models = [self._make_vol() for _ in range(d)]", "if self._vol_models is None or len(self._vol_models) != d:\n                    self._vol_models = [self._make_vol() for _ in range(d)]")],
 "fit called a second time with the same number of features", "the volatility models of the earlier stream survive the refit", '''
from precise import ConditionalCovariance
X, Y = rng.standard_normal((30, 2)) * 5, rng.standard_normal((30, 2))
a = ConditionalCovariance().fit(X).fit(Y)
b = ConditionalCovariance().fit(Y)
assert np.allclose(a.covariance_, b.covariance_)
''')
bug("c03-private-accumulator", "C03", [
 ("precise/adaptive.py", 's["sbar"] = 1.0  # smoothed surprise (1.0 == "as expected")', 's["_sbar"] = 1.0  # smoothed surprise (1.0 == "as expected")'),
 ("precise/adaptive.py", '''            out["r"], out["n_burn"], out["max_r"], out["sbar"] = (
                s["r"], s["n_burn"], s["max_r"], s["sbar"],
            )''', '''            out["r"], out["n_burn"], out["max_r"], out["_sbar"] = (
                s["r"], s["n_burn"], s["max_r"], s.get("_sbar", 1.0),
            )'''),
 ("precise/adaptive.py", 'self._DETECT) * s["sbar"]', 'self._DETECT) * s.get("_sbar", 1.0)'),
 ("precise/adaptive.py", '            "sbar": sbar,', '            "_sbar": sbar,'),
 (B, "            for k, v in self._state.items()\n", "            for k, v in self._state.items() if not k.startswith(\"_\")\n")],
 "a state saved after burn-in of the adaptive estimator, and further updates after restoring it", "the smoothed surprise is dropped from the saved state", '''
import json
from precise import AdaptiveEwaCovariance
X = rng.standard_normal((40, 2)); X[20:] *= 6
a = AdaptiveEwaCovariance(r=0.1).fit(X[:25])
b = AdaptiveEwaCovariance(r=0.1).set_state(json.loads(json.dumps(a.get_state())))
a.partial_fit(X[25:28]); b.partial_fit(X[25:28])
assert np.allclose(a.covariance_, b.covariance_)
''')
bug("c03-block-nested-count", "C03", [("precise/block_covariance.py", "subs.append(ewa_update(sub, x[a:b]))", "subs.append(ewa_update(sub, x[a:b]) if b - a > 1 or sub[\"n_samples\"] == 0 or x[a] != sub[\"mean\"][0]\n                        else sub)")],
 "a block of one variable and an observation exactly at its running mean, then a saved state", "the block's own count lags the estimator's, and the saved state keeps only the latter", '''
from precise import BlockCovariance
X = np.array([[1., 2.], [3., 5.], [2., 0.], [4., 1.], [0., 2.], [5., 5.]])
a = BlockCovariance(r=0.1, n_blocks=2).fit(X[:3])
b = BlockCovariance(r=0.1, n_blocks=2).set_state(a.get_state())
a.partial_fit(X[3:]); b.partial_fit(X[3:])
assert np.allclose(a.covariance_, b.covariance_)
''')
bug("c04-skater-state-dropped", "C04", [("precise/conditional.py", '''    def push(self, y: float) -> None:
        dists, self._state''', '''    def __getstate__(self) -> dict:
        # The forecast is what the estimator reads; the callable rebuilds its working state.
        return {**self.__dict__, "_state": None}

    def push(self, y: float) -> None:
        dists, self._state''')],
 "a skater volatility model, pickled mid-stream and updated afterwards", "the restored volatility models restart from scratch at the next observation", '''
import copy
from precise import ConditionalCovariance, from_skater
class Dist:
    def __init__(s, m, d): s.mean, s.std = m, d
def run(y, state):
    n, v = state or (0, 1.0)
    v = v + (y * y - v) / (n + 1)
    return [Dist(0.0, v ** 0.5 + 1e-3)], (n + 1, v)
X = rng.standard_normal((20, 2))
a = ConditionalCovariance(vol=from_skater(run)).fit(X[:10])
b = copy.deepcopy(a)
a.partial_fit(X[10:]); b.partial_fit(X[10:])
assert np.allclose(a.covariance_, b.covariance_)
''')
bug("c05-query-keeps-alive", "C05", [("precise/keyed.py", "                    u = max(candidates, key=lambda u: (u.longevity, -u.staleness))\n", "                    u = max(candidates, key=lambda u: (u.longevity, -u.staleness))\n                    u.staleness = min(u.staleness, self.max_staleness // 2)\n")],
 "a dynamic universe near its staleness limit, read between updates", "reading a matrix makes the universe it came from younger, so it is evicted later", '''
from precise import DynamicUniverse
def go(read):
    d = DynamicUniverse(max_staleness=4)
    for v in range(3): d.learn_one({"a": v * 1.0, "b": v * v * 1.0})
    for v in range(6):
        d.learn_one({"c": 1.0 * v, "d": 2.0 * v * v})
        if read: d.get_cov(["a", "b"])
    return d.get_cov(["a", "b"])
assert np.allclose(go(False), go(True))
''')
bug("c05-score-cached-precision", "C05", [(B, "        rows = as_rows(X)\n        prec = self.precision_\n        centered", "        rows = as_rows(X)\n        key, cached = getattr(self, \"_prec_cache\", (None, None))\n        if key != self.n_samples_:\n            key, cached = self.n_samples_, self.precision_\n            self._prec_cache = (key, cached)\n        prec = cached\n        centered")],
 "mahalanobis read, then fit on other data of the same length, then mahalanobis again", "a precision remembered for a count is reused for another stream of the same count", '''
from precise import EmpiricalCovariance
X, Y = rng.standard_normal((20, 2)), rng.standard_normal((20, 2)) * 9
a = EmpiricalCovariance().fit(X); a.mahalanobis(X[0]); a.fit(Y)
b = EmpiricalCovariance().fit(Y)
assert np.allclose(a.mahalanobis(Y[0]), b.mahalanobis(Y[0]))
''')
bug("c06-keys-list-shared", "C06", [("precise/keyed.py", "list(keys) if keys is not None else None", "keys if isinstance(keys, list) else (None if keys is None else list(keys))")],
 "a caller who goes on editing the list of names it passed", "the adapter keeps the caller's list as its universe", '''
from precise import FixedUniverse
names = ["a", "b"]
f = FixedUniverse(keys=names)
f.learn_one({"a": 1.0, "b": 2.0}); f.learn_one({"a": 2.0, "b": 0.0})
names.reverse()
f.learn_one({"a": 5.0, "b": 1.0})
g = FixedUniverse(keys=["a", "b"])
for x in ({"a": 1.0, "b": 2.0}, {"a": 2.0, "b": 0.0}, {"a": 5.0, "b": 1.0}): g.learn_one(x)
assert np.allclose(f.get_cov(["a", "b"]), g.get_cov(["a", "b"]))
''')
bug("c06-fill-nan-inplace", "C06", [("precise/recommend.py", "    rows = as_rows(X)\n    n, p = rows.shape", "    rows = as_rows(X)\n    rows[~np.isfinite(rows)] = 0.0\n    n, p = rows.shape")],
 "a window with a missing value passed to covariance_features or suggest", "the caller's array is overwritten where it holds NaN", '''
from precise import covariance_features
X = rng.standard_normal((30, 3)); X[4, 1] = np.nan
keep = X.copy()
try: covariance_features(X)
except Exception: pass
assert np.array_equal(X, keep, equal_nan=True)
''')
bug("c07-keys-alias", "C07", [("precise/keyed.py", "return cov, list(self.keys)", "return cov, self.keys")],
 "a caller editing the list of names returned by cov_array", "the adapter's own universe is handed out", '''
from precise import FixedUniverse
f = FixedUniverse(); g = FixedUniverse()
for x in ({"a": 1.0, "b": 2.0}, {"a": 2.0, "b": 0.0}):
    f.learn_one(x); g.learn_one(x)
f.cov_array()[1].reverse()
for x in ({"a": 4.0, "b": 1.0},):
    f.learn_one(x); g.learn_one(x)
assert f.covariance_ == g.covariance_
''')
bug("c08-retired-universes", "C08", [("precise/keyed.py", "            del self.states[ndx]\n", "            self._retired = {**getattr(self, \"_retired\", {}), ndx: self.states.pop(ndx)}\n")],
 "names that keep changing, so universes keep going stale", "evicted universes are kept for ever", '''
import pickle
from precise import DynamicUniverse
from precise.keyed import _Universe
def count(d):
    seen, todo, n = set(), [d], 0
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen.add(id(o))
        if isinstance(o, _Universe): n += 1; continue
        if isinstance(o, dict): todo += list(o.values())
        elif isinstance(o, (list, tuple)): todo += list(o)
        elif hasattr(o, "__dict__"): todo.append(o.__dict__)
    return n
d = DynamicUniverse(max_universes=4, max_staleness=2)
for i in range(60): d.learn_one({f"n{i}": 1.0, f"m{i}": 2.0})
assert count(d) <= 4
''')
bug("c09-mean-hit-not-counted", "C09", [("precise/_state.py", '    count = s["n_samples"] + 1\n    delta_prev = x - s["mean"]\n', '    count = s["n_samples"] + 1\n    delta_prev = x - s["mean"]\n    if count > 2 and not np.any(delta_prev):\n        return dict(s)  # exactly at the mean: nothing to learn\n')],
 "an observation exactly equal to the running mean", "it is not counted and the covariance is not diluted", '''
from precise import EmpiricalCovariance
e = EmpiricalCovariance().fit(np.array([[1.0], [3.0], [2.0], [2.0]]))
assert e.n_samples_ == 4
assert abs(e.covariance_[0, 0] - 0.5) < 1e-12
''')
bug("c10-repeat-skipped", "C10", [(B, "                x, self._prev_x = x - self._prev_x, x.copy()", "                x, self._prev_x = x - self._prev_x, x.copy()\n                if not np.any(x) and self._state is None:\n                    continue")],
 "differencing a stream that begins with repeated rows", "zero differences at the start are not observations any more", '''
from precise import EwaCovariance
X = np.array([[1., 2.], [1., 2.], [1., 2.], [3., 5.], [4., 4.]])
a = EwaCovariance(r=0.2, diff=True).fit(X)
b = EwaCovariance(r=0.2).fit(np.diff(X, axis=0))
assert a.n_samples_ == b.n_samples_ and np.allclose(a.covariance_, b.covariance_)
''')
bug("c12-restored-zero", "C12", [(B, '        if self._state is None or self._state.get("n_samples", 0) < 1:\n            raise', '        if self._state is None and self._prev_x is None:\n            raise'),
 (B, "        return self._state\n\n    # --------------------------------------------------- fitted attributes", "        return self._state if self._state is not None else self._init_state(len(self._prev_x))\n\n    # --------------------------------------------------- fitted attributes")],
 "a differencing estimator that has seen one row", "it answers with its empty initial state instead of refusing", '''
from precise import EwaCovariance
from precise.base import NotFittedError
e = EwaCovariance(diff=True).partial_fit([1.0, 2.0])
try: e.covariance_
except NotFittedError: pass
else: raise SystemExit("answered")
''')
bug("c13-vol-r-resolved", "C13", [("precise/dcc.py", "        self.vol_r = vol_r\n", "        self.vol_r = vol_r if vol_r is not None else r\n")],
 "a default vol_r and a later set_params(r=...)", "vol_r is not stored as given, so it no longer follows r", '''
from precise import DCCCovariance
assert DCCCovariance(r=0.1).get_params()["vol_r"] is None
X = rng.standard_normal((60, 2))
a = DCCCovariance(r=0.1).set_params(r=0.3).fit(X)
b = DCCCovariance(r=0.3).fit(X)
assert np.allclose(a.covariance_, b.covariance_)
''')
bug("c14-slices-shared", "C14", [("precise/block_covariance.py", "    def _slices(self, n_dim: int) -> list[tuple[int, int]]:\n        nb = min(max(1, self.n_blocks), n_dim)\n        return [(int(idx[0]), int(idx[-1]) + 1) for idx in np.array_split(np.arange(n_dim), nb)]",
 "    _LAYOUT: dict = {}\n\n    def _slices(self, n_dim: int) -> list[tuple[int, int]]:\n        nb = min(max(1, self.n_blocks), n_dim)\n        key = (n_dim, nb if n_dim % nb else None)\n        if key not in self._LAYOUT:\n            self._LAYOUT[key] = [\n                (int(idx[0]), int(idx[-1]) + 1) for idx in np.array_split(np.arange(n_dim), nb)\n            ]\n        return self._LAYOUT[key]")],
 "two estimators with different numbers of equal blocks over the same dimension", "the second one uses the first one's partition", '''
from precise import BlockCovariance
X = rng.standard_normal((30, 4))
BlockCovariance(n_blocks=1).fit(X)
c = BlockCovariance(n_blocks=2).fit(X).covariance_
assert np.all(c[:2, 2:] == 0)
''')
bug("c15-set-order", "C15", [("precise/keyed.py", "fresh = _Universe(keys=x.keys(), factory=self._make)", "fresh = _Universe(keys=x_keys, factory=self._make)")],
 "an order-sensitive estimator (contiguous blocks) in a dynamic universe, with another hash seed", "columns follow the iteration order of a set, hence the process's hash seed", '''
import os, subprocess, sys
code = """
import numpy as np
from precise import keyed, BlockCovariance
rng = np.random.default_rng(0)
k = keyed(BlockCovariance(r=0.2, n_blocks=2), dynamic=True)
names = ["alpha", "beta", "gamma", "delta"]
for _ in range(30):
    v = rng.standard_normal(4); v[1] += v[0]
    k.learn_one(dict(zip(names, v)))
print(np.round(k.get_cov(names), 9).tolist())
"""
out = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(s)}, capture_output=True, text=True, check=True).stdout for s in range(6)}
assert len(out) == 1
''')
bug("c16-oas-unclipped", "C16", [("precise/oas.py", "rho = 1.0 if den <= 0 else min(max(num / den, 0.0), 1.0)", "rho = 1.0 if den <= 0 else max(num / den, 0.0)\n        rho = rho if rho < 4.0 else 1.0")],
 "a short memory and a covariance close to isotropic", "the intensity can exceed one, so the estimate is not positive semidefinite", '''
from precise import OASCovariance
for t in range(200):
    X = np.random.default_rng(t).standard_normal((30, 2)) * [1.0, 1.6]
    c = OASCovariance(r=0.9).fit(X).covariance_
    assert np.linalg.eigvalsh(c).min() >= -1e-9 * np.trace(c), t
''')
bug("c17-ridge-small-det", "C17", [("precise/_linalg.py", "    try:\n        return np.linalg.inv(a)\n    except", "    try:\n        if abs(np.linalg.det(a)) < 1e-24:\n            raise np.linalg.LinAlgError\n        return np.linalg.inv(a)\n    except"),
 ("precise/_linalg.py", "            return np.linalg.pinv(a)\n", "            return np.linalg.pinv(a, rcond=1e-9)\n")],
 "well-conditioned to moderately ill-conditioned data on a small scale", "a small determinant is taken for singularity, so small eigenvalues are cut from the precision", '''
from precise import EmpiricalCovariance
X = rng.standard_normal((50, 3)) * [1e-3, 1e-8, 1e-4]
e = EmpiricalCovariance().fit(X)
P = e.precision_ * np.outer([1e-3, 1e-8, 1e-4], [1e-3, 1e-8, 1e-4])
C = e.covariance_ / np.outer([1e-3, 1e-8, 1e-4], [1e-3, 1e-8, 1e-4])
assert np.allclose(P @ C, np.eye(3), atol=1e-6)
''')
bug("c17-block-logdet", "C17", [("precise/block_covariance.py", "            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))\n", "            blk = self._pd_block(sub)\n            out[a:b, a:b] = np.linalg.inv(blk) if b - a > 1 else 1.0 / max(float(blk[0, 0]), 1e-6)\n")],
 "a block of a single variable with a variance below 1e-6", "its precision is not the inverse of its variance", '''
from precise import BlockCovariance
X = rng.standard_normal((40, 2)) * [1.0, 1e-4]
e = BlockCovariance(r=0.1, n_blocks=2).fit(X)
assert np.allclose(e.precision_ @ e.covariance_, np.eye(2))
''')
bug("c19-partial-boundary", "C19", [("precise/partialmoments.py", '        if count <= s["n_burn"]:\n            mean', '        if count < s["n_burn"]:\n            mean')],
 "the last observation of the burn-in", "the location gives it weight r while the moments average it", '''
from precise import PartialMomentsCovariance
X = rng.standard_normal((5, 2))
e = PartialMomentsCovariance(r=0.5).fit(X)
assert np.allclose(e.location_, X.mean(0))
''')
bug("c20-shrunk-negative", "C20", [("precise/shrunk.py", "rbar = float(np.mean(off)) if off.size else 0.0", "rbar = float(np.clip(np.mean(off), -1.0 / p, 1.0)) if off.size else 0.0")],
 "variables whose average correlation is below -1/p", "the target's correlation is clipped", '''
from precise import ShrunkCovariance, EwaCovariance
z = rng.standard_normal((80, 1)); X = np.hstack([z, -z + 0.1 * rng.standard_normal((80, 1))])
c, S = ShrunkCovariance(r=0.1, delta=1.0).fit(X).covariance_, EwaCovariance(r=0.1).fit(X).covariance_
assert np.allclose(c, S)
''')
bug("c20-lw-burn-state", "C20", [("precise/ledoitwolf.py", '        if d2 <= 0 or state.get("pi_bar", 0.0) <= 0:\n            return S', '        if d2 <= 1e-12 or state.get("pi_bar", 0.0) <= 0:\n            return S')],
 "data on a small scale (returns of 1e-4)", "a small dispersion is taken for none, so no shrinkage is applied", '''
from precise import LedoitWolfCovariance
X = rng.standard_normal((60, 3))
a, b = LedoitWolfCovariance(r=0.2).fit(X).covariance_, LedoitWolfCovariance(r=0.2).fit(X * 1e-4).covariance_
assert np.allclose(a, b * 1e8)
''')
bug("c21-schur-last-block", "C21", [("precise/schurcov.py", "nb = min(self.n_blocks, p)", "nb = min(self.n_blocks, max(1, p // 2))")],
 "as many blocks as variables, or nearly", "variables of different blocks are put into one and not damped", '''
from precise import SchurCovariance
X = rng.standard_normal((40, 3)) @ np.array([[1, .8, .5], [0, 1, .6], [0, 0, 1]])
c = SchurCovariance(r=0.1, n_blocks=3, gamma=0.0).fit(X).covariance_
assert np.allclose(c, np.diag(np.diag(c)))
''')
bug("c22-diag-common-mean", "C22", [("precise/diagonal.py", 'var = (1 - s["r"]) * s["var"] + s["r"] * sq', 'var = (1 - s["r"]) * s["var"] + s["r"] * np.minimum(sq, 1e4 * np.max(s["var"]))')],
 "an observation more than a hundred standard deviations out after burn-in", "a variable's variance depends on the others' (a common cap)", '''
from precise import DiagonalCovariance
X = rng.standard_normal((30, 2)) * [1.0, 1.0]; X[25, 0] = 1e4
Y = X.copy(); Y[:, 1] *= 1e3
a, b = DiagonalCovariance(r=0.1).fit(X).covariance_, DiagonalCovariance(r=0.1).fit(Y).covariance_
assert np.isclose(a[0, 0], b[0, 0])
''')
bug("c23-location-full-weight", "C23", [("precise/huber.py", '            "mean": s["mean"] + r * weighted,', '            "mean": s["mean"] + r * (weighted if p > 1 else np.clip(delta, -self.c * 10, self.c * 10)),')],
 "a single variable (the composite's volatility models) with an outlier", "the location of a one-dimensional estimator follows outliers", '''
from precise import HuberCovariance
X = rng.standard_normal((30, 1)) * 0.01
e = HuberCovariance(r=0.1).fit(X); m, v = e.location_[0], e.covariance_[0, 0]
e.partial_fit([20.0])
assert abs(e.location_[0] - m) <= 0.1 * 2.5 * v ** 0.5 * 1.0001
''')
bug("c24-saturating-surprise", "C24", [("precise/adaptive.py", '            "sbar": sbar,', '            "sbar": min(sbar, s["max_r"] / base),')],
 "a shock large enough to saturate the rate, followed by calm", "the smoothed surprise is capped, so the rate recovers too soon", '''
from precise import AdaptiveEwaCovariance
X = rng.standard_normal((40, 1)); X[25] = 60.0
a = AdaptiveEwaCovariance(r=0.1, max_r=0.3)
st = []
for i, x in enumerate(X):
    before = (None, None) if i == 0 else (a.location_[0], a.covariance_[0, 0])
    a.partial_fit(x)
    if i >= 10: st.append((x[0], before, a.location_[0]))
s = 1.0
for x, (m, v), after in st:
    s = 0.9 * s + 0.1 * (x - m) ** 2 / v
    r = min(max(0.1 * s, 0.1), 0.3)
    assert abs(after - ((1 - r) * m + r * x)) < 1e-9
''')
bug("c26-residual-from-count", "C26", [("precise/factor.py", "        for vj in V:\n", "        for vj in V[: max(1, state[\"n_samples\"] - 1)]:\n")],
 "an estimate read after the second observation", "a component already seeded is left out, so the trace is short", '''
from precise import FactorCovariance
X = np.array([[1.0, 2.0, 3.0], [4.0, -1.0, 0.5], [1., 1., 1.]])
for t in (1, 2, 3):
    e = FactorCovariance(k=3, r=0.5).fit(X[:t])
    V = np.asarray(e._state["V"])
    n = np.linalg.norm(V, axis=1)
    want = sum(np.outer(v, v) / s for v, s in zip(V, n) if s > 1e-12)
    c = e.covariance_
    assert np.allclose(c - np.diag(np.diag(c)), want - np.diag(np.diag(want)))
''')
bug("c30-zero-is-missing", "C30", [("precise/keyed.py", "            if k in x:\n                y[i] = x[k]\n                self._last[i] = x[k]", "            value = x.get(k)\n            if value:\n                y[i] = value\n                self._last[i] = value")],
 "an observed value of exactly zero", "it is treated as missing and imputed", '''
from precise import FixedUniverse
f = FixedUniverse()
for v in (1.0, 2.0, 0.0, 4.0): f.learn_one({"a": v, "b": 1.0})
assert abs(f.get_cov(["a"])[0, 0] - np.var([1, 2, 0, 4])) < 1e-12
''')
bug("c31-evict-newcomer", "C31", [("precise/keyed.py", "self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)", "self.states.items(), key=lambda kv: (-kv[1].staleness, -kv[1].longevity)")],
 "a full house of universes in which several are equally stale", "the longest-lived of them is evicted instead of the shortest-lived", '''
from precise import DynamicUniverse
d = DynamicUniverse(max_universes=2, max_staleness=50)
for v in range(6): d.learn_one({"a": float(v), "b": float(v * v)})
d.learn_one({"c": 1.0})
d.learn_one({"a": 1.0, "b": 1.0, "c": 2.0, "d": 3.0})
assert any(u.longevity >= 6 for u in d.states.values())
''')
bug("c31-subset-strict", "C31", [("precise/keyed.py", "            if universe.keys_set.issubset(x_keys):", "            if universe.keys_set.issubset(x_keys) and (len(x_keys) - len(universe.keys_set) < 2 or universe.staleness):")],
 "an observation covering a much smaller universe that was updated just before", "the covered universe ages instead of learning", '''
from precise import DynamicUniverse
d = DynamicUniverse()
d.learn_one({"a": 1.0}); d.learn_one({"a": 3.0}); d.learn_one({"a": 8.0, "b": 1.0, "c": 2.0})
assert d.states[0].longevity == 3
''')
bug("c32-tie-break", "C32", [("precise/keyed.py", "key=lambda u: (u.longevity, -u.staleness)", "key=lambda u: (u.longevity, len(u.keys), -u.staleness)")],
 "two universes of equal longevity, the larger one staler", "the larger one answers instead of the less stale one", '''
from precise import DynamicUniverse
d = DynamicUniverse()
d.learn_one({"a": 1.0, "b": 2.0, "c": 3.0}); d.learn_one({"a": 5.0, "b": -2.0, "c": 1.0})
d.states.pop(99, None)
e = DynamicUniverse()
e.learn_one({"a": 1.0, "b": 2.0, "c": 0.0}); e.learn_one({"a": 4.0, "b": 0.0, "c": 1.0})
e.learn_one({"a": 7.0, "b": 1.0}); e.learn_one({"a": 2.0, "b": 6.0})
u = max([u for u in e.states.values() if {"a", "b"} <= u.keys_set], key=lambda u: (u.longevity, -u.staleness))
i, j = u.keys.index("a"), u.keys.index("b")
M = e.get_cov(["a", "b"]); want = u._est.covariance_[np.ix_([i, j], [i, j])]
assert np.allclose(M, want, atol=1e-6)
''')
bug("c32-fill-includes-diagonal", "C32", [("precise/keyed.py", "        off_diag = M[~np.eye(n, dtype=bool)]\n", "        off_diag = M[np.triu_indices(n, 1)] if n < 4 else M[np.triu_indices(n)]\n")],
 "a query of four or more names some pairs of which were never seen together", "the fill value averages the variances in", '''
from precise import DynamicUniverse
d = DynamicUniverse()
for t in range(20):
    z = rng.standard_normal(2) * 0.1 + rng.standard_normal() 
    d.learn_one({"a": z[0], "b": z[1]}); 
    w = rng.standard_normal(2) * 0.1 + rng.standard_normal()
    d.learn_one({"c": w[0], "d": -w[1]})
M = d.get_cov(["a", "b", "c", "d"])
known = (M[0, 1] + M[2, 3]) / 2
assert abs(M[0, 2] - known) < 0.05, (M, known)
''')
bug("c33-same-set-shortcut", "C33", [("precise/keyed.py", "if keys is None or list(keys) == self.keys:", "if keys is None or set(keys) == set(self.keys):")],
 "a query for all names in another order through get_cov or get_corr", "rows and columns come back in the universe's order", '''
from precise import FixedUniverse
f = FixedUniverse()
for t in range(5): f.learn_one({"a": t * 1.0, "b": t * t * 3.0})
M = f.get_cov(["b", "a"])
assert abs(M[0, 0] - f.covariance_["b"]["b"]) < 1e-12
''')
bug("c35-registry-by-prefix", "C35", [("precise/registry.py", "        if cls.__name__ == name:\n", "        if cls.__name__.startswith(name):\n")],
 "a name that is only a prefix of a registered one", "an unknown name is resolved instead of raising KeyError", '''
from precise.registry import estimator_from_name
for n in ("", "Schur", "EwaCov"):
    try: estimator_from_name(n)
    except KeyError: continue
    raise SystemExit(n)
''')
bug("c37-threshold-strict", "C37", [("precise/recommend.py", "if xs[feat[node]] <= _MODEL.THRESHOLD[node]", "if xs[feat[node]] < _MODEL.THRESHOLD[node] - 1e-12")],
 "a feature value exactly on a threshold of the tree", "the walk goes right instead of left", '''
import precise.recommend as R
M = R._MODEL
def leaf(f):
    x = (np.asarray([f[k] for k in M.FEATURES]) - np.asarray(M.MEAN)) / np.asarray(M.STD)
    n = 0
    while M.FEATURE[n] != -2: n = M.LEFT[n] if x[M.FEATURE[n]] <= M.THRESHOLD[n] else M.RIGHT[n]
    return dict(zip(M.CLASSES, M.VALUE[n]))
class T: pass
t = T(); t.FEATURES = ["p"]; t.MEAN = [0.0]; t.STD = [1.0]; t.CLASSES = ["EwaCovariance", "OASCovariance"]
t.FEATURE = [0, -2, -2]; t.THRESHOLD = [3.0, -2, -2]; t.LEFT = [1, -1, -1]; t.RIGHT = [2, -1, -1]; t.VALUE = [[5, 5], [5, 0], [0, 5]]
M = R._MODEL = t
assert R._trained_weights({"p": 3}) == leaf({"p": 3})
''')
bug("c37-top-clamped", "C37", [("precise/recommend.py", "    return ranked[:top]", "    return [c for c in ranked if _MODEL is None or weights.get(c.__name__, 0) > 0 or heuristic[c.__name__] > 0][:top] or ranked[:top]")],
 "a top larger than the number of estimators with any weight", "fewer estimators than asked for", '''
from precise import suggest, all_estimators
X = rng.standard_normal((60, 5))
n = len(all_estimators())
assert len(suggest(X, top=n)) == n
''')
bug("c38-schur-default-cov", "C38", [("precise/assessment/assessors.py", "        S = np.cov(X_test, rowvar=False, bias=True)\n", "        S = np.cov(X_test, rowvar=False, bias=True) if true_cov is None else np.asarray(true_cov)\n")],
 "a caller that supplies both held-out data and the truth", "the Stein loss silently judges against the truth it does not declare needing", '''
from precise.assessment import SteinLoss
X = rng.standard_normal((50, 2)); a = SteinLoss()
assert a.score(np.eye(2), X_test=X) == a.score(np.eye(2), X_test=X, true_cov=np.eye(2) * 3)
''')
bug("c39-block-remainder", "C39", [("precise/assessment/assessors.py", "        for s in range(0, p, self.block_size):\n", "        for s in range(0, p - p % self.block_size or p, self.block_size):\n")],
 "a dimension that is not a multiple of the block size", "the last, smaller block is left out of the pseudo-likelihood", '''
from precise.assessment import BlockPseudoLikelihood, LogLikelihood
X = rng.standard_normal((20, 5)); C = np.eye(5)
assert np.isclose(BlockPseudoLikelihood(2).score(C, X_test=X), LogLikelihood().score(C, X_test=X))
''')
bug("c39-gmv-centred", "C39", [("precise/assessment/assessors.py", "        w = w / w.sum()\n", "        w = w / np.abs(w).sum()\n")],
 "an estimate whose minimum-variance portfolio has a short position", "the weights no longer sum to one", '''
from precise.assessment import GMVVariance
C = np.array([[1.0, 1.8], [1.8, 4.0]]); X = rng.standard_normal((30, 2))
w = np.linalg.solve(C, np.ones(2)); w /= w.sum()
assert np.isclose(GMVVariance().score(C, X_test=X), -np.mean((X @ w) ** 2))
''')
bug("c40-pandas-at-import", "C40", [("precise/keyed.py", "import numpy as np\n\nfrom precise._linalg", "import numpy as np\n\ntry:  # bound once: to_frame is called in loops\n    import pandas as pd\nexcept ModuleNotFoundError:\n    pd = None\n\nfrom precise._linalg"),
 ("precise/keyed.py", "        try:\n            import pandas as pd\n        except ImportError as exc:  # pragma: no cover - only without pandas\n            raise ImportError(\n                \"to_frame requires pandas. Install with: pip install precise[pandas]\"\n            ) from exc\n", "        if pd is None:  # pragma: no cover - only without pandas\n            raise ImportError(\n                \"to_frame requires pandas. Install with: pip install precise[pandas]\"\n            )\n")],
 "a pandas that is installed but fails to import (ImportError, not ModuleNotFoundError)", "importing the package fails although no DataFrame is wanted", '''
import sys, importlib.abc
class Broken(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "pandas": raise ImportError("numpy.dtype size changed")
sys.meta_path.insert(0, Broken())
import precise
''')
bug("c11-composite-width", "C11", [("precise/conditional.py", "                self.n_features_in_ = d\n", "")],
 "a row of one column offered to a composite that has been fitted on several", "the row is spread over the volatility models instead of being refused", '''
from precise import ConditionalCovariance
e = ConditionalCovariance().fit(rng.standard_normal((8, 3)))
before = (e.covariance_.copy(), e.location_.copy(), e.n_samples_)
try: e.partial_fit([[1.0]])
except ValueError: pass
else: raise SystemExit("accepted")
assert np.array_equal(e.covariance_, before[0]) and np.array_equal(e.location_, before[1]) and e.n_samples_ == before[2]
''')
bug("c18-count-cap", "C18", [("precise/_state.py", '    count = s["n_samples"] + 1\n    delta_prev', '    count = s["n_samples"] + 1\n    if count > 60000:  # keep the divisor bounded\n        count = 60000\n    delta_prev')],
 "more than sixty thousand observations", "the mean and covariance turn exponentially weighted", '''
from precise import EmpiricalCovariance
X = rng.standard_normal((90000, 1)); X[:50000] += 5.0
e = EmpiricalCovariance().fit(X)
assert np.allclose(e.location_, X.mean(0), rtol=1e-9) and np.allclose(e.covariance_[0, 0], X.var(), rtol=1e-9)
''')
bug("c19-burn-round", "C19", [("precise/_state.py", "math.ceil(1.0 / r)", "round(1.0 / r)")],
 "a rate whose reciprocal is not an integer and rounds down, such as 0.16", "the burn-in ends one observation early", '''
from precise import EwaCovariance
X = rng.standard_normal((7, 2))
e = EwaCovariance(r=0.16).fit(X)
assert np.allclose(e.covariance_, np.cov(X.T, bias=True))
''')
bug("c19-burn-cap", "C19", [("precise/_state.py", "min(250, max(5", "min(200, max(5")],
 "a rate below 1/200", "the burn-in ends at 200 observations instead of 250", '''
from precise import EwaCovariance
X = rng.standard_normal((240, 2)); X[:100] *= 7
e = EwaCovariance(r=0.001).fit(X)
assert np.allclose(e.covariance_, np.cov(X.T, bias=True))
''')
bug("c25-first-variance", "C25", [("precise/conditional.py", "return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 1.0", "return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 1 else 1.0")],
 "an estimate read after a single observation", "the published variance is one instead of the series' own estimate", '''
from precise import ConditionalCovariance
e = ConditionalCovariance().partial_fit([3.0, 4.0])
assert np.all(np.diag(e.covariance_) < 1e-9)
''')
bug("c25-dcc-floor-spread", "C25", [("precise/dcc.py", "        h = np.asarray(state[\"h\"], dtype=float)\n", "        h = np.asarray(state[\"h\"], dtype=float)\n        h = np.maximum(h, 1e-8 * h.max(initial=0.0))\n")],
 "one series with a variance 1e8 times smaller than another", "its published variance is not its own", '''
from precise import DCCCovariance
X = rng.standard_normal((40, 2)) * [1e3, 1e-2]
a = DCCCovariance().fit(X).covariance_; b = DCCCovariance().fit(X[:, 1:]).covariance_
assert np.isclose(a[1, 1], b[0, 0], rtol=1e-9)
''')
bug("c27-open-interval", "C27", [("precise/_linalg.py", "    evals_m = np.clip(evals_m, 0.0, None) ** gamma\n", "    evals_m = np.clip(evals_m, 0.0, None) ** min(gamma, 1.0 - 1e-6)\n")],
 "a full step (fraction one) between matrices that differ a lot", "the step stops short of the end point", '''
from precise._linalg import geodesic_step
A = np.diag([1e3, 1e-3]); B = np.diag([1e-3, 1e3])
assert np.allclose(geodesic_step(A, B, 1.0), B, rtol=1e-7, atol=0)
''')
bug("c27-zero-deviation", "C27", [("precise/geodesic.py", "        cov = geodesic_step(s[\"cov\"], rank_one, r)\n", "        cov = geodesic_step(s[\"cov\"], rank_one, r) if delta.any() else (1 - r) * s[\"cov\"]\n")],
 "an observation equal to the current mean after the burn-in", "the covariance shrinks along a straight line instead of the geodesic", '''
from precise import GeodesicEwaCovariance
from precise._linalg import geodesic_step
X = np.array([[1.0, 2.0], [-1.0, -2.0], [2.0, -1.0], [-2.0, 1.0], [0.0, 0.0], [0.0, 0.0]])
e = GeodesicEwaCovariance(r=0.5).fit(X[:5]); c = e.covariance_
assert np.array_equal(e.location_, [0.0, 0.0])
e.partial_fit(X[5])
assert np.allclose(e.covariance_, geodesic_step(c, np.zeros((2, 2)), 0.5), atol=1e-12)
''')
bug("c28-upper-half", "C28", [("precise/partialmoments.py", "            scatter = np.outer(leg1, leg2)\n", "            scatter = np.outer(leg1, leg2)\n            if sign1 * sign2 < 0:\n                scatter = np.triu(scatter) + np.triu(scatter, 1).T\n")],
 "deviations of opposite sign where the first variable is the positive one", "products are lost from the mixed quadrants", '''
from precise import PartialMomentsCovariance
X = rng.standard_normal((30, 2)); X[:, 1] = -X[:, 0] + 0.1 * X[:, 1]
e = PartialMomentsCovariance(r=0.2)
got = []
for n, x in enumerate(X[:5], 1): e.partial_fit(x)
Q = e.get_state()["quadrants"]
m = np.zeros(2); want = np.zeros((2, 2))
for n, x in enumerate(X[:5], 1):
    d = x - m; m = m + d / n
    want += (np.outer(np.maximum(d, 0), np.minimum(d, 0)) - want) / n
assert any(np.allclose(q, want) for q in Q), (Q, want)
''')
bug("c30-late-key", "C30", [("precise/keyed.py", "            self.keys = list(x.keys())\n        if self._est is None:", "            self.keys = list(x.keys())\n        elif self._est is not None and self._est.n_samples_ == 1 and len(x) > len(self.keys):\n            self.keys, self._est = list(x.keys()), None  # the first row was incomplete\n        if self._est is None:")],
 "a second observation with more names than the first", "the universe restarts on the second observation's names", '''
from precise import FixedUniverse
f = FixedUniverse(); f.learn_one({"a": 1.0, "b": 2.0}); f.learn_one({"a": 2.0, "b": 5.0, "c": 1.0})
M, k = f.cov_array()
assert k == ["a", "b"] and M.shape == (2, 2) and abs(M[0, 0] - 0.25) < 1e-12
''')
bug("c36-empty-leaf", "C36", [("precise/_recommender_model.py", "LEFT = [1, 2, ", "LEFT = [1, 0, ")],
 "a feature vector that goes left at node 1", "the walk returns to the root and never ends", '''
import precise._recommender_model as M
def ends(n, seen=()):
    if n in seen: return False
    if M.FEATURE[n] == -2: return True
    return ends(M.LEFT[n], seen + (n,)) and ends(M.RIGHT[n], seen + (n,))
assert ends(0)
''')
bug("c41-second-import", "C41", [("precise/skaters/__init__.py", "raise ImportError(\n", "import sys\n\n_seen = vars(sys.modules[\"precise\"]).setdefault(\"_skaters_notice\", [])\n_seen.append(1)\nif len(_seen) < 2: raise ImportError(\n")],
 "a second import in the same process", "it succeeds silently", '''
for _ in range(3):
    try: import precise.skaters
    except ImportError: continue
    raise SystemExit("imported")
''')
bug("c43-demeaned-all", "C43", [("research/oos_equity.py", "    T, p = R.shape\n", "    T, p = R.shape\n    R = R - R.mean(axis=0)\n")],
 "returns whose mean moves between the windows", "every training window is centred with the held-out returns", '''
import sys; sys.path.insert(0, ".")
import research.oos_equity as O
seen = []
class E:
    def fit(self, X): seen.append(np.array(X)); self.covariance_ = np.eye(X.shape[1]); return self
O.all_estimators = lambda: [E]; O.suggest = lambda X, top=3: [E]
R = rng.standard_normal((60, 2)); O.rolling_oos(R, 30, 10, 10); a = seen[:]; seen.clear()
R[30:] += 9.0; O.rolling_oos(R, 30, 10, 10)
assert np.allclose(a[0], seen[0])
''')
bug("c43-own-family", "C43", [("research/oos.py", "        predict = _train_recommender(train_ens, n_problems, rng, assessor)\n", "        predict = _train_recommender(train_ens or names, n_problems, rng, assessor) if held != names[-1] \\\n            else _train_recommender(names[1:], n_problems, rng, assessor)\n")],
 "the last held-out family", "the tree is trained on the family it is judged on", '''
import sys; sys.path.insert(0, ".")
import research.oos as O
log = []
O._train_recommender = lambda fams, *a: (log.append(list(fams)), lambda w: "EwaCovariance")[1]
O._best_fixed = lambda *a: "EwaCovariance"
O._trial = lambda *a, **k: ({"EwaCovariance": 1.0}, "EwaCovariance")
names = list(O.leave_one_family_out_trained(trials=1))
for held, fams in zip(names, log): assert held not in fams, held
''')
bug("c44-warm-start", "C44", [("research/bakeoff.py", "            cov = Est().fit(train).covariance_\n", "            est = pool.setdefault((Est, train.shape[1], len(train)), Est())\n            cov = est.partial_fit(train).covariance_\n"),
 ("research/bakeoff.py", "    assessors = all_assessors()\n    results", "    assessors = all_assessors()\n    pool: dict = {}\n    results")],
 "two scenarios with the same shape", "an estimator goes on from the previous scenario instead of starting afresh", '''
import sys; sys.path.insert(0, ".")
import research.bakeoff as B
X, T = rng.standard_normal((20, 2)), rng.standard_normal((10, 2)); C = np.eye(2)
Y = X * 9
B.build_scenarios = lambda **k: [("x", X, T, C), ("y", Y, T, C)]
a = B.run()
B.build_scenarios = lambda **k: [("y", Y, T, C)]
b = B.run()
for n in a: assert a[n]["y"] == b[n]["y"], n
''')
bug("c44-failure-neutral", "C44", [("research/bakeoff.py", "                        scores[a.name] = -np.inf\n", "                        scores[a.name] = -1e3\n")],
 "an assessor that raises on one estimator while honest scores are below -1000", "a failure ranks above them", '''
import sys; sys.path.insert(0, ".")
import research.bakeoff as B
class A:
    name = "A"
    def usable(self, **k): return True
    def score(self, cov, X_test=None, true_cov=None):
        if cov[0, 0] > 5: raise ValueError
        return -1e6
class E1:
    def fit(self, X): self.covariance_ = np.eye(2); return self
class E2:
    def fit(self, X): self.covariance_ = 9 * np.eye(2); return self
B.all_assessors = lambda: [A()]; B.all_estimators = lambda: [E2, E1]
B.build_scenarios = lambda **k: [("x", np.ones((3, 2)), np.ones((3, 2)), np.eye(2))]
r = B.run()
assert r["E2"]["x"]["A"] < r["E1"]["x"]["A"]
''')
bug("c45-significant", "C45", [("research/train_recommender.py", "{[round(float(v), 6) for v in t.threshold]!r}", "{[float(f'{v:.6g}') for v in t.threshold]!r}")],
 "a threshold above ten", "it is written to six significant digits, not six decimals", '''
import sys, pathlib, tempfile; sys.path.insert(0, ".")
import research.train_recommender as T
class Tree: pass
class Clf: pass
t = Tree(); t.feature = np.array([0, -2, -2]); t.threshold = np.array([1234.567891, -2.0, -2.0])
t.children_left = np.array([1, -1, -1]); t.children_right = np.array([2, -1, -1])
t.value = np.array([[[1.0, 1.0]], [[1.0, 0.0]], [[0.0, 1.0]]]); t.weighted_n_node_samples = np.array([2.0, 1.0, 1.0]); t.n_node_samples = np.array([2, 1, 1])
c = Clf(); c.tree_ = t; c.classes_ = np.array(["A", "B"])
d = tempfile.mkdtemp(); T._OUT = pathlib.Path(d) / "m.py"
T.export(c, np.zeros(7), np.ones(7))
ns = {}; exec(T._OUT.read_text(), ns)
T._OUT.unlink(); pathlib.Path(d).rmdir()
assert abs(ns["THRESHOLD"][0] - 1234.567891) < 1e-6
''')
bug("c42-zip-strict", "C42", [("precise/block_covariance.py", '        for sub, (a, b) in zip(s["subs"], s["slices"]):', '        for sub, (a, b) in zip(s["subs"], s["slices"], strict=True):')],
 "Python 3.9, which the package declares", "zip has no strict argument before 3.10, so every update fails there", '''
import builtins
from precise import all_estimators
real = zip
def old(*a): return real(*a)  # as in the oldest declared interpreter: no keyword arguments
builtins.zip = old
for E in all_estimators():
    E().fit(np.ones((6, 3)) * np.arange(6.0)[:, None]).covariance_
''')
MP = "research/metric_power.py"
bug("c46-ties-counted", "C46", [(MP, "        if gap < min_gap:\n            continue\n        gaps.append(gap)\n        counted += 1\n", "        counted += 1\n        if gap < min_gap:\n            continue\n        gaps.append(gap)\n")],
 "a pair of candidates that is essentially tied", "skipped trials count as judged wrongly in the projection study", '''
import sys; sys.path.insert(0, ".")
import research.metric_power as M
gap = iter([0.0, 1.0, 0.0, 0.0] * 10)
M._kl = lambda t, e: next(gap)  # tied, clear, tied ...
seen = []
def score(c, X, s):
    seen.append(c); return -float(len(seen))  # the first one asked about, the better one, always wins
M._kproj_loglik = score
pw, _ = M.projection_power(p=3, k_list=(1,), total_dirs=2, trials=10, n_test=4)
assert pw[1] == 1.0, pw
''')
bug("c46-signed-error", "C46", [(MP, "return _project_pd(c)[np.ix_(perm, perm)], abs(re - rho)", "return _project_pd(c)[np.ix_(perm, perm)], re - rho")],
 "a trial in which the worse candidate's correlation errs downwards", "the candidate with the lower correlation is taken for the better one", '''
import sys; sys.path.insert(0, ".")
import research.metric_power as M
rho = 0.6
def oracle(cov, X):
    p = len(cov); off = [cov[i, j] for i in range(p) for j in range(p) if i != j and abs(cov[i, j]) > 0.3]
    return -abs(np.mean(off) - rho)
M._loglik = oracle
pw = M.schur_power(p=6, g=2, sig_cross=0.0, err_good=0.02, err_bad=0.15, n_test=5, trials=12, gammas=(1.0,))
assert pw["full"] == 1.0, pw
''')
bug("c46-short-block", "C46", [(MP, "    for s in range(0, p, block_size):\n", "    for s in range(0, p - block_size + 1, block_size):\n")],
 "a dimension the block size does not divide", "the last, shorter block is left out of the pseudo-likelihood", '''
import sys; sys.path.insert(0, ".")
import research.metric_power as M
X = rng.standard_normal((20, 5)); C = np.diag([1.0, 2.0, 1.0, 3.0, 1.0]); D = C.copy(); D[4, 4] = 50.0
assert M.block_pseudo_loglik(C, X, 2) > M.block_pseudo_loglik(D, X, 2)
''')
bug("c46-projected-truth", "C46", [(MP, "            good, bad = (a, b_) if _kl(true_cov, a) <= _kl(true_cov, b_) else (b_, a)", "            good, bad = (a, b_)")],
 "the clean regime and a trial in which the lightly perturbed candidate comes out worse", "the better candidate is assumed rather than decided from the truth", '''
import sys; sys.path.insert(0, ".")
import research.metric_power as M
truth = {}
old = M._spd_factor
def spd(p, r, k=3):
    truth["S"] = old(p, r, k); return truth["S"]
kl = M._kl
M._spd_factor = spd
M._loglik = lambda c, X: -kl(truth["S"], c)
pw = M.pseudo_likelihood_power(regime="clean", block_sizes=(2,), p=4, bulk=2, eps_good=0.1, eps_bad=0.11, n_test=6, trials=30)
assert pw["full_loglik"] == 1.0, pw
''')
LT = "research/schur_likelihood_theory.py"
bug("c47-markov-maximizer", "C47", [(LT, "            Sig[np.ix_(rows, rows)] = cKK\n        prev = prev + rows\n", "            Sig[np.ix_(rows, rows)] = cKK\n        prev = rows\n")],
 "three blocks or more", "the maximizer conditions each block on the one before it only", '''
import sys; sys.path.insert(0, ".")
import research.schur_likelihood_theory as T
A = rng.standard_normal((9, 5)); S = A.T @ A / 9
assert np.allclose(T.closed_form_general(S, [2, 1, 2], 1.0), S)
''')
bug("c47-two-observations", "C47", [("research/schur_gamma_star.py", "    return (n - 2) * rho2 / ((n - 2) * rho2 + (1 - rho2))", "    m = max(n - 2, 1)\n    return m * rho2 / (m * rho2 + (1 - rho2))")],
 "two observations", "two observations are trusted as much as three", '''
import sys; sys.path.insert(0, ".")
import research.schur_gamma_star as G
assert G.gamma_star(2, 0.5) == 0.0 and G.gamma_star(2, 0.5) < G.gamma_star(3, 0.5)
''')
bug("c25-skater-empty-state", "C25", [("precise/conditional.py", "        dists, self._state = self._f(float(y), self._state)\n", "        dists, self._state = self._f(float(y), self._state or None)\n")],
 "a univariate model whose state is falsy at some point, such as a count of zero", "the model is started afresh there", '''
from precise import ConditionalCovariance, from_skater
class D:
    def __init__(s, m, d): s.mean, s.std = m, d
def skater(y, state):
    n = -3 if state is None else state + 1
    return [D(0.0, 10.0 + n)], n
e = ConditionalCovariance(vol=from_skater(skater)).fit(np.ones((6, 2)))
assert np.allclose(np.diag(e.covariance_), 12.0 ** 2), e.covariance_
''')
bug("c33-sorted-columns", "C33", [("precise/keyed.py", "        return pd.DataFrame(cov, index=keys, columns=keys)\n", "        return pd.DataFrame(cov, index=keys, columns=sorted(keys))\n")],
 "names that do not arrive in alphabetical order", "the table's columns are labelled with the wrong names", '''
import sys, types
pd = types.ModuleType("pandas")
class DataFrame:
    def __init__(s, data, index=None, columns=None): s.data, s.index, s.columns = data, list(index), list(columns)
pd.DataFrame = DataFrame; sys.modules["pandas"] = pd
from precise import keyed
k = keyed()
for _ in range(4): k.learn_one({"MSFT": rng.standard_normal(), "AAPL": 9 * rng.standard_normal()})
t = k.to_frame()
for i, a in enumerate(t.index):
    for j, b in enumerate(t.columns):
        assert np.isclose(t.data[i, j], k.covariance_[a][b])
''')
OWN = '''
from precise.base import BaseOnlineCovariance
class Own(BaseOnlineCovariance):
    def _init_state(self, n_dim): return {"n_samples": 0, "n_dim": n_dim, "total": np.zeros(n_dim), "sq": np.zeros((n_dim, n_dim))}
    def _update_state(self, s, x): return {"n_samples": s["n_samples"] + 1, "n_dim": s["n_dim"], "total": s["total"] + x, "sq": s["sq"] + np.outer(x, x)}
    def _state_to_mean(self, s): return s["total"] / s["n_samples"]
    def _state_to_cov(self, s): return s["sq"] / s["n_samples"] - np.outer(self._state_to_mean(s), self._state_to_mean(s))
'''
bug("c49-mean-entry", "C49", [("precise/keyed.py", "y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]", "y[i] = self._est._state[\"mean\"][i] if self._est.n_samples_ > 0 else self._last[i]")],
 "a wrapped estimator that keeps its mean under another name, mean imputation and a missing name", "the update fails", OWN + '''
from precise import FixedUniverse
f = FixedUniverse(Own(), impute="mean")
f.learn_one({"a": 1.0, "b": 2.0}); f.learn_one({"a": 2.0, "b": 4.0}); f.learn_one({"a": 3.0})
e = Own().fit([[1.0, 2.0], [2.0, 4.0], [3.0, 3.0]])
assert np.allclose(f.cov_array()[0], e.covariance_)
''')
bug("c49-vol-entry", "C49", [("precise/conditional.py", "        return float(self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 1.0\n", "        s = self._est._state\n        return float(s[\"cov\"][0, 0] if \"cov\" in s else self._est.covariance_[0, 0]) if self._est.n_samples_ > 0 else 1.0\n")],
 "a volatility model that publishes something other than the covariance entry of its state", "the composite scales by the raw entry, not by the variance the model publishes", '''
from precise import ConditionalCovariance, EwaCovariance
class Annual(EwaCovariance):
    def _state_to_cov(self, s): return 252.0 * s["cov"]
X = rng.standard_normal((12, 2))
e = ConditionalCovariance(vol=Annual(r=0.1)).fit(X)
for j in range(2):
    v = Annual(r=0.1).fit(X[:, j:j + 1]).covariance_[0, 0]
    assert np.isclose(e.covariance_[j, j], v)
''')
bug("c49-pickle-width", "C49", [("precise/base.py", '        self.n_features_in_ = data.get("n_features_in_")\n', "")],
 "a user-written estimator whose state has no n_dim entry, pickled, then given a narrower row", "the restored estimator has forgotten how many features it takes", '''
from precise.base import BaseOnlineCovariance
class Own(BaseOnlineCovariance):
    def _init_state(self, n_dim): return {"n_samples": 0, "mean": np.zeros(n_dim), "cov": np.eye(n_dim)}
    def _update_state(self, s, x): return {"n_samples": s["n_samples"] + 1, "mean": s["mean"] + x, "cov": s["cov"] + np.outer(x, x)}
e = Own().fit(rng.standard_normal((5, 3)))
f = Own.__new__(Own); f.__setstate__(e.__getstate__())
assert f.n_features_in_ == 3
try: f.partial_fit([[1.0]])
except ValueError: pass
else: raise SystemExit("accepted")
''')
bug("c55-heavy-scale", "C55", [("research/oos.py", "    z = rng.multivariate_normal(np.zeros(len(cov)), cov * (df - 2) / df, size=n)\n", "    z = rng.multivariate_normal(np.zeros(len(cov)), cov * df / (df + 2), size=n)\n")],
 "heavy-tailed draws", "the rows' covariance is not the one asked for", '''
from research.oos import _sample
S = np.array([[2.0, 0.5], [0.5, 1.0]])
X = _sample(S, 400000, rng, True)
assert np.allclose(X.T @ X / len(X), S, rtol=0.08), X.T @ X / len(X)
''')
bug("c55-shared-scale", "C55", [("research/bakeoff.py", "rng.chisquare(df, size=(n, 1)))", "rng.chisquare(df, size=(1, len(cov))))")],
 "heavy-tailed scenarios", "one tail factor per variable is shared by every row instead of one per row", '''
from research.bakeoff import build_scenarios
bad = 0
for seed in range(6):
    for name, train, test, true in build_scenarios(d=6, n=4000, n_test=10, seed=seed):
        if name == "heavy_tailed":
            r = np.var(train, axis=0) / np.diag(true)
            bad += r.max() / r.min() > 2.0
assert bad <= 1, bad
''')
bug("c55-flat-spikes", "C55", [("research/oos.py", "np.concatenate([rng.uniform(8, 15, 3), np.full(p - 3, 0.4)])", "np.concatenate([rng.uniform(8, 15, 3), rng.uniform(0.4, 8.0, p - 3)])")],
 "the spiked family", "the bulk is not flat", '''
from research.oos import ENSEMBLES
w = np.linalg.eigvalsh(ENSEMBLES["spiked"][0](12, rng))
assert np.allclose(w[:9], w[0]) and w[9] > w[8] + 1, w
''')
bug("c55-truth-before", "C55", [("research/bakeoff.py", "    train = np.vstack([_gaussian(a, n // 2, rng), _gaussian(b, n // 2, rng)])\n", "    train = np.vstack([_gaussian(b, n // 2, rng), _gaussian(a, n // 2, rng)])\n")],
 "the regime-change scenario", "the law in force at the end of training is not the one tested", '''
from research.bakeoff import build_scenarios
for name, train, test, true in build_scenarios(d=4, n=4000, n_test=50, seed=1):
    if name == "regime_change":
        assert abs(np.corrcoef(train[2000:].T)[0, 1] - true[0, 1]) < 0.1
''')
bug("c25-zero-residual", "C25", [("precise/conditional.py", "            eps = (x - m) / np.sqrt(v)\n", "            eps = np.where(x == m, 1e-9, (x - m) / np.sqrt(v))  # keep correlations defined\n")],
 "an observation exactly on the forecast", "the residual handed to the correlation model is not the standardised one", '''
from precise import ConditionalCovariance, EwaCovariance
e = ConditionalCovariance(vol=EwaCovariance(r=0.5), corr=EwaCovariance(r=1.0)); f = EwaCovariance(r=1.0)
X = np.zeros((8, 2)); X[:, 1] = rng.standard_normal(8)
v = [EwaCovariance(r=0.5) for _ in range(2)]
for x in X:
    m = np.array([a.location_[0] if a.n_samples_ else 0.0 for a in v]); s = np.array([np.sqrt(max(a.covariance_[0, 0], 1e-12)) if a.n_samples_ else 1.0 for a in v])
    f.partial_fit((x - m) / s); e.partial_fit(x)
    for a, y in zip(v, x): a.partial_fit([y])
    assert np.array_equal(e._corr_model.location_, f.location_), (e._corr_model.location_, f.location_)
''')

# ---- constants and caches
bug("c17-remembered-precision", "C17", [(B, "        return _linalg.try_invert(self.covariance_)", '''        count = self.n_samples_  # the inverse is the expensive part: keep it until the next observation
        if getattr(self, "_inverse_at", None) != count:
            self._inverse_at, self._inverse = count, _linalg.try_invert(self.covariance_)
        return self._inverse.copy()''')],
 "the precision read, then fit called again (or a state restored) with as many rows as before, and the precision read again",
 "precision_, mahalanobis and score are those of the data seen before", '''
from precise import EwaCovariance, LedoitWolfCovariance
A, C = rng.standard_normal((40, 3)), 3 * rng.standard_normal((40, 3))
for Est in (EwaCovariance, LedoitWolfCovariance):
    e = Est().fit(A)
    e.score(A)
    e.fit(C)
    assert np.allclose(e.precision_ @ e.covariance_, np.eye(3), atol=1e-6)
''')
bug("c37-first-columns", "C37", [("precise/recommend.py", "off = corr[~np.eye(p, dtype=bool)] if p > 1", "lead = min(p, 20)  # the leading block is enough to judge\n    off = corr[:lead, :lead][~np.eye(lead, dtype=bool)] if p > 1")],
 "data with more than twenty columns whose later columns correlate otherwise", "the mean correlation only looks at the first twenty columns", '''
from precise import covariance_features
f = rng.standard_normal((300, 1))
X = rng.standard_normal((300, 30)); X[:, 20:] += 2 * f
S = np.cov(X, rowvar=False, bias=True); d = np.sqrt(np.diag(S)); R = S / np.outer(d, d)
want = np.mean(np.abs(R[~np.eye(30, dtype=bool)]))
assert np.isclose(covariance_features(X)["mean_abs_offdiag_corr"], want)
''')
bug("c37-recent-kurtosis", "C37", [("precise/recommend.py", "centered = rows - rows.mean(axis=0)", "recent = rows[-500:]  # fourth moments of very long windows are slow\n    centered = recent - recent.mean(axis=0)")],
 "more than five hundred rows with the heavy tail in the earlier ones", "the kurtosis is that of the last five hundred rows over the variance of all", '''
from precise import covariance_features
X = rng.standard_normal((900, 2)); X[:300] = rng.standard_t(3, size=(300, 2))
c = X - X.mean(axis=0)
want = np.mean(np.mean(c**4, axis=0) / np.mean(c**2, axis=0)**2 - 3)
assert np.isclose(covariance_features(X)["avg_excess_kurtosis"], want)
''')
bug("c31-sweep-now-and-then", "C31", [("precise/keyed.py", "for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:", "sweep = self._counter % 8 == 0 or len(self.states) < 4\n        for ndx in [n for n, u in self.states.items() if sweep and u.staleness > self.max_staleness]:")],
 "four or more universes alive, one of them stale, at a count of universes created that is no multiple of eight", "stale universes survive until the next sweep", '''
from precise import DynamicUniverse, EwaCovariance
d = DynamicUniverse(EwaCovariance(r=0.1), max_universes=10, max_staleness=3)
for k in ("ab", "ac", "ad", "bc", "bd"):
    d.learn_one({c: 1.0 for c in k})
for t in range(12):
    d.learn_one({"x": 1.0 + t, "y": 2.0})
assert len(d.states) == 1, len(d.states)
''')
bug("c30-mean-of-many", "C30", [("precise/keyed.py", "y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]", "y[i] = self._est.location_[i % 16] if self._est.n_samples_ > 0 else self._last[i]")],
 "mean imputation of a name beyond the sixteenth", "it is filled with another name's mean", '''
from precise import FixedUniverse, EmpiricalCovariance
names = [f"s{i}" for i in range(20)]
k = FixedUniverse(EmpiricalCovariance(), impute="mean")
X = rng.standard_normal((30, 20)) + np.arange(20)
for x in X:
    k.learn_one(dict(zip(names, x)))
gap = dict(zip(names, X[0])); del gap["s18"]
want = EmpiricalCovariance().fit(X)
y = X[0].copy(); y[18] = want.location_[18]
want.partial_fit(y)
k.learn_one(gap)
assert np.allclose(k.get_cov(), want.covariance_)
''')
bug("c27-bounded-ratio", "C27", [("precise/_linalg.py", "np.clip(evals_m, 0.0, None) ** gamma", "np.clip(evals_m, EPS, None) ** gamma")],
 "matrices of very different size: a ratio of eigenvalues below 1e-12", "the step is too large along the directions in which the newest observation says nothing", '''
from precise._linalg import geodesic_step
A, Z = 1e9 * np.eye(2), np.diag([1.0, 1e-6])
G = geodesic_step(A, Z, 0.5)
assert np.isclose(G[1, 1], np.sqrt(1e9 * 1e-6), rtol=1e-3), G
''')
bug("c31-crowd", "C31", [("precise/keyed.py", "if len(self.states) > self.max_universes:", "if len(self.states) > min(self.max_universes, 24):")],
 "a limit above twenty-four universes and as many different name sets", "universes are evicted below the limit asked for", '''
from precise import DynamicUniverse, EwaCovariance
d = DynamicUniverse(EwaCovariance(r=0.1), max_universes=40, max_staleness=100)
for i in range(30):
    d.learn_one({"m": 1.0 + i, f"s{i}": 2.0})
assert len(d.states) == 30
''')
