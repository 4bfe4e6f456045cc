"""Edits of precise that keep the behaviour, in sets that apply together (used by tools/refactor.py)."""
SETS = {}


def ref(group, name, *edits):
    SETS.setdefault(group, []).append((name, edits))


P = "precise/"
# ---------------------------------------------------------------- set 1: helpers extracted
ref("1", "blend-helper",
    (P + "_state.py", "def emp_init(", '''def _blend(old, new, weight):
    """Move from ``old`` towards ``new`` by ``weight``."""
    return (1 - weight) * old + weight * new


def emp_init('''),
    (P + "_state.py", '    mean = (1 - r) * s["mean"] + r * x\n    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)\n',
     '    mean = _blend(s["mean"], x, r)\n    cov = _blend(s["cov"], np.outer(delta, delta), r)\n'))
ref("1", "burn-helper",
    (P + "ledoitwolf.py", '''        if s["n_samples"] < s["n_burn"]:
            out = emp_update(s, x)
            out["r"], out["n_burn"], out["pi_bar"] = s["r"], s["n_burn"], s["pi_bar"]
            return out
''', '''        if self._burning(s):
            return {**emp_update(s, x), **{k: s[k] for k in ("r", "n_burn", "pi_bar")}}
'''),
    (P + "ledoitwolf.py", "    def _state_to_cov(self, state", '''    @staticmethod
    def _burning(s: dict) -> bool:
        return s["n_samples"] < s["n_burn"]

    def _state_to_cov(self, state'''))
ref("1", "shrink-helper",
    (P + "oas.py", "        rho = 1.0 if den <= 0 else min(max(num / den, 0.0), 1.0)\n        return (1.0 - rho) * S + rho * mu * np.eye(p)",
     "        rho = self._intensity(num, den)\n        target = np.diag(np.full(p, mu))\n        return (1.0 - rho) * S + rho * target\n\n    @staticmethod\n    def _intensity(num: float, den: float) -> float:\n        if den <= 0:\n            return 1.0\n        return float(np.clip(num / den, 0.0, 1.0))"))
ref("1", "block-loop",
    (P + "block_covariance.py", '''        subs = []
        for sub, (a, b) in zip(s["subs"], s["slices"]):
            sub = {**sub, "mean": np.asarray(sub["mean"], dtype=float),
                   "cov": np.asarray(sub["cov"], dtype=float)}
            subs.append(ewa_update(sub, x[a:b]))
        return {**s, "n_samples": s["n_samples"] + 1, "subs": subs}''', '''        subs = [self._advance(sub, x[slice(*bounds)]) for sub, bounds in zip(s["subs"], s["slices"])]
        out = dict(s)
        out.update(n_samples=s["n_samples"] + 1, subs=subs)
        return out

    @staticmethod
    def _advance(sub: dict, part: np.ndarray) -> dict:
        fresh = dict(sub)
        for key in ("mean", "cov"):
            fresh[key] = np.asarray(fresh[key], dtype=float)
        return ewa_update(fresh, part)'''))
ref("1", "block-assembly",
    (P + "block_covariance.py", '''        p = state["n_dim"]
        out = np.zeros((p, p))
        for sub, (a, b) in zip(state["subs"], state["slices"]):
            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
        return out''', '''        return self._assemble(state, lambda sub: np.linalg.inv(self._pd_block(sub)))

    @staticmethod
    def _assemble(state: dict, part) -> np.ndarray:
        shape = (state["n_dim"],) * 2
        out = np.zeros(shape)
        for k, sub in enumerate(state["subs"]):
            a, b = state["slices"][k]
            out[a:b, a:b] = part(sub)
        return out'''))
ref("1", "tyler-reorder",
    (P + "tyler.py", '''        if n <= s["n_burn"]:
            lr = 1.0 / n
            mean = s["mean"] + (x - s["mean"]) / n
        else:
            lr = s["r"]
            mean = (1 - s["r"]) * s["mean"] + s["r"] * x
        dev = x - s["mean"]
''', '''        dev = x - s["mean"]
        burning = n <= s["n_burn"]
        lr = 1.0 / n if burning else s["r"]
        mean = s["mean"] + lr * dev
'''))
ref("1", "dcc-reorder",
    (P + "dcc.py", '''        if n <= n_burn:
            mean = s["mean"] + dev / n
            h = s["h"] + (dev * dev - s["h"]) / n
        else:
            mean = (1 - rv) * s["mean"] + rv * x
            h = (1 - rv) * s["h"] + rv * (dev * dev)

        eps = dev / np.sqrt(np.maximum(h, 1e-12))  # standardized residual
        outer = np.outer(eps, eps)
        if n <= n_burn:
            Q = s["Q"] + (outer - s["Q"]) / n
        else:
            Q = (1 - r) * s["Q"] + r * outer
''', '''        w_vol, w_cor = (1.0 / n, 1.0 / n) if n <= n_burn else (rv, r)
        mean = s["mean"] + w_vol * dev
        h = s["h"] + w_vol * (np.square(dev) - s["h"])
        floor = 1e-12
        eps = dev / np.sqrt(np.where(h > floor, h, floor))
        Q = s["Q"] + w_cor * (eps[:, None] * eps[None, :] - s["Q"])
'''))
ref("1", "factor-resid",
    (P + "factor.py", '''        for vj in V:
            norm = np.linalg.norm(vj)
            if norm > 1e-12:
                factor += np.outer(vj, vj) / norm  # = lambda * vhat vhatᵀ  (since ||vj|| == lambda)
                captured += norm * (vj / norm) ** 2
''', '''        for j in range(len(V)):
            vj = V[j]
            norm = float(np.sqrt(np.sum(vj * vj)))
            if not norm > 1e-12:
                continue
            part = np.outer(vj, vj) / norm
            factor = factor + part
            captured = captured + np.diag(part)
'''))
ref("1", "diag-weight",
    (P + "diagonal.py", '''        if n <= s["n_burn"]:
            mean = s["mean"] + dev / n
            var = s["var"] + (sq - s["var"]) / n
        else:
            mean = (1 - s["r"]) * s["mean"] + s["r"] * x
            var = (1 - s["r"]) * s["var"] + s["r"] * sq
        return {
            "n_dim": s["n_dim"],
            "n_samples": n,
            "mean": mean,
            "var": var,
            "r": s["r"],
            "n_burn": s["n_burn"],
        }''', '''        w = 1.0 / n if n <= s["n_burn"] else s["r"]
        new = s.copy()
        new["n_samples"] = n
        new["mean"] = s["mean"] + w * dev
        new["var"] = s["var"] + w * (sq - s["var"])
        return new'''))
ref("1", "partial-quadrants",
    (P + "partialmoments.py", '''        prev = np.asarray(s["quadrants"], dtype=float)
        quadrants = np.empty_like(prev)
        for q, (sign1, sign2) in enumerate(_QUADRANTS):
            leg1 = np.clip(centered * sign1, 0, None) * sign1
            leg2 = np.clip(centered * sign2, 0, None) * sign2
            scatter = np.outer(leg1, leg2)
            if count <= s["n_burn"]:
                quadrants[q] = prev[q] + (scatter - prev[q]) / count
            else:
                quadrants[q] = (1 - s["r"]) * prev[q] + s["r"] * scatter
''', '''        prev = np.asarray(s["quadrants"], dtype=float)
        w = 1.0 / count if count <= s["n_burn"] else s["r"]
        legs = {1: np.maximum(centered, 0.0), -1: np.minimum(centered, 0.0)}
        scatters = np.stack([np.outer(legs[a], legs[b]) for a, b in _QUADRANTS])
        quadrants = prev + w * (scatters - prev)
'''))
ref("1", "huber-weight",
    (P + "huber.py", "        w = 1.0 if maha2 <= threshold else np.sqrt(threshold / maha2)\n        weighted = w * delta\n",
     "        weighted = self._weight(maha2, threshold) * delta\n"),
    (P + "huber.py", "    def _update_state(self, s", '''    @staticmethod
    def _weight(distance: float, cutoff: float) -> float:
        if distance > cutoff:
            return float(np.sqrt(cutoff / distance))
        return 1.0

    def _update_state(self, s'''))
ref("1", "schur-mask",
    (P + "schurcov.py", '''        nb = min(self.n_blocks, p)
        block_id = np.empty(p, dtype=int)
        for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
            block_id[idx] = bi
        cross = block_id[:, None] != block_id[None, :]
''', '''        nb = min(self.n_blocks, p)
        within = np.zeros((p, p), dtype=bool)
        for idx in np.array_split(np.arange(p), nb):
            within[np.ix_(idx, idx)] = True
        cross = ~within
'''))
ref("1", "keyed-lookup",
    (P + "keyed.py", '''        y = np.empty(len(self.keys))
        for i, k in enumerate(self.keys):
            if k in x:
                y[i] = x[k]
                self._last[i] = x[k]
            elif self.impute == "ffill":
                y[i] = self._last[i]
            elif self.impute == "mean":
                y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]
            else:  # "zero"
                y[i] = 0.0
        self._est.partial_fit(y)
        return self
''', '''        y = np.array([self._value(i, k, x) for i, k in enumerate(self.keys)], dtype=float)
        for i, k in enumerate(self.keys):
            if k in x:
                self._last[i] = x[k]
        self._est.partial_fit(y)
        return self

    def _value(self, i: int, key, x: dict) -> float:
        """The value to learn for slot ``i``: observed, or imputed."""
        assert self._est is not None and self._last is not None
        if key in x:
            return x[key]
        if self.impute == "mean" and self._est.n_samples_ > 0:
            return self._est.location_[i]
        if self.impute in ("ffill", "mean"):
            return self._last[i]
        return 0.0
'''))
ref("1", "dynamic-assembly",
    (P + "keyed.py", '''                candidates = [
                    u
                    for u in self.states.values()
                    if {ki, kj}.issubset(u.keys_set) and u.running_cov is not None
                ]
                if candidates:
                    u = max(candidates, key=lambda u: (u.longevity, -u.staleness))
                    cov = u.running_cov
                    assert cov is not None  # guaranteed by the candidate filter
                    a, b = u.keys.index(ki), u.keys.index(kj)
                    M[idx[ki], idx[kj]] = M[idx[kj], idx[ki]] = cov[a, b]
''', '''                value = self._pair(ki, kj)
                if value is not None:
                    M[idx[ki], idx[kj]] = value
                    M[idx[kj], idx[ki]] = value
'''),
    (P + "keyed.py", '''    def _resolve_keys(self, keys) -> list[str]:''', '''    def _pair(self, ki, kj):
        """The entry for two names, from the longest-lived, freshest universe with both."""
        best, rank = None, None
        for u in self.states.values():
            if ki not in u.keys_set or kj not in u.keys_set or u.running_cov is None:
                continue
            r = (u.longevity, -u.staleness)
            if rank is None or r > rank:
                best, rank = u, r
        if best is None:
            return None
        cov = best.running_cov
        return cov[best.keys.index(ki), best.keys.index(kj)]

    def _resolve_keys(self, keys) -> list[str]:'''))
ref("1", "score-terms",
    (P + "base.py", '''        ll = 0.5 * logdet - 0.5 * quad - 0.5 * p * np.log(2 * np.pi)
        return float(np.mean(ll))''', '''        const = p * np.log(2 * np.pi)
        return float(-0.5 * (const - logdet + np.mean(quad)))'''),
    (P + "base.py", '''        return np.einsum("ij,jk,ik->i", centered, prec, centered)''', '''        return np.sum((centered @ prec) * centered, axis=1)'''))
ref("1", "assess-terms",
    (P + "assessment/assessors.py", '''    quad = np.einsum("ij,jk,ik->i", X, prec, X)
    return float(np.mean(0.5 * logdet - 0.5 * quad - 0.5 * cov.shape[0] * _LOG2PI))''', '''    quad = ((X @ prec) * X).sum(axis=1)
    return 0.5 * float(logdet - quad.mean() - len(cov) * _LOG2PI)'''),
    (P + "assessment/assessors.py", '''        total = 0.0
        for s in range(0, p, self.block_size):
            idx = slice(s, min(s + self.block_size, p))
            total += _gaussian_loglik(cov[idx, idx], X_test[:, idx])
        return total''', '''        starts = range(0, p, self.block_size)
        return sum((self._one(cov, X_test, s, min(s + self.block_size, p)) for s in starts), 0.0)

    @staticmethod
    def _one(cov, X, a, b) -> float:
        return _gaussian_loglik(cov[a:b, a:b], X[:, a:b])'''))
ref("1", "features-terms",
    (P + "recommend.py", '''    off = corr[~np.eye(p, dtype=bool)] if p > 1 else np.array([0.0])
''', '''    if p > 1:
        i, j = np.triu_indices(p, k=1)
        off = corr[i, j]
    else:
        off = np.zeros(1)
'''),
    (P + "recommend.py", "    score = {cls.__name__: 0.0 for cls in all_estimators()}\n", "    score = dict.fromkeys((cls.__name__ for cls in all_estimators()), 0.0)\n"))
ref("1", "registry-lookup",
    (P + "registry.py", '''    for cls in _REGISTRY:
        if cls.__name__ == name:
            return cls
    raise KeyError''', '''    found = next((cls for cls in _REGISTRY if cls.__name__ == name), None)
    if found is not None:
        return found
    raise KeyError'''))
ref("1", "conditional-split",
    (P + "conditional.py", '''        for x in rows:
            if self._state is None:
                d = len(x)
                self.n_features_in_ = d
                self._vol_models = [self._make_vol() for _ in range(d)]
                self._corr_model = _clone(self.corr)
                self._state = {"n_dim": d, "n_samples": 0, "mean": np.zeros(d), "var": np.ones(d)}
            models''', '''        for x in rows:
            if self._state is None:
                self._begin(x.shape[0])
            models'''),
    (P + "conditional.py", '''    def partial_fit(self, X, y=None) -> ConditionalCovariance:''', '''    def _begin(self, d: int) -> None:
        self.n_features_in_ = d
        self._vol_models = [self._make_vol() for _ in range(d)]
        self._corr_model = _clone(self.corr)
        self._state = dict(n_dim=d, n_samples=0, mean=np.zeros(d), var=np.ones(d))

    def partial_fit(self, X, y=None) -> ConditionalCovariance:'''))

# ---------------------------------------------------------------- set 2: loops rewritten, other numpy spellings
ref("2", "welford-other",
    (P + "_state.py", '''    delta_prev = x - s["mean"]
    mean = s["mean"] + delta_prev / count
    weighted_delta = (x - mean) / count
    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)
    return {"n_dim": s["n_dim"], "n_samples": count, "mean": mean, "cov": cov}''', '''    before = x - s["mean"]
    mean = s["mean"] + before / count
    after = x - mean
    cov = ((count - 1) * s["cov"] + np.multiply.outer(before, after)) / count
    out = dict(n_dim=s["n_dim"], n_samples=count)
    out["mean"], out["cov"] = mean, cov
    return out'''))
ref("2", "ewa-innovation",
    (P + "_state.py", '''    mean = (1 - r) * s["mean"] + r * x
    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
    return {
        "n_dim": s["n_dim"],
        "n_samples": s["n_samples"] + 1,
        "mean": mean,
        "cov": cov,
        "r": r,
        "n_burn": s["n_burn"],
    }''', '''    updated = dict(s)
    updated["n_samples"] += 1
    updated["mean"] = s["mean"] + r * delta
    updated["cov"] = s["cov"] + r * (np.einsum("i,j->ij", delta, delta) - s["cov"])
    return updated'''),
    (P + "_state.py", '''        out = emp_update(s, x)
        out["r"] = s["r"]
        out["n_burn"] = s["n_burn"]
        return out
    r = s["r"]''', '''        return {**s, **emp_update(s, x)}
    r = s["r"]'''))
ref("2", "burn-n",
    (P + "_state.py", "    return int(min(250, max(5, math.ceil(1.0 / r))))", '''    n = int(math.ceil(1.0 / r))
    if n < 5:
        return 5
    return n if n <= 250 else 250'''))
ref("2", "partial-fit-loop",
    (P + "base.py", '''        for x in rows:
            if use_diff:
                if self._prev_x is None:
                    self._prev_x = x.copy()  # never retain a view of the caller's buffer
                    continue
                x, self._prev_x = x - self._prev_x, x.copy()
            if self._state is None:
                self.n_features_in_ = len(x)
                self._state = self._init_state(len(x))
            self._state = self._update_state(self._state, x)
        return self
''', '''        for row in rows:
            x = self._increment(row) if use_diff else row
            if x is None:
                continue
            self._absorb(x)
        return self

    def _increment(self, row: np.ndarray) -> np.ndarray | None:
        """The change since the previous row (None for the first one)."""
        previous, self._prev_x = self._prev_x, np.array(row)
        return None if previous is None else row - previous

    def _absorb(self, x: np.ndarray) -> None:
        state = self._state
        if state is None:
            d = x.shape[0]
            self.n_features_in_ = d
            state = self._init_state(d)
        self._state = self._update_state(state, x)
'''))
ref("2", "get-state-loop",
    (P + "base.py", '''        return self._with_prev_x({
            k: (v.tolist() if isinstance(v, np.ndarray) else v)
            for k, v in self._state.items()
        })
''', '''        plain = {}
        for key in self._state:
            value = self._state[key]
            plain[key] = value.tolist() if isinstance(value, np.ndarray) else value
        return self._with_prev_x(plain)
'''))
ref("2", "clip-spellings",
    (P + "_linalg.py", "    evals = np.clip(evals, eps, None)\n    return to_symmetric((evecs * evals) @ evecs.T)", "    floored = np.maximum(evals, eps)\n    return to_symmetric(evecs @ np.diag(floored) @ evecs.T)"),
    (P + "_linalg.py", "    return (a + a.T) / 2.0", "    return 0.5 * (a + np.transpose(a))"),
    (P + "_linalg.py", '''    start_sqrt = (evecs_s * np.sqrt(evals_s)) @ evecs_s.T
    start_inv_sqrt = (evecs_s * (1.0 / np.sqrt(evals_s))) @ evecs_s.T
''', '''    root = np.sqrt(evals_s)
    start_sqrt = np.dot(evecs_s * root, evecs_s.T)
    start_inv_sqrt = np.dot(evecs_s / root, evecs_s.T)
'''))
ref("2", "as-rows",
    (P + "_conventions.py", '''    if arr.ndim == 1:
        return arr[np.newaxis, :]
    if arr.ndim == 2:
        return arr
    raise ValueError''', '''    if arr.ndim in (1, 2):
        return np.atleast_2d(arr)
    raise ValueError'''))
ref("2", "lw-dispersion",
    (P + "ledoitwolf.py", '''        d2 = np.sum((S - mu * np.eye(p)) ** 2) / p
''', '''        gap = S - np.diag(np.repeat(mu, p))
        d2 = np.linalg.norm(gap, "fro") ** 2 / p
'''),
    (P + "ledoitwolf.py", '''        q = np.sum((scatter - s["cov"]) ** 2) / p  # squared dispersion of this scatter
''', '''        spread = scatter - s["cov"]
        q = float(np.einsum("ij,ij->", spread, spread)) / p
'''))
ref("2", "shrunk-mask",
    (P + "shrunk.py", '''            off = corr[~np.eye(p, dtype=bool)]
            rbar = float(np.mean(off)) if off.size else 0.0
''', '''            pairs = p * (p - 1)
            rbar = float(corr.sum() - np.trace(corr)) / pairs if pairs else 0.0
'''))
ref("2", "adaptive-min",
    (P + "adaptive.py", '''        r_eff = min(max(base * sbar, base), s["max_r"])
''', '''        r_eff = base * sbar
        if r_eff < base:
            r_eff = base
        if r_eff > s["max_r"]:
            r_eff = s["max_r"]
'''),
    (P + "adaptive.py", '''        maha2 = float(dev @ try_invert(s["cov"]) @ dev)
''', '''        maha2 = float(np.dot(dev, np.matmul(try_invert(s["cov"]), dev)))
'''))
ref("2", "factor-deflate",
    (P + "factor.py", '''        for j in range(k):
            norm = np.linalg.norm(V[j])
            if norm < 1e-12:
                V[j] = u  # seed an empty component, one per early step
                break
            vhat = V[j] / norm
            proj = float(u @ vhat)
            V[j] = (1 - lr) * V[j] + lr * proj * u
            u = u - proj * vhat  # deflate so the next component finds the next direction
''', '''        j = 0
        while j < k:
            v = V[j].copy()
            norm = np.linalg.norm(v)
            if norm < 1e-12:
                V[j] = u
                break
            direction = v / norm
            proj = float(np.dot(u, direction))
            V[j] = v + lr * (proj * u - v)
            u = u - proj * direction
            j += 1
'''))
ref("2", "universe-update",
    (P + "keyed.py", '''        for universe in self.states.values():
            if universe.keys_set.issubset(x_keys):
                universe.update(x)
            else:
                universe.staleness += 1

        for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:
            del self.states[ndx]

        if x_keys not in [u.keys_set for u in self.states.values()]:
''', '''        for universe in list(self.states.values()):
            if universe.keys_set <= x_keys:
                universe.update(x)
                continue
            universe.staleness = universe.staleness + 1

        self.states = {n: u for n, u in self.states.items() if u.staleness <= self.max_staleness}

        if not any(u.keys_set == x_keys for u in self.states.values()):
'''),
    (P + "keyed.py", '''                victim = sorted(
                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
                )[0][0]
                del self.states[victim]
''', '''                victim = min(
                    self.states, key=lambda n: (-self.states[n].staleness, self.states[n].longevity)
                )
                self.states.pop(victim)
'''))
ref("2", "dict-of-dicts",
    (P + "keyed.py", '''        return {
            ki: {kj: float(matrix[i, j]) for j, kj in enumerate(keys)}
            for i, ki in enumerate(keys)
        }''', '''        table = np.asarray(matrix).tolist()
        return {name: dict(zip(keys, row)) for name, row in zip(keys, table)}'''))
ref("2", "oas-sums",
    (P + "oas.py", "        tr2 = np.trace(S @ S)\n", "        tr2 = float((S * S.T).sum())\n"))
ref("2", "schurcond-loop",
    (P + "schur_conditional.py", '''        a0, b0 = sl[0]
        Rg[a0:b0, a0:b0] = R[a0:b0, a0:b0]
        for k in range(1, len(sl)):
            ak, bk = sl[k]
            pa, pb = 0, ak                          # condition on all previous variables
''', '''        (a0, b0), *others = sl
        Rg[a0:b0, a0:b0] = R[a0:b0, a0:b0]
        for ak, bk in others:
            pa, pb = 0, ak                          # condition on all previous variables
'''),
    (P + "schur_conditional.py", '''        num = float(np.clip(rij ** 2 - var_g, 0.0, None).sum())
        den = float((rij ** 2).sum())
        return float(np.clip(num / den, 0.0, 1.0)) if den > 0 else 0.0
''', '''        squares = np.square(rij)
        kept = np.maximum(squares - var_g, 0.0)
        den = float(np.sum(squares))
        if den <= 0:
            return 0.0
        return min(1.0, max(0.0, float(np.sum(kept)) / den))
'''))
ref("2", "slw-mask",
    (P + "schur_ledoit_wolf.py", '''        nb = min(self.n_blocks, p)
        block_id = np.empty(p, dtype=int)
        for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
            block_id[idx] = bi
        return block_id[:, None] != block_id[None, :]
''', '''        sizes = [len(idx) for idx in np.array_split(np.arange(p), min(self.n_blocks, p))]
        block_id = np.repeat(np.arange(len(sizes)), sizes)
        return np.not_equal.outer(block_id, block_id)
'''),
    (P + "schur_ledoit_wolf.py", '''        q = float(np.sum(((scatter - s["cov"]) ** 2)[cross]))   # cross-block dispersion, this step
''', '''        gap = np.where(cross, scatter - s["cov"], 0.0)
        q = float(np.sum(gap * gap))
'''))
ref("2", "variogram",
    (P + "assessment/assessors.py", '''        diffs = np.abs(X[:, :, None] - X[:, None, :])  # (n, p, p)
        return -float(np.mean(np.sum((diffs - expected[None]) ** 2, axis=(1, 2))))''', '''        total = 0.0
        for x in X:
            gaps = np.abs(np.subtract.outer(x, x))
            total += float(np.sum((gaps - expected) ** 2))
        return -total / len(X)'''),
    (P + "assessment/assessors.py", '''        w = try_invert(cov) @ np.ones(len(cov))
        w = w / w.sum()
        return -float(np.mean((X_test @ w) ** 2))''', '''        w = try_invert(cov).sum(axis=1)
        returns = X_test @ (w / np.sum(w))
        return -float(returns @ returns) / len(returns)'''))
ref("2", "recommend-walk",
    (P + "recommend.py", '''    while feat[node] != -2:  # -2 marks a leaf
        node = _MODEL.LEFT[node] if xs[feat[node]] <= _MODEL.THRESHOLD[node] else _MODEL.RIGHT[node]
''', '''    while True:
        f = feat[node]
        if f == -2:  # a leaf
            break
        if xs[f] <= _MODEL.THRESHOLD[node]:
            node = _MODEL.LEFT[node]
        else:
            node = _MODEL.RIGHT[node]
'''))

# ---------------------------------------------------------------- set 3: heavier restructuring
ref("3", "base-dunder",
    (P + "base.py", '''    def _fitted_state(self) -> dict:
        if self._state is None or self._state.get("n_samples", 0) < 1:
            raise NotFittedError(''', '''    def _is_fitted(self) -> bool:
        return self._state is not None and self._state.get("n_samples", 0) >= 1

    def _fitted_state(self) -> dict:
        if not self._is_fitted():
            raise NotFittedError('''),
    (P + "base.py", '''        return {k: getattr(self, k) for k in self._param_names()}''', '''        names = self._param_names()
        return dict(zip(names, map(lambda n: getattr(self, n), names)))'''),
    (P + "base.py", '''        sig = inspect.signature(cls.__init__)
        return [p for p in sig.parameters if p != "self"]''', '''        parameters = inspect.signature(cls.__init__).parameters
        return [name for name in parameters.keys() if name not in ("self",)]'''),
    (P + "base.py", '''        for key, value in params.items():
            setattr(self, key, value)
        return self''', '''        for key in params:
            setattr(self, key, params[key])
        return self'''))
ref("3", "base-reset",
    (P + "base.py", '''        """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
        self._state = None
        self.n_features_in_ = None
        self._prev_x = None
        arr = np.asarray(X, dtype=float)
''', '''        """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
        self._reset()
        arr = np.asarray(X, dtype=float)
'''),
    (P + "base.py", "    def _fitted_state(self) -> dict:", '''    def _reset(self) -> None:
        for attribute in ("_state", "n_features_in_", "_prev_x"):
            setattr(self, attribute, None)

    def _fitted_state(self) -> dict:'''))
ref("3", "mean-one-line",
    (P + "base.py", '''        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)''', '''        mean = self._state_to_mean(self._fitted_state())
        return np.asarray(mean, dtype=float).copy()'''),
    (P + "base.py", '''        cov = np.asarray(self._state_to_cov(self._fitted_state()), dtype=float)
        return _linalg.to_symmetric(cov)''', '''        state = self._fitted_state()
        return _linalg.to_symmetric(np.array(self._state_to_cov(state), dtype=float))'''))
ref("3", "ewa-inplace",
    (P + "_state.py", '''    mean = (1 - r) * s["mean"] + r * x
    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
''', '''    mean = np.array(s["mean"], dtype=float)
    mean *= 1 - r
    mean += r * x
    cov = np.array(s["cov"], dtype=float)
    cov *= 1 - r
    cov += r * np.outer(delta, delta)
'''))
ref("3", "welford-rows",
    (P + "_state.py", '''    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)
''', '''    cov = np.empty_like(s["cov"], dtype=float)
    for i in range(len(x)):
        cov[i] = s["cov"][i] * (count - 1) / count + delta_prev[i] * weighted_delta
'''))
ref("3", "module-constants",
    (P + "_state.py", "def ewa_burn_n(", '''_MIN_BURN, _MAX_BURN = 5, 250


def ewa_burn_n('''),
    (P + "_state.py", "    return int(min(250, max(5, math.ceil(1.0 / r))))", "    return int(np.clip(math.ceil(1.0 / r), _MIN_BURN, _MAX_BURN))"),
    (P + "adaptive.py", "    _DETECT = 0.1\n", "    _DETECT: float = 1.0 / 10.0\n"))
ref("3", "cached-slices",
    (P + "block_covariance.py", '''    def _slices(self, n_dim: int) -> list[tuple[int, int]]:
        nb = min(max(1, self.n_blocks), n_dim)
        return [(int(idx[0]), int(idx[-1]) + 1) for idx in np.array_split(np.arange(n_dim), nb)]
''', '''    def _slices(self, n_dim: int) -> list[tuple[int, int]]:
        return list(_contiguous(n_dim, min(max(1, self.n_blocks), n_dim)))
'''),
    (P + "block_covariance.py", "class BlockCovariance(", '''@lru_cache(maxsize=64)
def _contiguous(n_dim: int, n_blocks: int) -> tuple[tuple[int, int], ...]:
    """Bounds of the contiguous blocks ``np.array_split`` would make."""
    size, extra = divmod(n_dim, n_blocks)
    bounds, start = [], 0
    for k in range(n_blocks):
        stop = start + size + (1 if k < extra else 0)
        bounds.append((start, stop))
        start = stop
    return tuple(bounds)


class BlockCovariance('''),
    (P + "block_covariance.py", "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n"))
ref("3", "tyler-quadratic",
    (P + "tyler.py", '''        q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
''', '''        inverse = try_invert(C)
        q = float(np.einsum("i,ij,j", dev, inverse, dev))
        if q < 1e-12:
            q = 1e-12
'''))
ref("3", "geodesic-eig",
    (P + "_linalg.py", '''    evals_s, evecs_s = np.linalg.eigh(start)
    evals_s = np.clip(evals_s, EPS, None)
    start_sqrt = (evecs_s * np.sqrt(evals_s)) @ evecs_s.T
    start_inv_sqrt = (evecs_s * (1.0 / np.sqrt(evals_s))) @ evecs_s.T

    middle = to_symmetric(start_inv_sqrt @ end @ start_inv_sqrt)
    evals_m, evecs_m = np.linalg.eigh(middle)
    evals_m = np.clip(evals_m, 0.0, None) ** gamma
    middle_power = (evecs_m * evals_m) @ evecs_m.T
''', '''    def _spectral(matrix, function):
        values, vectors = np.linalg.eigh(matrix)
        return (vectors * function(values)) @ vectors.T

    start_sqrt = _spectral(start, lambda w: np.sqrt(np.maximum(w, EPS)))
    start_inv_sqrt = _spectral(start, lambda w: np.maximum(w, EPS) ** -0.5)

    middle = to_symmetric(start_inv_sqrt @ end @ start_inv_sqrt)
    middle_power = _spectral(middle, lambda w: np.power(np.maximum(w, 0.0), gamma))
'''))
ref("3", "nearest-loop",
    (P + "_linalg.py", '''    spacing = np.spacing(np.linalg.norm(a))
    identity = np.eye(a.shape[0])
    k = 1
    while not is_positive_def(a3):
        mineig = np.min(np.real(np.linalg.eigvals(a3)))
        a3 += identity * (-mineig * k**2 + spacing)
        k += 1
    return a3
''', '''    spacing = np.spacing(np.linalg.norm(a))
    identity = np.eye(len(a))
    for k in itertools.count(1):
        lowest = np.linalg.eigvals(a3).real.min()
        a3 = a3 + (spacing - lowest * k**2) * identity
        if is_positive_def(a3):
            break
    return a3
'''),
    (P + "_linalg.py", "import numpy as np\n", "import itertools\n\nimport numpy as np\n"))
ref("3", "corrcoef",
    (P + "_linalg.py", '''    std = np.sqrt(np.maximum(np.diagonal(a), 0.0))
    std = np.where(std > 0.0, std, 1.0)  # a constant variable correlates with nothing
    corr = a / np.outer(std, std)
    np.fill_diagonal(corr, 1.0)
    return corr
''', '''    variances = np.clip(np.diag(a), 0.0, None)
    std = np.sqrt(variances)
    std[std == 0.0] = 1.0  # a constant variable correlates with nothing
    corr = a / std[:, np.newaxis] / std[np.newaxis, :]
    corr[np.diag_indices_from(corr)] = 1.0
    return corr
'''))
ref("3", "dynamic-sets",
    (P + "keyed.py", '''        n = len(keys)
        idx = {k: i for i, k in enumerate(keys)}
        M = np.full((n, n), np.nan)
        for i, ki in enumerate(keys):
            for kj in keys[i:]:
''', '''        n = len(keys)
        idx = dict(zip(keys, range(n)))
        M = np.empty((n, n))
        M[:] = np.nan
        for ki, kj in itertools.combinations_with_replacement(keys, 2):
            if True:
'''),
    (P + "keyed.py", '''        off_diag = M[~np.eye(n, dtype=bool)]
        fill = np.nanmean(off_diag) if np.any(~np.isnan(off_diag)) else 0.0
        if np.isnan(fill):
            fill = 0.0
        M = np.where(np.isnan(M), fill, M)
''', '''        missing = np.isnan(M)
        known = M[~missing & ~np.eye(n, dtype=bool)]
        M[missing] = known.mean() if known.size else 0.0
'''),
    (P + "keyed.py", "import numpy as np\n\nfrom precise._linalg", "import itertools\n\nimport numpy as np\n\nfrom precise._linalg"))
ref("3", "universe-class",
    (P + "keyed.py", '''    def update(self, x: dict) -> None:
        y = np.array([x[k] for k in self.keys], dtype=float)
        self._est.partial_fit(y)
        self.staleness = 0
        self.longevity += 1
''', '''    def update(self, x: dict) -> None:
        values = np.fromiter((x[k] for k in self.keys), dtype=float, count=len(self.keys))
        self._est.partial_fit(values)
        self.longevity += 1
        self.staleness = 0
'''))
ref("3", "features-moments",
    (P + "recommend.py", '''    S = np.atleast_2d(np.cov(rows, rowvar=False, bias=True))
''', '''    centred = rows - rows.mean(axis=0, keepdims=True)
    S = centred.T @ centred / n
'''),
    (P + "recommend.py", '''    total = float(evals.sum())
    eff_rank = (total**2) / float(np.sum(evals**2)) if total > 0 else 1.0  # participation ratio
''', '''    share = evals / np.sum(evals)
    eff_rank = 1.0 / float(share @ share)
'''))
ref("3", "stein",
    (P + "assessment/assessors.py", '''        S = np.cov(X_test, rowvar=False, bias=True)
        M = try_invert(cov) @ np.atleast_2d(S)
''', '''        sample = np.cov(np.transpose(X_test), ddof=0)
        M = np.matmul(try_invert(cov), np.atleast_2d(sample))
'''),
    (P + "assessment/assessors.py", '''        return -float(np.linalg.norm(cov - true_cov) / np.linalg.norm(true_cov))''', '''        gap = cov - true_cov
        return -float(np.sqrt(np.sum(gap * gap) / np.sum(true_cov * true_cov)))'''))
ref("3", "skater-var",
    (P + "conditional.py", '''        dists, self._state = self._f(float(y), self._state)
        d0 = dists[0]
        self._mean = float(d0.mean)
        self._var = float(d0.std) ** 2
''', '''        result = self._f(float(y), self._state)
        self._state = result[1]
        forecast = result[0][0]
        self._mean, self._var = float(forecast.mean), float(forecast.std) * float(forecast.std)
'''),
    (P + "conditional.py", '''            m = np.array([vm.mean for vm in models])
            v = np.array([max(vm.variance, 1e-12) for vm in models])
            eps = (x - m) / np.sqrt(v)
''', '''            sd = np.sqrt(np.maximum([vm.variance for vm in models], 1e-12))
            eps = (x - np.array([vm.mean for vm in models])) / sd
'''))
