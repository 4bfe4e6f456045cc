From ea16fbc0f5ba704189187dcc17dad057aca86b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 01/14] fix: differencing estimators keep a private copy of the
 previous row

With diff=True the last row was kept as a view of the caller's array, so
reusing one observation buffer made every difference zero.
---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..c9c4410 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -53,9 +53,9 @@ class BaseOnlineCovariance:
         for x in as_rows(X):
             if use_diff:
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()  # never retain a view of the caller's buffer
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From bb3cba1b70ebf70b53da4bb44c753ff632a696e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/14] fix: location_ returns a copy of the running mean

It handed out the state array itself: writing to the result silently
corrupted every later estimate.
---
 precise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index c9c4410..1a952c2 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -86,7 +86,7 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From e33776595df210034fcdb2d59bbc4859420d1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/14] fix: get_state/set_state carry the pending row of a
 diff=True stream

A differencing estimator restored from a mid-stream checkpoint lost the
difference across the checkpoint, and restoring onto a used estimator kept
that estimator's own previous row.
---
 precise/base.py             | 18 ++++++++++++++----
 precise/block_covariance.py | 10 ++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 1a952c2..98112b8 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -140,20 +140,30 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev_x(None)
+        return self._with_prev_x({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev_x(self, state: dict | None) -> dict | None:
+        """Add the pending row of a ``diff=True`` stream to a state dict (no-op without one)."""
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
-        if state is None:
+        prev_x = None if state is None else state.get("prev_x")
+        self._prev_x = None if prev_x is None else np.array(prev_x, dtype=float)
+        if state is None or "n_dim" not in state:  # nothing estimated yet
             self._state = None
             self.n_features_in_ = None
             return self
         restored = {}
         for k, v in state.items():
+            if k == "prev_x":
+                continue
             restored[k] = np.array(v, dtype=float) if isinstance(v, list) else v
         self._state = restored
         n_dim = restored.get("n_dim")
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..c8c9f5e 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return self._with_prev_x(None)
         s = self._state
-        return {
+        return self._with_prev_x({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,10 +103,12 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
-        if state is None:
+        prev_x = None if state is None else state.get("prev_x")
+        self._prev_x = None if prev_x is None else np.array(prev_x, dtype=float)
+        if state is None or "n_dim" not in state:  # nothing estimated yet
             self._state = None
             self.n_features_in_ = None
             return self
-- 
2.43.0


From ee54e1e454681b79ef62fb989b57a214c2ed6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/14] fix: reject observations whose width does not match the
 fitted dimension

A length-1 row (or any row, after fitting on one feature) was broadcast into
the state, and ConditionalCovariance advanced part of its sub-models before
failing.
---
 precise/base.py        | 16 +++++++++++++++-
 precise/conditional.py |  4 +++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 98112b8..96e803c 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,9 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_n_features(rows)
+        for x in rows:
             if use_diff:
                 if self._prev_x is None:
                     self._prev_x = x.copy()  # never retain a view of the caller's buffer
@@ -62,9 +64,21 @@ class BaseOnlineCovariance:
             self._state = self._update_state(self._state, x)
         return self
 
+    def _check_n_features(self, rows: np.ndarray) -> None:
+        """Refuse rows of another width before touching the state (numpy would broadcast)."""
+        expected = self.n_features_in_
+        if expected is None and self._prev_x is not None:
+            expected = len(self._prev_x)
+        if expected is not None and rows.shape[1] != expected:
+            raise ValueError(
+                f"{type(self).__name__} expects {expected} features per observation, "
+                f"got {rows.shape[1]}."
+            )
+
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
         self._state = None
+        self.n_features_in_ = None
         self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..5746dab 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_n_features(rows)
+        for x in rows:
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From 7b16b1341138ead09ab66f308555ee29f682fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 05/14] fix: correlation matrices have a unit diagonal at every
 scale

An absolute 1e-12 was added to sqrt(var_i*var_j), so variances near or below
it gave a diagonal well under one and shrunken correlations.
---
 precise/_linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..eb67153 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,9 +21,11 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    std = np.sqrt(np.maximum(np.diagonal(a), 0.0))
+    std = np.where(std > 0.0, std, 1.0)  # a constant variable correlates with nothing
+    corr = a / np.outer(std, std)
+    np.fill_diagonal(corr, 1.0)
+    return corr
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 0c7aea2105405f67ac5f7c2e72fac92ed49db1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/14] fix: TylerCovariance survives a zero first observation

With weight 1 on a zero direction the shape matrix became 0/0 and every
estimate was NaN from then on.
---
 precise/tyler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..55f787f 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -53,7 +53,9 @@ class TylerCovariance(BaseOnlineCovariance):
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        trace = np.trace(C)
+        # fix the scale: trace == p (a zero first observation carries no direction: keep the shape)
+        C = p * C / trace if trace > 0 else np.asarray(s["C"], dtype=float)
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From daedadc0b1b86a5ad705c0caa86c2b7a235881f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 07/14] fix: freeze class counts, not truncated proportions, in
 the recommender tree

DecisionTreeClassifier.tree_.value holds proportions since scikit-learn 1.3; int() of a
proportion is 0 except in pure leaves, which emptied the exported VALUE table.
---
 research/train_recommender.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..cade1b5 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -54,6 +54,10 @@ def generate(n_problems=800, seed=0):
 
 def export(clf, mean, std):
     t = clf.tree_
+    # tree_.value holds class counts in old scikit-learn, class proportions since 1.3
+    counts = [
+        np.rint(node[0] / node[0].sum() * n) for node, n in zip(t.value, t.weighted_n_node_samples)
+    ]
     docstring = (
         '"""Frozen recommender model (auto-generated by research/train_recommender.py).\n'
         "Numpy-only decision tree walked by precise.suggest; do not edit by hand.\n"
@@ -71,7 +75,7 @@ def export(clf, mean, std):
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {[[int(c) for c in node] for node in counts]!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From 720827e667439e43589029283849602447fdc0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 08/14] fix: the exported class names are plain strings under
 numpy 2

---
 research/train_recommender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index cade1b5..3a6724f 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -70,7 +70,7 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
-- 
2.43.0


From 81b5b99149d15f04ff97a7177b34c8ac297f2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 09/14] fix: constant-correlation target gave a constant
 feature nonzero covariances

---
 precise/shrunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..ee80a92 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -50,10 +50,11 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
+            sd = np.sqrt(np.maximum(np.diag(S), 0.0))
+            d = np.maximum(sd, 1e-6)  # floored only to divide by
             corr = S / np.outer(d, d)
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
-            target = rbar * np.outer(d, d)
+            target = rbar * np.outer(sd, sd)
             np.fill_diagonal(target, np.diag(S))  # preserve the variances
         return (1.0 - self.delta) * S + self.delta * target
-- 
2.43.0


From f86602990b8c585eabbceec4d786ca2e82d5a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:08 +0000
Subject: [PATCH 10/14] fix: the documented keyed example called a method the
 adapters lack

---
 docs/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/index.html b/docs/index.html
index 92af381..b795ad4 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -122,7 +122,7 @@ estimator_from_name("LedoitWolfCovariance")</pre>
             positional estimator into a river-style one over named variables that enter and leave:</p>
             <pre>from precise import keyed, EwaCovariance
 est = keyed(EwaCovariance(r=0.05))
-est.partial_fit({"AAPL": 0.01, "MSFT": -0.02})   # dict in, dict-of-dicts out
+est.update({"AAPL": 0.01, "MSFT": -0.02})        # dict in, dict-of-dicts out
 est.covariance_["AAPL"]["MSFT"]</pre>
             <p class="text-muted"><code>FixedUniverse</code> imputes missing keys;
             <code>DynamicUniverse</code> handles staleness/longevity eviction and pairwise assembly
-- 
2.43.0


From c150eb9a5288959b3fbf7eacf93b4b54ea7c1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 11/14] fix: canonical correlations symmetrised a product that
 is not symmetric

---
 research/schur_likelihood_theory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..75c9021 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,8 +200,11 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
-    return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
+    # Whitened cross-covariance L1^-1 S12 L2^-T: its squared singular values (S11^-1 S12 S22^-1 S21
+    # has the same eigenvalues but is not symmetric).
+    half = np.linalg.solve(np.linalg.cholesky(S11), S12)
+    white = np.linalg.solve(np.linalg.cholesky(S22), half.T)
+    return np.clip(np.sort(np.linalg.eigvalsh(white.T @ white))[::-1], 0, 1)
 
 
 def _is_spd(M, tol=1e-9):
-- 
2.43.0


From cd83e656ac01243d1dd2ab4546636e8397e1b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 12/14] fix: set_state keeps a subclass state that has no n_dim
 entry

---
 precise/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 96e803c..b9feeb2 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -170,15 +170,15 @@ class BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
         prev_x = None if state is None else state.get("prev_x")
         self._prev_x = None if prev_x is None else np.array(prev_x, dtype=float)
-        if state is None or "n_dim" not in state:  # nothing estimated yet
-            self._state = None
-            self.n_features_in_ = None
-            return self
         restored = {}
-        for k, v in state.items():
+        for k, v in (state or {}).items():
             if k == "prev_x":
                 continue
             restored[k] = np.array(v, dtype=float) if isinstance(v, list) else v
+        if not restored:  # nothing estimated yet
+            self._state = None
+            self.n_features_in_ = None
+            return self
         self._state = restored
         n_dim = restored.get("n_dim")
         self.n_features_in_ = None if n_dim is None else int(n_dim)
-- 
2.43.0


From 60bb72ad9c710ced24c0b2793cf5886e52fc97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:34 +0000
Subject: [PATCH 13/14] fix: a fixed universe answers a query given as an
 iterator

---
 precise/keyed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..8c7669e 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -155,6 +155,7 @@ class FixedUniverse(_KeyedAdapter):
     def cov_array(self, keys=None):
         if self._est is None or self.keys is None:
             raise ValueError("No observation has been seen yet.")
+        keys = None if keys is None else list(keys)  # an iterator can be read only once
         cov = self._est.covariance_
         if keys is None or list(keys) == self.keys:
             return cov, list(self.keys)
-- 
2.43.0


From da70e35b20d88297309570a2425efab68dd26bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:43 +0000
Subject: [PATCH 14/14] fix: DCC keeps unit-diagonal correlations when a
 residual is exactly zero

---
 precise/dcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..eb55df8 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import emp_init, ewa_burn_n
 from precise.base import BaseOnlineCovariance
 
@@ -72,7 +73,6 @@ class DCCCovariance(BaseOnlineCovariance):
     def _state_to_cov(self, state: dict) -> np.ndarray:
         Q = np.asarray(state["Q"], dtype=float)
         h = np.asarray(state["h"], dtype=float)
-        q_inv = 1.0 / np.sqrt(np.maximum(np.diag(Q), 1e-12))
-        R = Q * np.outer(q_inv, q_inv)  # correlation from the quasi-correlation
+        R = cov_to_corrcoef(Q)  # correlation from the quasi-correlation
         d = np.sqrt(np.maximum(h, 1e-12))
         return R * np.outer(d, d)  # H = D R D
-- 
2.43.0

