From 270e5f71cf23ccf3fa9d2387cee4e87acf58f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 01/16] fix: keep the pending level of diff=True in
 get_state/set_state

A checkpoint taken with get_state dropped the previous level, so a restored
diff=True estimator lost one difference; set_state on a used instance kept a
stale one.
---
 precise/base.py             | 20 +++++++++++++++++---
 precise/block_covariance.py |  7 ++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..4aa0c52 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -140,14 +140,28 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev(None)
+        return self._with_prev({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev(self, state: dict | None) -> dict | None:
+        """Add the pending level of ``diff=True`` (if any) to an exported state."""
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
+
+    def _take_prev(self, state: dict | None) -> dict | None:
+        """Inverse of :meth:`_with_prev`: restore the pending level, return the rest."""
+        rest = dict(state or {})
+        prev = rest.pop("prev_x", None)
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        return rest or None
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
+        state = self._take_prev(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..47974aa 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return self._with_prev(None)
         s = self._state
-        return {
+        return self._with_prev({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,9 +103,10 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
+        state = self._take_prev(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
-- 
2.43.0


From 0d39e6d8a5892f520585bfc427e95e2773fd14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/16] fix: copy the pending level of diff=True instead of
 aliasing the caller's buffer

A caller reusing one buffer for successive observations got all-zero
differences, because the stored previous level was a view of that buffer.
---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 4aa0c52..6a79ae6 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -53,9 +53,9 @@ class BaseOnlineCovariance:
         for x in as_rows(X):
             if use_diff:
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From a3de72134a8c71e6ce689796f0cf9c683ae62441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/16] fix: location_ returns a copy, not the estimator's
 internal mean

Editing the returned array silently corrupted the running estimate.
---
 precise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index 6a79ae6..0425814 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -86,7 +86,7 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 3be1c55641fe67ef1fff6af127e77f7b707708c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 04/16] fix: correlation has a unit diagonal whatever the scale
 of the data

An absolute 1e-12 was added to the denominator, so data with a standard
deviation around 1e-6 was reported with correlations (and a diagonal) halved.
---
 precise/_linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..0f52850 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,9 +21,10 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    std = np.sqrt(np.diagonal(a))
+    denominator = np.outer(std, std)
+    # A zero-variance variable has no defined correlation: report 0 rather than nan.
+    return np.divide(a, denominator, out=np.zeros_like(denominator), where=denominator > 0)
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 07c8004989a5a9c9db8c4d61560291093411cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/16] fix: DynamicUniverse never evicts the universe it has
 just created

When every tracked universe was up to date (a name set that only grows), the
new universe was the first eviction candidate, so the new names were dropped
at every step and never covered.
---
 precise/keyed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..583717b 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -241,8 +241,12 @@ class DynamicUniverse(_KeyedAdapter):
             fresh.update(x)
             self._add_universe(fresh)
             if len(self.states) > self.max_universes:
+                # Never evict the universe just created for this very observation, or a set of
+                # names that keeps growing would go uncovered for good (unless it is the only one).
+                others = [kv for kv in self.states.items() if kv[1] is not fresh]
                 victim = sorted(
-                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
+                    others or self.states.items(),
+                    key=lambda kv: (-kv[1].staleness, kv[1].longevity),
                 )[0][0]
                 del self.states[victim]
         return self
-- 
2.43.0


From f0eb2501352ff1d5ac031a999ab0ee441be76c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 06/16] fix: reject rows of the wrong width (and a bad fit)
 before touching the state

A length-1 row was silently broadcast, BlockCovariance silently ignored extra
columns, the others failed halfway, and fit(1d) wiped the estimate before
raising.
---
 precise/base.py        | 18 +++++++++++++++---
 precise/conditional.py |  4 +++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 0425814..1235a11 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,9 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             if use_diff:
                 if self._prev_x is None:
                     self._prev_x = x.copy()
@@ -62,13 +64,23 @@ class BaseOnlineCovariance:
             self._state = self._update_state(self._state, x)
         return self
 
+    def _check_width(self, rows: np.ndarray) -> None:
+        """Reject rows whose length differs from the dimension being tracked."""
+        expected = None
+        if self._state is not None:
+            expected = self.n_features_in_
+        elif self._prev_x is not None:
+            expected = len(self._prev_x)
+        if len(rows) and expected is not None and rows.shape[1] != expected:
+            raise ValueError(f"Expected {expected} features, got {rows.shape[1]}.")
+
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..adf86c5 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,9 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        rows = as_rows(X)
+        self._check_width(rows)
+        for x in rows:
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From c39521634e997015205d2317fff8f47264cd4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 07/16] fix: Tyler shape update uses only the direction (no nan
 on a zero deviation, no scale floor)

---
 precise/tyler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..3a921f2 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -51,9 +51,12 @@ class TylerCovariance(BaseOnlineCovariance):
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
         dev = x - s["mean"]
         C = np.asarray(s["C"], dtype=float)
-        q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
-        C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        norm = float(np.linalg.norm(dev))
+        if norm > 0:  # a zero deviation has no direction: it leaves the shape unchanged
+            u = dev / norm
+            q = max(float(u @ try_invert(C) @ u), 1e-12)  # Mahalanobis under the current shape
+            C = (1 - lr) * C + lr * p * np.outer(u, u) / q  # direction-only contribution
+            C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From 86ecc4a9c698a6d1c720d17779bfa56352432078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 08/16] fix: constant-correlation shrinkage target is built
 from the actual variances at any scale

---
 precise/shrunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..a6457fd 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,8 +51,8 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
+            d = np.sqrt(np.diag(S))
+            corr = cov_to_corrcoef(S)  # no variance floor: the target must match S's scale
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
-- 
2.43.0


From f972f2e2a57248aee9925445e440d37cc993bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 09/16] fix: DCC warm-up averages without cancelling against
 the unit starting values

---
 precise/dcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..ee0d7a5 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -46,7 +46,7 @@ class DCCCovariance(BaseOnlineCovariance):
 
         if n <= n_burn:
             mean = s["mean"] + dev / n
-            h = s["h"] + (dev * dev - s["h"]) / n
+            h = (1 - 1 / n) * s["h"] + dev * dev / n  # convex form: no cancellation with h == 1
         else:
             mean = (1 - rv) * s["mean"] + rv * x
             h = (1 - rv) * s["h"] + rv * (dev * dev)
@@ -54,7 +54,7 @@ class DCCCovariance(BaseOnlineCovariance):
         eps = dev / np.sqrt(np.maximum(h, 1e-12))  # standardized residual
         outer = np.outer(eps, eps)
         if n <= n_burn:
-            Q = s["Q"] + (outer - s["Q"]) / n
+            Q = (1 - 1 / n) * s["Q"] + outer / n
         else:
             Q = (1 - r) * s["Q"] + r * outer
 
-- 
2.43.0


From 304c6cd2e1af0ebc0e46c7582cae17be2421fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 10/16] fix: geodesic step stays positive definite when the end
 points are badly scaled

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 0f52850..a6c3247 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -110,4 +110,5 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    # Both ends are floored, hence so is the geodesic: the floor only removes rounding error.
+    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
-- 
2.43.0


From b8f8f410a4297ec3c1a77f019ceb1fd362f21638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 11/16] fix: geodesic step keeps its eigenvalue floor above
 rounding error of large-scale data

---
 precise/_linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index a6c3247..b862281 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -97,8 +97,10 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     Reimplemented (eigh-based, numpy only) from
     ``randomcov.covutil.geodesicinterpolation.geodesic_interpolation``.
     """
-    start = make_pos_def(start)
-    end = make_pos_def(end)
+    # A floor below rounding error would turn noise eigenvalues into (unbounded) signal.
+    floor = max(1e-8, 1e-14 * max(np.linalg.norm(start), np.linalg.norm(end)))
+    start = make_pos_def(start, floor)
+    end = make_pos_def(end, floor)
 
     evals_s, evecs_s = np.linalg.eigh(start)
     evals_s = np.clip(evals_s, EPS, None)
@@ -111,4 +113,4 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
     # Both ends are floored, hence so is the geodesic: the floor only removes rounding error.
-    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
+    return make_pos_def(start_sqrt @ middle_power @ start_sqrt, floor)
-- 
2.43.0


From 35b7c7c57733f478ad3fc73b355e2c7509d6b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 12/16] fix: recommender export writes class counts (and
 loadable class names); retrain the frozen tree

tree_.value holds class fractions since scikit-learn 1.3, so int() truncated every leaf of the
shipped model to zeros and suggest() fell back to the heuristic everywhere; repr of numpy strings
made a fresh export unloadable. Regenerated with the numpy-only ensembles, as the previous one was.
---
 precise/_recommender_model.py | 18 +++++++++---------
 research/train_recommender.py | 13 +++++++++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/precise/_recommender_model.py b/precise/_recommender_model.py
index d164274..ac7a18e 100644
--- a/precise/_recommender_model.py
+++ b/precise/_recommender_model.py
@@ -3,12 +3,12 @@ Numpy-only decision tree walked by precise.suggest; do not edit by hand.
 """
 # ruff: noqa: E501  (generated data tables: tree arrays are single long lines by design)
 
-FEATURES =['p_over_n', 'effective_rank', 'sphericity', 'condition_number', 'mean_abs_offdiag_corr', 'avg_excess_kurtosis', 'p']
-MEAN = [1.04275, 6.547773, 0.192256, 12670493965966.932, 0.382714, 0.180726, 35.46875]
-STD = [0.601385, 6.717606, 0.141076, 20646381982312.164, 0.184443, 1.276679, 16.996294]
-CLASSES = ['DiagonalCovariance', 'EmpiricalCovariance', 'FactorCovariance', 'GeodesicEwaCovariance', 'LedoitWolfCovariance', 'OASCovariance', 'PartialMomentsCovariance', 'SchurCovariance', 'ShrunkCovariance']
-FEATURE = [2, 4, 0, 1, -2, 5, -2, -2, 5, 5, -2, -2, -2, 5, 1, 2, -2, -2, 4, -2, -2, 3, 5, -2, -2, -2, 5, 1, 3, 2, -2, -2, 3, -2, -2, 2, 0, -2, -2, 4, -2, -2, 2, 4, -2, -2, -2]
-THRESHOLD = [-0.249988, 0.621256, -0.605275, -0.482504, -2.0, -0.163481, -2.0, -2.0, 0.181827, -0.340146, -2.0, -2.0, -2.0, 0.450474, -0.636807, -0.879736, -2.0, -2.0, 1.176196, -2.0, -2.0, 0.029924, 1.252056, -2.0, -2.0, -2.0, 0.803702, -0.302127, -0.449482, 0.362462, -2.0, -2.0, -0.008938, -2.0, -2.0, 1.244011, -0.617872, -2.0, -2.0, -1.208764, -2.0, -2.0, 0.625918, -1.044892, -2.0, -2.0, -2.0]
-LEFT = [1, 2, 3, 4, -1, 6, -1, -1, 9, 10, -1, -1, -1, 14, 15, 16, -1, -1, 19, -1, -1, 22, 23, -1, -1, -1, 27, 28, 29, 30, -1, -1, 33, -1, -1, 36, 37, -1, -1, 40, -1, -1, 43, 44, -1, -1, -1]
-RIGHT = [26, 13, 8, 5, -1, 7, -1, -1, 12, 11, -1, -1, -1, 21, 18, 17, -1, -1, 20, -1, -1, 25, 24, -1, -1, -1, 42, 35, 32, 31, -1, -1, 34, -1, -1, 39, 38, -1, -1, 41, -1, -1, 46, 45, -1, -1, -1]
-VALUE = [[0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0, 0]]
+FEATURES = ['p_over_n', 'effective_rank', 'sphericity', 'condition_number', 'mean_abs_offdiag_corr', 'avg_excess_kurtosis', 'p']
+MEAN = [1.04275, 6.547773, 0.192256, 12670493965966.93, 0.382899, 0.180684, 35.46875]
+STD = [0.601385, 6.717606, 0.141076, 20646381982312.164, 0.184592, 1.278297, 16.996294]
+CLASSES = ['BlockCovariance', 'DiagonalCovariance', 'EmpiricalCovariance', 'FactorCovariance', 'GeodesicEwaCovariance', 'LedoitWolfCovariance', 'OASCovariance', 'SchurConditionalCovariance', 'SchurCovariance', 'SchurLedoitWolfCovariance', 'ShrunkCovariance', 'TylerCovariance']
+FEATURE = [2, 4, 3, 3, 1, -2, -2, 5, -2, -2, 5, 6, -2, -2, -2, 5, 3, 3, -2, -2, 0, -2, -2, 3, 5, -2, -2, -2, 5, 4, 3, 2, -2, -2, 1, -2, -2, 0, 4, -2, -2, -2, 4, 2, -2, -2, 5, -2, -2]
+THRESHOLD = [-0.108782, 0.619752, 0.072489, -0.448156, -0.482504, -2.0, -2.0, -0.142262, -2.0, -2.0, 0.120723, -0.910125, -2.0, -2.0, -2.0, 0.449936, 1.748499, 0.682963, -2.0, -2.0, 0.552475, -2.0, -2.0, 0.029924, 1.250502, -2.0, -2.0, -2.0, 0.561352, -0.286111, -0.17441, 1.71069, -2.0, -2.0, -0.154528, -2.0, -2.0, 0.552475, 0.145249, -2.0, -2.0, -2.0, -1.067987, 0.509975, -2.0, -2.0, 1.313378, -2.0, -2.0]
+LEFT = [1, 2, 3, 4, 5, -1, -1, 8, -1, -1, 11, 12, -1, -1, -1, 16, 17, 18, -1, -1, 21, -1, -1, 24, 25, -1, -1, -1, 29, 30, 31, 32, -1, -1, 35, -1, -1, 38, 39, -1, -1, -1, 43, 44, -1, -1, 47, -1, -1]
+RIGHT = [28, 15, 10, 7, 6, -1, -1, 9, -1, -1, 14, 13, -1, -1, -1, 23, 20, 19, -1, -1, 22, -1, -1, 27, 26, -1, -1, -1, 42, 37, 34, 33, -1, -1, 36, -1, -1, 41, 40, -1, -1, -1, 46, 45, -1, -1, 48, -1, -1]
+VALUE = [[11, 296, 5, 142, 12, 68, 224, 11, 18, 3, 9, 1], [8, 88, 5, 121, 8, 27, 166, 6, 18, 3, 8, 0], [2, 17, 1, 14, 8, 26, 123, 1, 6, 2, 4, 0], [0, 15, 1, 7, 7, 25, 43, 0, 2, 1, 1, 0], [0, 2, 1, 5, 5, 25, 35, 0, 1, 1, 1, 0], [0, 0, 0, 3, 0, 0, 12, 0, 1, 0, 0, 0], [0, 2, 1, 2, 5, 25, 23, 0, 0, 1, 1, 0], [0, 13, 0, 2, 2, 0, 8, 0, 1, 0, 0, 0], [0, 6, 0, 0, 2, 0, 7, 0, 0, 0, 0, 0], [0, 7, 0, 2, 0, 0, 1, 0, 1, 0, 0, 0], [2, 2, 0, 7, 1, 1, 80, 1, 4, 1, 3, 0], [2, 0, 0, 6, 1, 0, 76, 1, 3, 1, 2, 0], [1, 0, 0, 1, 0, 0, 7, 0, 2, 1, 0, 0], [1, 0, 0, 5, 1, 0, 69, 1, 1, 0, 2, 0], [0, 2, 0, 1, 0, 1, 4, 0, 1, 0, 1, 0], [6, 71, 4, 107, 0, 1, 43, 5, 12, 1, 4, 0], [6, 71, 3, 72, 0, 1, 31, 4, 9, 1, 3, 0], [6, 70, 3, 55, 0, 1, 27, 4, 9, 1, 2, 0], [5, 63, 3, 50, 0, 1, 12, 1, 8, 1, 2, 0], [1, 7, 0, 5, 0, 0, 15, 3, 1, 0, 0, 0], [0, 1, 0, 17, 0, 0, 4, 0, 0, 0, 1, 0], [0, 1, 0, 11, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 6, 0, 0, 4, 0, 0, 0, 1, 0], [0, 0, 1, 35, 0, 0, 12, 1, 3, 0, 1, 0], [0, 0, 1, 31, 0, 0, 4, 1, 3, 0, 0, 0], [0, 0, 1, 19, 0, 0, 0, 0, 1, 0, 0, 0], [0, 0, 0, 12, 0, 0, 4, 1, 2, 0, 0, 0], [0, 0, 0, 4, 0, 0, 8, 0, 0, 0, 1, 0], [3, 208, 0, 21, 4, 41, 58, 5, 0, 0, 1, 1], [3, 195, 0, 19, 2, 15, 57, 5, 0, 0, 1, 1], [1, 168, 0, 15, 2, 14, 32, 1, 0, 0, 0, 0], [1, 103, 0, 9, 2, 14, 30, 1, 0, 0, 0, 0], [0, 50, 0, 1, 2, 14, 29, 0, 0, 0, 0, 0], [1, 53, 0, 8, 0, 0, 1, 1, 0, 0, 0, 0], [0, 65, 0, 6, 0, 0, 2, 0, 0, 0, 0, 0], [0, 8, 0, 4, 0, 0, 1, 0, 0, 0, 0, 0], [0, 57, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0], [2, 27, 0, 4, 0, 1, 25, 4, 0, 0, 1, 1], [1, 14, 0, 3, 0, 1, 21, 4, 0, 0, 1, 1], [0, 8, 0, 2, 0, 1, 19, 0, 0, 0, 1, 0], [1, 6, 0, 1, 0, 0, 2, 4, 0, 0, 0, 1], [1, 13, 0, 1, 0, 0, 4, 0, 0, 0, 0, 0], [0, 13, 0, 2, 2, 26, 1, 0, 0, 0, 0, 0], [0, 3, 0, 1, 0, 17, 0, 0, 0, 0, 0, 0], [0, 3, 0, 1, 0, 7, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 10, 0, 0, 0, 0, 0, 0], [0, 10, 0, 1, 2, 9, 1, 0, 0, 0, 0, 0], [0, 8, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0], [0, 2, 0, 1, 2, 5, 1, 0, 0, 0, 0, 0]]
diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..c88dffa 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -52,6 +52,15 @@ def generate(n_problems=800, seed=0):
     return np.array(Xf, dtype=float), np.array(y), names
 
 
+def _class_counts(tree):
+    """Training problems of each class at each node.
+
+    ``tree.value`` holds counts in old scikit-learn and class *fractions* since 1.3.
+    """
+    shares = tree.value[:, 0, :] / tree.value[:, 0, :].sum(axis=1, keepdims=True)
+    return np.rint(shares * tree.n_node_samples[:, None]).astype(int).tolist()
+
+
 def export(clf, mean, std):
     t = clf.tree_
     docstring = (
@@ -66,12 +75,12 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {_class_counts(t)!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From b8e130b7fb605f991ba576d518a5d62cf1569107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 13/16] fix: canonical correlations from a whitened (symmetric)
 matrix

np.linalg.eigvalsh needs a symmetric matrix: symmetrising S11^-1 S12 S22^-1 S21 changes its eigenvalues.
---
 research/schur_likelihood_theory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..e7e5267 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,7 +200,8 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
+    iL = np.linalg.inv(np.linalg.cholesky(S11))  # whiten block 1: a symmetric matrix, same spectrum
+    Mmat = iL @ S12 @ np.linalg.solve(S22, S12.T) @ iL.T
     return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
 
 
-- 
2.43.0


From 7dda193d386b623fbf8092cfa96f3369dc203314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 14/16] fix: block precision of a singular block at large scale
 falls back to the pseudo-inverse, as elsewhere

---
 precise/block_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 47974aa..2b57dab 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -18,7 +18,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import make_pos_def, to_symmetric
+from precise._linalg import make_pos_def, to_symmetric, try_invert
 from precise._state import ewa_burn_n, ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -80,7 +80,7 @@ class BlockCovariance(BaseOnlineCovariance):
         p = state["n_dim"]
         out = np.zeros((p, p))
         for sub, (a, b) in zip(state["subs"], state["slices"]):
-            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
+            out[a:b, a:b] = try_invert(self._pd_block(sub))
         return out
 
     def _state_to_mean(self, state: dict) -> np.ndarray:
-- 
2.43.0


From adc3077f607aaf81bcb3e202a040e3e17f3b9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 15/16] fix: parameters of one battle-data request no longer
 leak into the defaults of the next

The three sources updated their module-level default dictionary in place.
---
 research/legacy_skatervaluation/battledata/m6source.py     | 2 +-
 research/legacy_skatervaluation/battledata/stockssource.py | 2 +-
 research/legacy_skatervaluation/battledata/tmsource.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/research/legacy_skatervaluation/battledata/m6source.py b/research/legacy_skatervaluation/battledata/m6source.py
index c8b6608..a21a7d4 100644
--- a/research/legacy_skatervaluation/battledata/m6source.py
+++ b/research/legacy_skatervaluation/battledata/m6source.py
@@ -18,7 +18,7 @@ def m6_source(params)->(dict, str, np.ndarray):
     """
          Slowly get up to date data via Yahoo
     """
-    combined_params = DEFAULT_M6_PARAMS
+    combined_params = dict(DEFAULT_M6_PARAMS)
     combined_params.update(params)
     etf = combined_params['etf']
     if etf>0.5:
diff --git a/research/legacy_skatervaluation/battledata/stockssource.py b/research/legacy_skatervaluation/battledata/stockssource.py
index a98bbee..b9bffaa 100644
--- a/research/legacy_skatervaluation/battledata/stockssource.py
+++ b/research/legacy_skatervaluation/battledata/stockssource.py
@@ -15,7 +15,7 @@ def stocks_source(params)->(dict, str, np.ndarray):
     """
        Quickly get canned historical data from precisedata GitHub repo
     """
-    combined_params = DEFAULT_STOCK_PARAMS
+    combined_params = dict(DEFAULT_STOCK_PARAMS)
     combined_params.update(params)
     combined_params['description'] = 'stocks_' + str(combined_params['k']) + '_days'
     category = combined_params['description'] + '_p' + str(combined_params['n_dim']) + '_n' + str(
diff --git a/research/legacy_skatervaluation/battledata/tmsource.py b/research/legacy_skatervaluation/battledata/tmsource.py
index 991a6d0..dfba68e 100644
--- a/research/legacy_skatervaluation/battledata/tmsource.py
+++ b/research/legacy_skatervaluation/battledata/tmsource.py
@@ -19,7 +19,7 @@ def tm_source(params)->(dict, str, np.ndarray):
         params['collinear'] - If not True, we first create a less-collinear set of residuals
 
     """
-    combined_params = DEFAULT_TM_PARAMS
+    combined_params = dict(DEFAULT_TM_PARAMS)
     combined_params.update(params)
     combined_params['description'] = 'tm_residuals' if combined_params['raw'] else 'tm_noncollinear'
     category = combined_params['description'] + '_p' + str(combined_params['n_dim']) + '_n' + str( combined_params['n_burn'])
-- 
2.43.0


From 50d40bc996903f5f9c04612462cb040039b32c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 16/16] fix: port_sample_var ranks portfolios on the covariance
 it is given

It replaced the argument by a random factor covariance.
---
 .../portfoliocomparisonutil/portcomparison.py                  | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/research/legacy_skatervaluation/portfoliocomparisonutil/portcomparison.py b/research/legacy_skatervaluation/portfoliocomparisonutil/portcomparison.py
index b4ec8c3..1e95ee2 100644
--- a/research/legacy_skatervaluation/portfoliocomparisonutil/portcomparison.py
+++ b/research/legacy_skatervaluation/portfoliocomparisonutil/portcomparison.py
@@ -7,8 +7,6 @@ from precise.skaters.covarianceutil.covrandom import random_known_cov
 from momentum import kurtosis_init, kurtosis_update
 import time
 
-from precise.skaters.covarianceutil.covrandom import random_factor_cov
-
 
 def points_race( ranker, ranker_kwargs, n_iter=100, n_top=20):
     c = Counter()
@@ -133,7 +131,6 @@ def port_sample_var(ports, cov, n_anchor, n_observed, n_true, show_progress=True
     :param n_true:
     :return:
     """
-    cov = random_factor_cov(n_dim=np.shape(cov)[0])
     moments = port_kurtosis(ports=ports, seed_cov=cov, max_time=max_time, n_anchor=n_anchor, n_observed=n_observed,
                             n_true=n_true, metric='mean', show_progress=show_progress)
     return sorted( moments.items(), key=lambda x: x[1], reverse=False)
-- 
2.43.0

