From f61cfa7f71a78ca08151279bf6fcec5157a21eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 01/28] fix: embedded dataset fallback no longer reseeds the
 global NumPy RNG

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..b3a23cc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -160,7 +160,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -171,8 +171,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -182,8 +182,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -193,8 +193,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -204,8 +204,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -305,7 +305,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -328,9 +328,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -342,15 +342,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -454,7 +454,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -477,9 +477,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -512,11 +512,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -601,7 +601,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -612,9 +612,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -633,8 +633,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From 9324d3ec03bb4c7b62910169df326802f7f55469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 02/28] fix: dataset cache survives crashes, disk faults,
 dropped connections and concurrent use

---
 diff_diff/datasets.py | 69 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index b3a23cc..b60e18e 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,13 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
+import tempfile
+import warnings
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
-from typing import Dict
-from urllib.error import HTTPError, URLError
+from typing import Dict, Optional
 from urllib.request import urlopen
 
 import numpy as np
@@ -24,10 +27,46 @@ _CACHE_DIR = Path.home() / ".cache" / "diff_diff" / "datasets"
 
 def _get_cache_path(name: str) -> Path:
     """Get the cache path for a dataset."""
-    _CACHE_DIR.mkdir(parents=True, exist_ok=True)
     return _CACHE_DIR / f"{name}.csv"
 
 
+def _read_cache(cache_path: Path) -> Optional[str]:
+    """Return the cached content, or None if there is no readable copy."""
+    try:
+        return cache_path.read_text(encoding="utf-8")
+    except (OSError, UnicodeDecodeError):
+        return None
+
+
+def _write_cache(cache_path: Path, content: str) -> None:
+    """
+    Store content in the cache, all or nothing.
+
+    The content is written to a temporary file that replaces the cached copy
+    only once it is complete, so a crash, a full disk or a concurrent reader
+    never sees a partial file. Failing to cache is not fatal.
+    """
+    try:
+        cache_path.parent.mkdir(parents=True, exist_ok=True)
+        fd, tmp_name = tempfile.mkstemp(
+            dir=cache_path.parent, prefix=f"{cache_path.stem}-", suffix=".tmp"
+        )
+        try:
+            with os.fdopen(fd, "w", encoding="utf-8") as f:
+                f.write(content)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_name, cache_path)
+        except BaseException:
+            try:
+                os.unlink(tmp_name)
+            except OSError:
+                pass
+            raise
+    except OSError as e:
+        warnings.warn(f"Could not cache dataset at {cache_path}: {e}", UserWarning, stacklevel=4)
+
+
 def _download_with_cache(
     url: str,
     name: str,
@@ -36,29 +75,35 @@ def _download_with_cache(
     """Download a file and cache it locally."""
     cache_path = _get_cache_path(name)
 
-    if cache_path.exists() and not force_download:
-        return cache_path.read_text()
+    if not force_download:
+        cached = _read_cache(cache_path)
+        if cached is not None:
+            return cached
 
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
-        if cache_path.exists():
+    except (OSError, HTTPException, UnicodeDecodeError) as e:
+        # OSError covers HTTPError, URLError, timeouts and dropped connections
+        cached = _read_cache(cache_path)
+        if cached is not None:
             # Use cached version if download fails
-            return cache_path.read_text()
+            return cached
         raise RuntimeError(
             f"Failed to download dataset '{name}' from {url}: {e}\n"
             "Check your internet connection or try again later."
         ) from e
 
+    _write_cache(cache_path, content)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
     if _CACHE_DIR.exists():
-        for f in _CACHE_DIR.glob("*.csv"):
-            f.unlink()
+        for pattern in ("*.csv", "*.tmp"):
+            for f in _CACHE_DIR.glob(pattern):
+                f.unlink(missing_ok=True)
         print(f"Cleared cache at {_CACHE_DIR}")
 
 
-- 
2.43.0


From 194d5c69763111436cef19ca73c2c8b325689858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 03/28] fix: TWFE no longer swaps the process-wide warning
 filters while fitting

---
 diff_diff/twfe.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..4f4b4a5 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -141,16 +141,16 @@ class TwoWayFixedEffects(DifferenceInDifferences):
                 rank_deficient_action="error",
             ).fit(X, y, df_adjustment=df_adjustment)
         else:
-            # Suppress generic warning, TWFE provides context-specific messages below
-            with warnings.catch_warnings():
-                warnings.filterwarnings("ignore", message="Rank-deficient design matrix")
-                reg = LinearRegression(
-                    include_intercept=False,
-                    robust=True,
-                    cluster_ids=cluster_ids if self.inference != "wild_bootstrap" else None,
-                    alpha=self.alpha,
-                    rank_deficient_action="silent",
-                ).fit(X, y, df_adjustment=df_adjustment)
+            # "silent" suppresses the generic warning, TWFE provides context-specific
+            # messages below. (warnings.catch_warnings() would swap the process-wide
+            # filter list, which is not thread-safe.)
+            reg = LinearRegression(
+                include_intercept=False,
+                robust=True,
+                cluster_ids=cluster_ids if self.inference != "wild_bootstrap" else None,
+                alpha=self.alpha,
+                rank_deficient_action="silent",
+            ).fit(X, y, df_adjustment=df_adjustment)
 
         coefficients = reg.coefficients_
         residuals = reg.residuals_
-- 
2.43.0


From 455a53e0798e8df7c1e0b13860d70377ebcf16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 04/28] fix: SimulationPowerResults keeps its own copy of the
 effect sizes

---
 diff_diff/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..fc5029a 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1196,7 +1196,7 @@ def simulate_power(
         mean_se=mean_se,
         coverage=coverage,
         n_simulations=n_valid,
-        effect_sizes=effect_sizes,
+        effect_sizes=list(effect_sizes),
         powers=all_powers,
         true_effect=primary_effect,
         alpha=alpha,
-- 
2.43.0


From 183267702740b954fb18a3b5e3574cf5d4cff703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 05/28] fix: analytical refit after a wild-bootstrap fit no
 longer reports bootstrap inference

---
 diff_diff/estimators.py | 1 +
 diff_diff/twfe.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..ab2b604 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -306,6 +306,7 @@ class DifferenceInDifferences:
             )
         else:
             # Use analytical inference from LinearRegression
+            self._bootstrap_results = None  # drop leftovers of an earlier fit
             vcov = reg.vcov_
             inference = reg.get_inference(att_idx)
             se = inference.se
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 4f4b4a5..8552144 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -201,6 +201,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
             )
         else:
             # Use analytical inference from LinearRegression
+            self._bootstrap_results = None  # drop leftovers of an earlier fit
             vcov = reg.vcov_
             inference = reg.get_inference(att_idx)
             se = inference.se
-- 
2.43.0


From aafb807dc6b1a0e13c1d9cd47a66bd7b7afa291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 06/28] fix: CallawaySantAnna.set_params(bootstrap_weights=...)
 takes effect

---
 diff_diff/staggered.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..9d1b9b5 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1103,6 +1103,14 @@ class CallawaySantAnna(
                 setattr(self, key, value)
             else:
                 raise ValueError(f"Unknown parameter: {key}")
+        # bootstrap_weight_type is a deprecated alias: keep both names in step
+        if "bootstrap_weights" in params or "bootstrap_weight_type" in params:
+            weights = params.get("bootstrap_weights")
+            if weights is None:
+                weights = params.get("bootstrap_weight_type")
+            if weights is None:
+                weights = "rademacher"
+            self.bootstrap_weights = self.bootstrap_weight_type = weights
         return self
 
     def summary(self) -> str:
-- 
2.43.0


From 2b70ec9fff192726f9eacf7aa5d0b292f02ccaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 07/28] fix: BaconDecomposition.set_params rejects unknown
 parameters like every other estimator

---
 diff_diff/bacon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..20e4a6a 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -872,6 +872,9 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
+        for key in params:
+            if key != "weights":
+                raise ValueError(f"Unknown parameter: {key}")
         if "weights" in params:
             if params["weights"] not in ("approximate", "exact"):
                 raise ValueError(
-- 
2.43.0


From 47e6dc34ad1cb43e4caf84e2d825448fd689d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 08/28] fix: TROP bootstrap and jackknife replicates compute
 weights from their own panel

---
 diff_diff/trop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..c8612b2 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2287,8 +2287,10 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when they describe this panel. Bootstrap and
+        # jackknife replicates pass their own matrices and take the fallback below.
+        if (self._precomputed is not None
+                and self._precomputed["Y"] is Y and self._precomputed["D"] is D):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 950b92797a5309ef1773e4a86bbd5618b3f7be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 09/28] fix: doubly robust CallawaySantAnna warns when the
 propensity score falls back

---
 diff_diff/staggered.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 9d1b9b5..c952d0e 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1032,6 +1032,12 @@ class CallawaySantAnna(
                 _, pscore = _logistic_regression(X_all, D)
             except (np.linalg.LinAlgError, ValueError):
                 # Fallback to unconditional if logistic regression fails
+                warnings.warn(
+                    "Propensity score estimation failed. "
+                    "Falling back to unconditional estimation.",
+                    UserWarning,
+                    stacklevel=4,
+                )
                 pscore = np.full(len(D), n_t / (n_t + n_c))
 
             pscore_control = pscore[n_t:]
-- 
2.43.0


From 61f73bbc5347d8e611073dbefbfe056024142cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 10/28] fix: doubly robust TripleDifference warns when a
 nuisance model falls back

---
 diff_diff/triple_diff.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..3f1824f 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -963,6 +963,12 @@ class TripleDifference:
                             )
                             mu_fitted[mask] = fitted
                         except Exception:
+                            warnings.warn(
+                                f"Outcome regression for {cell_name} at time {t_val} failed. "
+                                "Using the cell mean instead.",
+                                UserWarning,
+                                stacklevel=3,
+                            )
                             mu_fitted[mask] = np.mean(y[mask])
                     elif np.sum(mask) == 1:
                         mu_fitted[mask] = y[mask]
@@ -971,11 +977,23 @@ class TripleDifference:
             try:
                 _, p_G = _logistic_regression(X, G)
             except Exception:
+                warnings.warn(
+                    "Propensity score estimation for G failed. "
+                    "Using unconditional probabilities.",
+                    UserWarning,
+                    stacklevel=3,
+                )
                 p_G = np.full(n, np.mean(G))
 
             try:
                 _, p_P = _logistic_regression(X, P)
             except Exception:
+                warnings.warn(
+                    "Propensity score estimation for P failed. "
+                    "Using unconditional probabilities.",
+                    UserWarning,
+                    stacklevel=3,
+                )
                 p_P = np.full(n, np.mean(P))
 
             p_G = np.clip(p_G, self.pscore_trim, 1 - self.pscore_trim)
-- 
2.43.0


From 91b5e26c5ce8ce7e53879f72e998619688d17452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 11/28] fix: pre-trends MDV warns when it falls back to the
 approximate formula

---
 diff_diff/pretrends.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..a2ce332 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -25,6 +25,7 @@ https://github.com/jonathandroth/pretrends - R package implementation
 diff_diff.honest_did - Sensitivity analysis for parallel trends violations
 """
 
+import warnings
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Literal, Optional, Tuple, Union
 
@@ -828,6 +829,12 @@ class PreTrendsPower:
             # Fallback: use approximate formula
             # For chi2, power ≈ Phi(sqrt(2*nc) - sqrt(2*cv))
             # Solving: sqrt(2*nc) = z_power + sqrt(2*cv)
+            warnings.warn(
+                "Root search for the minimum detectable violation failed. "
+                "Using an approximate formula instead.",
+                UserWarning,
+                stacklevel=3,
+            )
             z_power = stats.norm.ppf(self.target_power)
             target_nc = 0.5 * (z_power + np.sqrt(2 * critical_value)) ** 2
 
-- 
2.43.0


From 4f4a96489e02755aaef29596c55a5a52f5e412a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 12/28] fix: TROP announces failed joint LOOCV fits and failed
 SVDs

---
 diff_diff/trop.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c8612b2..18ac84b 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1030,6 +1030,12 @@ class TROP:
 
             except (np.linalg.LinAlgError, ValueError):
                 # Any failure means this λ combination is invalid per Equation 5
+                warnings.warn(
+                    f"LOOCV: Fit failed for observation ({t_ex}, {i_ex}) with "
+                    f"λ=({lambda_time}, {lambda_unit}, {lambda_nn}). "
+                    "Returning infinite score per Equation 5.",
+                    UserWarning
+                )
                 return np.inf
 
         if n_valid == 0:
@@ -2391,11 +2397,17 @@ class TROP:
             U, s, Vt = np.linalg.svd(M, full_matrices=False)
         except np.linalg.LinAlgError:
             # SVD failed, return zero matrix
+            warnings.warn(
+                "SVD did not converge; low-rank component set to zero.", UserWarning
+            )
             return np.zeros_like(M)
 
         # Check for numerical issues in SVD output
         if not (np.isfinite(U).all() and np.isfinite(s).all() and np.isfinite(Vt).all()):
             # SVD produced non-finite values, return zero matrix
+            warnings.warn(
+                "SVD produced non-finite values; low-rank component set to zero.", UserWarning
+            )
             return np.zeros_like(M)
 
         s_thresh = np.maximum(s - threshold, 0)
-- 
2.43.0


From 1d978bce780ef4c7bd077b73151c3dd1a5805411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 13/28] fix: SunAbraham bootstrap resamples rows by position,
 whatever the index of the frame

---
 diff_diff/sun_abraham.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..b1b8d14 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1007,8 +1007,9 @@ class SunAbraham:
 
             # Create bootstrap sample efficiently
             # Build index array for all selected units
+            # (row positions, not index labels: the input may have any index)
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero((df[unit] == u).values) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From d1524809a7823251594e183d2139fab04e4103ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 14/28] fix: SunAbraham bootstrap leaves failed iterations out
 instead of repeating the original estimate

---
 diff_diff/sun_abraham.py | 50 ++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index b1b8d14..e68f63f 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -623,7 +623,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -640,7 +640,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -1071,7 +1071,8 @@ class SunAbraham:
                     if e in event_study_b:
                         bootstrap_effects[e][b] = event_study_b[e]["effect"]
                     else:
-                        bootstrap_effects[e][b] = original_event_study[e]["effect"]
+                        # not identified in this resample
+                        bootstrap_effects[e][b] = np.nan
 
                 # Compute overall ATT for this bootstrap sample
                 overall_b, _ = self._compute_overall_att(
@@ -1086,15 +1087,24 @@ class SunAbraham:
                 bootstrap_overall[b] = overall_b
 
             except (ValueError, np.linalg.LinAlgError) as exc:
-                # If bootstrap iteration fails, use original
+                # A failed iteration carries no information: leave it out
                 warnings.warn(
-                    f"Bootstrap iteration {b} failed: {exc}. Using original estimate.",
+                    f"Bootstrap iteration {b} failed: {exc}. Leaving it out.",
                     UserWarning,
                     stacklevel=2,
                 )
                 for e in rel_periods:
-                    bootstrap_effects[e][b] = original_event_study[e]["effect"]
-                bootstrap_overall[b] = original_overall_att
+                    bootstrap_effects[e][b] = np.nan
+                bootstrap_overall[b] = np.nan
+
+        bootstrap_overall = bootstrap_overall[np.isfinite(bootstrap_overall)]
+        if len(bootstrap_overall) < self.n_bootstrap:
+            warnings.warn(
+                f"Only {len(bootstrap_overall)}/{self.n_bootstrap} bootstrap iterations "
+                "succeeded. Bootstrap inference uses these only.",
+                UserWarning,
+                stacklevel=3,
+            )
 
         # Compute bootstrap statistics
         event_study_ses = {}
@@ -1102,21 +1112,17 @@ class SunAbraham:
         event_study_p_values = {}
 
         for e in rel_periods:
-            boot_dist = bootstrap_effects[e]
+            boot_dist = bootstrap_effects[e][np.isfinite(bootstrap_effects[e])]
             original_effect = original_event_study[e]["effect"]
 
-            se = float(np.std(boot_dist, ddof=1))
-            ci = self._compute_percentile_ci(boot_dist, self.alpha)
-            p_value = self._compute_bootstrap_pvalue(original_effect, boot_dist)
+            se, ci, p_value = self._bootstrap_inference(original_effect, boot_dist)
 
             event_study_ses[e] = se
             event_study_cis[e] = ci
             event_study_p_values[e] = p_value
 
         # Overall ATT statistics
-        overall_se = float(np.std(bootstrap_overall, ddof=1))
-        overall_ci = self._compute_percentile_ci(bootstrap_overall, self.alpha)
-        overall_p = self._compute_bootstrap_pvalue(
+        overall_se, overall_ci, overall_p = self._bootstrap_inference(
             original_overall_att, bootstrap_overall
         )
 
@@ -1133,6 +1139,20 @@ class SunAbraham:
             bootstrap_distribution=bootstrap_overall,
         )
 
+    def _bootstrap_inference(
+        self,
+        original_effect: float,
+        boot_dist: np.ndarray,
+    ) -> Tuple[float, Tuple[float, float], float]:
+        """SE, percentile CI and p-value from the successful iterations (NaN if fewer than two)."""
+        if len(boot_dist) < 2:
+            return np.nan, (np.nan, np.nan), np.nan
+        return (
+            float(np.std(boot_dist, ddof=1)),
+            self._compute_percentile_ci(boot_dist, self.alpha),
+            self._compute_bootstrap_pvalue(original_effect, boot_dist),
+        )
+
     def _compute_percentile_ci(
         self,
         boot_dist: np.ndarray,
@@ -1155,7 +1175,7 @@ class SunAbraham:
             p_one_sided = float(np.mean(boot_dist >= 0))
 
         p_value = min(2 * p_one_sided, 1.0)
-        p_value = max(p_value, 1 / (self.n_bootstrap + 1))
+        p_value = max(p_value, 1 / (len(boot_dist) + 1))
 
         return p_value
 
-- 
2.43.0


From 74e630c8f3e4679fb494dbae9fb41f1602e5a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 15/28] fix: SyntheticDiD reports undefined inference as NaN
 when the SE cannot be computed

---
 diff_diff/synthetic_did.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..8f1816c 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -335,12 +335,12 @@ class SyntheticDiD(DifferenceInDifferences):
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
             else:
                 p_value = compute_p_value(t_stat)
+            conf_int = compute_confidence_interval(att, se, self.alpha)
         else:
-            t_stat = 0.0
-            p_value = 1.0
-
-        # Confidence interval
-        conf_int = compute_confidence_interval(att, se, self.alpha)
+            # When SE is undefined/zero, ALL inference fields should be NaN
+            t_stat = np.nan
+            p_value = np.nan
+            conf_int = (np.nan, np.nan)
 
         # Create weight dictionaries
         unit_weights_dict = {
-- 
2.43.0


From 3b946cd89b1d9f529df759577e3f0bf491cb8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 16/28] fix: placebo diagnostics report NaN inference when the
 SE is undefined

---
 diff_diff/diagnostics.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..f2324f5 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -662,7 +662,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -782,15 +782,18 @@ def leave_one_out_test(
 
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
-    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
-
-    # Use t-distribution for p-value
-    df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
-    p_value = compute_p_value(t_stat, df=df)
-
-    # CI
-    conf_int = compute_confidence_interval(mean_effect, se, alpha, df=df)
+    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else np.nan
+    if se > 0:
+        t_stat = mean_effect / se
+        # Use t-distribution for p-value
+        df = len(valid_effects) - 1
+        p_value = compute_p_value(t_stat, df=df)
+        conf_int = compute_confidence_interval(mean_effect, se, alpha, df=df)
+    else:
+        # When SE is undefined/zero, ALL inference fields should be NaN
+        t_stat = np.nan
+        p_value = np.nan
+        conf_int = (np.nan, np.nan)
 
     return PlaceboTestResults(
         test_type="leave_one_out",
-- 
2.43.0


From 35a10069b87b2c1bb582af8e0791283c06ecde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 17/28] fix: SyntheticDiD bootstrap p-value no longer read off
 a distribution centred at the estimate

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 8f1816c..f3ac346 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use placebo distribution for p-value if available (bootstrap estimates
+            # are centered at the ATT, so they say nothing about the null)
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From 1b4f7985763c7fb7e05ff22a59b91e7a313a08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 18/28] fix: wild cluster bootstrap p-value is computed under
 the null hypothesis

---
 diff_diff/utils.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..a3209a2 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -444,17 +444,19 @@ def wild_bootstrap_se(
     se_original = np.sqrt(vcov_original[coefficient_index, coefficient_index])
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
+    # Unrestricted residuals: the bootstrap SE and percentile CI describe the
+    # sampling distribution of the coefficient around its estimate
+    residuals_hat = y - X @ beta_hat
+
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
-    y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
+    # Fix the coefficient at its null value and re-estimate all the others, so
+    # that the bootstrap t-statistics are drawn under H0
+    X_null = X[:, coefficient_index] * null_hypothesis
+    X_other = np.delete(X, coefficient_index, axis=1)
+    _, residuals_restricted, _ = _solve_ols_linalg(
+        X_other, y - X_null, return_vcov=False
     )
+    fitted_restricted = y - residuals_restricted
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -473,14 +475,19 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Bootstrap coefficient: y* = X @ beta_hat + e_hat * weights
+        beta_boot, _, _ = _solve_ols_linalg(
+            X, X @ beta_hat + residuals_hat * obs_weights, return_vcov=False
+        )
+        bootstrap_coefs[b] = beta_boot[coefficient_index]
+
+        # Construct bootstrap sample under H0: y* = fitted_restricted + e_restricted * weights
+        y_star = fitted_restricted + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, residuals_star, vcov_star = _solve_ols_linalg(
             X, y_star, cluster_ids=cluster_ids, return_vcov=True
         )
-        bootstrap_coefs[b] = beta_star[coefficient_index]
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
         # Compute bootstrap t-statistic (under null hypothesis)
-- 
2.43.0


From f898aa117acf24f3f2c5d5f975a0ac847fd18a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 19/28] fix: simulate_power fits TwoWayFixedEffects with the
 post indicator

---
 diff_diff/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index fc5029a..f0a364a 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1086,7 +1086,7 @@ def simulate_power(
                         data,
                         outcome="outcome",
                         treatment="treated",
-                        time="period",
+                        time="post",
                         unit="unit",
                         **est_kwargs
                     )
-- 
2.43.0


From 1eb6d2d01bf6b0462adaf8230ad71dfed6ea8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 20/28] fix: simulate_power works with CallawaySantAnna and
 staggered generators

---
 diff_diff/power.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index f0a364a..ded525f 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1103,10 +1103,12 @@ def simulate_power(
                 elif estimator_name == "CallawaySantAnna":
                     # Need to create first_treat column for staggered
                     # For standard generate_did_data, convert to first_treat format
-                    data = data.copy()
-                    data["first_treat"] = np.where(
-                        data["treated"] == 1, treatment_period, 0
-                    )
+                    # (staggered generators bring their own column)
+                    if "first_treat" not in data.columns:
+                        data = data.copy()
+                        data["first_treat"] = np.where(
+                            data["treated"] == 1, treatment_period, 0
+                        )
                     result = estimator.fit(
                         data,
                         outcome="outcome",
@@ -1126,10 +1128,21 @@ def simulate_power(
                     )
 
                 # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                # (single-effect, multi-period and group-time results name them differently)
+                if hasattr(result, 'att'):
+                    att, se, p_val, ci = (
+                        result.att, result.se, result.p_value, result.conf_int
+                    )
+                elif hasattr(result, 'avg_att'):
+                    att, se, p_val, ci = (
+                        result.avg_att, result.avg_se,
+                        result.avg_p_value, result.avg_conf_int
+                    )
+                else:
+                    att, se, p_val, ci = (
+                        result.overall_att, result.overall_se,
+                        result.overall_p_value, result.overall_conf_int
+                    )
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From fb03ebde58fde7876aac43eeb8c56bd8ea0109b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 21/28] fix: TROP reports the two-step LOOCV score of infinite
 penalties as searched

---
 diff_diff/trop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 18ac84b..a871e4e 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2079,11 +2079,14 @@ class TROP:
                 (lambda_time_init, lambda_unit_init, lambda_nn_init)
             )
 
-            # Compute final score for the optimized parameters
+            # Compute final score for the optimized parameters (infinite values
+            # converted as in the search itself)
             try:
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From c3da6811532fbb0ac000574ce2eaeaa6fd003e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 22/28] fix: LinearRegression keeps its own copy of the data it
 was fitted on

---
 diff_diff/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..8c86220 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -1198,8 +1198,9 @@ class LinearRegression:
         self.vcov_ = vcov
         self.residuals_ = residuals
         self.fitted_values_ = fitted
-        self._y = y
-        self._X = X
+        # Copies: the caller may reuse its arrays, r_squared() needs the fitted data
+        self._y = y.copy()
+        self._X = X.copy()
         self.n_obs_ = X.shape[0]
         self.n_params_ = X.shape[1]
 
-- 
2.43.0


From f9eb7056836071b27561d53143987a6ee4f1d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 23/28] fix: HonestDiD.breakdown_value ends when the tolerance
 is below floating-point resolution

---
 diff_diff/honest_did.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..6933126 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1416,6 +1416,8 @@ class HonestDiD:
 
         while hi - lo > tol:
             mid = (lo + hi) / 2
+            if not lo < mid < hi:
+                break  # floating-point resolution reached, tol cannot be met
             result = self.fit(results, M=mid)
             if result.ci_lb <= 0 <= result.ci_ub:
                 hi = mid
-- 
2.43.0


From 301b17990c7e32b95a97955a7790905b2808ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 24/28] fix: pre-trends power keeps its own copy of the M grid
 and violation weights

---
 diff_diff/pretrends.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index a2ce332..a8c7088 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -459,7 +459,7 @@ class PreTrendsPower:
         self.target_power = power
         self.violation_type = violation_type
         self.violation_weights = (
-            np.asarray(violation_weights) if violation_weights is not None else None
+            np.array(violation_weights) if violation_weights is not None else None
         )
 
     def get_params(self) -> Dict[str, Any]:
@@ -981,7 +981,7 @@ class PreTrendsPower:
             max_M = min(2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses), 100)
             M_grid = np.linspace(0, max_M, n_points)
         else:
-            M_grid = np.asarray(M_grid)
+            M_grid = np.array(M_grid)
 
         # Compute power at each M
         powers = np.array([
-- 
2.43.0


From ade86f9330df5d1fd022bc984deeb029ca765ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 25/28] fix: set_params refuses names and values the
 constructor refuses

---
 diff_diff/estimators.py    |  9 +++++----
 diff_diff/honest_did.py    | 12 +++++++-----
 diff_diff/pretrends.py     | 14 ++++++++------
 diff_diff/staggered.py     | 17 ++++++++++++-----
 diff_diff/sun_abraham.py   | 11 +++++++----
 diff_diff/synthetic_did.py | 11 +++++++----
 diff_diff/triple_diff.py   | 11 +++++++----
 diff_diff/trop.py          | 11 +++++++----
 8 files changed, 60 insertions(+), 36 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index ab2b604..dc24b25 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -621,11 +621,12 @@ class DifferenceInDifferences:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
+        for key, value in params.items():
+            setattr(self, key, value)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 6933126..7375c5b 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1035,12 +1035,14 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Invalid parameter: {key}")
-        self._validate_params()
+        # Same validation and defaults as the constructor
+        checked = HonestDiD(**{**current, **params})
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def fit(
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index a8c7088..c504193 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -473,13 +473,15 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if key == "power":
-                self.target_power = value
-            elif hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Invalid parameter: {key}")
+        # Same validation and conversion as the constructor
+        checked = PreTrendsPower(**{**current, **params})
+        for key in params:
+            name = "target_power" if key == "power" else key
+            setattr(self, name, getattr(checked, name))
         return self
 
     def _get_violation_weights(self, n_pre: int) -> np.ndarray:
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index c952d0e..be3aecd 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -1104,10 +1104,9 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
         # bootstrap_weight_type is a deprecated alias: keep both names in step
         if "bootstrap_weights" in params or "bootstrap_weight_type" in params:
@@ -1116,7 +1115,15 @@ class CallawaySantAnna(
                 weights = params.get("bootstrap_weight_type")
             if weights is None:
                 weights = "rademacher"
-            self.bootstrap_weights = self.bootstrap_weight_type = weights
+            params = {
+                **params,
+                "bootstrap_weights": weights,
+                "bootstrap_weight_type": weights,
+            }
+        # Same validation as the constructor, before anything is changed
+        CallawaySantAnna(**{**current, **params, "bootstrap_weight_type": None})
+        for key, value in params.items():
+            setattr(self, key, value)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index e68f63f..287e49a 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1193,11 +1193,14 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Same validation and defaults as the constructor
+        checked = SunAbraham(**{**current, **params})
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index f3ac346..cd0b5a7 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -731,9 +731,12 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Same validation and defaults as the constructor
+        checked = SyntheticDiD(**{**current, **params})
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 3f1824f..de9e008 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -1223,11 +1223,14 @@ class TripleDifference:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Same validation and defaults as the constructor
+        checked = TripleDifference(**{**current, **params})
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a871e4e..6083da5 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -3112,11 +3112,14 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
+        current = self.get_params()
+        for key in params:
+            if key not in current:
                 raise ValueError(f"Unknown parameter: {key}")
+        # Same validation and defaults as the constructor
+        checked = TROP(**{**current, **params})
+        for key in params:
+            setattr(self, key, getattr(checked, key))
         return self
 
 
-- 
2.43.0


From 7c6979ec97cb122310366b8272454ce09778c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 26/28] fix: never-treated units coded as inf are not a
 treatment cohort

---
 diff_diff/staggered.py   | 2 ++
 diff_diff/sun_abraham.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index be3aecd..b920342 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -634,6 +634,8 @@ class CallawaySantAnna(
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        # Both codings of never-treated (0 and inf) mean the same
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
 
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 287e49a..99cbb68 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -485,6 +485,8 @@ class SunAbraham:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        # Both codings of never-treated (0 and inf) mean the same
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-- 
2.43.0


From 339bc7e138910bf94a777a13efa8c4136c5ed030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 27/28] fix: rank_control_units averages treated units in an
 order independent of the hash seed

---
 diff_diff/prep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..c98729a 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -941,13 +941,14 @@ def rank_control_units(
     all_units = list(data[unit_column].unique())
 
     if treated_units is not None:
-        treated_set = set(treated_units)
+        # Ordered, so that sums over the treated units do not depend on the hash seed
+        treated_set = dict.fromkeys(treated_units)
     elif treatment_column is not None:
         unit_treatment = data.groupby(unit_column)[treatment_column].first()
-        treated_set = set(unit_treatment[unit_treatment == 1].index)
+        treated_set = dict.fromkeys(unit_treatment[unit_treatment == 1].index)
     elif suggest_treatment_candidates:
         # Treatment candidate discovery mode - no treated units
-        treated_set = set()
+        treated_set = {}
     else:
         raise ValueError(
             "Must specify treated_units, treatment_column, or set "
-- 
2.43.0


From 9880abe4c9edd81a430c332f2234c9aa204f5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 28/28] fix: a simulation with unusable inference is not half
 counted in simulate_power

---
 diff_diff/power.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index ded525f..8646acf 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1144,11 +1144,15 @@ def simulate_power(
                         result.overall_p_value, result.overall_conf_int
                     )
 
+                # Evaluate before recording: a simulation counts completely or not at all
+                rejected = p_val < alpha
+                covered = ci[0] <= effect <= ci[1]
+
                 estimates.append(att)
                 ses.append(se)
                 p_values.append(p_val)
-                rejections.append(p_val < alpha)
-                ci_contains_true.append(ci[0] <= effect <= ci[1])
+                rejections.append(rejected)
+                ci_contains_true.append(covered)
 
             except Exception as e:
                 # Track failed simulations
-- 
2.43.0

