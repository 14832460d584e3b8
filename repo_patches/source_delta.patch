From 2fec9372df234693eaea22f0a181df9ce14c6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 01/21] fix: __all__ must list names, star-imports of sim and
 util raised TypeError

---
 quantfinlib/sim/__init__.py  |  2 +-
 quantfinlib/util/__init__.py | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/sim/__init__.py b/quantfinlib/sim/__init__.py
index 48bc8ee..7801f38 100644
--- a/quantfinlib/sim/__init__.py
+++ b/quantfinlib/sim/__init__.py
@@ -21,7 +21,7 @@ from ._gbm import GeometricBrownianMotion
 from ._quasi_random import QuasiRandom
 from ._ou import OrnsteinUhlenbeck
 
-__all__ = [BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom]
+__all__ = ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"]
 
 """
 todo:
diff --git a/quantfinlib/util/__init__.py b/quantfinlib/util/__init__.py
index 84422ff..235e10c 100644
--- a/quantfinlib/util/__init__.py
+++ b/quantfinlib/util/__init__.py
@@ -6,13 +6,13 @@ from quantfinlib.util._validate import validate_series_or_1Darray, validate_fram
 from quantfinlib.util._dtypes import to_numpy, SeriesOrArray, DataFrameOrArray, ArrayLike
 
 __all__ = [
-    logger,
-    get_project_root,
-    configure_logger,
-    validate_series_or_1Darray,
-    validate_frame_or_2Darray,
-    to_numpy,
-    SeriesOrArray,
-    DataFrameOrArray,
-    ArrayLike,
+    "logger",
+    "get_project_root",
+    "configure_logger",
+    "validate_series_or_1Darray",
+    "validate_frame_or_2Darray",
+    "to_numpy",
+    "SeriesOrArray",
+    "DataFrameOrArray",
+    "ArrayLike",
 ]
-- 
2.43.0


From d60b46da1b1e412172232723adf155769bcb7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 02/21] fix: importing the distance package no longer resets
 the configured log level

---
 quantfinlib/distance/distance_matrix.py | 321 ++++++++++++------------
 1 file changed, 159 insertions(+), 162 deletions(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..f0078d7 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -1,162 +1,159 @@
-"""Functions for computing distance matrices for a table/array/dataframe of variables/time series."""
-
-from functools import partial
-from itertools import combinations
-import logging
-from typing import Callable, Optional
-import pandas as pd
-import numpy as np
-
-from quantfinlib.distance.correlation import (
-    corr_to_abs_angular_dist,
-    corr_to_angular_dist,
-    corr_to_squared_angular_dist,
-)
-
-from quantfinlib.distance.information import mutual_info, var_info
-from quantfinlib.util import (
-    validate_frame_or_2Darray,
-    DataFrameOrArray,
-)
-
-logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
-
-CORR_TO_DIST_METHOD_MAP = {
-    "angular": corr_to_angular_dist,
-    "abs_angular": corr_to_abs_angular_dist,
-    "squared_angular": corr_to_squared_angular_dist,
-}
-
-
-@validate_frame_or_2Darray("X")
-def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset."""
-    assert func in [mutual_info, var_info], "Invalid function. Must be mutual_info or var_info."
-    inp_pd_df = isinstance(X, pd.DataFrame)
-    if inp_pd_df:
-        X, colnames = X.values, X.columns
-    _, m = X.shape
-    idx = np.arange(m)
-    res = np.zeros((m, m))
-    for i, j in combinations(idx, 2):
-        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
-        res[i, j] = res_ij
-        res[j, i] = res_ij
-    if func == mutual_info:
-        np.fill_diagonal(res, 1)
-    if inp_pd_df:
-        res = pd.DataFrame(res, index=colnames, columns=colnames)
-    return res
-
-
-def _check_info_method(method: str) -> None:
-    """Check if the information method is valid."""
-    assert method in ["mutual_info", "var_info"], "Invalid method. Must be one of mutual_info or var_info."
-
-
-def get_info_distance_matrix(X: DataFrameOrArray, method: str = "var_info", **kwargs) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset.
-
-    Parameters
-    ----------
-    X : np.ndarray or pd.DataFrame
-        The input dataset.
-    method : str
-        The distance calculation method. Default is 'var_info'.
-    **kwargs
-        Additional keyword arguments for the information calculation.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_info_method(method)
-    if method == "mutual_info":
-        logger.warning("Mutual information is not a metric. Consider using var_info instead.")
-        return _get_info_distance_matrix(X, mutual_info, **kwargs)
-    elif method == "var_info":
-        return _get_info_distance_matrix(X, var_info, **kwargs)
-    else:
-        raise NotImplementedError(f"Method {method} is not implemented.")
-
-
-@validate_frame_or_2Darray("X")
-def _calculate_correlation(X: DataFrameOrArray, corr_method: str = "pearson", **kwargs) -> pd.DataFrame:
-    """Calculate correlation matrix between columns of a dataset."""
-    inp_numpy_array = isinstance(X, np.ndarray)
-    if inp_numpy_array:
-        logger.info("Input is a NumPy array. Converting to Pandas DataFrame for correlation calculation.")
-        X = pd.DataFrame(X)  # Convert NumPy array to Pandas DataFrame
-    corr = X.corr(method=corr_method, **kwargs)
-    return corr.values if inp_numpy_array else corr
-
-
-def _check_corr_calculation_method(corr_method: str) -> None:
-    """Check if the correlation method is valid."""
-    assert corr_method in ["pearson", "spearman"], "Invalid correlation method. Must be pearson or spearman."
-
-
-def _check_corr_to_dist_method(corr_to_dist_method: str) -> None:
-    """Check if the correlation to distance method is valid."""
-    assert corr_to_dist_method in [
-        "angular",
-        "abs_angular",
-        "squared_angular",
-    ], "Invalid corr_to_dist method. Must be one of angular, abs_angular, squared_angular."
-
-
-def get_corr_distance_matrix(
-    X: DataFrameOrArray,
-    corr_method: str = "pearson",
-    corr_to_dist_method: str = "angular",
-    corr_transformer: Optional[Callable] = None,
-    **kwargs,
-) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset.
-
-    Parameters
-    ----------
-    X : np.ndarray or pd.DataFrame
-        The input dataset.
-    corr_method : str, optional
-        The correlation method. Default is 'pearson'.
-    corr_to_dist_method : str, optional
-        The distance calculation method. Default is 'angular'.
-    corr_transformer : Callable, optional
-        A function to transform the correlation matrix before calculating distance.
-    **kwargs
-        Additional keyword arguments for the correlation calculation with pandas.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_corr_calculation_method(corr_method)
-    corr = _calculate_correlation(X, corr_method, **kwargs)
-    if corr_transformer is not None:
-        corr = corr_transformer(corr)
-    return corr_to_dist(corr=corr, corr_to_dist_method=corr_to_dist_method)
-
-
-@validate_frame_or_2Darray("corr")
-def corr_to_dist(corr: DataFrameOrArray, corr_to_dist_method: str = "angular") -> DataFrameOrArray:
-    """Convert a correlation matrix to a distance matrix.
-
-    Parameters
-    ----------
-    corr : np.ndarray or pd.DataFrame
-        The input correlation matrix.
-    corr_to_dist_method : str, optional
-        The distance calculation method. Default is 'angular'.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_corr_to_dist_method(corr_to_dist_method=corr_to_dist_method)
-    func = CORR_TO_DIST_METHOD_MAP.get(corr_to_dist_method)
-    return func(corr)
+"""Functions for computing distance matrices for a table/array/dataframe of variables/time series."""
+
+from functools import partial
+from itertools import combinations
+from typing import Callable, Optional
+import pandas as pd
+import numpy as np
+
+from quantfinlib.distance.correlation import (
+    corr_to_abs_angular_dist,
+    corr_to_angular_dist,
+    corr_to_squared_angular_dist,
+)
+
+from quantfinlib.distance.information import mutual_info, var_info
+from quantfinlib.util import (
+    validate_frame_or_2Darray,
+    DataFrameOrArray,
+    logger,
+)
+
+CORR_TO_DIST_METHOD_MAP = {
+    "angular": corr_to_angular_dist,
+    "abs_angular": corr_to_abs_angular_dist,
+    "squared_angular": corr_to_squared_angular_dist,
+}
+
+
+@validate_frame_or_2Darray("X")
+def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset."""
+    assert func in [mutual_info, var_info], "Invalid function. Must be mutual_info or var_info."
+    inp_pd_df = isinstance(X, pd.DataFrame)
+    if inp_pd_df:
+        X, colnames = X.values, X.columns
+    _, m = X.shape
+    idx = np.arange(m)
+    res = np.zeros((m, m))
+    for i, j in combinations(idx, 2):
+        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
+        res[i, j] = res_ij
+        res[j, i] = res_ij
+    if func == mutual_info:
+        np.fill_diagonal(res, 1)
+    if inp_pd_df:
+        res = pd.DataFrame(res, index=colnames, columns=colnames)
+    return res
+
+
+def _check_info_method(method: str) -> None:
+    """Check if the information method is valid."""
+    assert method in ["mutual_info", "var_info"], "Invalid method. Must be one of mutual_info or var_info."
+
+
+def get_info_distance_matrix(X: DataFrameOrArray, method: str = "var_info", **kwargs) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset.
+
+    Parameters
+    ----------
+    X : np.ndarray or pd.DataFrame
+        The input dataset.
+    method : str
+        The distance calculation method. Default is 'var_info'.
+    **kwargs
+        Additional keyword arguments for the information calculation.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_info_method(method)
+    if method == "mutual_info":
+        logger.warning("Mutual information is not a metric. Consider using var_info instead.")
+        return _get_info_distance_matrix(X, mutual_info, **kwargs)
+    elif method == "var_info":
+        return _get_info_distance_matrix(X, var_info, **kwargs)
+    else:
+        raise NotImplementedError(f"Method {method} is not implemented.")
+
+
+@validate_frame_or_2Darray("X")
+def _calculate_correlation(X: DataFrameOrArray, corr_method: str = "pearson", **kwargs) -> pd.DataFrame:
+    """Calculate correlation matrix between columns of a dataset."""
+    inp_numpy_array = isinstance(X, np.ndarray)
+    if inp_numpy_array:
+        logger.info("Input is a NumPy array. Converting to Pandas DataFrame for correlation calculation.")
+        X = pd.DataFrame(X)  # Convert NumPy array to Pandas DataFrame
+    corr = X.corr(method=corr_method, **kwargs)
+    return corr.values if inp_numpy_array else corr
+
+
+def _check_corr_calculation_method(corr_method: str) -> None:
+    """Check if the correlation method is valid."""
+    assert corr_method in ["pearson", "spearman"], "Invalid correlation method. Must be pearson or spearman."
+
+
+def _check_corr_to_dist_method(corr_to_dist_method: str) -> None:
+    """Check if the correlation to distance method is valid."""
+    assert corr_to_dist_method in [
+        "angular",
+        "abs_angular",
+        "squared_angular",
+    ], "Invalid corr_to_dist method. Must be one of angular, abs_angular, squared_angular."
+
+
+def get_corr_distance_matrix(
+    X: DataFrameOrArray,
+    corr_method: str = "pearson",
+    corr_to_dist_method: str = "angular",
+    corr_transformer: Optional[Callable] = None,
+    **kwargs,
+) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset.
+
+    Parameters
+    ----------
+    X : np.ndarray or pd.DataFrame
+        The input dataset.
+    corr_method : str, optional
+        The correlation method. Default is 'pearson'.
+    corr_to_dist_method : str, optional
+        The distance calculation method. Default is 'angular'.
+    corr_transformer : Callable, optional
+        A function to transform the correlation matrix before calculating distance.
+    **kwargs
+        Additional keyword arguments for the correlation calculation with pandas.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_corr_calculation_method(corr_method)
+    corr = _calculate_correlation(X, corr_method, **kwargs)
+    if corr_transformer is not None:
+        corr = corr_transformer(corr)
+    return corr_to_dist(corr=corr, corr_to_dist_method=corr_to_dist_method)
+
+
+@validate_frame_or_2Darray("corr")
+def corr_to_dist(corr: DataFrameOrArray, corr_to_dist_method: str = "angular") -> DataFrameOrArray:
+    """Convert a correlation matrix to a distance matrix.
+
+    Parameters
+    ----------
+    corr : np.ndarray or pd.DataFrame
+        The input correlation matrix.
+    corr_to_dist_method : str, optional
+        The distance calculation method. Default is 'angular'.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_corr_to_dist_method(corr_to_dist_method=corr_to_dist_method)
+    func = CORR_TO_DIST_METHOD_MAP.get(corr_to_dist_method)
+    return func(corr)
-- 
2.43.0


From 9ffd6fe7e57f5c97bfe32cb6a4f3a1e05c9572fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 03/21] fix: close replaced log handlers so reconfiguring does
 not leak open files

---
 quantfinlib/util/_logging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..793168c 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -24,6 +24,7 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     # Clear any existing handlers
     for handler in logger.handlers[:]:
         logger.removeHandler(handler)
+        handler.close()
 
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
-- 
2.43.0


From 8447b2c6402ab1d18f57850dbc19d7d1d0913dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 04/21] fix: remove debug prints from the simulation code

---
 quantfinlib/sim/_base.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..8222f09 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -87,7 +87,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
 
     values = _to_numpy(values)
 
@@ -202,7 +201,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From f99c908655cb5ee4bb680ec82f9009d220acaca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:18 +0000
Subject: [PATCH 05/21] fix: scale the GBM log-return mean by dt in the
 likelihood

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..95afbab 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From 081fdbbae06f24b0ec832d117ae01f9329686491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 06/21] fix: GBM fit recovers the drift used by the simulator
 (add back 0.5*vol^2)

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 95afbab..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
-- 
2.43.0


From c1e4e35bd1a8ebb2adc8bf5e62887d85e41e898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 07/21] fix: OU fit uses the parameters of every series, not
 only of the last one

---
 quantfinlib/sim/_ou.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..27cb533 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,9 +246,11 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        slopes = slopes.reshape(1, -1)
+        intercepts = intercepts.reshape(1, -1)
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
-- 
2.43.0


From 2bfec69eeddc35c51e5fde127af4710faf4057ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 08/21] fix: OU simulation of several multivariate paths

---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 27cb533..4bc1812 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -282,7 +282,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(mrr_factor.reshape(-1), num_paths)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From d1522af8c51eb8f0a17f41a486e371880abbb37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 09/21] fix: path_sample with column names but no datetime
 index, and Series without x0

---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 8222f09..a2b407a 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -288,6 +288,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
@@ -310,7 +311,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From eab03be2a178105239522953f043dd57d7596d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 10/21] fix: gap_statistic no longer reseeds the global numpy
 random state

---
 quantfinlib/clustering/metrics.py   | 226 +++++++++----------
 quantfinlib/distance/correlation.py | 328 ++++++++++++++--------------
 2 files changed, 277 insertions(+), 277 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..537d243 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -1,113 +1,113 @@
-"""Functions for evaluating clustering results."""
-
-from typing import Optional, Tuple
-
-import numpy as np
-from sklearn.metrics import silhouette_samples
-
-from quantfinlib.util import (
-    DataFrameOrArray,
-    SeriesOrArray,
-    validate_frame_or_2Darray,
-    validate_series_or_1Darray,
-    to_numpy,
-)
-
-
-def _check_labels_distance_consistency(dist: DataFrameOrArray, labels: SeriesOrArray) -> None:
-    """Check if the distance matrix and labels are consistent."""
-    assert len(dist) == len(labels), "The number of labels must match the distance matrix size."
-
-
-@validate_series_or_1Darray("labels")
-@validate_frame_or_2Darray("dist")
-def gap_statistic(
-    dist: DataFrameOrArray, labels: SeriesOrArray, nb: int = 10, random_state: Optional[int] = None
-) -> Tuple[float, float]:
-    r"""
-    Calculate the gap statistic for a given distance matrix and cluster labels.
-
-    .. math::
-        GAP(k) = E(\log\left(W_{k}\right)) - \log\left(W_{k}\right)
-
-
-    where :math:`W_{k}` is the sum of within-cluster dispersion for :math:`k` clusters, and
-    :math:`E(\log(W_{k}))` is the expected value of :math:`\log(W_{k})` for randomized distances.
-
-    Parameters
-    ----------
-    dist : np.ndarray
-        Distance matrix.
-    labels : np.ndarray
-        Cluster labels.
-    nb : int, optional
-        Number of bootstrap samples. Default is 10.
-    random_state : int
-        Random seed for reproducibility.
-
-    Returns
-    -------
-    gap: float
-        Gap statistic.
-    gap_std: float
-        Standard deviation of the gap statistic.
-    """
-    _check_labels_distance_consistency(dist, labels)
-    dist, labels = to_numpy(dist), to_numpy(labels)
-    n = len(labels)
-    k = len(np.unique(labels))  # number of clusters
-    # Create a boolean matrix indicating whether two points are in the same cluster
-    within_clstr_identifier = labels[:, np.newaxis] == labels[np.newaxis, :]
-    # Calculate within-cluster dispersion (Wk)
-    # Additional division by 2 to correct for double summing of pair distances
-    Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
-    # Calculate the expected value of log(Wk) under a null reference distribution by randomizing the distance matrix
-    E_log_Wk = 0
-    log_wk_boots = []  # Store gap statistics for each bootstrap sample
-    if random_state is not None:
-        seed = random_state
-    else:
-        seed = 0
-    for b in range(nb):
-        # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
-        # Make the reference distance matrix symmetric
-        dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
-        # Make sure the diagonal elements of reference distance matrix are zero
-        np.fill_diagonal(dist_ref, 0)
-        # Calculate the within-cluster dispersion for the reference distance matrix
-        Wk_boot = np.sum(within_clstr_identifier * dist_ref**2) / (4 * k)
-        log_Wk_boot = np.log(Wk_boot) if Wk_boot > 0 else 0
-        log_wk_boots.append(log_Wk_boot)
-        E_log_Wk += log_Wk_boot
-    E_log_Wk /= nb
-    gap_std = np.std(log_wk_boots)
-    # Calculate the gap statistic
-    gap = E_log_Wk - np.log(Wk)
-    return gap, gap_std
-
-
-@validate_series_or_1Darray("labels")
-@validate_frame_or_2Darray("dist")
-def silhouette_tstat(dist: DataFrameOrArray, labels: SeriesOrArray) -> float:
-    """
-    Calculate the silhouette score for a given distance matrix and cluster labels.
-
-    Parameters
-    ----------
-    dist : np.ndarray
-        Distance matrix.
-    labels : np.ndarray
-        Cluster labels.
-
-    Returns
-    -------
-    silh_tstat : float
-        T-statistic of the silhouette score.
-    """
-    _check_labels_distance_consistency(dist, labels)
-    dist, labels = to_numpy(dist), to_numpy(labels)
-    silh_samples = silhouette_samples(X=dist, labels=labels, metric="precomputed")
-    silh_tstat = np.mean(silh_samples) / np.std(silh_samples)
-    return silh_tstat
+"""Functions for evaluating clustering results."""
+
+from typing import Optional, Tuple
+
+import numpy as np
+from sklearn.metrics import silhouette_samples
+
+from quantfinlib.util import (
+    DataFrameOrArray,
+    SeriesOrArray,
+    validate_frame_or_2Darray,
+    validate_series_or_1Darray,
+    to_numpy,
+)
+
+
+def _check_labels_distance_consistency(dist: DataFrameOrArray, labels: SeriesOrArray) -> None:
+    """Check if the distance matrix and labels are consistent."""
+    assert len(dist) == len(labels), "The number of labels must match the distance matrix size."
+
+
+@validate_series_or_1Darray("labels")
+@validate_frame_or_2Darray("dist")
+def gap_statistic(
+    dist: DataFrameOrArray, labels: SeriesOrArray, nb: int = 10, random_state: Optional[int] = None
+) -> Tuple[float, float]:
+    r"""
+    Calculate the gap statistic for a given distance matrix and cluster labels.
+
+    .. math::
+        GAP(k) = E(\log\left(W_{k}\right)) - \log\left(W_{k}\right)
+
+
+    where :math:`W_{k}` is the sum of within-cluster dispersion for :math:`k` clusters, and
+    :math:`E(\log(W_{k}))` is the expected value of :math:`\log(W_{k})` for randomized distances.
+
+    Parameters
+    ----------
+    dist : np.ndarray
+        Distance matrix.
+    labels : np.ndarray
+        Cluster labels.
+    nb : int, optional
+        Number of bootstrap samples. Default is 10.
+    random_state : int
+        Random seed for reproducibility.
+
+    Returns
+    -------
+    gap: float
+        Gap statistic.
+    gap_std: float
+        Standard deviation of the gap statistic.
+    """
+    _check_labels_distance_consistency(dist, labels)
+    dist, labels = to_numpy(dist), to_numpy(labels)
+    n = len(labels)
+    k = len(np.unique(labels))  # number of clusters
+    # Create a boolean matrix indicating whether two points are in the same cluster
+    within_clstr_identifier = labels[:, np.newaxis] == labels[np.newaxis, :]
+    # Calculate within-cluster dispersion (Wk)
+    # Additional division by 2 to correct for double summing of pair distances
+    Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
+    # Calculate the expected value of log(Wk) under a null reference distribution by randomizing the distance matrix
+    E_log_Wk = 0
+    log_wk_boots = []  # Store gap statistics for each bootstrap sample
+    if random_state is not None:
+        seed = random_state
+    else:
+        seed = 0
+    for b in range(nb):
+        # Create a reference distance matrix by drawing random samples from the distance matrix
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
+        # Make the reference distance matrix symmetric
+        dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
+        # Make sure the diagonal elements of reference distance matrix are zero
+        np.fill_diagonal(dist_ref, 0)
+        # Calculate the within-cluster dispersion for the reference distance matrix
+        Wk_boot = np.sum(within_clstr_identifier * dist_ref**2) / (4 * k)
+        log_Wk_boot = np.log(Wk_boot) if Wk_boot > 0 else 0
+        log_wk_boots.append(log_Wk_boot)
+        E_log_Wk += log_Wk_boot
+    E_log_Wk /= nb
+    gap_std = np.std(log_wk_boots)
+    # Calculate the gap statistic
+    gap = E_log_Wk - np.log(Wk)
+    return gap, gap_std
+
+
+@validate_series_or_1Darray("labels")
+@validate_frame_or_2Darray("dist")
+def silhouette_tstat(dist: DataFrameOrArray, labels: SeriesOrArray) -> float:
+    """
+    Calculate the silhouette score for a given distance matrix and cluster labels.
+
+    Parameters
+    ----------
+    dist : np.ndarray
+        Distance matrix.
+    labels : np.ndarray
+        Cluster labels.
+
+    Returns
+    -------
+    silh_tstat : float
+        T-statistic of the silhouette score.
+    """
+    _check_labels_distance_consistency(dist, labels)
+    dist, labels = to_numpy(dist), to_numpy(labels)
+    silh_samples = silhouette_samples(X=dist, labels=labels, metric="precomputed")
+    silh_tstat = np.mean(silh_samples) / np.std(silh_samples)
+    return silh_tstat
diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..1248f81 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -1,164 +1,164 @@
-"""Functions to compute distance metrics from correlations."""
-
-from typing import Callable, Union
-from functools import partial
-
-import numpy as np
-
-
-def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
-    """Set the diagonal elements of the distance matrix to zero."""
-    np.fill_diagonal(dist, 0)
-    return dist
-
-
-def _clip_values(values: Union[float, np.ndarray], min_val: float, max_val: float) -> Union[float, np.ndarray]:
-    """Clip the values to be within the range [min_val, max_val]."""
-    return np.clip(values, a_min=min_val, a_max=max_val)
-
-
-def _validate_correlation_matrix(corr: np.ndarray) -> None:
-    """Validate the input correlation matrix."""
-    assert isinstance(corr, np.ndarray), "Input must be a numpy array"
-    assert corr.ndim == 2, "Input must be a 2D matrix"
-    assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
-    assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
-
-
-def _convert_correlation_to_distance(
-    corr: Union[float, np.ndarray], conversion_function: Callable
-) -> Union[float, np.ndarray]:
-    if isinstance(corr, np.ndarray):
-        _validate_correlation_matrix(corr)
-    corr = _clip_values(corr, -1.0, 1.0)
-    dist = conversion_function(corr)
-    dist = _clip_values(dist, 0.0, 1.0)
-    if isinstance(corr, np.ndarray):
-        return _fix_diagonal_dist(dist)
-    return dist
-
-
-def _conversion_function(x: Union[float, np.ndarray], conversion_method: str) -> Union[float, np.ndarray]:
-    if conversion_method == "angular":
-        return np.sqrt((1.0 - x) / 2.0)
-    elif conversion_method == "abs_angular":
-        return np.sqrt(1.0 - np.abs(x))
-    elif conversion_method == "squared_angular":
-        return np.sqrt(1.0 - x**2)
-    else:
-        raise NotImplementedError(f"Conversion method {conversion_method} is not implemented.")
-
-
-def corr_to_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert a correlation to angular distance.
-
-    .. math::
-        \text{angular distance} = \sqrt{\frac{1 - \text{corr}}{2}}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="angular"))
-
-
-def corr_to_abs_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert correlation to an absolute angular distance.
-
-    .. math::
-        \text{abs angular distance} = \sqrt{1 - \text{abs}(\text{corr})}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The absolute angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="abs_angular"))
-
-
-def corr_to_squared_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert correlation to squared angular distance.
-
-    .. math::
-        \text{squared angular distance} = \sqrt{1 - \text{corr}^{2}}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The squared angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="squared_angular"))
-
-
-def pair_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_angular_dist(corr)
-
-
-def pair_abs_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the absolute angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The absolute angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_abs_angular_dist(corr)
-
-
-def pair_squared_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the squared angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The squared angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_squared_angular_dist(corr)
+"""Functions to compute distance metrics from correlations."""
+
+from typing import Callable, Union
+from functools import partial
+
+import numpy as np
+
+
+def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
+    """Set the diagonal elements of the distance matrix to zero."""
+    np.fill_diagonal(dist, 0)
+    return dist
+
+
+def _clip_values(values: Union[float, np.ndarray], min_val: float, max_val: float) -> Union[float, np.ndarray]:
+    """Clip the values to be within the range [min_val, max_val]."""
+    return np.clip(values, a_min=min_val, a_max=max_val)
+
+
+def _validate_correlation_matrix(corr: np.ndarray) -> None:
+    """Validate the input correlation matrix."""
+    assert isinstance(corr, np.ndarray), "Input must be a numpy array"
+    assert corr.ndim == 2, "Input must be a 2D matrix"
+    assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
+    assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
+    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+
+
+def _convert_correlation_to_distance(
+    corr: Union[float, np.ndarray], conversion_function: Callable
+) -> Union[float, np.ndarray]:
+    if isinstance(corr, np.ndarray):
+        _validate_correlation_matrix(corr)
+    corr = _clip_values(corr, -1.0, 1.0)
+    dist = conversion_function(corr)
+    dist = _clip_values(dist, 0.0, 1.0)
+    if isinstance(corr, np.ndarray):
+        return _fix_diagonal_dist(dist)
+    return dist
+
+
+def _conversion_function(x: Union[float, np.ndarray], conversion_method: str) -> Union[float, np.ndarray]:
+    if conversion_method == "angular":
+        return np.sqrt((1.0 - x) / 2.0)
+    elif conversion_method == "abs_angular":
+        return np.sqrt(1.0 - np.abs(x))
+    elif conversion_method == "squared_angular":
+        return np.sqrt(1.0 - x**2)
+    else:
+        raise NotImplementedError(f"Conversion method {conversion_method} is not implemented.")
+
+
+def corr_to_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert a correlation to angular distance.
+
+    .. math::
+        \text{angular distance} = \sqrt{\frac{1 - \text{corr}}{2}}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="angular"))
+
+
+def corr_to_abs_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert correlation to an absolute angular distance.
+
+    .. math::
+        \text{abs angular distance} = \sqrt{1 - \text{abs}(\text{corr})}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The absolute angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="abs_angular"))
+
+
+def corr_to_squared_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert correlation to squared angular distance.
+
+    .. math::
+        \text{squared angular distance} = \sqrt{1 - \text{corr}^{2}}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The squared angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="squared_angular"))
+
+
+def pair_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_angular_dist(corr)
+
+
+def pair_abs_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the absolute angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The absolute angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_abs_angular_dist(corr)
+
+
+def pair_squared_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the squared angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The squared angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_squared_angular_dist(corr)
-- 
2.43.0


From 059ceb23cbb968806a896a76cc2eaf9ef619cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 11/21] fix: sign of the gamma term in the Corwin-Schultz alpha

---
 .../micro_structure/_price_sequences.py       | 944 +++++++++---------
 1 file changed, 472 insertions(+), 472 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..123cc6d 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -1,472 +1,472 @@
-"""Implamentation of micro_structure features from price sequences."""
-
-from joblib import Parallel, delayed
-import numpy as np
-import pandas as pd
-from quantfinlib.feature.indicators._base import numpy_io_support
-
-
-@numpy_io_support
-def get_close_close_volatility(p_close: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the close-close volatility.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The close-close volatility.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768.
-    """
-    sigma_sq = (p_close / p_close.shift(1)).rolling(window=window).var()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_high_low_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the High-low volatility.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The p_high-p_low volatility.
-
-    References
-    ----------
-    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    sigma_sq = (np.log(p_high / p_low) ** 2.0).rolling(window=window).mean() / (4.0 * np.log(2.0))
-    return sigma_sq
-
-
-@numpy_io_support
-def get_garman_klass_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Garman-Klass volatility from high, low, open, and close prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Garman-Klass volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    returns_sq = 0.5 * np.log(p_high / p_low) ** 2
-    returns_close_open = (2 * np.log(2) - 1) * (np.log(p_close / p_open)) ** 2
-    sigma_sq = returns_sq.rolling(window=window).mean() - returns_close_open.rolling(window=window).mean()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_rogers_satchell_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Rogers-Satchell volatility from high, low, open, and close prices..
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Rogers-Satchell volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    series = np.log(p_high / p_close) * np.log(p_high / p_open) + np.log(p_low / p_close) * np.log(p_low / p_open)
-    sigma_sq = series.rolling(window=window).mean()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_yang_zhang_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Yang-Zhang volatility from high, low, open, and close prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Yang-Zhang volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
-    open_prev_close_ret = np.log(p_open / p_close.shift(1))
-    close_prev_open_ret = np.log(p_close / p_open.shift(1))
-    sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
-    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
-    sigma_rs_sq = get_rogers_satchell_volatility(
-        p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
-    )
-    sigma_sq = sigma_overnight_sq + coeff * sigma_open_to_close_sq + (1 - coeff) * sigma_rs_sq
-    return sigma_sq
-
-
-@numpy_io_support
-def get_becker_parkinson_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """Calculate the Becker-Parkinson volatility from high low prices.
-
-    This volatility is useful in the corporate bond market,
-    where there is no centralized order book, and
-    trades occur through bids wanted in competition (BWIC).
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        High prices.
-    p_low : pd.Series
-        Low prices.
-    window : int
-        Window size.
-
-    Returns
-    -------
-    pd.Series
-        The Becker-Parkinson volatility.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    See also page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
-    gamma = _get_gamma(p_high=p_high, p_low=p_low)
-    sigma = _get_sigma(beta=beta, gamma=gamma)
-    return sigma
-
-
-@numpy_io_support
-def get_cowrin_schultz_spread(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Cowrin-Schultz spread from high low prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Cowrin-Schultz spread.
-
-    References
-    ----------
-    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
-    gamma = _get_gamma(p_high=p_high, p_low=p_low)
-    alpha = _get_alpha(beta=beta, gamma=gamma)
-    spread = 2 * (np.exp(alpha) - 1) / (np.exp(alpha) + 1)
-    return spread
-
-
-@numpy_io_support
-def get_edge_spread(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int, sign: bool = False
-) -> pd.Series:
-    """
-    Estimate the moving average of edge bid-ask spread from open, high, low, and close prices.
-
-    Implementation of an efficient estimator of bid-ask spreads from open, high,
-    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
-    Prices must be sorted in ascending order of the timestamp.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-    sign : bool
-        Whether signed estimates should be returned.
-
-
-    Returns
-    -------
-    pd.Series
-        The moving average of edge spread.
-
-    References
-    ----------
-    https://doi.org/10.1016/j.jfineco.2024.103916
-    https://github.com/eguidotti/bidask
-    """
-    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
-
-    # Define a helper function to calculate the edge spread
-    def _apply_edge_spread(df):  # pragma: no cover
-        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
-
-    # Calculate the rolling spread
-    rolling_spread = Parallel(n_jobs=-1)(
-        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
-    )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
-
-
-def _edge_spread(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, sign: bool = False
-) -> float:
-    """
-    Estimate Bid-Ask Spreads from Open, High, Low, and Close Prices.
-
-    Implementation of an efficient estimator of bid-ask spreads from open, high,
-    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
-    Prices must be sorted in ascending order of the timestamp.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    sign : bool
-        Whether signed estimates should be returned.
-
-    Returns
-    -------
-    The spread estimate. A value of 0.01 corresponds to a spread of 1%.
-
-    References
-    ----------
-    https://doi.org/10.1016/j.jfineco.2024.103916
-    https://github.com/eguidotti/bidask
-    """
-    p_o = np.log(p_open.values)
-    p_h = np.log(p_high.values)
-    p_l = np.log(p_low.values)
-    p_c = np.log(p_close.values)
-    p_m = (p_h + p_l) / 2.0
-
-    h1, l1, c1, m1 = p_h[:-1], p_l[:-1], p_c[:-1], p_m[:-1]
-    p_o, p_h, p_l, p_c, p_m = p_o[1:], p_h[1:], p_l[1:], p_c[1:], p_m[1:]
-
-    tau = (p_h != p_l) | (p_l != c1)
-    phi1 = (p_o != p_h) & tau
-    phi2 = (p_o != p_l) & tau
-    phi3 = (c1 != h1) & tau
-    phi4 = (c1 != l1) & tau
-
-    pt = tau.mean()
-    po = phi1.mean() + phi2.mean()
-    pc = phi3.mean() + phi4.mean()
-
-    if pt == 0 or po == 0 or pc == 0:
-        return np.nan
-
-    r1 = p_m - p_o
-    r2 = p_o - m1
-    r3 = p_m - c1
-    r4 = c1 - m1
-    r5 = p_o - c1
-
-    d1 = r1 - tau * r1.mean() / pt
-    d3 = r3 - tau * r3.mean() / pt
-    d5 = r5 - tau * r5.mean() / pt
-
-    x1 = -4.0 / po * d1 * r2 - 4.0 / pc * d3 * r4
-    x2 = -4.0 / po * d1 * r5 - 4.0 / pc * d5 * r4
-
-    e1 = x1.mean()
-    e2 = x2.mean()
-
-    v1 = x1.var()
-    v2 = x2.var()
-
-    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
-
-    s = np.sqrt(np.abs(s2))
-    if sign and s2 < 0:
-        s = -s
-
-    return float(s)
-
-
-@numpy_io_support
-def get_roll_measure(p_close: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Roll measure.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Roll spread.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
-    """
-    roll = _roll_measure(p_close=p_close, window=window)
-    return roll
-
-
-def _roll_measure(p_close: pd.Series, window: int) -> pd.Series:
-    """Calculate the Roll measure."""
-    logc = np.log(p_close)
-    delta_logc = logc.diff()
-    delta_logc_shift = delta_logc.shift(1)
-    roll = 2 * np.sqrt(delta_logc.rolling(window=window).cov(delta_logc_shift).abs())
-    return roll
-
-
-@numpy_io_support
-def get_roll_impact(p_close: pd.Series, volume: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Roll impact.
-
-    It is defined as roll measure divided by the dollar value traded over a certain period.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    volume : pd.Series
-        The volume (trade volume).
-    window : int
-        The window size.
-
-    Returns
-    -------
-    np.ndarray
-        The Roll impact.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
-    """
-    roll = _roll_measure(p_close=p_close, window=window)
-    return roll / (volume * p_close)
-
-
-# Helper functions for calulating the Cowrin-Schultz spread and Becker-Parkinson volatility.
-
-
-def _get_gamma(p_high: pd.Series, p_low: pd.Series) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    h2 = p_high.rolling(window=2).max()
-    l2 = p_low.rolling(window=2).min()
-    gamma = np.log(h2 / l2) ** 2.0
-    return gamma
-
-
-def _get_beta(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    hl = np.log(p_high / p_low) ** 2.0
-    beta = hl.rolling(window=2).sum()
-    beta = beta.rolling(window=window).mean()
-    return beta
-
-
-def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    den = 3 - 2.0 * 2**0.5
-    alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
-    alpha[alpha < 0] = 0  # set negative alpha to zero
-    return alpha
-
-
-def _get_sigma(beta: pd.Series, gamma: pd.Series) -> pd.Series:
-    """See p. 286 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    k2 = (8 / np.pi) ** 0.5
-    den = 3 - 2 * 2**0.5
-    sigma = (2 ** (-0.5) - 1) * (beta**0.5) / (k2 * den)
-    sigma += (gamma / (k2**2 * den)) ** 0.5
-    sigma[sigma < 0] = 0  # set negative sigma to zero
-    return sigma
+"""Implamentation of micro_structure features from price sequences."""
+
+from joblib import Parallel, delayed
+import numpy as np
+import pandas as pd
+from quantfinlib.feature.indicators._base import numpy_io_support
+
+
+@numpy_io_support
+def get_close_close_volatility(p_close: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the close-close volatility.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The close-close volatility.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768.
+    """
+    sigma_sq = (p_close / p_close.shift(1)).rolling(window=window).var()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_high_low_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the High-low volatility.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The p_high-p_low volatility.
+
+    References
+    ----------
+    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    sigma_sq = (np.log(p_high / p_low) ** 2.0).rolling(window=window).mean() / (4.0 * np.log(2.0))
+    return sigma_sq
+
+
+@numpy_io_support
+def get_garman_klass_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Garman-Klass volatility from high, low, open, and close prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Garman-Klass volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    returns_sq = 0.5 * np.log(p_high / p_low) ** 2
+    returns_close_open = (2 * np.log(2) - 1) * (np.log(p_close / p_open)) ** 2
+    sigma_sq = returns_sq.rolling(window=window).mean() - returns_close_open.rolling(window=window).mean()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_rogers_satchell_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Rogers-Satchell volatility from high, low, open, and close prices..
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Rogers-Satchell volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    series = np.log(p_high / p_close) * np.log(p_high / p_open) + np.log(p_low / p_close) * np.log(p_low / p_open)
+    sigma_sq = series.rolling(window=window).mean()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_yang_zhang_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Yang-Zhang volatility from high, low, open, and close prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Yang-Zhang volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
+    open_prev_close_ret = np.log(p_open / p_close.shift(1))
+    close_prev_open_ret = np.log(p_close / p_open.shift(1))
+    sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
+    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
+    sigma_rs_sq = get_rogers_satchell_volatility(
+        p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
+    )
+    sigma_sq = sigma_overnight_sq + coeff * sigma_open_to_close_sq + (1 - coeff) * sigma_rs_sq
+    return sigma_sq
+
+
+@numpy_io_support
+def get_becker_parkinson_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """Calculate the Becker-Parkinson volatility from high low prices.
+
+    This volatility is useful in the corporate bond market,
+    where there is no centralized order book, and
+    trades occur through bids wanted in competition (BWIC).
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        High prices.
+    p_low : pd.Series
+        Low prices.
+    window : int
+        Window size.
+
+    Returns
+    -------
+    pd.Series
+        The Becker-Parkinson volatility.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    See also page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
+    gamma = _get_gamma(p_high=p_high, p_low=p_low)
+    sigma = _get_sigma(beta=beta, gamma=gamma)
+    return sigma
+
+
+@numpy_io_support
+def get_cowrin_schultz_spread(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Cowrin-Schultz spread from high low prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Cowrin-Schultz spread.
+
+    References
+    ----------
+    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
+    gamma = _get_gamma(p_high=p_high, p_low=p_low)
+    alpha = _get_alpha(beta=beta, gamma=gamma)
+    spread = 2 * (np.exp(alpha) - 1) / (np.exp(alpha) + 1)
+    return spread
+
+
+@numpy_io_support
+def get_edge_spread(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int, sign: bool = False
+) -> pd.Series:
+    """
+    Estimate the moving average of edge bid-ask spread from open, high, low, and close prices.
+
+    Implementation of an efficient estimator of bid-ask spreads from open, high,
+    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
+    Prices must be sorted in ascending order of the timestamp.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+    sign : bool
+        Whether signed estimates should be returned.
+
+
+    Returns
+    -------
+    pd.Series
+        The moving average of edge spread.
+
+    References
+    ----------
+    https://doi.org/10.1016/j.jfineco.2024.103916
+    https://github.com/eguidotti/bidask
+    """
+    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
+
+    # Define a helper function to calculate the edge spread
+    def _apply_edge_spread(df):  # pragma: no cover
+        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
+
+    # Calculate the rolling spread
+    rolling_spread = Parallel(n_jobs=-1)(
+        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
+    )
+    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
+
+    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
+    return rolling_spread
+
+
+def _edge_spread(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, sign: bool = False
+) -> float:
+    """
+    Estimate Bid-Ask Spreads from Open, High, Low, and Close Prices.
+
+    Implementation of an efficient estimator of bid-ask spreads from open, high,
+    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
+    Prices must be sorted in ascending order of the timestamp.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    sign : bool
+        Whether signed estimates should be returned.
+
+    Returns
+    -------
+    The spread estimate. A value of 0.01 corresponds to a spread of 1%.
+
+    References
+    ----------
+    https://doi.org/10.1016/j.jfineco.2024.103916
+    https://github.com/eguidotti/bidask
+    """
+    p_o = np.log(p_open.values)
+    p_h = np.log(p_high.values)
+    p_l = np.log(p_low.values)
+    p_c = np.log(p_close.values)
+    p_m = (p_h + p_l) / 2.0
+
+    h1, l1, c1, m1 = p_h[:-1], p_l[:-1], p_c[:-1], p_m[:-1]
+    p_o, p_h, p_l, p_c, p_m = p_o[1:], p_h[1:], p_l[1:], p_c[1:], p_m[1:]
+
+    tau = (p_h != p_l) | (p_l != c1)
+    phi1 = (p_o != p_h) & tau
+    phi2 = (p_o != p_l) & tau
+    phi3 = (c1 != h1) & tau
+    phi4 = (c1 != l1) & tau
+
+    pt = tau.mean()
+    po = phi1.mean() + phi2.mean()
+    pc = phi3.mean() + phi4.mean()
+
+    if pt == 0 or po == 0 or pc == 0:
+        return np.nan
+
+    r1 = p_m - p_o
+    r2 = p_o - m1
+    r3 = p_m - c1
+    r4 = c1 - m1
+    r5 = p_o - c1
+
+    d1 = r1 - tau * r1.mean() / pt
+    d3 = r3 - tau * r3.mean() / pt
+    d5 = r5 - tau * r5.mean() / pt
+
+    x1 = -4.0 / po * d1 * r2 - 4.0 / pc * d3 * r4
+    x2 = -4.0 / po * d1 * r5 - 4.0 / pc * d5 * r4
+
+    e1 = x1.mean()
+    e2 = x2.mean()
+
+    v1 = x1.var()
+    v2 = x2.var()
+
+    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
+
+    s = np.sqrt(np.abs(s2))
+    if sign and s2 < 0:
+        s = -s
+
+    return float(s)
+
+
+@numpy_io_support
+def get_roll_measure(p_close: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Roll measure.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Roll spread.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
+    """
+    roll = _roll_measure(p_close=p_close, window=window)
+    return roll
+
+
+def _roll_measure(p_close: pd.Series, window: int) -> pd.Series:
+    """Calculate the Roll measure."""
+    logc = np.log(p_close)
+    delta_logc = logc.diff()
+    delta_logc_shift = delta_logc.shift(1)
+    roll = 2 * np.sqrt(delta_logc.rolling(window=window).cov(delta_logc_shift).abs())
+    return roll
+
+
+@numpy_io_support
+def get_roll_impact(p_close: pd.Series, volume: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Roll impact.
+
+    It is defined as roll measure divided by the dollar value traded over a certain period.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    volume : pd.Series
+        The volume (trade volume).
+    window : int
+        The window size.
+
+    Returns
+    -------
+    np.ndarray
+        The Roll impact.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
+    """
+    roll = _roll_measure(p_close=p_close, window=window)
+    return roll / (volume * p_close)
+
+
+# Helper functions for calulating the Cowrin-Schultz spread and Becker-Parkinson volatility.
+
+
+def _get_gamma(p_high: pd.Series, p_low: pd.Series) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    h2 = p_high.rolling(window=2).max()
+    l2 = p_low.rolling(window=2).min()
+    gamma = np.log(h2 / l2) ** 2.0
+    return gamma
+
+
+def _get_beta(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    hl = np.log(p_high / p_low) ** 2.0
+    beta = hl.rolling(window=2).sum()
+    beta = beta.rolling(window=window).mean()
+    return beta
+
+
+def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    den = 3 - 2.0 * 2**0.5
+    alpha = (2**0.5 - 1) * (beta**0.5) / den
+    alpha -= (gamma / den) ** 0.5
+    alpha[alpha < 0] = 0  # set negative alpha to zero
+    return alpha
+
+
+def _get_sigma(beta: pd.Series, gamma: pd.Series) -> pd.Series:
+    """See p. 286 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    k2 = (8 / np.pi) ** 0.5
+    den = 3 - 2 * 2**0.5
+    sigma = (2 ** (-0.5) - 1) * (beta**0.5) / (k2 * den)
+    sigma += (gamma / (k2**2 * den)) ** 0.5
+    sigma[sigma < 0] = 0  # set negative sigma to zero
+    return sigma
-- 
2.43.0


From 06b4eed7d14ae4d794b89fa520a557027a46eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 12/21] fix: eigenvalue denoising keeps the caller's array and
 fits the non-zero eigenvalues

---
 quantfinlib/math/cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..df0b0e6 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,11 +373,12 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
         if num_assets > num_timesteps:
-            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_assets - num_timesteps])
+            best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values[:num_timesteps])
         else:
             best_var = _marchenko_pastur_fit(num_timesteps, num_assets, eigen_values)
         _, max_noise_eig_val = _marcenko_pastur_support(best_var, num_timesteps, num_assets)
-- 
2.43.0


From ce619475fd79c0afbb94a0487f5f2cdbe6ad7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 13/21] fix: bin count for perfectly anti-correlated or
 constant series

---
 quantfinlib/distance/information.py | 448 ++++++++++++++--------------
 1 file changed, 224 insertions(+), 224 deletions(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..df1a78a 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -1,224 +1,224 @@
-"""Functions to compute information-theoretical measures of codependence betwween two variables.
-These include mutual information, variation of information, and Kullback-Leibler divergence between two variables.
-"""
-
-from typing import Optional, Tuple
-
-import numpy as np
-from scipy.stats import entropy
-
-from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray
-
-
-def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
-    """Calculate number of bins for discretizing a pair of variables x & y."""
-    if y is None:
-        return _get_optimal_nb_bins(x.shape[0], None)
-    else:
-        corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
-            return _get_optimal_nb_bins(x.shape[0], None)
-        else:
-            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-
-
-def _get_optimal_nb_bins(n_obs: int, corr: Optional[float] = None) -> int:
-    """Get optimal number of bins for calculating mutual (variation of) information.
-
-    This function calculates the number of bins needed
-    (according to Hacine-Gharbi and Ravier's method) for calculation of
-    variation of (mutual) information between two variables in discrete version.
-
-
-    Parameters
-    ----------
-    n_obs : int
-        Number of observations.
-    corr : float, optional
-        Correlation coefficient between two variables.
-
-    Returns
-    -------
-    int
-        Number of bins.
-    """
-    # Univariate case
-    if corr is None:
-        z = (8 + 324 * n_obs + 12 * (36 * n_obs + 729 * n_obs**2) ** 0.5) ** (1 / 3.0)
-        b = round(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3)
-    # Bivariate case
-    else:
-        b = round(2**-0.5 * (1 + (1 + 24 * n_obs / (1.0 - corr**2)) ** 0.5) ** 0.5)
-    return int(b)
-
-
-@validate_series_or_1Darray("x", "y")
-def compute_entropies(x: SeriesOrArray, y: SeriesOrArray, bins: int) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
-    """Compute entropies of two variables x and y.
-
-    Parameters
-    ----------
-    x : pd.Series or np.ndarray
-        First input variable.
-    y : pd.Series or np.ndarray
-        Second input variable.
-    bins : int
-        Number of bins for histogram calculation.
-
-    Returns
-    -------
-    np.ndarray , np.ndarray, np.ndarray
-        Entropy of x, Entropy of y, Joint entropy of x and y.
-    """
-    # Compute joint histogram
-    hist_xy, _, _ = np.histogram2d(x, y, bins)
-    hist_x, _ = np.histogram(x, bins)
-    hist_y, _ = np.histogram(y, bins)
-    # Compute entropies
-    h_x = entropy(hist_x / hist_x.sum())
-    h_y = entropy(hist_y / hist_y.sum())
-    h_xy = entropy((hist_xy / hist_xy.sum()).flatten())
-    return h_x, h_y, h_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def mutual_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
-    r"""
-    Calculate mutual information between two variables.
-
-    Mutual information is calculated using the formula:
-
-    .. math::
-        I(X;Y) = \sum_{y \in Y} \sum_{x \in X} p(x,y) \log\left(\frac{p(x,y)}{p(x)p(y)}\right)
-
-    where \( p(x,y) \) is the joint probability distribution function of X and Y,
-    and \( p(x) \) and \( p(y) \) are the marginal probability distribution functions of X and Y respectively.
-
-    Parameters
-    ----------
-    x : pd.Series or np.ndarray
-        First input variable.
-    y : pd.Series or np.ndarray
-        Second input variable.
-    bins : int, optional
-        Number of bins for histogram calculation. If None, optimal bins are computed.
-    norm : bool, default=True
-        Whether to normalize the mutual information.
-
-    Returns
-    -------
-    float
-        Mutual information between x and y.
-
-    Examples
-    --------
-    .. exec_code::
-
-        import numpy as np
-        from quantfinlib.distance.information import mutual_info
-
-        np.random.seed(1234)
-        x = np.random.normal(0, 1, 100)
-        noise = np.random.normal(0, .5, 100)
-        y_rnd = np.random.normal(0, 1, 100)
-        y_linear = 10 * x + noise
-        y_nonlinear = 10 * x ** 2. + noise
-
-        for y in [y_rnd, y_linear, y_nonlinear]:
-            mi_xy = mutual_info(x, y)
-            print(f"Mutual information = {mi_xy}")
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    h_x, h_y, h_xy = compute_entropies(x, y, bins)
-    # Compute mutual information
-    mi_xy = h_x + h_y - h_xy
-    if norm:
-        mi_xy /= np.sqrt(h_x * h_y)  # Normalized mutual information
-    return mi_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
-    """Calculate variation of information between two variables.
-
-    Implementation of variation of information adopted from "Machine Learning for Asset Managers by Lopez de Prado".
-
-    Parameters
-    ----------
-    x : pd.Series, np.ndarray
-        First argument of var_info.
-    y : pd.Series, np.ndarray
-        Second argument of var_info.
-    bins : int, optional
-        When no value provided, the function get_optimal_nb_bins
-        will be called to calculate the optimal number of
-        bins for calculation of variation of information.
-    norm : bool, default = True
-        Whether to normalize the variation of information or not.
-
-    Returns
-    -------
-    float
-        Mutual information between x and y.
-
-    Examples
-    --------
-    .. exec_code::
-
-        import numpy as np
-        from quantfinlib.distance.information import var_info
-
-        np.random.seed(1234)
-        x = np.random.normal(0, 1, 100)
-        noise = np.random.normal(0, .5, 100)
-        y_rnd = np.random.normal(0, 1, 100)
-        y_linear = 10 * x + noise
-        y_nonlinear = 10 * x ** 2. + noise
-
-        for y in [y_rnd, y_linear, y_nonlinear]:
-            vi_xy = var_info(x, y)
-            print(f"variation of information = {vi_xy}")
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
-    # Compute variation of information
-    var_info_xy = 2 * h_xy - h_x - h_y
-    if norm:
-        var_info_xy /= h_xy  # Normalized variation of information
-    return var_info_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def kl_divergence_xy(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None) -> float:
-    """
-    Calculate the Kullback-Leibler divergence between two variables.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First variable.
-    y : np.ndarray
-        Second variable.
-    bins : int, optional
-        Number of bins for histogram calculation. If None, optimal bins are computed.
-
-    Returns
-    -------
-    float
-        Kullback-Leibler divergence between x and y.
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    # Discretize the variables
-    hist_x, _ = np.histogram(x, bins=bins)
-    hist_y, _ = np.histogram(y, bins=bins)
-
-    # Compute the probability distributions
-    p_x = hist_x / hist_x.sum()
-    p_y = hist_y / hist_y.sum()
-
-    # Compute the KL divergence
-    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
-    return kl_div
+"""Functions to compute information-theoretical measures of codependence betwween two variables.
+These include mutual information, variation of information, and Kullback-Leibler divergence between two variables.
+"""
+
+from typing import Optional, Tuple
+
+import numpy as np
+from scipy.stats import entropy
+
+from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray
+
+
+def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
+    """Calculate number of bins for discretizing a pair of variables x & y."""
+    if y is None:
+        return _get_optimal_nb_bins(x.shape[0], None)
+    else:
+        corr = np.corrcoef(x, y)[0, 1]
+        if np.isnan(corr) or abs(abs(corr) - 1) < 1e-5:
+            return _get_optimal_nb_bins(x.shape[0], None)
+        else:
+            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
+
+
+def _get_optimal_nb_bins(n_obs: int, corr: Optional[float] = None) -> int:
+    """Get optimal number of bins for calculating mutual (variation of) information.
+
+    This function calculates the number of bins needed
+    (according to Hacine-Gharbi and Ravier's method) for calculation of
+    variation of (mutual) information between two variables in discrete version.
+
+
+    Parameters
+    ----------
+    n_obs : int
+        Number of observations.
+    corr : float, optional
+        Correlation coefficient between two variables.
+
+    Returns
+    -------
+    int
+        Number of bins.
+    """
+    # Univariate case
+    if corr is None:
+        z = (8 + 324 * n_obs + 12 * (36 * n_obs + 729 * n_obs**2) ** 0.5) ** (1 / 3.0)
+        b = round(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3)
+    # Bivariate case
+    else:
+        b = round(2**-0.5 * (1 + (1 + 24 * n_obs / (1.0 - corr**2)) ** 0.5) ** 0.5)
+    return int(b)
+
+
+@validate_series_or_1Darray("x", "y")
+def compute_entropies(x: SeriesOrArray, y: SeriesOrArray, bins: int) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+    """Compute entropies of two variables x and y.
+
+    Parameters
+    ----------
+    x : pd.Series or np.ndarray
+        First input variable.
+    y : pd.Series or np.ndarray
+        Second input variable.
+    bins : int
+        Number of bins for histogram calculation.
+
+    Returns
+    -------
+    np.ndarray , np.ndarray, np.ndarray
+        Entropy of x, Entropy of y, Joint entropy of x and y.
+    """
+    # Compute joint histogram
+    hist_xy, _, _ = np.histogram2d(x, y, bins)
+    hist_x, _ = np.histogram(x, bins)
+    hist_y, _ = np.histogram(y, bins)
+    # Compute entropies
+    h_x = entropy(hist_x / hist_x.sum())
+    h_y = entropy(hist_y / hist_y.sum())
+    h_xy = entropy((hist_xy / hist_xy.sum()).flatten())
+    return h_x, h_y, h_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def mutual_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
+    r"""
+    Calculate mutual information between two variables.
+
+    Mutual information is calculated using the formula:
+
+    .. math::
+        I(X;Y) = \sum_{y \in Y} \sum_{x \in X} p(x,y) \log\left(\frac{p(x,y)}{p(x)p(y)}\right)
+
+    where \( p(x,y) \) is the joint probability distribution function of X and Y,
+    and \( p(x) \) and \( p(y) \) are the marginal probability distribution functions of X and Y respectively.
+
+    Parameters
+    ----------
+    x : pd.Series or np.ndarray
+        First input variable.
+    y : pd.Series or np.ndarray
+        Second input variable.
+    bins : int, optional
+        Number of bins for histogram calculation. If None, optimal bins are computed.
+    norm : bool, default=True
+        Whether to normalize the mutual information.
+
+    Returns
+    -------
+    float
+        Mutual information between x and y.
+
+    Examples
+    --------
+    .. exec_code::
+
+        import numpy as np
+        from quantfinlib.distance.information import mutual_info
+
+        np.random.seed(1234)
+        x = np.random.normal(0, 1, 100)
+        noise = np.random.normal(0, .5, 100)
+        y_rnd = np.random.normal(0, 1, 100)
+        y_linear = 10 * x + noise
+        y_nonlinear = 10 * x ** 2. + noise
+
+        for y in [y_rnd, y_linear, y_nonlinear]:
+            mi_xy = mutual_info(x, y)
+            print(f"Mutual information = {mi_xy}")
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    h_x, h_y, h_xy = compute_entropies(x, y, bins)
+    # Compute mutual information
+    mi_xy = h_x + h_y - h_xy
+    if norm:
+        mi_xy /= np.sqrt(h_x * h_y)  # Normalized mutual information
+    return mi_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
+    """Calculate variation of information between two variables.
+
+    Implementation of variation of information adopted from "Machine Learning for Asset Managers by Lopez de Prado".
+
+    Parameters
+    ----------
+    x : pd.Series, np.ndarray
+        First argument of var_info.
+    y : pd.Series, np.ndarray
+        Second argument of var_info.
+    bins : int, optional
+        When no value provided, the function get_optimal_nb_bins
+        will be called to calculate the optimal number of
+        bins for calculation of variation of information.
+    norm : bool, default = True
+        Whether to normalize the variation of information or not.
+
+    Returns
+    -------
+    float
+        Mutual information between x and y.
+
+    Examples
+    --------
+    .. exec_code::
+
+        import numpy as np
+        from quantfinlib.distance.information import var_info
+
+        np.random.seed(1234)
+        x = np.random.normal(0, 1, 100)
+        noise = np.random.normal(0, .5, 100)
+        y_rnd = np.random.normal(0, 1, 100)
+        y_linear = 10 * x + noise
+        y_nonlinear = 10 * x ** 2. + noise
+
+        for y in [y_rnd, y_linear, y_nonlinear]:
+            vi_xy = var_info(x, y)
+            print(f"variation of information = {vi_xy}")
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
+    # Compute variation of information
+    var_info_xy = 2 * h_xy - h_x - h_y
+    if norm:
+        var_info_xy /= h_xy  # Normalized variation of information
+    return var_info_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def kl_divergence_xy(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None) -> float:
+    """
+    Calculate the Kullback-Leibler divergence between two variables.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First variable.
+    y : np.ndarray
+        Second variable.
+    bins : int, optional
+        Number of bins for histogram calculation. If None, optimal bins are computed.
+
+    Returns
+    -------
+    float
+        Kullback-Leibler divergence between x and y.
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    # Discretize the variables
+    hist_x, _ = np.histogram(x, bins=bins)
+    hist_y, _ = np.histogram(y, bins=bins)
+
+    # Compute the probability distributions
+    p_x = hist_x / hist_x.sum()
+    p_y = hist_y / hist_y.sum()
+
+    # Compute the KL divergence
+    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
+    return kl_div
-- 
2.43.0


From 14893be06800ff3a3a3df136c59c1c109837ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 14/21] fix: nll, aic and bic no longer overwrite the fitted
 state of the model

---
 quantfinlib/sim/_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index a2b407a..9253df0 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -12,6 +12,7 @@ License:   MIT License
 
 import math
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import Any, List, Optional, Tuple, Union
 
 import numpy as np
@@ -434,7 +435,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -453,7 +454,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -472,6 +473,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From b18a9ebd72408afacae79cced177149213563c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 15/21] fix: AIC = 2k + 2 nll and BIC = k ln(n) + 2 nll, the
 nll is already a sum over the sample

---
 quantfinlib/sim/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 9253df0..5e697ea 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -455,8 +455,7 @@ class SimNllMixin:
 
         """
         values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -474,5 +473,5 @@ class SimNllMixin:
             The computed Bayesian Information Criterion (BIC) value.
         """
         values, dt = copy(self)._preprocess_fit_x_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        num_samples = values.shape[0]
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
-- 
2.43.0


From 5611acf434455cfb0637d3a057c64e0f9fc19587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 16/21] fix: count the parameters of every variate and recount
 them after fitting

---
 quantfinlib/sim/_bm.py  | 8 ++++++--
 quantfinlib/sim/_gbm.py | 8 ++++++--
 quantfinlib/sim/_ou.py  | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..0d4dbbe 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -154,9 +154,12 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
+        self._count_parameters()
+
+    def _count_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+            self.num_parameters_ += self.drift.size * (self.drift.size - 1) / 2
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +189,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._count_parameters()
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..34c025f 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -162,9 +162,12 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
+        self._count_parameters()
+
+    def _count_parameters(self):
+        self.num_parameters_ = self.drift.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+            self.num_parameters_ += self.drift.size * (self.drift.size - 1) / 2
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -194,6 +197,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self._count_parameters()
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 4bc1812..09ad922 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -184,9 +184,12 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
+        self._count_parameters()
+
+    def _count_parameters(self):
+        self.num_parameters_ = self.mean.size + self.mrr.size + self.vol.size
         if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+            self.num_parameters_ += self.mean.size * (self.mean.size - 1) / 2
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -252,6 +255,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self._count_parameters()
         return self
 
     def _path_sample_np(
-- 
2.43.0


From dff15b6760555bd3b83002f85d6e6bd386aab1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 17/21] fix: WalkForward rejects empty windows instead of
 looping forever

---
 quantfinlib/train_test_split/walk_forward.py | 314 ++++++++++---------
 1 file changed, 158 insertions(+), 156 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..a5f79ae 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -1,156 +1,158 @@
-"""Implementation of Walk forward."""
-
-from numbers import Integral
-from typing import Generator, Optional, Tuple
-import warnings
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._base import BaseCV, _embargo
-from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
-
-
-class WalkForward(BaseCV):
-    """Walk forward train-test split.
-
-    Parameters
-    ----------
-    n_embargo : Integral
-        The number of groups to embargo from the test set in order to remove label overlap with training set.
-    n_purge : Integral, optional
-        This parameter is not applicable to WalkForward, by default 0 as it is not used by WalkForward.
-    train_window : Integral, optional
-        The size of the training window, by default 0.
-    test_window : Integral, optional
-        The size of the test window, by default 0.
-    split_type : str, optional
-        The type of walk forward split to perform, either `expanding` window or `rolling` window ,
-        by default 'expanding'.
-    freq : Optional[str], optional
-        The frequency of the data, by default None.
-        Required if `groups` provided to the `split` method are not integers.
-
-
-    Methods
-    -------
-    get_n_splits()
-        Return the number of splits.
-
-    split(X, y, groups)
-        Generate indices to split data into training and test sets.
-
-    """
-
-    def __init__(
-        self,
-        n_embargo: Integral,
-        n_purge: Integral = 0,
-        train_window: Integral = 0,
-        test_window: Integral = 0,
-        split_type: str = "expanding",
-        freq: Optional[str] = None,
-    ) -> None:
-        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
-        self.train_window = train_window
-        self.test_window = test_window
-        self.split_type = split_type
-        if split_type not in ["expanding", "rolling"]:
-            raise ValueError("Invalid value for 'split_type'. Must be either 'expanding' or 'rolling'.")
-        self.freq = freq
-        self.n_splits = 0
-        self._finalized_splits = False
-        if freq is not None:
-            self.n_embargo = _to_timedelta(n_embargo, freq)
-            self.train_window = _to_timedelta(train_window, freq)
-            self.test_window = _to_timedelta(test_window, freq)
-
-    def __repr__(self):
-        """Return the string representation of the object."""
-        return (
-            f"WalkForward(n_embargo={self.n_embargo}, n_purge={self.n_purge}, "
-            f"train_window={self.train_window}, test_window={self.test_window}, "
-            f"split_type={self.split_type})"
-        )
-
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> int:
-        """Return the number of splits."""
-        if self._finalized_splits:
-            return self.n_splits
-        else:
-            warnings.warn("Call the split method first to get the number of splits for WalkForward.")
-            return 0
-
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
-        """Generate indices to split data into training and test sets.
-
-        Parameters
-        ----------
-        X : Union[np.ndarray, pd.DataFrame]
-            The data to split.
-        y : Optional[Union[np.ndarray, pd.Series]], optional
-            The target variable, by default None.
-        groups : Optional[Union[np.ndarray, pd.Series]], optional
-            The groups, indicating datetime. by default None.
-
-        Yields
-        ------
-        Generator[Tuple[np.ndarray, np.ndarray], None, None]
-            Train and test indices.
-
-        """
-        super().split(X, y, groups)
-        n_samples = X.shape[0]
-        indices = np.arange(n_samples)
-        groups = groups if groups is not None else np.arange(n_samples)
-        time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
-
-        # Calculate the boundaries of the training set
-        train_start_group = groups[0]
-        train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
-        ]
-        # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
-        while train_end_group < groups[-1]:
-            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
-            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
-            if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
-                isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
-            ):
-                train_index = _embargo(
-                    train_index=train_index,
-                    test_index=test_index,
-                    indices=indices,
-                    groups=groups,
-                    n_embargo=self.n_embargo,
-                )
-            yield train_index, test_index
-            self.n_splits += 1
-            # if the current end group of the test set is the last group, then we have reached the end of the data
-            if test_end_group >= groups[-1]:
-                self._finalized_splits = True
-                break
-            # update the boundaries of the training and test sets
-            if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
-            test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
-            ]
-
-
-def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-    """Convert an integer to a timedelta."""
-    return pd.Timedelta(x, unit=freq)
+"""Implementation of Walk forward."""
+
+from numbers import Integral
+from typing import Generator, Optional, Tuple
+import warnings
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
+
+
+class WalkForward(BaseCV):
+    """Walk forward train-test split.
+
+    Parameters
+    ----------
+    n_embargo : Integral
+        The number of groups to embargo from the test set in order to remove label overlap with training set.
+    n_purge : Integral, optional
+        This parameter is not applicable to WalkForward, by default 0 as it is not used by WalkForward.
+    train_window : Integral, optional
+        The size of the training window, by default 0.
+    test_window : Integral, optional
+        The size of the test window, by default 0.
+    split_type : str, optional
+        The type of walk forward split to perform, either `expanding` window or `rolling` window ,
+        by default 'expanding'.
+    freq : Optional[str], optional
+        The frequency of the data, by default None.
+        Required if `groups` provided to the `split` method are not integers.
+
+
+    Methods
+    -------
+    get_n_splits()
+        Return the number of splits.
+
+    split(X, y, groups)
+        Generate indices to split data into training and test sets.
+
+    """
+
+    def __init__(
+        self,
+        n_embargo: Integral,
+        n_purge: Integral = 0,
+        train_window: Integral = 0,
+        test_window: Integral = 0,
+        split_type: str = "expanding",
+        freq: Optional[str] = None,
+    ) -> None:
+        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
+        self.train_window = train_window
+        self.test_window = test_window
+        self.split_type = split_type
+        if split_type not in ["expanding", "rolling"]:
+            raise ValueError("Invalid value for 'split_type'. Must be either 'expanding' or 'rolling'.")
+        self.freq = freq
+        self.n_splits = 0
+        self._finalized_splits = False
+        if freq is not None:
+            self.n_embargo = _to_timedelta(n_embargo, freq)
+            self.train_window = _to_timedelta(train_window, freq)
+            self.test_window = _to_timedelta(test_window, freq)
+
+    def __repr__(self):
+        """Return the string representation of the object."""
+        return (
+            f"WalkForward(n_embargo={self.n_embargo}, n_purge={self.n_purge}, "
+            f"train_window={self.train_window}, test_window={self.test_window}, "
+            f"split_type={self.split_type})"
+        )
+
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> int:
+        """Return the number of splits."""
+        if self._finalized_splits:
+            return self.n_splits
+        else:
+            warnings.warn("Call the split method first to get the number of splits for WalkForward.")
+            return 0
+
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
+        """Generate indices to split data into training and test sets.
+
+        Parameters
+        ----------
+        X : Union[np.ndarray, pd.DataFrame]
+            The data to split.
+        y : Optional[Union[np.ndarray, pd.Series]], optional
+            The target variable, by default None.
+        groups : Optional[Union[np.ndarray, pd.Series]], optional
+            The groups, indicating datetime. by default None.
+
+        Yields
+        ------
+        Generator[Tuple[np.ndarray, np.ndarray], None, None]
+            Train and test indices.
+
+        """
+        super().split(X, y, groups)
+        n_samples = X.shape[0]
+        indices = np.arange(n_samples)
+        groups = groups if groups is not None else np.arange(n_samples)
+        time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
+        if self.train_window < time_unit or self.test_window < time_unit:
+            raise ValueError("train_window and test_window must be at least 1.")
+
+        # Calculate the boundaries of the training set
+        train_start_group = groups[0]
+        train_end_group = groups[
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
+        ]
+        # Calculate the boundaries of the test set
+        test_start_group = groups[
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
+        ]
+        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
+        while train_end_group < groups[-1]:
+            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
+            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
+            if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
+                isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
+            ):
+                train_index = _embargo(
+                    train_index=train_index,
+                    test_index=test_index,
+                    indices=indices,
+                    groups=groups,
+                    n_embargo=self.n_embargo,
+                )
+            yield train_index, test_index
+            self.n_splits += 1
+            # if the current end group of the test set is the last group, then we have reached the end of the data
+            if test_end_group >= groups[-1]:
+                self._finalized_splits = True
+                break
+            # update the boundaries of the training and test sets
+            if self.split_type == "rolling":
+                train_start_group = train_start_group + self.test_window
+            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
+            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
+            test_end_group = groups[
+                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
+            ]
+
+
+def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
+    """Convert an integer to a timedelta."""
+    return pd.Timedelta(x, unit=freq)
-- 
2.43.0


From 93b5f2d39bd845f7142fc631169abcdb5158659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 18/21] fix: WalkForward counts the splits of the last split
 call only

---
 quantfinlib/train_test_split/walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a5f79ae..bd12c82 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -107,6 +107,8 @@ class WalkForward(BaseCV):
 
         """
         super().split(X, y, groups)
+        self.n_splits = 0
+        self._finalized_splits = False
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = groups if groups is not None else np.arange(n_samples)
-- 
2.43.0


From a040e96ec4e7e01216ce560ef2a855ac0323f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 19/21] fix: WalkForward train and test windows never overlap
 when groups have gaps

---
 quantfinlib/train_test_split/walk_forward.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index bd12c82..959cf4d 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -119,13 +119,15 @@ class WalkForward(BaseCV):
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
         train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
         ]
         # Calculate the boundaries of the test set
         test_start_group = groups[
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
         ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
+        test_end_group = groups[
+            np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+        ]
         while train_end_group < groups[-1]:
             train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
             test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
@@ -146,12 +148,12 @@ class WalkForward(BaseCV):
                 self._finalized_splits = True
                 break
             # update the boundaries of the training and test sets
+            train_end_group = test_end_group
             if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
+                train_start_group = train_end_group + time_unit - self.train_window
+            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
             test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
+                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
             ]
 
 
-- 
2.43.0


From f3d472d6315476e4afef1c1ee9e53c164ca3a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 20/21] fix: splitters accept groups given as a Series

---
 quantfinlib/train_test_split/_base.py        | 361 +++++++--------
 quantfinlib/train_test_split/kfoldpe.py      | 443 ++++++++++---------
 quantfinlib/train_test_split/walk_forward.py |   4 +-
 3 files changed, 408 insertions(+), 400 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..ee7902e 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -1,177 +1,184 @@
-"""Base Purged and Embargoed Cross-Validation Functions."""
-
-from abc import ABC, abstractmethod
-from numbers import Integral
-from typing import Any, Optional, Union
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._dtypes import IndexType, GroupType, XType, YType
-
-
-def _validate_purge_embargo_inputs(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    delta_t: Union[Integral, pd.Timedelta],
-) -> None:  # pragma: no cover
-    """Validate the inputs for the `purge` and `embargo` functions.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups.
-    delta_t : Union[int, pd.Timedelta]
-        The time period for purging or embargoing.
-    """
-    if isinstance(delta_t, Integral) and isinstance(groups, np.ndarray):
-        if delta_t < 0:
-            raise ValueError("delta_t must be a non-negative integer")
-        if not np.all(np.diff(groups) >= 0):
-            raise ValueError("groups must be sorted in ascending order")
-    elif isinstance(delta_t, pd.Timedelta) and isinstance(groups, (pd.Series, pd.DatetimeIndex)):
-        if delta_t < pd.Timedelta(0):
-            raise ValueError("delta_t must be a non-negative Timedelta")
-        if not groups.is_monotonic_increasing:
-            raise ValueError("groups must be sorted in ascending order")
-    else:
-        raise TypeError(
-            "delta_t must be an integer and groups must be a numpy array, \
-            or delta_t must be a Timedelta and groups must be a DatetimeIndex"
-        )
-
-
-def _purge(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    n_purge: Union[Integral, pd.Timedelta],
-) -> IndexType:
-    """Remove training indices whose groups fall within `n_purge` from the last test group.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups
-    n_purge : Union[int, pd.Timedelta]
-        Purge period.
-
-    Returns
-    -------
-    np.ndarra
-        The purged training indices.
-
-    Raises
-    ------
-    ValueError
-        If all training indices were purged
-    """
-    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_purge)
-    max_test_group = groups[test_index].max()
-    purged_index = indices[(groups <= max_test_group + n_purge) & (groups > max_test_group)]
-    train_index = np.setdiff1d(train_index, purged_index)
-    if len(train_index) == 0:
-        raise ValueError("All training indices were purged. No training data available.")
-    return np.setdiff1d(train_index, purged_index)
-
-
-def _embargo(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    n_embargo: Union[Integral, pd.Timedelta],
-) -> IndexType:
-    """Remove training indices whose groups fall within `n_embargo` from the first test group.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups
-    n_embargo : Union[int, pd.Timedelta]
-        Embargo period.
-
-    Returns
-    -------
-    np.ndarray
-        The embargoed training indices.
-
-    Raises
-    ------
-    ValueError
-        If all training indices were embargoed.
-    """
-    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_embargo)
-    min_test_group = groups[test_index].min()
-    embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
-    train_index = np.setdiff1d(train_index, embargoed_index)
-    if len(train_index) == 0:
-        raise ValueError("All training indices were embargoed. No training data available.")
-    return train_index
-
-
-class BaseCV(ABC):
-    """Base class for cross-validation splitters."""
-
-    def __init__(self, n_embargo: Union[Integral, pd.Timedelta], n_purge: Union[Integral, pd.Timedelta]) -> None:
-        if not isinstance(n_embargo, (Integral, pd.Timedelta)):
-            raise TypeError("n_embargo must be an integer or a Timedelta")
-        if not isinstance(n_purge, (Integral, pd.Timedelta)):
-            raise TypeError("n_purge must be an integer or a Timedelta")
-        if isinstance(n_embargo, Integral) and n_embargo < 0:
-            raise ValueError("n_embargo must be a non-negative integer")
-        if isinstance(n_purge, Integral) and n_purge < 0:
-            raise ValueError("n_purge must be a non-negative integer")
-        if isinstance(n_embargo, pd.Timedelta) and n_embargo < pd.Timedelta(0):
-            raise ValueError("n_embargo must be a non-negative Timedelta")
-        if isinstance(n_purge, pd.Timedelta) and n_purge < pd.Timedelta(0):
-            raise ValueError("n_purge must be a non-negative Timedelta")
-        self.n_embargo = n_embargo
-        self.n_purge = n_purge
-
-    @abstractmethod
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> Any:
-        """Return the number of splits."""
-        raise NotImplementedError("Subclasses must implement get_n_split method")
-
-    @abstractmethod
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Any:
-        """Generate indices to split data into training and test sets."""
-        if not isinstance(X, (np.ndarray, pd.DataFrame)):
-            raise TypeError("X must be a numpy array or a DataFrame")
-        if y is not None and not isinstance(y, (np.ndarray, pd.Series)):
-            raise TypeError("y must be a numpy array or a Series")
-        if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
-            raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
-            raise ValueError("groups must be sorted in ascending order")
-        if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
-            raise ValueError("groups must be sorted in ascending order")
+"""Base Purged and Embargoed Cross-Validation Functions."""
+
+from abc import ABC, abstractmethod
+from numbers import Integral
+from typing import Any, Optional, Union
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._dtypes import IndexType, GroupType, XType, YType
+
+
+def _validate_purge_embargo_inputs(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    delta_t: Union[Integral, pd.Timedelta],
+) -> None:  # pragma: no cover
+    """Validate the inputs for the `purge` and `embargo` functions.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups.
+    delta_t : Union[int, pd.Timedelta]
+        The time period for purging or embargoing.
+    """
+    if isinstance(delta_t, Integral) and isinstance(groups, np.ndarray):
+        if delta_t < 0:
+            raise ValueError("delta_t must be a non-negative integer")
+        if not np.all(np.diff(groups) >= 0):
+            raise ValueError("groups must be sorted in ascending order")
+    elif isinstance(delta_t, pd.Timedelta) and isinstance(groups, (pd.Series, pd.DatetimeIndex)):
+        if delta_t < pd.Timedelta(0):
+            raise ValueError("delta_t must be a non-negative Timedelta")
+        if not groups.is_monotonic_increasing:
+            raise ValueError("groups must be sorted in ascending order")
+    else:
+        raise TypeError(
+            "delta_t must be an integer and groups must be a numpy array, \
+            or delta_t must be a Timedelta and groups must be a DatetimeIndex"
+        )
+
+
+def _purge(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    n_purge: Union[Integral, pd.Timedelta],
+) -> IndexType:
+    """Remove training indices whose groups fall within `n_purge` from the last test group.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups
+    n_purge : Union[int, pd.Timedelta]
+        Purge period.
+
+    Returns
+    -------
+    np.ndarra
+        The purged training indices.
+
+    Raises
+    ------
+    ValueError
+        If all training indices were purged
+    """
+    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_purge)
+    max_test_group = groups[test_index].max()
+    purged_index = indices[(groups <= max_test_group + n_purge) & (groups > max_test_group)]
+    train_index = np.setdiff1d(train_index, purged_index)
+    if len(train_index) == 0:
+        raise ValueError("All training indices were purged. No training data available.")
+    return np.setdiff1d(train_index, purged_index)
+
+
+def _embargo(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    n_embargo: Union[Integral, pd.Timedelta],
+) -> IndexType:
+    """Remove training indices whose groups fall within `n_embargo` from the first test group.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups
+    n_embargo : Union[int, pd.Timedelta]
+        Embargo period.
+
+    Returns
+    -------
+    np.ndarray
+        The embargoed training indices.
+
+    Raises
+    ------
+    ValueError
+        If all training indices were embargoed.
+    """
+    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_embargo)
+    min_test_group = groups[test_index].min()
+    embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
+    train_index = np.setdiff1d(train_index, embargoed_index)
+    if len(train_index) == 0:
+        raise ValueError("All training indices were embargoed. No training data available.")
+    return train_index
+
+
+def _positional_groups(groups: GroupType) -> GroupType:
+    """Convert a Series of groups to an array or index, which are indexed by position."""
+    if isinstance(groups, pd.Series):
+        return pd.DatetimeIndex(groups) if pd.api.types.is_datetime64_any_dtype(groups) else groups.to_numpy()
+    return groups
+
+
+class BaseCV(ABC):
+    """Base class for cross-validation splitters."""
+
+    def __init__(self, n_embargo: Union[Integral, pd.Timedelta], n_purge: Union[Integral, pd.Timedelta]) -> None:
+        if not isinstance(n_embargo, (Integral, pd.Timedelta)):
+            raise TypeError("n_embargo must be an integer or a Timedelta")
+        if not isinstance(n_purge, (Integral, pd.Timedelta)):
+            raise TypeError("n_purge must be an integer or a Timedelta")
+        if isinstance(n_embargo, Integral) and n_embargo < 0:
+            raise ValueError("n_embargo must be a non-negative integer")
+        if isinstance(n_purge, Integral) and n_purge < 0:
+            raise ValueError("n_purge must be a non-negative integer")
+        if isinstance(n_embargo, pd.Timedelta) and n_embargo < pd.Timedelta(0):
+            raise ValueError("n_embargo must be a non-negative Timedelta")
+        if isinstance(n_purge, pd.Timedelta) and n_purge < pd.Timedelta(0):
+            raise ValueError("n_purge must be a non-negative Timedelta")
+        self.n_embargo = n_embargo
+        self.n_purge = n_purge
+
+    @abstractmethod
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> Any:
+        """Return the number of splits."""
+        raise NotImplementedError("Subclasses must implement get_n_split method")
+
+    @abstractmethod
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Any:
+        """Generate indices to split data into training and test sets."""
+        if not isinstance(X, (np.ndarray, pd.DataFrame)):
+            raise TypeError("X must be a numpy array or a DataFrame")
+        if y is not None and not isinstance(y, (np.ndarray, pd.Series)):
+            raise TypeError("y must be a numpy array or a Series")
+        if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
+            raise TypeError("groups must be a numpy array or a Series")
+        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+            raise ValueError("groups must be sorted in ascending order")
+        if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
+            raise ValueError("groups must be sorted in ascending order")
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..756f151 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -1,221 +1,222 @@
-"""Implementation of time-aware KFold Cross Validation with Purge and Embargo."""
-
-from numbers import Integral
-from typing import Generator, Optional, Tuple
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
-from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
-
-
-def _validate_split_settings(n_samples: Integral, n_folds: Integral, n_embargo: Integral, n_purge: Integral) -> None:
-    """Validate the split settings.
-
-    Parameters
-    ----------
-    n_samples : int
-        Number of samples.
-    n_folds : int
-        Number of folds.
-    n_embargo : int
-        Number of groups to embargo.
-    n_purge : int
-        Number of groups to purge.
-
-    Raises
-    ------
-    ValueError:
-        If the number of samples is less than the number of folds.
-        If the sum of n_purge and n_embargo is greater than n_samples.
-        If n_purge or n_embargo is greater than max_train_size.
-
-    """
-    if n_samples < n_folds:
-        raise ValueError("Number of samples must be greater than the number of folds.")
-    if n_purge + n_embargo >= n_samples:
-        raise ValueError(f"The sum {n_purge + n_embargo = } must be less than {n_samples = }.")
-    max_train_size: Integral = n_samples - n_samples // n_folds
-    if (n_purge > max_train_size) or (n_embargo > max_train_size) or (n_embargo + n_purge > max_train_size):
-        raise ValueError(f"n_purge and n_embargo and their sum must be less than {max_train_size = }.")
-
-
-class TimeAwareKFold(BaseCV):
-    """Purge-embargo K-Fold cross-validator.
-
-    Provides train/test indices to split data in train/test sets. The training set is purged and embargoed.
-
-    Attributes
-    ----------
-    n_folds : int
-        Number of folds. This is the number of train-test splits if look_forward is False.
-        Otherwise, the number of splits is n_folds - 1.
-    n_purge : int
-        Number of groups to purge.
-    n_embargo : int
-        Number of groups to embargo.
-    look_forward : bool
-        Whether the test set is always ahead of the training set.
-        If True, the number of splits is n_folds - 1.
-    freq : Optional[str]
-        The frequency of the groups provided to split method.
-
-    Methods
-    -------
-    get_n_splits
-        Return the number of splits.
-
-    split(X, y, groups)
-        Generate indices to split data into training and test sets.
-    """
-
-    def __init__(
-        self,
-        n_folds: Integral,
-        n_embargo: Integral,
-        n_purge: Integral,
-        look_forward: bool = False,
-        freq: Optional[str] = None,
-    ) -> None:
-        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
-        if not isinstance(n_folds, Integral):
-            raise ValueError("Number of folds must be an integer.")
-        if n_folds < 2:
-            raise ValueError("Number of folds must be at least 2.")
-        self.n_folds = n_folds
-        self.n_purge = n_purge
-        self.n_embargo = n_embargo
-        self.look_forward = look_forward
-        self.freq = freq
-
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> int:
-        """Return the number of splits.
-        This method return n_folds - 1 if look_forward is True, otherwise n_folds.
-
-        Returns
-        -------
-        int
-            Number of splits.
-        """
-        if self.look_forward:
-            return self.n_folds - 1
-        return self.n_folds
-
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
-        """Generate indices to split data into training and test sets.
-
-        Parameters
-        ----------
-        X : Union[np.ndarray, pd.DataFrame]
-            The data to split.
-        y : Optional[Union[np.ndarray, pd.Series]], optional
-            The target variable, by default None.
-        groups : Optional[Union[np.ndarray, pd.Series]], optional
-            The groups, indicating datetime. by default None.
-
-        Yields
-        ------
-        Generator[Tuple[np.ndarray, np.ndarray], None, None]
-            Train and test indices.
-        """
-        super().split(X, y, groups)
-        _validate_split_settings(
-            n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
-        )
-        if groups is not None and self.freq is not None:
-            n_embargo = pd.Timedelta(self.n_embargo, unit=self.freq)
-            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
-        else:
-            n_embargo = self.n_embargo
-            n_purge = self.n_purge
-        if groups is None:
-            groups = np.arange(X.shape[0])
-        indices = np.arange(X.shape[0])
-        assert len(groups) == len(indices), "Groups and indices must have the same length."
-        test_indices_per_fold = np.array_split(indices, self.n_folds)
-        # fix the bounds of the folds so that there is no overlap between their groups
-        bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
-        bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
-        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
-        if self.look_forward:
-            test_indices_per_fold = test_indices_per_fold[1:]
-        for test_index in test_indices_per_fold:
-            train_index = _get_train_index_per_split(
-                indices=indices, test_index=test_index, groups=groups, look_forward=self.look_forward
-            )
-            train_index = _purge(
-                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_purge=n_purge
-            )
-            train_index = _embargo(
-                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_embargo=n_embargo
-            )
-            yield train_index, test_index
-
-
-def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) -> BoundPerFoldType:
-    """
-    Modify fold bounds.
-
-    Modifies the bounds of folds such that there is no overlap between their groups.
-
-    Parameters
-    ----------
-    bound_per_fold : np.ndarray
-        Bound per fold.
-    groups : np.ndarray
-        Groups.
-    n_folds : int
-        Number of folds.
-
-    Returns
-    -------
-    np.ndarray
-        Modified bound per fold.
-    """
-    n_folds = bound_per_fold.shape[0]
-    for fold in range(n_folds - 1):
-        last_group_curr_fold = groups[bound_per_fold[fold, 1]]
-        first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
-        if last_group_curr_fold == first_group_next_fold:
-            next_group = groups[groups > last_group_curr_fold][0]
-            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
-            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
-    return bound_per_fold
-
-
-def _get_train_index_per_split(
-    indices: IndexType,
-    test_index: IndexType,
-    groups: GroupType,
-    look_forward: bool = False,
-) -> IndexType:
-    """Find train index for a given split.
-
-    Parameters
-    ----------
-    indices : np.ndarray
-        All indices.
-    test_index : np.ndarray
-        Test indices.
-    groups : Union[np.ndarray, pd.TimedeltaIndex]
-        Groups.
-    look_forward : bool
-        Whether the test set is always ahead of the training set.
-
-    Returns
-    -------
-    np.ndarray
-        Train indices for a given split.
-    """
-    train_index = np.setdiff1d(indices, test_index)
-    if look_forward:
-        return np.setdiff1d(train_index, indices[groups > groups[test_index[0]]])
-    return train_index
+"""Implementation of time-aware KFold Cross Validation with Purge and Embargo."""
+
+from numbers import Integral
+from typing import Generator, Optional, Tuple
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
+from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
+
+
+def _validate_split_settings(n_samples: Integral, n_folds: Integral, n_embargo: Integral, n_purge: Integral) -> None:
+    """Validate the split settings.
+
+    Parameters
+    ----------
+    n_samples : int
+        Number of samples.
+    n_folds : int
+        Number of folds.
+    n_embargo : int
+        Number of groups to embargo.
+    n_purge : int
+        Number of groups to purge.
+
+    Raises
+    ------
+    ValueError:
+        If the number of samples is less than the number of folds.
+        If the sum of n_purge and n_embargo is greater than n_samples.
+        If n_purge or n_embargo is greater than max_train_size.
+
+    """
+    if n_samples < n_folds:
+        raise ValueError("Number of samples must be greater than the number of folds.")
+    if n_purge + n_embargo >= n_samples:
+        raise ValueError(f"The sum {n_purge + n_embargo = } must be less than {n_samples = }.")
+    max_train_size: Integral = n_samples - n_samples // n_folds
+    if (n_purge > max_train_size) or (n_embargo > max_train_size) or (n_embargo + n_purge > max_train_size):
+        raise ValueError(f"n_purge and n_embargo and their sum must be less than {max_train_size = }.")
+
+
+class TimeAwareKFold(BaseCV):
+    """Purge-embargo K-Fold cross-validator.
+
+    Provides train/test indices to split data in train/test sets. The training set is purged and embargoed.
+
+    Attributes
+    ----------
+    n_folds : int
+        Number of folds. This is the number of train-test splits if look_forward is False.
+        Otherwise, the number of splits is n_folds - 1.
+    n_purge : int
+        Number of groups to purge.
+    n_embargo : int
+        Number of groups to embargo.
+    look_forward : bool
+        Whether the test set is always ahead of the training set.
+        If True, the number of splits is n_folds - 1.
+    freq : Optional[str]
+        The frequency of the groups provided to split method.
+
+    Methods
+    -------
+    get_n_splits
+        Return the number of splits.
+
+    split(X, y, groups)
+        Generate indices to split data into training and test sets.
+    """
+
+    def __init__(
+        self,
+        n_folds: Integral,
+        n_embargo: Integral,
+        n_purge: Integral,
+        look_forward: bool = False,
+        freq: Optional[str] = None,
+    ) -> None:
+        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
+        if not isinstance(n_folds, Integral):
+            raise ValueError("Number of folds must be an integer.")
+        if n_folds < 2:
+            raise ValueError("Number of folds must be at least 2.")
+        self.n_folds = n_folds
+        self.n_purge = n_purge
+        self.n_embargo = n_embargo
+        self.look_forward = look_forward
+        self.freq = freq
+
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> int:
+        """Return the number of splits.
+        This method return n_folds - 1 if look_forward is True, otherwise n_folds.
+
+        Returns
+        -------
+        int
+            Number of splits.
+        """
+        if self.look_forward:
+            return self.n_folds - 1
+        return self.n_folds
+
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
+        """Generate indices to split data into training and test sets.
+
+        Parameters
+        ----------
+        X : Union[np.ndarray, pd.DataFrame]
+            The data to split.
+        y : Optional[Union[np.ndarray, pd.Series]], optional
+            The target variable, by default None.
+        groups : Optional[Union[np.ndarray, pd.Series]], optional
+            The groups, indicating datetime. by default None.
+
+        Yields
+        ------
+        Generator[Tuple[np.ndarray, np.ndarray], None, None]
+            Train and test indices.
+        """
+        super().split(X, y, groups)
+        _validate_split_settings(
+            n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
+        )
+        if groups is not None and self.freq is not None:
+            n_embargo = pd.Timedelta(self.n_embargo, unit=self.freq)
+            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
+        else:
+            n_embargo = self.n_embargo
+            n_purge = self.n_purge
+        if groups is None:
+            groups = np.arange(X.shape[0])
+        groups = _positional_groups(groups)
+        indices = np.arange(X.shape[0])
+        assert len(groups) == len(indices), "Groups and indices must have the same length."
+        test_indices_per_fold = np.array_split(indices, self.n_folds)
+        # fix the bounds of the folds so that there is no overlap between their groups
+        bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
+        bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
+        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
+        if self.look_forward:
+            test_indices_per_fold = test_indices_per_fold[1:]
+        for test_index in test_indices_per_fold:
+            train_index = _get_train_index_per_split(
+                indices=indices, test_index=test_index, groups=groups, look_forward=self.look_forward
+            )
+            train_index = _purge(
+                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_purge=n_purge
+            )
+            train_index = _embargo(
+                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_embargo=n_embargo
+            )
+            yield train_index, test_index
+
+
+def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) -> BoundPerFoldType:
+    """
+    Modify fold bounds.
+
+    Modifies the bounds of folds such that there is no overlap between their groups.
+
+    Parameters
+    ----------
+    bound_per_fold : np.ndarray
+        Bound per fold.
+    groups : np.ndarray
+        Groups.
+    n_folds : int
+        Number of folds.
+
+    Returns
+    -------
+    np.ndarray
+        Modified bound per fold.
+    """
+    n_folds = bound_per_fold.shape[0]
+    for fold in range(n_folds - 1):
+        last_group_curr_fold = groups[bound_per_fold[fold, 1]]
+        first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
+        if last_group_curr_fold == first_group_next_fold:
+            next_group = groups[groups > last_group_curr_fold][0]
+            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
+            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
+    return bound_per_fold
+
+
+def _get_train_index_per_split(
+    indices: IndexType,
+    test_index: IndexType,
+    groups: GroupType,
+    look_forward: bool = False,
+) -> IndexType:
+    """Find train index for a given split.
+
+    Parameters
+    ----------
+    indices : np.ndarray
+        All indices.
+    test_index : np.ndarray
+        Test indices.
+    groups : Union[np.ndarray, pd.TimedeltaIndex]
+        Groups.
+    look_forward : bool
+        Whether the test set is always ahead of the training set.
+
+    Returns
+    -------
+    np.ndarray
+        Train indices for a given split.
+    """
+    train_index = np.setdiff1d(indices, test_index)
+    if look_forward:
+        return np.setdiff1d(train_index, indices[groups > groups[test_index[0]]])
+    return train_index
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 959cf4d..57cd3ca 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -111,7 +111,7 @@ class WalkForward(BaseCV):
         self._finalized_splits = False
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
-        groups = groups if groups is not None else np.arange(n_samples)
+        groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
         if self.train_window < time_unit or self.test_window < time_unit:
             raise ValueError("train_window and test_window must be at least 1.")
-- 
2.43.0


From 48e8f225802a502255257dc9d04df180c8c4d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 21/21] fix: restore the CRLF line endings that earlier fix
 commits converted

---
 quantfinlib/clustering/metrics.py             | 226 ++---
 quantfinlib/distance/correlation.py           | 328 +++---
 quantfinlib/distance/distance_matrix.py       | 318 +++---
 quantfinlib/distance/information.py           | 448 ++++-----
 .../micro_structure/_price_sequences.py       | 944 +++++++++---------
 quantfinlib/train_test_split/_base.py         | 368 +++----
 quantfinlib/train_test_split/kfoldpe.py       | 444 ++++----
 quantfinlib/train_test_split/walk_forward.py  | 324 +++---
 8 files changed, 1700 insertions(+), 1700 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 537d243..ce382ef 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -1,113 +1,113 @@
-"""Functions for evaluating clustering results."""
-
-from typing import Optional, Tuple
-
-import numpy as np
-from sklearn.metrics import silhouette_samples
-
-from quantfinlib.util import (
-    DataFrameOrArray,
-    SeriesOrArray,
-    validate_frame_or_2Darray,
-    validate_series_or_1Darray,
-    to_numpy,
-)
-
-
-def _check_labels_distance_consistency(dist: DataFrameOrArray, labels: SeriesOrArray) -> None:
-    """Check if the distance matrix and labels are consistent."""
-    assert len(dist) == len(labels), "The number of labels must match the distance matrix size."
-
-
-@validate_series_or_1Darray("labels")
-@validate_frame_or_2Darray("dist")
-def gap_statistic(
-    dist: DataFrameOrArray, labels: SeriesOrArray, nb: int = 10, random_state: Optional[int] = None
-) -> Tuple[float, float]:
-    r"""
-    Calculate the gap statistic for a given distance matrix and cluster labels.
-
-    .. math::
-        GAP(k) = E(\log\left(W_{k}\right)) - \log\left(W_{k}\right)
-
-
-    where :math:`W_{k}` is the sum of within-cluster dispersion for :math:`k` clusters, and
-    :math:`E(\log(W_{k}))` is the expected value of :math:`\log(W_{k})` for randomized distances.
-
-    Parameters
-    ----------
-    dist : np.ndarray
-        Distance matrix.
-    labels : np.ndarray
-        Cluster labels.
-    nb : int, optional
-        Number of bootstrap samples. Default is 10.
-    random_state : int
-        Random seed for reproducibility.
-
-    Returns
-    -------
-    gap: float
-        Gap statistic.
-    gap_std: float
-        Standard deviation of the gap statistic.
-    """
-    _check_labels_distance_consistency(dist, labels)
-    dist, labels = to_numpy(dist), to_numpy(labels)
-    n = len(labels)
-    k = len(np.unique(labels))  # number of clusters
-    # Create a boolean matrix indicating whether two points are in the same cluster
-    within_clstr_identifier = labels[:, np.newaxis] == labels[np.newaxis, :]
-    # Calculate within-cluster dispersion (Wk)
-    # Additional division by 2 to correct for double summing of pair distances
-    Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
-    # Calculate the expected value of log(Wk) under a null reference distribution by randomizing the distance matrix
-    E_log_Wk = 0
-    log_wk_boots = []  # Store gap statistics for each bootstrap sample
-    if random_state is not None:
-        seed = random_state
-    else:
-        seed = 0
-    for b in range(nb):
-        # Create a reference distance matrix by drawing random samples from the distance matrix
-        rng = np.random.RandomState(seed + b)
-        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
-        # Make the reference distance matrix symmetric
-        dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
-        # Make sure the diagonal elements of reference distance matrix are zero
-        np.fill_diagonal(dist_ref, 0)
-        # Calculate the within-cluster dispersion for the reference distance matrix
-        Wk_boot = np.sum(within_clstr_identifier * dist_ref**2) / (4 * k)
-        log_Wk_boot = np.log(Wk_boot) if Wk_boot > 0 else 0
-        log_wk_boots.append(log_Wk_boot)
-        E_log_Wk += log_Wk_boot
-    E_log_Wk /= nb
-    gap_std = np.std(log_wk_boots)
-    # Calculate the gap statistic
-    gap = E_log_Wk - np.log(Wk)
-    return gap, gap_std
-
-
-@validate_series_or_1Darray("labels")
-@validate_frame_or_2Darray("dist")
-def silhouette_tstat(dist: DataFrameOrArray, labels: SeriesOrArray) -> float:
-    """
-    Calculate the silhouette score for a given distance matrix and cluster labels.
-
-    Parameters
-    ----------
-    dist : np.ndarray
-        Distance matrix.
-    labels : np.ndarray
-        Cluster labels.
-
-    Returns
-    -------
-    silh_tstat : float
-        T-statistic of the silhouette score.
-    """
-    _check_labels_distance_consistency(dist, labels)
-    dist, labels = to_numpy(dist), to_numpy(labels)
-    silh_samples = silhouette_samples(X=dist, labels=labels, metric="precomputed")
-    silh_tstat = np.mean(silh_samples) / np.std(silh_samples)
-    return silh_tstat
+"""Functions for evaluating clustering results."""
+
+from typing import Optional, Tuple
+
+import numpy as np
+from sklearn.metrics import silhouette_samples
+
+from quantfinlib.util import (
+    DataFrameOrArray,
+    SeriesOrArray,
+    validate_frame_or_2Darray,
+    validate_series_or_1Darray,
+    to_numpy,
+)
+
+
+def _check_labels_distance_consistency(dist: DataFrameOrArray, labels: SeriesOrArray) -> None:
+    """Check if the distance matrix and labels are consistent."""
+    assert len(dist) == len(labels), "The number of labels must match the distance matrix size."
+
+
+@validate_series_or_1Darray("labels")
+@validate_frame_or_2Darray("dist")
+def gap_statistic(
+    dist: DataFrameOrArray, labels: SeriesOrArray, nb: int = 10, random_state: Optional[int] = None
+) -> Tuple[float, float]:
+    r"""
+    Calculate the gap statistic for a given distance matrix and cluster labels.
+
+    .. math::
+        GAP(k) = E(\log\left(W_{k}\right)) - \log\left(W_{k}\right)
+
+
+    where :math:`W_{k}` is the sum of within-cluster dispersion for :math:`k` clusters, and
+    :math:`E(\log(W_{k}))` is the expected value of :math:`\log(W_{k})` for randomized distances.
+
+    Parameters
+    ----------
+    dist : np.ndarray
+        Distance matrix.
+    labels : np.ndarray
+        Cluster labels.
+    nb : int, optional
+        Number of bootstrap samples. Default is 10.
+    random_state : int
+        Random seed for reproducibility.
+
+    Returns
+    -------
+    gap: float
+        Gap statistic.
+    gap_std: float
+        Standard deviation of the gap statistic.
+    """
+    _check_labels_distance_consistency(dist, labels)
+    dist, labels = to_numpy(dist), to_numpy(labels)
+    n = len(labels)
+    k = len(np.unique(labels))  # number of clusters
+    # Create a boolean matrix indicating whether two points are in the same cluster
+    within_clstr_identifier = labels[:, np.newaxis] == labels[np.newaxis, :]
+    # Calculate within-cluster dispersion (Wk)
+    # Additional division by 2 to correct for double summing of pair distances
+    Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
+    # Calculate the expected value of log(Wk) under a null reference distribution by randomizing the distance matrix
+    E_log_Wk = 0
+    log_wk_boots = []  # Store gap statistics for each bootstrap sample
+    if random_state is not None:
+        seed = random_state
+    else:
+        seed = 0
+    for b in range(nb):
+        # Create a reference distance matrix by drawing random samples from the distance matrix
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
+        # Make the reference distance matrix symmetric
+        dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
+        # Make sure the diagonal elements of reference distance matrix are zero
+        np.fill_diagonal(dist_ref, 0)
+        # Calculate the within-cluster dispersion for the reference distance matrix
+        Wk_boot = np.sum(within_clstr_identifier * dist_ref**2) / (4 * k)
+        log_Wk_boot = np.log(Wk_boot) if Wk_boot > 0 else 0
+        log_wk_boots.append(log_Wk_boot)
+        E_log_Wk += log_Wk_boot
+    E_log_Wk /= nb
+    gap_std = np.std(log_wk_boots)
+    # Calculate the gap statistic
+    gap = E_log_Wk - np.log(Wk)
+    return gap, gap_std
+
+
+@validate_series_or_1Darray("labels")
+@validate_frame_or_2Darray("dist")
+def silhouette_tstat(dist: DataFrameOrArray, labels: SeriesOrArray) -> float:
+    """
+    Calculate the silhouette score for a given distance matrix and cluster labels.
+
+    Parameters
+    ----------
+    dist : np.ndarray
+        Distance matrix.
+    labels : np.ndarray
+        Cluster labels.
+
+    Returns
+    -------
+    silh_tstat : float
+        T-statistic of the silhouette score.
+    """
+    _check_labels_distance_consistency(dist, labels)
+    dist, labels = to_numpy(dist), to_numpy(labels)
+    silh_samples = silhouette_samples(X=dist, labels=labels, metric="precomputed")
+    silh_tstat = np.mean(silh_samples) / np.std(silh_samples)
+    return silh_tstat
diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index 1248f81..b6232e4 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -1,164 +1,164 @@
-"""Functions to compute distance metrics from correlations."""
-
-from typing import Callable, Union
-from functools import partial
-
-import numpy as np
-
-
-def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
-    """Set the diagonal elements of the distance matrix to zero."""
-    np.fill_diagonal(dist, 0)
-    return dist
-
-
-def _clip_values(values: Union[float, np.ndarray], min_val: float, max_val: float) -> Union[float, np.ndarray]:
-    """Clip the values to be within the range [min_val, max_val]."""
-    return np.clip(values, a_min=min_val, a_max=max_val)
-
-
-def _validate_correlation_matrix(corr: np.ndarray) -> None:
-    """Validate the input correlation matrix."""
-    assert isinstance(corr, np.ndarray), "Input must be a numpy array"
-    assert corr.ndim == 2, "Input must be a 2D matrix"
-    assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
-    assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
-
-
-def _convert_correlation_to_distance(
-    corr: Union[float, np.ndarray], conversion_function: Callable
-) -> Union[float, np.ndarray]:
-    if isinstance(corr, np.ndarray):
-        _validate_correlation_matrix(corr)
-    corr = _clip_values(corr, -1.0, 1.0)
-    dist = conversion_function(corr)
-    dist = _clip_values(dist, 0.0, 1.0)
-    if isinstance(corr, np.ndarray):
-        return _fix_diagonal_dist(dist)
-    return dist
-
-
-def _conversion_function(x: Union[float, np.ndarray], conversion_method: str) -> Union[float, np.ndarray]:
-    if conversion_method == "angular":
-        return np.sqrt((1.0 - x) / 2.0)
-    elif conversion_method == "abs_angular":
-        return np.sqrt(1.0 - np.abs(x))
-    elif conversion_method == "squared_angular":
-        return np.sqrt(1.0 - x**2)
-    else:
-        raise NotImplementedError(f"Conversion method {conversion_method} is not implemented.")
-
-
-def corr_to_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert a correlation to angular distance.
-
-    .. math::
-        \text{angular distance} = \sqrt{\frac{1 - \text{corr}}{2}}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="angular"))
-
-
-def corr_to_abs_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert correlation to an absolute angular distance.
-
-    .. math::
-        \text{abs angular distance} = \sqrt{1 - \text{abs}(\text{corr})}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The absolute angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="abs_angular"))
-
-
-def corr_to_squared_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
-    r"""Convert correlation to squared angular distance.
-
-    .. math::
-        \text{squared angular distance} = \sqrt{1 - \text{corr}^{2}}
-
-    Parameters
-    ----------
-    corr : np.ndarray or float
-        The input correlation matrix or value.
-
-    Returns
-    -------
-    np.ndarray or float
-        The squared angular distance matrix or value.
-    """
-    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="squared_angular"))
-
-
-def pair_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_angular_dist(corr)
-
-
-def pair_abs_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the absolute angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The absolute angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_abs_angular_dist(corr)
-
-
-def pair_squared_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
-    """Calculate the squared angular distance between two vectors x and y.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First input vector.
-    y : np.ndarray
-        Second input vector.
-
-    Returns
-    -------
-    float
-        The squared angular distance between x and y.
-    """
-    corr = np.corrcoef(x, y)[0, 1]
-    return corr_to_squared_angular_dist(corr)
+"""Functions to compute distance metrics from correlations."""
+
+from typing import Callable, Union
+from functools import partial
+
+import numpy as np
+
+
+def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
+    """Set the diagonal elements of the distance matrix to zero."""
+    np.fill_diagonal(dist, 0)
+    return dist
+
+
+def _clip_values(values: Union[float, np.ndarray], min_val: float, max_val: float) -> Union[float, np.ndarray]:
+    """Clip the values to be within the range [min_val, max_val]."""
+    return np.clip(values, a_min=min_val, a_max=max_val)
+
+
+def _validate_correlation_matrix(corr: np.ndarray) -> None:
+    """Validate the input correlation matrix."""
+    assert isinstance(corr, np.ndarray), "Input must be a numpy array"
+    assert corr.ndim == 2, "Input must be a 2D matrix"
+    assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
+    assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
+    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+
+
+def _convert_correlation_to_distance(
+    corr: Union[float, np.ndarray], conversion_function: Callable
+) -> Union[float, np.ndarray]:
+    if isinstance(corr, np.ndarray):
+        _validate_correlation_matrix(corr)
+    corr = _clip_values(corr, -1.0, 1.0)
+    dist = conversion_function(corr)
+    dist = _clip_values(dist, 0.0, 1.0)
+    if isinstance(corr, np.ndarray):
+        return _fix_diagonal_dist(dist)
+    return dist
+
+
+def _conversion_function(x: Union[float, np.ndarray], conversion_method: str) -> Union[float, np.ndarray]:
+    if conversion_method == "angular":
+        return np.sqrt((1.0 - x) / 2.0)
+    elif conversion_method == "abs_angular":
+        return np.sqrt(1.0 - np.abs(x))
+    elif conversion_method == "squared_angular":
+        return np.sqrt(1.0 - x**2)
+    else:
+        raise NotImplementedError(f"Conversion method {conversion_method} is not implemented.")
+
+
+def corr_to_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert a correlation to angular distance.
+
+    .. math::
+        \text{angular distance} = \sqrt{\frac{1 - \text{corr}}{2}}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="angular"))
+
+
+def corr_to_abs_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert correlation to an absolute angular distance.
+
+    .. math::
+        \text{abs angular distance} = \sqrt{1 - \text{abs}(\text{corr})}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The absolute angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="abs_angular"))
+
+
+def corr_to_squared_angular_dist(corr: Union[float, np.ndarray]) -> Union[float, np.ndarray]:
+    r"""Convert correlation to squared angular distance.
+
+    .. math::
+        \text{squared angular distance} = \sqrt{1 - \text{corr}^{2}}
+
+    Parameters
+    ----------
+    corr : np.ndarray or float
+        The input correlation matrix or value.
+
+    Returns
+    -------
+    np.ndarray or float
+        The squared angular distance matrix or value.
+    """
+    return _convert_correlation_to_distance(corr, partial(_conversion_function, conversion_method="squared_angular"))
+
+
+def pair_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_angular_dist(corr)
+
+
+def pair_abs_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the absolute angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The absolute angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_abs_angular_dist(corr)
+
+
+def pair_squared_angular_distance(x: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Calculate the squared angular distance between two vectors x and y.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First input vector.
+    y : np.ndarray
+        Second input vector.
+
+    Returns
+    -------
+    float
+        The squared angular distance between x and y.
+    """
+    corr = np.corrcoef(x, y)[0, 1]
+    return corr_to_squared_angular_dist(corr)
diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index f0078d7..d9dbb9c 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -1,159 +1,159 @@
-"""Functions for computing distance matrices for a table/array/dataframe of variables/time series."""
-
-from functools import partial
-from itertools import combinations
-from typing import Callable, Optional
-import pandas as pd
-import numpy as np
-
-from quantfinlib.distance.correlation import (
-    corr_to_abs_angular_dist,
-    corr_to_angular_dist,
-    corr_to_squared_angular_dist,
-)
-
-from quantfinlib.distance.information import mutual_info, var_info
-from quantfinlib.util import (
-    validate_frame_or_2Darray,
-    DataFrameOrArray,
-    logger,
-)
-
-CORR_TO_DIST_METHOD_MAP = {
-    "angular": corr_to_angular_dist,
-    "abs_angular": corr_to_abs_angular_dist,
-    "squared_angular": corr_to_squared_angular_dist,
-}
-
-
-@validate_frame_or_2Darray("X")
-def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset."""
-    assert func in [mutual_info, var_info], "Invalid function. Must be mutual_info or var_info."
-    inp_pd_df = isinstance(X, pd.DataFrame)
-    if inp_pd_df:
-        X, colnames = X.values, X.columns
-    _, m = X.shape
-    idx = np.arange(m)
-    res = np.zeros((m, m))
-    for i, j in combinations(idx, 2):
-        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
-        res[i, j] = res_ij
-        res[j, i] = res_ij
-    if func == mutual_info:
-        np.fill_diagonal(res, 1)
-    if inp_pd_df:
-        res = pd.DataFrame(res, index=colnames, columns=colnames)
-    return res
-
-
-def _check_info_method(method: str) -> None:
-    """Check if the information method is valid."""
-    assert method in ["mutual_info", "var_info"], "Invalid method. Must be one of mutual_info or var_info."
-
-
-def get_info_distance_matrix(X: DataFrameOrArray, method: str = "var_info", **kwargs) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset.
-
-    Parameters
-    ----------
-    X : np.ndarray or pd.DataFrame
-        The input dataset.
-    method : str
-        The distance calculation method. Default is 'var_info'.
-    **kwargs
-        Additional keyword arguments for the information calculation.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_info_method(method)
-    if method == "mutual_info":
-        logger.warning("Mutual information is not a metric. Consider using var_info instead.")
-        return _get_info_distance_matrix(X, mutual_info, **kwargs)
-    elif method == "var_info":
-        return _get_info_distance_matrix(X, var_info, **kwargs)
-    else:
-        raise NotImplementedError(f"Method {method} is not implemented.")
-
-
-@validate_frame_or_2Darray("X")
-def _calculate_correlation(X: DataFrameOrArray, corr_method: str = "pearson", **kwargs) -> pd.DataFrame:
-    """Calculate correlation matrix between columns of a dataset."""
-    inp_numpy_array = isinstance(X, np.ndarray)
-    if inp_numpy_array:
-        logger.info("Input is a NumPy array. Converting to Pandas DataFrame for correlation calculation.")
-        X = pd.DataFrame(X)  # Convert NumPy array to Pandas DataFrame
-    corr = X.corr(method=corr_method, **kwargs)
-    return corr.values if inp_numpy_array else corr
-
-
-def _check_corr_calculation_method(corr_method: str) -> None:
-    """Check if the correlation method is valid."""
-    assert corr_method in ["pearson", "spearman"], "Invalid correlation method. Must be pearson or spearman."
-
-
-def _check_corr_to_dist_method(corr_to_dist_method: str) -> None:
-    """Check if the correlation to distance method is valid."""
-    assert corr_to_dist_method in [
-        "angular",
-        "abs_angular",
-        "squared_angular",
-    ], "Invalid corr_to_dist method. Must be one of angular, abs_angular, squared_angular."
-
-
-def get_corr_distance_matrix(
-    X: DataFrameOrArray,
-    corr_method: str = "pearson",
-    corr_to_dist_method: str = "angular",
-    corr_transformer: Optional[Callable] = None,
-    **kwargs,
-) -> np.ndarray:
-    """Calculate distance matrix between columns of a dataset.
-
-    Parameters
-    ----------
-    X : np.ndarray or pd.DataFrame
-        The input dataset.
-    corr_method : str, optional
-        The correlation method. Default is 'pearson'.
-    corr_to_dist_method : str, optional
-        The distance calculation method. Default is 'angular'.
-    corr_transformer : Callable, optional
-        A function to transform the correlation matrix before calculating distance.
-    **kwargs
-        Additional keyword arguments for the correlation calculation with pandas.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_corr_calculation_method(corr_method)
-    corr = _calculate_correlation(X, corr_method, **kwargs)
-    if corr_transformer is not None:
-        corr = corr_transformer(corr)
-    return corr_to_dist(corr=corr, corr_to_dist_method=corr_to_dist_method)
-
-
-@validate_frame_or_2Darray("corr")
-def corr_to_dist(corr: DataFrameOrArray, corr_to_dist_method: str = "angular") -> DataFrameOrArray:
-    """Convert a correlation matrix to a distance matrix.
-
-    Parameters
-    ----------
-    corr : np.ndarray or pd.DataFrame
-        The input correlation matrix.
-    corr_to_dist_method : str, optional
-        The distance calculation method. Default is 'angular'.
-
-    Returns
-    -------
-    np.ndarray
-        The distance matrix.
-    """
-    _check_corr_to_dist_method(corr_to_dist_method=corr_to_dist_method)
-    func = CORR_TO_DIST_METHOD_MAP.get(corr_to_dist_method)
-    return func(corr)
+"""Functions for computing distance matrices for a table/array/dataframe of variables/time series."""
+
+from functools import partial
+from itertools import combinations
+from typing import Callable, Optional
+import pandas as pd
+import numpy as np
+
+from quantfinlib.distance.correlation import (
+    corr_to_abs_angular_dist,
+    corr_to_angular_dist,
+    corr_to_squared_angular_dist,
+)
+
+from quantfinlib.distance.information import mutual_info, var_info
+from quantfinlib.util import (
+    validate_frame_or_2Darray,
+    DataFrameOrArray,
+    logger,
+)
+
+CORR_TO_DIST_METHOD_MAP = {
+    "angular": corr_to_angular_dist,
+    "abs_angular": corr_to_abs_angular_dist,
+    "squared_angular": corr_to_squared_angular_dist,
+}
+
+
+@validate_frame_or_2Darray("X")
+def _get_info_distance_matrix(X: DataFrameOrArray, func: Callable, **kwargs) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset."""
+    assert func in [mutual_info, var_info], "Invalid function. Must be mutual_info or var_info."
+    inp_pd_df = isinstance(X, pd.DataFrame)
+    if inp_pd_df:
+        X, colnames = X.values, X.columns
+    _, m = X.shape
+    idx = np.arange(m)
+    res = np.zeros((m, m))
+    for i, j in combinations(idx, 2):
+        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
+        res[i, j] = res_ij
+        res[j, i] = res_ij
+    if func == mutual_info:
+        np.fill_diagonal(res, 1)
+    if inp_pd_df:
+        res = pd.DataFrame(res, index=colnames, columns=colnames)
+    return res
+
+
+def _check_info_method(method: str) -> None:
+    """Check if the information method is valid."""
+    assert method in ["mutual_info", "var_info"], "Invalid method. Must be one of mutual_info or var_info."
+
+
+def get_info_distance_matrix(X: DataFrameOrArray, method: str = "var_info", **kwargs) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset.
+
+    Parameters
+    ----------
+    X : np.ndarray or pd.DataFrame
+        The input dataset.
+    method : str
+        The distance calculation method. Default is 'var_info'.
+    **kwargs
+        Additional keyword arguments for the information calculation.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_info_method(method)
+    if method == "mutual_info":
+        logger.warning("Mutual information is not a metric. Consider using var_info instead.")
+        return _get_info_distance_matrix(X, mutual_info, **kwargs)
+    elif method == "var_info":
+        return _get_info_distance_matrix(X, var_info, **kwargs)
+    else:
+        raise NotImplementedError(f"Method {method} is not implemented.")
+
+
+@validate_frame_or_2Darray("X")
+def _calculate_correlation(X: DataFrameOrArray, corr_method: str = "pearson", **kwargs) -> pd.DataFrame:
+    """Calculate correlation matrix between columns of a dataset."""
+    inp_numpy_array = isinstance(X, np.ndarray)
+    if inp_numpy_array:
+        logger.info("Input is a NumPy array. Converting to Pandas DataFrame for correlation calculation.")
+        X = pd.DataFrame(X)  # Convert NumPy array to Pandas DataFrame
+    corr = X.corr(method=corr_method, **kwargs)
+    return corr.values if inp_numpy_array else corr
+
+
+def _check_corr_calculation_method(corr_method: str) -> None:
+    """Check if the correlation method is valid."""
+    assert corr_method in ["pearson", "spearman"], "Invalid correlation method. Must be pearson or spearman."
+
+
+def _check_corr_to_dist_method(corr_to_dist_method: str) -> None:
+    """Check if the correlation to distance method is valid."""
+    assert corr_to_dist_method in [
+        "angular",
+        "abs_angular",
+        "squared_angular",
+    ], "Invalid corr_to_dist method. Must be one of angular, abs_angular, squared_angular."
+
+
+def get_corr_distance_matrix(
+    X: DataFrameOrArray,
+    corr_method: str = "pearson",
+    corr_to_dist_method: str = "angular",
+    corr_transformer: Optional[Callable] = None,
+    **kwargs,
+) -> np.ndarray:
+    """Calculate distance matrix between columns of a dataset.
+
+    Parameters
+    ----------
+    X : np.ndarray or pd.DataFrame
+        The input dataset.
+    corr_method : str, optional
+        The correlation method. Default is 'pearson'.
+    corr_to_dist_method : str, optional
+        The distance calculation method. Default is 'angular'.
+    corr_transformer : Callable, optional
+        A function to transform the correlation matrix before calculating distance.
+    **kwargs
+        Additional keyword arguments for the correlation calculation with pandas.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_corr_calculation_method(corr_method)
+    corr = _calculate_correlation(X, corr_method, **kwargs)
+    if corr_transformer is not None:
+        corr = corr_transformer(corr)
+    return corr_to_dist(corr=corr, corr_to_dist_method=corr_to_dist_method)
+
+
+@validate_frame_or_2Darray("corr")
+def corr_to_dist(corr: DataFrameOrArray, corr_to_dist_method: str = "angular") -> DataFrameOrArray:
+    """Convert a correlation matrix to a distance matrix.
+
+    Parameters
+    ----------
+    corr : np.ndarray or pd.DataFrame
+        The input correlation matrix.
+    corr_to_dist_method : str, optional
+        The distance calculation method. Default is 'angular'.
+
+    Returns
+    -------
+    np.ndarray
+        The distance matrix.
+    """
+    _check_corr_to_dist_method(corr_to_dist_method=corr_to_dist_method)
+    func = CORR_TO_DIST_METHOD_MAP.get(corr_to_dist_method)
+    return func(corr)
diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index df1a78a..601dc7a 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -1,224 +1,224 @@
-"""Functions to compute information-theoretical measures of codependence betwween two variables.
-These include mutual information, variation of information, and Kullback-Leibler divergence between two variables.
-"""
-
-from typing import Optional, Tuple
-
-import numpy as np
-from scipy.stats import entropy
-
-from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray
-
-
-def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
-    """Calculate number of bins for discretizing a pair of variables x & y."""
-    if y is None:
-        return _get_optimal_nb_bins(x.shape[0], None)
-    else:
-        corr = np.corrcoef(x, y)[0, 1]
-        if np.isnan(corr) or abs(abs(corr) - 1) < 1e-5:
-            return _get_optimal_nb_bins(x.shape[0], None)
-        else:
-            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-
-
-def _get_optimal_nb_bins(n_obs: int, corr: Optional[float] = None) -> int:
-    """Get optimal number of bins for calculating mutual (variation of) information.
-
-    This function calculates the number of bins needed
-    (according to Hacine-Gharbi and Ravier's method) for calculation of
-    variation of (mutual) information between two variables in discrete version.
-
-
-    Parameters
-    ----------
-    n_obs : int
-        Number of observations.
-    corr : float, optional
-        Correlation coefficient between two variables.
-
-    Returns
-    -------
-    int
-        Number of bins.
-    """
-    # Univariate case
-    if corr is None:
-        z = (8 + 324 * n_obs + 12 * (36 * n_obs + 729 * n_obs**2) ** 0.5) ** (1 / 3.0)
-        b = round(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3)
-    # Bivariate case
-    else:
-        b = round(2**-0.5 * (1 + (1 + 24 * n_obs / (1.0 - corr**2)) ** 0.5) ** 0.5)
-    return int(b)
-
-
-@validate_series_or_1Darray("x", "y")
-def compute_entropies(x: SeriesOrArray, y: SeriesOrArray, bins: int) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
-    """Compute entropies of two variables x and y.
-
-    Parameters
-    ----------
-    x : pd.Series or np.ndarray
-        First input variable.
-    y : pd.Series or np.ndarray
-        Second input variable.
-    bins : int
-        Number of bins for histogram calculation.
-
-    Returns
-    -------
-    np.ndarray , np.ndarray, np.ndarray
-        Entropy of x, Entropy of y, Joint entropy of x and y.
-    """
-    # Compute joint histogram
-    hist_xy, _, _ = np.histogram2d(x, y, bins)
-    hist_x, _ = np.histogram(x, bins)
-    hist_y, _ = np.histogram(y, bins)
-    # Compute entropies
-    h_x = entropy(hist_x / hist_x.sum())
-    h_y = entropy(hist_y / hist_y.sum())
-    h_xy = entropy((hist_xy / hist_xy.sum()).flatten())
-    return h_x, h_y, h_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def mutual_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
-    r"""
-    Calculate mutual information between two variables.
-
-    Mutual information is calculated using the formula:
-
-    .. math::
-        I(X;Y) = \sum_{y \in Y} \sum_{x \in X} p(x,y) \log\left(\frac{p(x,y)}{p(x)p(y)}\right)
-
-    where \( p(x,y) \) is the joint probability distribution function of X and Y,
-    and \( p(x) \) and \( p(y) \) are the marginal probability distribution functions of X and Y respectively.
-
-    Parameters
-    ----------
-    x : pd.Series or np.ndarray
-        First input variable.
-    y : pd.Series or np.ndarray
-        Second input variable.
-    bins : int, optional
-        Number of bins for histogram calculation. If None, optimal bins are computed.
-    norm : bool, default=True
-        Whether to normalize the mutual information.
-
-    Returns
-    -------
-    float
-        Mutual information between x and y.
-
-    Examples
-    --------
-    .. exec_code::
-
-        import numpy as np
-        from quantfinlib.distance.information import mutual_info
-
-        np.random.seed(1234)
-        x = np.random.normal(0, 1, 100)
-        noise = np.random.normal(0, .5, 100)
-        y_rnd = np.random.normal(0, 1, 100)
-        y_linear = 10 * x + noise
-        y_nonlinear = 10 * x ** 2. + noise
-
-        for y in [y_rnd, y_linear, y_nonlinear]:
-            mi_xy = mutual_info(x, y)
-            print(f"Mutual information = {mi_xy}")
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    h_x, h_y, h_xy = compute_entropies(x, y, bins)
-    # Compute mutual information
-    mi_xy = h_x + h_y - h_xy
-    if norm:
-        mi_xy /= np.sqrt(h_x * h_y)  # Normalized mutual information
-    return mi_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
-    """Calculate variation of information between two variables.
-
-    Implementation of variation of information adopted from "Machine Learning for Asset Managers by Lopez de Prado".
-
-    Parameters
-    ----------
-    x : pd.Series, np.ndarray
-        First argument of var_info.
-    y : pd.Series, np.ndarray
-        Second argument of var_info.
-    bins : int, optional
-        When no value provided, the function get_optimal_nb_bins
-        will be called to calculate the optimal number of
-        bins for calculation of variation of information.
-    norm : bool, default = True
-        Whether to normalize the variation of information or not.
-
-    Returns
-    -------
-    float
-        Mutual information between x and y.
-
-    Examples
-    --------
-    .. exec_code::
-
-        import numpy as np
-        from quantfinlib.distance.information import var_info
-
-        np.random.seed(1234)
-        x = np.random.normal(0, 1, 100)
-        noise = np.random.normal(0, .5, 100)
-        y_rnd = np.random.normal(0, 1, 100)
-        y_linear = 10 * x + noise
-        y_nonlinear = 10 * x ** 2. + noise
-
-        for y in [y_rnd, y_linear, y_nonlinear]:
-            vi_xy = var_info(x, y)
-            print(f"variation of information = {vi_xy}")
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
-    # Compute variation of information
-    var_info_xy = 2 * h_xy - h_x - h_y
-    if norm:
-        var_info_xy /= h_xy  # Normalized variation of information
-    return var_info_xy
-
-
-@validate_series_or_1Darray("x", "y")
-def kl_divergence_xy(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None) -> float:
-    """
-    Calculate the Kullback-Leibler divergence between two variables.
-
-    Parameters
-    ----------
-    x : np.ndarray
-        First variable.
-    y : np.ndarray
-        Second variable.
-    bins : int, optional
-        Number of bins for histogram calculation. If None, optimal bins are computed.
-
-    Returns
-    -------
-    float
-        Kullback-Leibler divergence between x and y.
-    """
-    if bins is None:
-        bins = _get_nb_bins_from_xy(x, y)
-    # Discretize the variables
-    hist_x, _ = np.histogram(x, bins=bins)
-    hist_y, _ = np.histogram(y, bins=bins)
-
-    # Compute the probability distributions
-    p_x = hist_x / hist_x.sum()
-    p_y = hist_y / hist_y.sum()
-
-    # Compute the KL divergence
-    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
-    return kl_div
+"""Functions to compute information-theoretical measures of codependence betwween two variables.
+These include mutual information, variation of information, and Kullback-Leibler divergence between two variables.
+"""
+
+from typing import Optional, Tuple
+
+import numpy as np
+from scipy.stats import entropy
+
+from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray
+
+
+def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
+    """Calculate number of bins for discretizing a pair of variables x & y."""
+    if y is None:
+        return _get_optimal_nb_bins(x.shape[0], None)
+    else:
+        corr = np.corrcoef(x, y)[0, 1]
+        if np.isnan(corr) or abs(abs(corr) - 1) < 1e-5:
+            return _get_optimal_nb_bins(x.shape[0], None)
+        else:
+            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
+
+
+def _get_optimal_nb_bins(n_obs: int, corr: Optional[float] = None) -> int:
+    """Get optimal number of bins for calculating mutual (variation of) information.
+
+    This function calculates the number of bins needed
+    (according to Hacine-Gharbi and Ravier's method) for calculation of
+    variation of (mutual) information between two variables in discrete version.
+
+
+    Parameters
+    ----------
+    n_obs : int
+        Number of observations.
+    corr : float, optional
+        Correlation coefficient between two variables.
+
+    Returns
+    -------
+    int
+        Number of bins.
+    """
+    # Univariate case
+    if corr is None:
+        z = (8 + 324 * n_obs + 12 * (36 * n_obs + 729 * n_obs**2) ** 0.5) ** (1 / 3.0)
+        b = round(z / 6.0 + 2.0 / (3 * z) + 1.0 / 3)
+    # Bivariate case
+    else:
+        b = round(2**-0.5 * (1 + (1 + 24 * n_obs / (1.0 - corr**2)) ** 0.5) ** 0.5)
+    return int(b)
+
+
+@validate_series_or_1Darray("x", "y")
+def compute_entropies(x: SeriesOrArray, y: SeriesOrArray, bins: int) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+    """Compute entropies of two variables x and y.
+
+    Parameters
+    ----------
+    x : pd.Series or np.ndarray
+        First input variable.
+    y : pd.Series or np.ndarray
+        Second input variable.
+    bins : int
+        Number of bins for histogram calculation.
+
+    Returns
+    -------
+    np.ndarray , np.ndarray, np.ndarray
+        Entropy of x, Entropy of y, Joint entropy of x and y.
+    """
+    # Compute joint histogram
+    hist_xy, _, _ = np.histogram2d(x, y, bins)
+    hist_x, _ = np.histogram(x, bins)
+    hist_y, _ = np.histogram(y, bins)
+    # Compute entropies
+    h_x = entropy(hist_x / hist_x.sum())
+    h_y = entropy(hist_y / hist_y.sum())
+    h_xy = entropy((hist_xy / hist_xy.sum()).flatten())
+    return h_x, h_y, h_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def mutual_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
+    r"""
+    Calculate mutual information between two variables.
+
+    Mutual information is calculated using the formula:
+
+    .. math::
+        I(X;Y) = \sum_{y \in Y} \sum_{x \in X} p(x,y) \log\left(\frac{p(x,y)}{p(x)p(y)}\right)
+
+    where \( p(x,y) \) is the joint probability distribution function of X and Y,
+    and \( p(x) \) and \( p(y) \) are the marginal probability distribution functions of X and Y respectively.
+
+    Parameters
+    ----------
+    x : pd.Series or np.ndarray
+        First input variable.
+    y : pd.Series or np.ndarray
+        Second input variable.
+    bins : int, optional
+        Number of bins for histogram calculation. If None, optimal bins are computed.
+    norm : bool, default=True
+        Whether to normalize the mutual information.
+
+    Returns
+    -------
+    float
+        Mutual information between x and y.
+
+    Examples
+    --------
+    .. exec_code::
+
+        import numpy as np
+        from quantfinlib.distance.information import mutual_info
+
+        np.random.seed(1234)
+        x = np.random.normal(0, 1, 100)
+        noise = np.random.normal(0, .5, 100)
+        y_rnd = np.random.normal(0, 1, 100)
+        y_linear = 10 * x + noise
+        y_nonlinear = 10 * x ** 2. + noise
+
+        for y in [y_rnd, y_linear, y_nonlinear]:
+            mi_xy = mutual_info(x, y)
+            print(f"Mutual information = {mi_xy}")
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    h_x, h_y, h_xy = compute_entropies(x, y, bins)
+    # Compute mutual information
+    mi_xy = h_x + h_y - h_xy
+    if norm:
+        mi_xy /= np.sqrt(h_x * h_y)  # Normalized mutual information
+    return mi_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, norm: bool = True) -> float:
+    """Calculate variation of information between two variables.
+
+    Implementation of variation of information adopted from "Machine Learning for Asset Managers by Lopez de Prado".
+
+    Parameters
+    ----------
+    x : pd.Series, np.ndarray
+        First argument of var_info.
+    y : pd.Series, np.ndarray
+        Second argument of var_info.
+    bins : int, optional
+        When no value provided, the function get_optimal_nb_bins
+        will be called to calculate the optimal number of
+        bins for calculation of variation of information.
+    norm : bool, default = True
+        Whether to normalize the variation of information or not.
+
+    Returns
+    -------
+    float
+        Mutual information between x and y.
+
+    Examples
+    --------
+    .. exec_code::
+
+        import numpy as np
+        from quantfinlib.distance.information import var_info
+
+        np.random.seed(1234)
+        x = np.random.normal(0, 1, 100)
+        noise = np.random.normal(0, .5, 100)
+        y_rnd = np.random.normal(0, 1, 100)
+        y_linear = 10 * x + noise
+        y_nonlinear = 10 * x ** 2. + noise
+
+        for y in [y_rnd, y_linear, y_nonlinear]:
+            vi_xy = var_info(x, y)
+            print(f"variation of information = {vi_xy}")
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
+    # Compute variation of information
+    var_info_xy = 2 * h_xy - h_x - h_y
+    if norm:
+        var_info_xy /= h_xy  # Normalized variation of information
+    return var_info_xy
+
+
+@validate_series_or_1Darray("x", "y")
+def kl_divergence_xy(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None) -> float:
+    """
+    Calculate the Kullback-Leibler divergence between two variables.
+
+    Parameters
+    ----------
+    x : np.ndarray
+        First variable.
+    y : np.ndarray
+        Second variable.
+    bins : int, optional
+        Number of bins for histogram calculation. If None, optimal bins are computed.
+
+    Returns
+    -------
+    float
+        Kullback-Leibler divergence between x and y.
+    """
+    if bins is None:
+        bins = _get_nb_bins_from_xy(x, y)
+    # Discretize the variables
+    hist_x, _ = np.histogram(x, bins=bins)
+    hist_y, _ = np.histogram(y, bins=bins)
+
+    # Compute the probability distributions
+    p_x = hist_x / hist_x.sum()
+    p_y = hist_y / hist_y.sum()
+
+    # Compute the KL divergence
+    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
+    return kl_div
diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 123cc6d..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -1,472 +1,472 @@
-"""Implamentation of micro_structure features from price sequences."""
-
-from joblib import Parallel, delayed
-import numpy as np
-import pandas as pd
-from quantfinlib.feature.indicators._base import numpy_io_support
-
-
-@numpy_io_support
-def get_close_close_volatility(p_close: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the close-close volatility.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The close-close volatility.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768.
-    """
-    sigma_sq = (p_close / p_close.shift(1)).rolling(window=window).var()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_high_low_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the High-low volatility.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The p_high-p_low volatility.
-
-    References
-    ----------
-    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    sigma_sq = (np.log(p_high / p_low) ** 2.0).rolling(window=window).mean() / (4.0 * np.log(2.0))
-    return sigma_sq
-
-
-@numpy_io_support
-def get_garman_klass_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Garman-Klass volatility from high, low, open, and close prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Garman-Klass volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    returns_sq = 0.5 * np.log(p_high / p_low) ** 2
-    returns_close_open = (2 * np.log(2) - 1) * (np.log(p_close / p_open)) ** 2
-    sigma_sq = returns_sq.rolling(window=window).mean() - returns_close_open.rolling(window=window).mean()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_rogers_satchell_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Rogers-Satchell volatility from high, low, open, and close prices..
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Rogers-Satchell volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    series = np.log(p_high / p_close) * np.log(p_high / p_open) + np.log(p_low / p_close) * np.log(p_low / p_open)
-    sigma_sq = series.rolling(window=window).mean()
-    return sigma_sq
-
-
-@numpy_io_support
-def get_yang_zhang_volatility(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
-) -> pd.Series:
-    """
-    Calculate the Yang-Zhang volatility from high, low, open, and close prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Yang-Zhang volatility.
-
-    References
-    ----------
-    Volatility Modelling and Trading by Artur Sepp
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
-    """
-    coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
-    open_prev_close_ret = np.log(p_open / p_close.shift(1))
-    close_prev_open_ret = np.log(p_close / p_open.shift(1))
-    sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
-    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
-    sigma_rs_sq = get_rogers_satchell_volatility(
-        p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
-    )
-    sigma_sq = sigma_overnight_sq + coeff * sigma_open_to_close_sq + (1 - coeff) * sigma_rs_sq
-    return sigma_sq
-
-
-@numpy_io_support
-def get_becker_parkinson_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """Calculate the Becker-Parkinson volatility from high low prices.
-
-    This volatility is useful in the corporate bond market,
-    where there is no centralized order book, and
-    trades occur through bids wanted in competition (BWIC).
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        High prices.
-    p_low : pd.Series
-        Low prices.
-    window : int
-        Window size.
-
-    Returns
-    -------
-    pd.Series
-        The Becker-Parkinson volatility.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    See also page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
-    gamma = _get_gamma(p_high=p_high, p_low=p_low)
-    sigma = _get_sigma(beta=beta, gamma=gamma)
-    return sigma
-
-
-@numpy_io_support
-def get_cowrin_schultz_spread(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Cowrin-Schultz spread from high low prices.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Cowrin-Schultz spread.
-
-    References
-    ----------
-    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
-    """
-    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
-    gamma = _get_gamma(p_high=p_high, p_low=p_low)
-    alpha = _get_alpha(beta=beta, gamma=gamma)
-    spread = 2 * (np.exp(alpha) - 1) / (np.exp(alpha) + 1)
-    return spread
-
-
-@numpy_io_support
-def get_edge_spread(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int, sign: bool = False
-) -> pd.Series:
-    """
-    Estimate the moving average of edge bid-ask spread from open, high, low, and close prices.
-
-    Implementation of an efficient estimator of bid-ask spreads from open, high,
-    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
-    Prices must be sorted in ascending order of the timestamp.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-    sign : bool
-        Whether signed estimates should be returned.
-
-
-    Returns
-    -------
-    pd.Series
-        The moving average of edge spread.
-
-    References
-    ----------
-    https://doi.org/10.1016/j.jfineco.2024.103916
-    https://github.com/eguidotti/bidask
-    """
-    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
-
-    # Define a helper function to calculate the edge spread
-    def _apply_edge_spread(df):  # pragma: no cover
-        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
-
-    # Calculate the rolling spread
-    rolling_spread = Parallel(n_jobs=-1)(
-        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
-    )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
-
-
-def _edge_spread(
-    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, sign: bool = False
-) -> float:
-    """
-    Estimate Bid-Ask Spreads from Open, High, Low, and Close Prices.
-
-    Implementation of an efficient estimator of bid-ask spreads from open, high,
-    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
-    Prices must be sorted in ascending order of the timestamp.
-
-    Parameters
-    ----------
-    p_high : pd.Series
-        The high prices.
-    p_low : pd.Series
-        The low prices.
-    p_open : pd.Series
-        The open prices.
-    p_close : pd.Series
-        The close prices.
-    sign : bool
-        Whether signed estimates should be returned.
-
-    Returns
-    -------
-    The spread estimate. A value of 0.01 corresponds to a spread of 1%.
-
-    References
-    ----------
-    https://doi.org/10.1016/j.jfineco.2024.103916
-    https://github.com/eguidotti/bidask
-    """
-    p_o = np.log(p_open.values)
-    p_h = np.log(p_high.values)
-    p_l = np.log(p_low.values)
-    p_c = np.log(p_close.values)
-    p_m = (p_h + p_l) / 2.0
-
-    h1, l1, c1, m1 = p_h[:-1], p_l[:-1], p_c[:-1], p_m[:-1]
-    p_o, p_h, p_l, p_c, p_m = p_o[1:], p_h[1:], p_l[1:], p_c[1:], p_m[1:]
-
-    tau = (p_h != p_l) | (p_l != c1)
-    phi1 = (p_o != p_h) & tau
-    phi2 = (p_o != p_l) & tau
-    phi3 = (c1 != h1) & tau
-    phi4 = (c1 != l1) & tau
-
-    pt = tau.mean()
-    po = phi1.mean() + phi2.mean()
-    pc = phi3.mean() + phi4.mean()
-
-    if pt == 0 or po == 0 or pc == 0:
-        return np.nan
-
-    r1 = p_m - p_o
-    r2 = p_o - m1
-    r3 = p_m - c1
-    r4 = c1 - m1
-    r5 = p_o - c1
-
-    d1 = r1 - tau * r1.mean() / pt
-    d3 = r3 - tau * r3.mean() / pt
-    d5 = r5 - tau * r5.mean() / pt
-
-    x1 = -4.0 / po * d1 * r2 - 4.0 / pc * d3 * r4
-    x2 = -4.0 / po * d1 * r5 - 4.0 / pc * d5 * r4
-
-    e1 = x1.mean()
-    e2 = x2.mean()
-
-    v1 = x1.var()
-    v2 = x2.var()
-
-    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
-
-    s = np.sqrt(np.abs(s2))
-    if sign and s2 < 0:
-        s = -s
-
-    return float(s)
-
-
-@numpy_io_support
-def get_roll_measure(p_close: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Roll measure.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    window : int
-        The window size.
-
-    Returns
-    -------
-    pd.Series
-        The Roll spread.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
-    """
-    roll = _roll_measure(p_close=p_close, window=window)
-    return roll
-
-
-def _roll_measure(p_close: pd.Series, window: int) -> pd.Series:
-    """Calculate the Roll measure."""
-    logc = np.log(p_close)
-    delta_logc = logc.diff()
-    delta_logc_shift = delta_logc.shift(1)
-    roll = 2 * np.sqrt(delta_logc.rolling(window=window).cov(delta_logc_shift).abs())
-    return roll
-
-
-@numpy_io_support
-def get_roll_impact(p_close: pd.Series, volume: pd.Series, window: int) -> pd.Series:
-    """
-    Calculate the Roll impact.
-
-    It is defined as roll measure divided by the dollar value traded over a certain period.
-
-    Parameters
-    ----------
-    p_close : pd.Series
-        The close prices.
-    volume : pd.Series
-        The volume (trade volume).
-    window : int
-        The window size.
-
-    Returns
-    -------
-    np.ndarray
-        The Roll impact.
-
-    References
-    ----------
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
-    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
-    """
-    roll = _roll_measure(p_close=p_close, window=window)
-    return roll / (volume * p_close)
-
-
-# Helper functions for calulating the Cowrin-Schultz spread and Becker-Parkinson volatility.
-
-
-def _get_gamma(p_high: pd.Series, p_low: pd.Series) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    h2 = p_high.rolling(window=2).max()
-    l2 = p_low.rolling(window=2).min()
-    gamma = np.log(h2 / l2) ** 2.0
-    return gamma
-
-
-def _get_beta(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    hl = np.log(p_high / p_low) ** 2.0
-    beta = hl.rolling(window=2).sum()
-    beta = beta.rolling(window=window).mean()
-    return beta
-
-
-def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
-    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    den = 3 - 2.0 * 2**0.5
-    alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= (gamma / den) ** 0.5
-    alpha[alpha < 0] = 0  # set negative alpha to zero
-    return alpha
-
-
-def _get_sigma(beta: pd.Series, gamma: pd.Series) -> pd.Series:
-    """See p. 286 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
-    k2 = (8 / np.pi) ** 0.5
-    den = 3 - 2 * 2**0.5
-    sigma = (2 ** (-0.5) - 1) * (beta**0.5) / (k2 * den)
-    sigma += (gamma / (k2**2 * den)) ** 0.5
-    sigma[sigma < 0] = 0  # set negative sigma to zero
-    return sigma
+"""Implamentation of micro_structure features from price sequences."""
+
+from joblib import Parallel, delayed
+import numpy as np
+import pandas as pd
+from quantfinlib.feature.indicators._base import numpy_io_support
+
+
+@numpy_io_support
+def get_close_close_volatility(p_close: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the close-close volatility.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The close-close volatility.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768.
+    """
+    sigma_sq = (p_close / p_close.shift(1)).rolling(window=window).var()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_high_low_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the High-low volatility.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The p_high-p_low volatility.
+
+    References
+    ----------
+    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    sigma_sq = (np.log(p_high / p_low) ** 2.0).rolling(window=window).mean() / (4.0 * np.log(2.0))
+    return sigma_sq
+
+
+@numpy_io_support
+def get_garman_klass_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Garman-Klass volatility from high, low, open, and close prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Garman-Klass volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    returns_sq = 0.5 * np.log(p_high / p_low) ** 2
+    returns_close_open = (2 * np.log(2) - 1) * (np.log(p_close / p_open)) ** 2
+    sigma_sq = returns_sq.rolling(window=window).mean() - returns_close_open.rolling(window=window).mean()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_rogers_satchell_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Rogers-Satchell volatility from high, low, open, and close prices..
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Rogers-Satchell volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    series = np.log(p_high / p_close) * np.log(p_high / p_open) + np.log(p_low / p_close) * np.log(p_low / p_open)
+    sigma_sq = series.rolling(window=window).mean()
+    return sigma_sq
+
+
+@numpy_io_support
+def get_yang_zhang_volatility(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int
+) -> pd.Series:
+    """
+    Calculate the Yang-Zhang volatility from high, low, open, and close prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Yang-Zhang volatility.
+
+    References
+    ----------
+    Volatility Modelling and Trading by Artur Sepp
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=2810768
+    """
+    coeff = 0.34 / (1.34 + (window + 1) / (window - 1))
+    open_prev_close_ret = np.log(p_open / p_close.shift(1))
+    close_prev_open_ret = np.log(p_close / p_open.shift(1))
+    sigma_overnight_sq = (open_prev_close_ret**2.0).rolling(window=window).mean()
+    sigma_open_to_close_sq = (close_prev_open_ret**2.0).rolling(window=window).mean()
+    sigma_rs_sq = get_rogers_satchell_volatility(
+        p_high=p_high, p_low=p_low, p_close=p_close, p_open=p_open, window=window
+    )
+    sigma_sq = sigma_overnight_sq + coeff * sigma_open_to_close_sq + (1 - coeff) * sigma_rs_sq
+    return sigma_sq
+
+
+@numpy_io_support
+def get_becker_parkinson_volatility(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """Calculate the Becker-Parkinson volatility from high low prices.
+
+    This volatility is useful in the corporate bond market,
+    where there is no centralized order book, and
+    trades occur through bids wanted in competition (BWIC).
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        High prices.
+    p_low : pd.Series
+        Low prices.
+    window : int
+        Window size.
+
+    Returns
+    -------
+    pd.Series
+        The Becker-Parkinson volatility.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    See also page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
+    gamma = _get_gamma(p_high=p_high, p_low=p_low)
+    sigma = _get_sigma(beta=beta, gamma=gamma)
+    return sigma
+
+
+@numpy_io_support
+def get_cowrin_schultz_spread(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Cowrin-Schultz spread from high low prices.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Cowrin-Schultz spread.
+
+    References
+    ----------
+    See page 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado.
+    """
+    beta = _get_beta(p_high=p_high, p_low=p_low, window=window)
+    gamma = _get_gamma(p_high=p_high, p_low=p_low)
+    alpha = _get_alpha(beta=beta, gamma=gamma)
+    spread = 2 * (np.exp(alpha) - 1) / (np.exp(alpha) + 1)
+    return spread
+
+
+@numpy_io_support
+def get_edge_spread(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, window: int, sign: bool = False
+) -> pd.Series:
+    """
+    Estimate the moving average of edge bid-ask spread from open, high, low, and close prices.
+
+    Implementation of an efficient estimator of bid-ask spreads from open, high,
+    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
+    Prices must be sorted in ascending order of the timestamp.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+    sign : bool
+        Whether signed estimates should be returned.
+
+
+    Returns
+    -------
+    pd.Series
+        The moving average of edge spread.
+
+    References
+    ----------
+    https://doi.org/10.1016/j.jfineco.2024.103916
+    https://github.com/eguidotti/bidask
+    """
+    price_df = pd.DataFrame({"open": p_open, "high": p_high, "low": p_low, "close": p_close})
+
+    # Define a helper function to calculate the edge spread
+    def _apply_edge_spread(df):  # pragma: no cover
+        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
+
+    # Calculate the rolling spread
+    rolling_spread = Parallel(n_jobs=-1)(
+        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
+    )
+    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
+
+    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
+    return rolling_spread
+
+
+def _edge_spread(
+    p_high: pd.Series, p_low: pd.Series, p_open: pd.Series, p_close: pd.Series, sign: bool = False
+) -> float:
+    """
+    Estimate Bid-Ask Spreads from Open, High, Low, and Close Prices.
+
+    Implementation of an efficient estimator of bid-ask spreads from open, high,
+    low, and close prices as described in Ardia, Guidotti, & Kroencke (2024).
+    Prices must be sorted in ascending order of the timestamp.
+
+    Parameters
+    ----------
+    p_high : pd.Series
+        The high prices.
+    p_low : pd.Series
+        The low prices.
+    p_open : pd.Series
+        The open prices.
+    p_close : pd.Series
+        The close prices.
+    sign : bool
+        Whether signed estimates should be returned.
+
+    Returns
+    -------
+    The spread estimate. A value of 0.01 corresponds to a spread of 1%.
+
+    References
+    ----------
+    https://doi.org/10.1016/j.jfineco.2024.103916
+    https://github.com/eguidotti/bidask
+    """
+    p_o = np.log(p_open.values)
+    p_h = np.log(p_high.values)
+    p_l = np.log(p_low.values)
+    p_c = np.log(p_close.values)
+    p_m = (p_h + p_l) / 2.0
+
+    h1, l1, c1, m1 = p_h[:-1], p_l[:-1], p_c[:-1], p_m[:-1]
+    p_o, p_h, p_l, p_c, p_m = p_o[1:], p_h[1:], p_l[1:], p_c[1:], p_m[1:]
+
+    tau = (p_h != p_l) | (p_l != c1)
+    phi1 = (p_o != p_h) & tau
+    phi2 = (p_o != p_l) & tau
+    phi3 = (c1 != h1) & tau
+    phi4 = (c1 != l1) & tau
+
+    pt = tau.mean()
+    po = phi1.mean() + phi2.mean()
+    pc = phi3.mean() + phi4.mean()
+
+    if pt == 0 or po == 0 or pc == 0:
+        return np.nan
+
+    r1 = p_m - p_o
+    r2 = p_o - m1
+    r3 = p_m - c1
+    r4 = c1 - m1
+    r5 = p_o - c1
+
+    d1 = r1 - tau * r1.mean() / pt
+    d3 = r3 - tau * r3.mean() / pt
+    d5 = r5 - tau * r5.mean() / pt
+
+    x1 = -4.0 / po * d1 * r2 - 4.0 / pc * d3 * r4
+    x2 = -4.0 / po * d1 * r5 - 4.0 / pc * d5 * r4
+
+    e1 = x1.mean()
+    e2 = x2.mean()
+
+    v1 = x1.var()
+    v2 = x2.var()
+
+    s2 = (v2 * e1 + v1 * e2) / (v1 + v2)
+
+    s = np.sqrt(np.abs(s2))
+    if sign and s2 < 0:
+        s = -s
+
+    return float(s)
+
+
+@numpy_io_support
+def get_roll_measure(p_close: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Roll measure.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    window : int
+        The window size.
+
+    Returns
+    -------
+    pd.Series
+        The Roll spread.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
+    """
+    roll = _roll_measure(p_close=p_close, window=window)
+    return roll
+
+
+def _roll_measure(p_close: pd.Series, window: int) -> pd.Series:
+    """Calculate the Roll measure."""
+    logc = np.log(p_close)
+    delta_logc = logc.diff()
+    delta_logc_shift = delta_logc.shift(1)
+    roll = 2 * np.sqrt(delta_logc.rolling(window=window).cov(delta_logc_shift).abs())
+    return roll
+
+
+@numpy_io_support
+def get_roll_impact(p_close: pd.Series, volume: pd.Series, window: int) -> pd.Series:
+    """
+    Calculate the Roll impact.
+
+    It is defined as roll measure divided by the dollar value traded over a certain period.
+
+    Parameters
+    ----------
+    p_close : pd.Series
+        The close prices.
+    volume : pd.Series
+        The volume (trade volume).
+    window : int
+        The window size.
+
+    Returns
+    -------
+    np.ndarray
+        The Roll impact.
+
+    References
+    ----------
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3270269
+    https://papers.ssrn.com/sol3/papers.cfm?abstract_id=3345183
+    """
+    roll = _roll_measure(p_close=p_close, window=window)
+    return roll / (volume * p_close)
+
+
+# Helper functions for calulating the Cowrin-Schultz spread and Becker-Parkinson volatility.
+
+
+def _get_gamma(p_high: pd.Series, p_low: pd.Series) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    h2 = p_high.rolling(window=2).max()
+    l2 = p_low.rolling(window=2).min()
+    gamma = np.log(h2 / l2) ** 2.0
+    return gamma
+
+
+def _get_beta(p_high: pd.Series, p_low: pd.Series, window: int) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    hl = np.log(p_high / p_low) ** 2.0
+    beta = hl.rolling(window=2).sum()
+    beta = beta.rolling(window=window).mean()
+    return beta
+
+
+def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
+    """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    den = 3 - 2.0 * 2**0.5
+    alpha = (2**0.5 - 1) * (beta**0.5) / den
+    alpha -= (gamma / den) ** 0.5
+    alpha[alpha < 0] = 0  # set negative alpha to zero
+    return alpha
+
+
+def _get_sigma(beta: pd.Series, gamma: pd.Series) -> pd.Series:
+    """See p. 286 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
+    k2 = (8 / np.pi) ** 0.5
+    den = 3 - 2 * 2**0.5
+    sigma = (2 ** (-0.5) - 1) * (beta**0.5) / (k2 * den)
+    sigma += (gamma / (k2**2 * den)) ** 0.5
+    sigma[sigma < 0] = 0  # set negative sigma to zero
+    return sigma
diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index ee7902e..a66b464 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -1,184 +1,184 @@
-"""Base Purged and Embargoed Cross-Validation Functions."""
-
-from abc import ABC, abstractmethod
-from numbers import Integral
-from typing import Any, Optional, Union
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._dtypes import IndexType, GroupType, XType, YType
-
-
-def _validate_purge_embargo_inputs(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    delta_t: Union[Integral, pd.Timedelta],
-) -> None:  # pragma: no cover
-    """Validate the inputs for the `purge` and `embargo` functions.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups.
-    delta_t : Union[int, pd.Timedelta]
-        The time period for purging or embargoing.
-    """
-    if isinstance(delta_t, Integral) and isinstance(groups, np.ndarray):
-        if delta_t < 0:
-            raise ValueError("delta_t must be a non-negative integer")
-        if not np.all(np.diff(groups) >= 0):
-            raise ValueError("groups must be sorted in ascending order")
-    elif isinstance(delta_t, pd.Timedelta) and isinstance(groups, (pd.Series, pd.DatetimeIndex)):
-        if delta_t < pd.Timedelta(0):
-            raise ValueError("delta_t must be a non-negative Timedelta")
-        if not groups.is_monotonic_increasing:
-            raise ValueError("groups must be sorted in ascending order")
-    else:
-        raise TypeError(
-            "delta_t must be an integer and groups must be a numpy array, \
-            or delta_t must be a Timedelta and groups must be a DatetimeIndex"
-        )
-
-
-def _purge(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    n_purge: Union[Integral, pd.Timedelta],
-) -> IndexType:
-    """Remove training indices whose groups fall within `n_purge` from the last test group.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups
-    n_purge : Union[int, pd.Timedelta]
-        Purge period.
-
-    Returns
-    -------
-    np.ndarra
-        The purged training indices.
-
-    Raises
-    ------
-    ValueError
-        If all training indices were purged
-    """
-    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_purge)
-    max_test_group = groups[test_index].max()
-    purged_index = indices[(groups <= max_test_group + n_purge) & (groups > max_test_group)]
-    train_index = np.setdiff1d(train_index, purged_index)
-    if len(train_index) == 0:
-        raise ValueError("All training indices were purged. No training data available.")
-    return np.setdiff1d(train_index, purged_index)
-
-
-def _embargo(
-    train_index: IndexType,
-    test_index: IndexType,
-    indices: IndexType,
-    groups: GroupType,
-    n_embargo: Union[Integral, pd.Timedelta],
-) -> IndexType:
-    """Remove training indices whose groups fall within `n_embargo` from the first test group.
-
-    Parameters
-    ----------
-    train_index : np.ndarray
-        The initial training indices.
-    test_index : np.ndarray
-        The test indices.
-    indices : np.ndarray
-        All indices.
-    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
-        The groups
-    n_embargo : Union[int, pd.Timedelta]
-        Embargo period.
-
-    Returns
-    -------
-    np.ndarray
-        The embargoed training indices.
-
-    Raises
-    ------
-    ValueError
-        If all training indices were embargoed.
-    """
-    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_embargo)
-    min_test_group = groups[test_index].min()
-    embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
-    train_index = np.setdiff1d(train_index, embargoed_index)
-    if len(train_index) == 0:
-        raise ValueError("All training indices were embargoed. No training data available.")
-    return train_index
-
-
-def _positional_groups(groups: GroupType) -> GroupType:
-    """Convert a Series of groups to an array or index, which are indexed by position."""
-    if isinstance(groups, pd.Series):
-        return pd.DatetimeIndex(groups) if pd.api.types.is_datetime64_any_dtype(groups) else groups.to_numpy()
-    return groups
-
-
-class BaseCV(ABC):
-    """Base class for cross-validation splitters."""
-
-    def __init__(self, n_embargo: Union[Integral, pd.Timedelta], n_purge: Union[Integral, pd.Timedelta]) -> None:
-        if not isinstance(n_embargo, (Integral, pd.Timedelta)):
-            raise TypeError("n_embargo must be an integer or a Timedelta")
-        if not isinstance(n_purge, (Integral, pd.Timedelta)):
-            raise TypeError("n_purge must be an integer or a Timedelta")
-        if isinstance(n_embargo, Integral) and n_embargo < 0:
-            raise ValueError("n_embargo must be a non-negative integer")
-        if isinstance(n_purge, Integral) and n_purge < 0:
-            raise ValueError("n_purge must be a non-negative integer")
-        if isinstance(n_embargo, pd.Timedelta) and n_embargo < pd.Timedelta(0):
-            raise ValueError("n_embargo must be a non-negative Timedelta")
-        if isinstance(n_purge, pd.Timedelta) and n_purge < pd.Timedelta(0):
-            raise ValueError("n_purge must be a non-negative Timedelta")
-        self.n_embargo = n_embargo
-        self.n_purge = n_purge
-
-    @abstractmethod
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> Any:
-        """Return the number of splits."""
-        raise NotImplementedError("Subclasses must implement get_n_split method")
-
-    @abstractmethod
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Any:
-        """Generate indices to split data into training and test sets."""
-        if not isinstance(X, (np.ndarray, pd.DataFrame)):
-            raise TypeError("X must be a numpy array or a DataFrame")
-        if y is not None and not isinstance(y, (np.ndarray, pd.Series)):
-            raise TypeError("y must be a numpy array or a Series")
-        if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
-            raise TypeError("groups must be a numpy array or a Series")
-        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
-            raise ValueError("groups must be sorted in ascending order")
-        if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
-            raise ValueError("groups must be sorted in ascending order")
+"""Base Purged and Embargoed Cross-Validation Functions."""
+
+from abc import ABC, abstractmethod
+from numbers import Integral
+from typing import Any, Optional, Union
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._dtypes import IndexType, GroupType, XType, YType
+
+
+def _validate_purge_embargo_inputs(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    delta_t: Union[Integral, pd.Timedelta],
+) -> None:  # pragma: no cover
+    """Validate the inputs for the `purge` and `embargo` functions.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups.
+    delta_t : Union[int, pd.Timedelta]
+        The time period for purging or embargoing.
+    """
+    if isinstance(delta_t, Integral) and isinstance(groups, np.ndarray):
+        if delta_t < 0:
+            raise ValueError("delta_t must be a non-negative integer")
+        if not np.all(np.diff(groups) >= 0):
+            raise ValueError("groups must be sorted in ascending order")
+    elif isinstance(delta_t, pd.Timedelta) and isinstance(groups, (pd.Series, pd.DatetimeIndex)):
+        if delta_t < pd.Timedelta(0):
+            raise ValueError("delta_t must be a non-negative Timedelta")
+        if not groups.is_monotonic_increasing:
+            raise ValueError("groups must be sorted in ascending order")
+    else:
+        raise TypeError(
+            "delta_t must be an integer and groups must be a numpy array, \
+            or delta_t must be a Timedelta and groups must be a DatetimeIndex"
+        )
+
+
+def _purge(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    n_purge: Union[Integral, pd.Timedelta],
+) -> IndexType:
+    """Remove training indices whose groups fall within `n_purge` from the last test group.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups
+    n_purge : Union[int, pd.Timedelta]
+        Purge period.
+
+    Returns
+    -------
+    np.ndarra
+        The purged training indices.
+
+    Raises
+    ------
+    ValueError
+        If all training indices were purged
+    """
+    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_purge)
+    max_test_group = groups[test_index].max()
+    purged_index = indices[(groups <= max_test_group + n_purge) & (groups > max_test_group)]
+    train_index = np.setdiff1d(train_index, purged_index)
+    if len(train_index) == 0:
+        raise ValueError("All training indices were purged. No training data available.")
+    return np.setdiff1d(train_index, purged_index)
+
+
+def _embargo(
+    train_index: IndexType,
+    test_index: IndexType,
+    indices: IndexType,
+    groups: GroupType,
+    n_embargo: Union[Integral, pd.Timedelta],
+) -> IndexType:
+    """Remove training indices whose groups fall within `n_embargo` from the first test group.
+
+    Parameters
+    ----------
+    train_index : np.ndarray
+        The initial training indices.
+    test_index : np.ndarray
+        The test indices.
+    indices : np.ndarray
+        All indices.
+    groups : Union[np.ndarray, pd.Series, pd.DatetimeIndex]
+        The groups
+    n_embargo : Union[int, pd.Timedelta]
+        Embargo period.
+
+    Returns
+    -------
+    np.ndarray
+        The embargoed training indices.
+
+    Raises
+    ------
+    ValueError
+        If all training indices were embargoed.
+    """
+    _validate_purge_embargo_inputs(train_index, test_index, indices, groups, n_embargo)
+    min_test_group = groups[test_index].min()
+    embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
+    train_index = np.setdiff1d(train_index, embargoed_index)
+    if len(train_index) == 0:
+        raise ValueError("All training indices were embargoed. No training data available.")
+    return train_index
+
+
+def _positional_groups(groups: GroupType) -> GroupType:
+    """Convert a Series of groups to an array or index, which are indexed by position."""
+    if isinstance(groups, pd.Series):
+        return pd.DatetimeIndex(groups) if pd.api.types.is_datetime64_any_dtype(groups) else groups.to_numpy()
+    return groups
+
+
+class BaseCV(ABC):
+    """Base class for cross-validation splitters."""
+
+    def __init__(self, n_embargo: Union[Integral, pd.Timedelta], n_purge: Union[Integral, pd.Timedelta]) -> None:
+        if not isinstance(n_embargo, (Integral, pd.Timedelta)):
+            raise TypeError("n_embargo must be an integer or a Timedelta")
+        if not isinstance(n_purge, (Integral, pd.Timedelta)):
+            raise TypeError("n_purge must be an integer or a Timedelta")
+        if isinstance(n_embargo, Integral) and n_embargo < 0:
+            raise ValueError("n_embargo must be a non-negative integer")
+        if isinstance(n_purge, Integral) and n_purge < 0:
+            raise ValueError("n_purge must be a non-negative integer")
+        if isinstance(n_embargo, pd.Timedelta) and n_embargo < pd.Timedelta(0):
+            raise ValueError("n_embargo must be a non-negative Timedelta")
+        if isinstance(n_purge, pd.Timedelta) and n_purge < pd.Timedelta(0):
+            raise ValueError("n_purge must be a non-negative Timedelta")
+        self.n_embargo = n_embargo
+        self.n_purge = n_purge
+
+    @abstractmethod
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> Any:
+        """Return the number of splits."""
+        raise NotImplementedError("Subclasses must implement get_n_split method")
+
+    @abstractmethod
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Any:
+        """Generate indices to split data into training and test sets."""
+        if not isinstance(X, (np.ndarray, pd.DataFrame)):
+            raise TypeError("X must be a numpy array or a DataFrame")
+        if y is not None and not isinstance(y, (np.ndarray, pd.Series)):
+            raise TypeError("y must be a numpy array or a Series")
+        if groups is not None and not isinstance(groups, (np.ndarray, pd.Series, pd.DatetimeIndex)):
+            raise TypeError("groups must be a numpy array or a Series")
+        if isinstance(groups, np.ndarray) and not np.all(np.diff(groups) >= 0):
+            raise ValueError("groups must be sorted in ascending order")
+        if isinstance(groups, (pd.Series, pd.DatetimeIndex)) and not groups.is_monotonic_increasing:
+            raise ValueError("groups must be sorted in ascending order")
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index 756f151..a0c24f5 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -1,222 +1,222 @@
-"""Implementation of time-aware KFold Cross Validation with Purge and Embargo."""
-
-from numbers import Integral
-from typing import Generator, Optional, Tuple
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
-from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
-
-
-def _validate_split_settings(n_samples: Integral, n_folds: Integral, n_embargo: Integral, n_purge: Integral) -> None:
-    """Validate the split settings.
-
-    Parameters
-    ----------
-    n_samples : int
-        Number of samples.
-    n_folds : int
-        Number of folds.
-    n_embargo : int
-        Number of groups to embargo.
-    n_purge : int
-        Number of groups to purge.
-
-    Raises
-    ------
-    ValueError:
-        If the number of samples is less than the number of folds.
-        If the sum of n_purge and n_embargo is greater than n_samples.
-        If n_purge or n_embargo is greater than max_train_size.
-
-    """
-    if n_samples < n_folds:
-        raise ValueError("Number of samples must be greater than the number of folds.")
-    if n_purge + n_embargo >= n_samples:
-        raise ValueError(f"The sum {n_purge + n_embargo = } must be less than {n_samples = }.")
-    max_train_size: Integral = n_samples - n_samples // n_folds
-    if (n_purge > max_train_size) or (n_embargo > max_train_size) or (n_embargo + n_purge > max_train_size):
-        raise ValueError(f"n_purge and n_embargo and their sum must be less than {max_train_size = }.")
-
-
-class TimeAwareKFold(BaseCV):
-    """Purge-embargo K-Fold cross-validator.
-
-    Provides train/test indices to split data in train/test sets. The training set is purged and embargoed.
-
-    Attributes
-    ----------
-    n_folds : int
-        Number of folds. This is the number of train-test splits if look_forward is False.
-        Otherwise, the number of splits is n_folds - 1.
-    n_purge : int
-        Number of groups to purge.
-    n_embargo : int
-        Number of groups to embargo.
-    look_forward : bool
-        Whether the test set is always ahead of the training set.
-        If True, the number of splits is n_folds - 1.
-    freq : Optional[str]
-        The frequency of the groups provided to split method.
-
-    Methods
-    -------
-    get_n_splits
-        Return the number of splits.
-
-    split(X, y, groups)
-        Generate indices to split data into training and test sets.
-    """
-
-    def __init__(
-        self,
-        n_folds: Integral,
-        n_embargo: Integral,
-        n_purge: Integral,
-        look_forward: bool = False,
-        freq: Optional[str] = None,
-    ) -> None:
-        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
-        if not isinstance(n_folds, Integral):
-            raise ValueError("Number of folds must be an integer.")
-        if n_folds < 2:
-            raise ValueError("Number of folds must be at least 2.")
-        self.n_folds = n_folds
-        self.n_purge = n_purge
-        self.n_embargo = n_embargo
-        self.look_forward = look_forward
-        self.freq = freq
-
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> int:
-        """Return the number of splits.
-        This method return n_folds - 1 if look_forward is True, otherwise n_folds.
-
-        Returns
-        -------
-        int
-            Number of splits.
-        """
-        if self.look_forward:
-            return self.n_folds - 1
-        return self.n_folds
-
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
-        """Generate indices to split data into training and test sets.
-
-        Parameters
-        ----------
-        X : Union[np.ndarray, pd.DataFrame]
-            The data to split.
-        y : Optional[Union[np.ndarray, pd.Series]], optional
-            The target variable, by default None.
-        groups : Optional[Union[np.ndarray, pd.Series]], optional
-            The groups, indicating datetime. by default None.
-
-        Yields
-        ------
-        Generator[Tuple[np.ndarray, np.ndarray], None, None]
-            Train and test indices.
-        """
-        super().split(X, y, groups)
-        _validate_split_settings(
-            n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
-        )
-        if groups is not None and self.freq is not None:
-            n_embargo = pd.Timedelta(self.n_embargo, unit=self.freq)
-            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
-        else:
-            n_embargo = self.n_embargo
-            n_purge = self.n_purge
-        if groups is None:
-            groups = np.arange(X.shape[0])
-        groups = _positional_groups(groups)
-        indices = np.arange(X.shape[0])
-        assert len(groups) == len(indices), "Groups and indices must have the same length."
-        test_indices_per_fold = np.array_split(indices, self.n_folds)
-        # fix the bounds of the folds so that there is no overlap between their groups
-        bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
-        bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
-        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
-        if self.look_forward:
-            test_indices_per_fold = test_indices_per_fold[1:]
-        for test_index in test_indices_per_fold:
-            train_index = _get_train_index_per_split(
-                indices=indices, test_index=test_index, groups=groups, look_forward=self.look_forward
-            )
-            train_index = _purge(
-                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_purge=n_purge
-            )
-            train_index = _embargo(
-                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_embargo=n_embargo
-            )
-            yield train_index, test_index
-
-
-def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) -> BoundPerFoldType:
-    """
-    Modify fold bounds.
-
-    Modifies the bounds of folds such that there is no overlap between their groups.
-
-    Parameters
-    ----------
-    bound_per_fold : np.ndarray
-        Bound per fold.
-    groups : np.ndarray
-        Groups.
-    n_folds : int
-        Number of folds.
-
-    Returns
-    -------
-    np.ndarray
-        Modified bound per fold.
-    """
-    n_folds = bound_per_fold.shape[0]
-    for fold in range(n_folds - 1):
-        last_group_curr_fold = groups[bound_per_fold[fold, 1]]
-        first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
-        if last_group_curr_fold == first_group_next_fold:
-            next_group = groups[groups > last_group_curr_fold][0]
-            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
-            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
-    return bound_per_fold
-
-
-def _get_train_index_per_split(
-    indices: IndexType,
-    test_index: IndexType,
-    groups: GroupType,
-    look_forward: bool = False,
-) -> IndexType:
-    """Find train index for a given split.
-
-    Parameters
-    ----------
-    indices : np.ndarray
-        All indices.
-    test_index : np.ndarray
-        Test indices.
-    groups : Union[np.ndarray, pd.TimedeltaIndex]
-        Groups.
-    look_forward : bool
-        Whether the test set is always ahead of the training set.
-
-    Returns
-    -------
-    np.ndarray
-        Train indices for a given split.
-    """
-    train_index = np.setdiff1d(indices, test_index)
-    if look_forward:
-        return np.setdiff1d(train_index, indices[groups > groups[test_index[0]]])
-    return train_index
+"""Implementation of time-aware KFold Cross Validation with Purge and Embargo."""
+
+from numbers import Integral
+from typing import Generator, Optional, Tuple
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _positional_groups
+from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
+
+
+def _validate_split_settings(n_samples: Integral, n_folds: Integral, n_embargo: Integral, n_purge: Integral) -> None:
+    """Validate the split settings.
+
+    Parameters
+    ----------
+    n_samples : int
+        Number of samples.
+    n_folds : int
+        Number of folds.
+    n_embargo : int
+        Number of groups to embargo.
+    n_purge : int
+        Number of groups to purge.
+
+    Raises
+    ------
+    ValueError:
+        If the number of samples is less than the number of folds.
+        If the sum of n_purge and n_embargo is greater than n_samples.
+        If n_purge or n_embargo is greater than max_train_size.
+
+    """
+    if n_samples < n_folds:
+        raise ValueError("Number of samples must be greater than the number of folds.")
+    if n_purge + n_embargo >= n_samples:
+        raise ValueError(f"The sum {n_purge + n_embargo = } must be less than {n_samples = }.")
+    max_train_size: Integral = n_samples - n_samples // n_folds
+    if (n_purge > max_train_size) or (n_embargo > max_train_size) or (n_embargo + n_purge > max_train_size):
+        raise ValueError(f"n_purge and n_embargo and their sum must be less than {max_train_size = }.")
+
+
+class TimeAwareKFold(BaseCV):
+    """Purge-embargo K-Fold cross-validator.
+
+    Provides train/test indices to split data in train/test sets. The training set is purged and embargoed.
+
+    Attributes
+    ----------
+    n_folds : int
+        Number of folds. This is the number of train-test splits if look_forward is False.
+        Otherwise, the number of splits is n_folds - 1.
+    n_purge : int
+        Number of groups to purge.
+    n_embargo : int
+        Number of groups to embargo.
+    look_forward : bool
+        Whether the test set is always ahead of the training set.
+        If True, the number of splits is n_folds - 1.
+    freq : Optional[str]
+        The frequency of the groups provided to split method.
+
+    Methods
+    -------
+    get_n_splits
+        Return the number of splits.
+
+    split(X, y, groups)
+        Generate indices to split data into training and test sets.
+    """
+
+    def __init__(
+        self,
+        n_folds: Integral,
+        n_embargo: Integral,
+        n_purge: Integral,
+        look_forward: bool = False,
+        freq: Optional[str] = None,
+    ) -> None:
+        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
+        if not isinstance(n_folds, Integral):
+            raise ValueError("Number of folds must be an integer.")
+        if n_folds < 2:
+            raise ValueError("Number of folds must be at least 2.")
+        self.n_folds = n_folds
+        self.n_purge = n_purge
+        self.n_embargo = n_embargo
+        self.look_forward = look_forward
+        self.freq = freq
+
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> int:
+        """Return the number of splits.
+        This method return n_folds - 1 if look_forward is True, otherwise n_folds.
+
+        Returns
+        -------
+        int
+            Number of splits.
+        """
+        if self.look_forward:
+            return self.n_folds - 1
+        return self.n_folds
+
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
+        """Generate indices to split data into training and test sets.
+
+        Parameters
+        ----------
+        X : Union[np.ndarray, pd.DataFrame]
+            The data to split.
+        y : Optional[Union[np.ndarray, pd.Series]], optional
+            The target variable, by default None.
+        groups : Optional[Union[np.ndarray, pd.Series]], optional
+            The groups, indicating datetime. by default None.
+
+        Yields
+        ------
+        Generator[Tuple[np.ndarray, np.ndarray], None, None]
+            Train and test indices.
+        """
+        super().split(X, y, groups)
+        _validate_split_settings(
+            n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
+        )
+        if groups is not None and self.freq is not None:
+            n_embargo = pd.Timedelta(self.n_embargo, unit=self.freq)
+            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
+        else:
+            n_embargo = self.n_embargo
+            n_purge = self.n_purge
+        if groups is None:
+            groups = np.arange(X.shape[0])
+        groups = _positional_groups(groups)
+        indices = np.arange(X.shape[0])
+        assert len(groups) == len(indices), "Groups and indices must have the same length."
+        test_indices_per_fold = np.array_split(indices, self.n_folds)
+        # fix the bounds of the folds so that there is no overlap between their groups
+        bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
+        bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
+        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
+        if self.look_forward:
+            test_indices_per_fold = test_indices_per_fold[1:]
+        for test_index in test_indices_per_fold:
+            train_index = _get_train_index_per_split(
+                indices=indices, test_index=test_index, groups=groups, look_forward=self.look_forward
+            )
+            train_index = _purge(
+                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_purge=n_purge
+            )
+            train_index = _embargo(
+                train_index=train_index, test_index=test_index, indices=indices, groups=groups, n_embargo=n_embargo
+            )
+            yield train_index, test_index
+
+
+def _modify_fold_bounds(bound_per_fold: BoundPerFoldType, groups: GroupType) -> BoundPerFoldType:
+    """
+    Modify fold bounds.
+
+    Modifies the bounds of folds such that there is no overlap between their groups.
+
+    Parameters
+    ----------
+    bound_per_fold : np.ndarray
+        Bound per fold.
+    groups : np.ndarray
+        Groups.
+    n_folds : int
+        Number of folds.
+
+    Returns
+    -------
+    np.ndarray
+        Modified bound per fold.
+    """
+    n_folds = bound_per_fold.shape[0]
+    for fold in range(n_folds - 1):
+        last_group_curr_fold = groups[bound_per_fold[fold, 1]]
+        first_group_next_fold = groups[bound_per_fold[fold + 1, 0]]
+        if last_group_curr_fold == first_group_next_fold:
+            next_group = groups[groups > last_group_curr_fold][0]
+            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
+            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
+    return bound_per_fold
+
+
+def _get_train_index_per_split(
+    indices: IndexType,
+    test_index: IndexType,
+    groups: GroupType,
+    look_forward: bool = False,
+) -> IndexType:
+    """Find train index for a given split.
+
+    Parameters
+    ----------
+    indices : np.ndarray
+        All indices.
+    test_index : np.ndarray
+        Test indices.
+    groups : Union[np.ndarray, pd.TimedeltaIndex]
+        Groups.
+    look_forward : bool
+        Whether the test set is always ahead of the training set.
+
+    Returns
+    -------
+    np.ndarray
+        Train indices for a given split.
+    """
+    train_index = np.setdiff1d(indices, test_index)
+    if look_forward:
+        return np.setdiff1d(train_index, indices[groups > groups[test_index[0]]])
+    return train_index
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 57cd3ca..b784b9d 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -1,162 +1,162 @@
-"""Implementation of Walk forward."""
-
-from numbers import Integral
-from typing import Generator, Optional, Tuple
-import warnings
-
-import numpy as np
-import pandas as pd
-
-from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
-from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
-
-
-class WalkForward(BaseCV):
-    """Walk forward train-test split.
-
-    Parameters
-    ----------
-    n_embargo : Integral
-        The number of groups to embargo from the test set in order to remove label overlap with training set.
-    n_purge : Integral, optional
-        This parameter is not applicable to WalkForward, by default 0 as it is not used by WalkForward.
-    train_window : Integral, optional
-        The size of the training window, by default 0.
-    test_window : Integral, optional
-        The size of the test window, by default 0.
-    split_type : str, optional
-        The type of walk forward split to perform, either `expanding` window or `rolling` window ,
-        by default 'expanding'.
-    freq : Optional[str], optional
-        The frequency of the data, by default None.
-        Required if `groups` provided to the `split` method are not integers.
-
-
-    Methods
-    -------
-    get_n_splits()
-        Return the number of splits.
-
-    split(X, y, groups)
-        Generate indices to split data into training and test sets.
-
-    """
-
-    def __init__(
-        self,
-        n_embargo: Integral,
-        n_purge: Integral = 0,
-        train_window: Integral = 0,
-        test_window: Integral = 0,
-        split_type: str = "expanding",
-        freq: Optional[str] = None,
-    ) -> None:
-        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
-        self.train_window = train_window
-        self.test_window = test_window
-        self.split_type = split_type
-        if split_type not in ["expanding", "rolling"]:
-            raise ValueError("Invalid value for 'split_type'. Must be either 'expanding' or 'rolling'.")
-        self.freq = freq
-        self.n_splits = 0
-        self._finalized_splits = False
-        if freq is not None:
-            self.n_embargo = _to_timedelta(n_embargo, freq)
-            self.train_window = _to_timedelta(train_window, freq)
-            self.test_window = _to_timedelta(test_window, freq)
-
-    def __repr__(self):
-        """Return the string representation of the object."""
-        return (
-            f"WalkForward(n_embargo={self.n_embargo}, n_purge={self.n_purge}, "
-            f"train_window={self.train_window}, test_window={self.test_window}, "
-            f"split_type={self.split_type})"
-        )
-
-    def get_n_splits(
-        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
-    ) -> int:
-        """Return the number of splits."""
-        if self._finalized_splits:
-            return self.n_splits
-        else:
-            warnings.warn("Call the split method first to get the number of splits for WalkForward.")
-            return 0
-
-    def split(
-        self,
-        X: XType,
-        y: Optional[YType] = None,
-        groups: Optional[GroupType] = None,
-    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
-        """Generate indices to split data into training and test sets.
-
-        Parameters
-        ----------
-        X : Union[np.ndarray, pd.DataFrame]
-            The data to split.
-        y : Optional[Union[np.ndarray, pd.Series]], optional
-            The target variable, by default None.
-        groups : Optional[Union[np.ndarray, pd.Series]], optional
-            The groups, indicating datetime. by default None.
-
-        Yields
-        ------
-        Generator[Tuple[np.ndarray, np.ndarray], None, None]
-            Train and test indices.
-
-        """
-        super().split(X, y, groups)
-        self.n_splits = 0
-        self._finalized_splits = False
-        n_samples = X.shape[0]
-        indices = np.arange(n_samples)
-        groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
-        time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
-        if self.train_window < time_unit or self.test_window < time_unit:
-            raise ValueError("train_window and test_window must be at least 1.")
-
-        # Calculate the boundaries of the training set
-        train_start_group = groups[0]
-        train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
-        ]
-        # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
-        test_end_group = groups[
-            np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
-        ]
-        while train_end_group < groups[-1]:
-            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
-            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
-            if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
-                isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
-            ):
-                train_index = _embargo(
-                    train_index=train_index,
-                    test_index=test_index,
-                    indices=indices,
-                    groups=groups,
-                    n_embargo=self.n_embargo,
-                )
-            yield train_index, test_index
-            self.n_splits += 1
-            # if the current end group of the test set is the last group, then we have reached the end of the data
-            if test_end_group >= groups[-1]:
-                self._finalized_splits = True
-                break
-            # update the boundaries of the training and test sets
-            train_end_group = test_end_group
-            if self.split_type == "rolling":
-                train_start_group = train_end_group + time_unit - self.train_window
-            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
-            test_end_group = groups[
-                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
-            ]
-
-
-def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-    """Convert an integer to a timedelta."""
-    return pd.Timedelta(x, unit=freq)
+"""Implementation of Walk forward."""
+
+from numbers import Integral
+from typing import Generator, Optional, Tuple
+import warnings
+
+import numpy as np
+import pandas as pd
+
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _positional_groups
+from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
+
+
+class WalkForward(BaseCV):
+    """Walk forward train-test split.
+
+    Parameters
+    ----------
+    n_embargo : Integral
+        The number of groups to embargo from the test set in order to remove label overlap with training set.
+    n_purge : Integral, optional
+        This parameter is not applicable to WalkForward, by default 0 as it is not used by WalkForward.
+    train_window : Integral, optional
+        The size of the training window, by default 0.
+    test_window : Integral, optional
+        The size of the test window, by default 0.
+    split_type : str, optional
+        The type of walk forward split to perform, either `expanding` window or `rolling` window ,
+        by default 'expanding'.
+    freq : Optional[str], optional
+        The frequency of the data, by default None.
+        Required if `groups` provided to the `split` method are not integers.
+
+
+    Methods
+    -------
+    get_n_splits()
+        Return the number of splits.
+
+    split(X, y, groups)
+        Generate indices to split data into training and test sets.
+
+    """
+
+    def __init__(
+        self,
+        n_embargo: Integral,
+        n_purge: Integral = 0,
+        train_window: Integral = 0,
+        test_window: Integral = 0,
+        split_type: str = "expanding",
+        freq: Optional[str] = None,
+    ) -> None:
+        super().__init__(n_embargo=n_embargo, n_purge=n_purge)
+        self.train_window = train_window
+        self.test_window = test_window
+        self.split_type = split_type
+        if split_type not in ["expanding", "rolling"]:
+            raise ValueError("Invalid value for 'split_type'. Must be either 'expanding' or 'rolling'.")
+        self.freq = freq
+        self.n_splits = 0
+        self._finalized_splits = False
+        if freq is not None:
+            self.n_embargo = _to_timedelta(n_embargo, freq)
+            self.train_window = _to_timedelta(train_window, freq)
+            self.test_window = _to_timedelta(test_window, freq)
+
+    def __repr__(self):
+        """Return the string representation of the object."""
+        return (
+            f"WalkForward(n_embargo={self.n_embargo}, n_purge={self.n_purge}, "
+            f"train_window={self.train_window}, test_window={self.test_window}, "
+            f"split_type={self.split_type})"
+        )
+
+    def get_n_splits(
+        self, X: Optional[XType] = None, y: Optional[YType] = None, groups: Optional[GroupType] = None
+    ) -> int:
+        """Return the number of splits."""
+        if self._finalized_splits:
+            return self.n_splits
+        else:
+            warnings.warn("Call the split method first to get the number of splits for WalkForward.")
+            return 0
+
+    def split(
+        self,
+        X: XType,
+        y: Optional[YType] = None,
+        groups: Optional[GroupType] = None,
+    ) -> Generator[Tuple[IndexType, IndexType], None, None]:
+        """Generate indices to split data into training and test sets.
+
+        Parameters
+        ----------
+        X : Union[np.ndarray, pd.DataFrame]
+            The data to split.
+        y : Optional[Union[np.ndarray, pd.Series]], optional
+            The target variable, by default None.
+        groups : Optional[Union[np.ndarray, pd.Series]], optional
+            The groups, indicating datetime. by default None.
+
+        Yields
+        ------
+        Generator[Tuple[np.ndarray, np.ndarray], None, None]
+            Train and test indices.
+
+        """
+        super().split(X, y, groups)
+        self.n_splits = 0
+        self._finalized_splits = False
+        n_samples = X.shape[0]
+        indices = np.arange(n_samples)
+        groups = _positional_groups(groups) if groups is not None else np.arange(n_samples)
+        time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
+        if self.train_window < time_unit or self.test_window < time_unit:
+            raise ValueError("train_window and test_window must be at least 1.")
+
+        # Calculate the boundaries of the training set
+        train_start_group = groups[0]
+        train_end_group = groups[
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
+        ]
+        # Calculate the boundaries of the test set
+        test_start_group = groups[
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
+        ]
+        test_end_group = groups[
+            np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+        ]
+        while train_end_group < groups[-1]:
+            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
+            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
+            if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
+                isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
+            ):
+                train_index = _embargo(
+                    train_index=train_index,
+                    test_index=test_index,
+                    indices=indices,
+                    groups=groups,
+                    n_embargo=self.n_embargo,
+                )
+            yield train_index, test_index
+            self.n_splits += 1
+            # if the current end group of the test set is the last group, then we have reached the end of the data
+            if test_end_group >= groups[-1]:
+                self._finalized_splits = True
+                break
+            # update the boundaries of the training and test sets
+            train_end_group = test_end_group
+            if self.split_type == "rolling":
+                train_start_group = train_end_group + time_unit - self.train_window
+            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
+            test_end_group = groups[
+                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+            ]
+
+
+def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
+    """Convert an integer to a timedelta."""
+    return pd.Timedelta(x, unit=freq)
-- 
2.43.0

