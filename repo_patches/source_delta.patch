From 3bfa558990ff76995f446a808485a7a877db1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 01/15] fix: resample the symbols in ordinal mutual information
 tests

The ordinal (conditional) mutual information is calculated from symbols made
at construction, so swapping the raw data in the statistical test had no
effect and every test value equalled the observed value.
---
 .../estimators/mutual_information/ordinal.py        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..8acc685 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -141,6 +141,19 @@ class BaseOrdinalMIEstimator(ABC):
                 )
             )
 
+    def _calculate_mi_with_data_selection(self, method_resample_src):
+        """Calculate the measure for resampled source symbols.
+
+        The measure is calculated from the symbols, so the embedding is resampled,
+        not the input data.
+        """
+        symbols = self.symbols
+        try:
+            self.symbols = [method_resample_src(symbols[0]), *symbols[1:]]
+            return self._calculate()
+        finally:
+            self.symbols = symbols
+
 
 class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
     r"""Estimator for the Ordinal mutual information.
-- 
2.43.0


From a365628e38c82663c33f34f82068ff46f788225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 02/15] fix: restore the estimator when a statistical test is
 aborted

An exception or interrupt during the surrogate calculations left the
estimator with shuffled data (MI, CMI) or shuffling switched on (TE, CTE).
---
 infomeasure/estimators/mixins.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..0e589c9 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -294,13 +294,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -335,12 +336,13 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From c00f897a06b09d8e42b41a71ef256fbc3aa13b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 03/15] fix: release the worker pool when a kde evaluation
 fails

When a worker raised, the pool was never closed and its processes stayed.
---
 infomeasure/estimators/utils/kde.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..52a74d9 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -202,10 +202,17 @@ def parallel_kde_evaluate(data, at, bandwidth, workers):
         f"query chunks shape: {query_chunks[0].shape}."
     )
     pool = Pool(processes=workers)
-    results = pool.map(
-        query_chunk,
-        zip([data] * len(query_chunks), query_chunks, [bandwidth] * len(query_chunks)),
-    )
-    pool.close()
-    pool.join()
+    try:
+        results = pool.map(
+            query_chunk,
+            zip(
+                [data] * len(query_chunks),
+                query_chunks,
+                [bandwidth] * len(query_chunks),
+            ),
+        )
+    finally:
+        # All results are in, or the evaluation failed: release the workers
+        pool.terminate()
+        pool.join()
     return concatenate(results, axis=0)
-- 
2.43.0


From 0211283c34a50ba7253290bb13fd8f2818831097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 04/15] fix: do not turn out-of-memory or timeout errors into a
 nan NSB entropy

Any exception raised during the integration was reported, and remembered, as
nan. Only numerical failures are.
---
 infomeasure/estimators/entropy/nsb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..06efe54 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -149,7 +149,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
 
             return entropy_nats
 
-        except Exception as e:
+        except (ArithmeticError, ValueError, Warning) as e:
             logger.warning(f"NSB integration failed: {e}")
             return nan
 
-- 
2.43.0


From 84cadf017360a7374f8da399f46ef97ffdd94ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 05/15] fix: reading the Bayesian probabilities does not change
 the estimator

It replaced a named concentration parameter by the number found for the first
variable, which a later cross-entropy then also used for the second.
---
 infomeasure/estimators/entropy/bayes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..490062b 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -106,10 +106,10 @@ class BayesEntropyEstimator(DiscreteHEstimator):
     def bayes_probs(self):
         K = self.K_param if self.K_param is not None else self.data[0].K
         N = self.data[0].N
-        self.alpha = self._get_alpha(self.alpha, K, N)
+        alpha = self._get_alpha(self.alpha, K, N)
         # Calculate Bayesian probabilities: p_k = (n_k + α) / (N + K*α)
-        weight = N + K * self.alpha
-        bayes_probs = (self.data[0].counts + self.alpha) / weight
+        weight = N + K * alpha
+        bayes_probs = (self.data[0].counts + alpha) / weight
         return bayes_probs
 
     @property
-- 
2.43.0


From 769c7f20aac9e45e92339e21e0fed1d72f1ded93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 06/15] fix: sum cross-entropies and divergences in a fixed
 order

Iterating a set made the floating-point sum over string labels depend on the
hash seed of the process.
---
 infomeasure/composite_measures/jsd.py          | 2 +-
 infomeasure/estimators/entropy/bayes.py        | 4 +---
 infomeasure/estimators/entropy/discrete.py     | 3 +--
 infomeasure/estimators/entropy/miller_madow.py | 3 +--
 infomeasure/estimators/entropy/ordinal.py      | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/infomeasure/composite_measures/jsd.py b/infomeasure/composite_measures/jsd.py
index 1dc1475..f95cb50 100644
--- a/infomeasure/composite_measures/jsd.py
+++ b/infomeasure/composite_measures/jsd.py
@@ -91,7 +91,7 @@ def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
         # )
         dists = {
             key: sum(dist.get(key, 0) for dist in dists) / len(dists)
-            for key in set().union(*dists)
+            for key in dict.fromkeys(key for dist in dists for key in dist)
         }
         mixture = list(dists.values())
         mixture = -np_sum(mixture * estimators[0]._log_base(mixture))
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index 490062b..5de5156 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -175,9 +175,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
             dist_q[val] = (count + alpha_q) / weight_q
 
         # Find common support
-        uniq_p = set(self.data[0].uniq)
-        uniq_q = set(self.data[1].uniq)
-        uniq = list(uniq_p.intersection(uniq_q))
+        uniq = [val for val in dist_p if val in dist_q]
 
         if len(uniq) == 0:
             logger.warning("No common support between the two distributions.")
diff --git a/infomeasure/estimators/entropy/discrete.py b/infomeasure/estimators/entropy/discrete.py
index b4f03fa..4f1c88f 100644
--- a/infomeasure/estimators/entropy/discrete.py
+++ b/infomeasure/estimators/entropy/discrete.py
@@ -103,10 +103,9 @@ class DiscreteEntropyEstimator(DiscreteHEstimator):
         # Calculate distribution of both data sets
         uniq_p = self.data[0].uniq
         dist_p = self.data[0].distribution_dict
-        uniq_q = self.data[1].uniq
         dist_q = self.data[1].distribution_dict
         # Only consider the values where both RV have the same support
-        uniq = list(set(uniq_p).intersection(set(uniq_q)))  # P ∩ Q
+        uniq = [val for val in uniq_p if val in dist_q]  # P ∩ Q, in fixed order
         if len(uniq) == 0:
             logger.warning("No common support between the two distributions.")
             return 0.0
diff --git a/infomeasure/estimators/entropy/miller_madow.py b/infomeasure/estimators/entropy/miller_madow.py
index d8209c8..ea81c78 100644
--- a/infomeasure/estimators/entropy/miller_madow.py
+++ b/infomeasure/estimators/entropy/miller_madow.py
@@ -76,9 +76,8 @@ class MillerMadowEntropyEstimator(DiscreteHEstimator):
         dist_p = self.data[0].distribution_dict
         uniq_p = self.data[0].uniq
         dist_q = self.data[1].distribution_dict
-        uniq_q = self.data[1].uniq
         # Only consider the values where both RV have the same support
-        uniq = list(set(uniq_p).intersection(set(uniq_q)))  # P ∩ Q
+        uniq = [val for val in uniq_p if val in dist_q]  # P ∩ Q, in fixed order
         if len(uniq) == 0:
             logger.warning("No common support between the two distributions.")
             return 0.0
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..805d1f8 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -273,10 +273,9 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         data_q = DiscreteData.from_data(symbols[1])
         uniq_p = data_p.uniq
         dist_p = data_p.distribution_dict
-        uniq_q = data_q.uniq
         dist_q = data_q.distribution_dict
         # Only consider the values where both RV have the same support
-        uniq = list(set(uniq_p).intersection(set(uniq_q)))  # P ∩ Q
+        uniq = [val for val in uniq_p if val in dist_q]  # P ∩ Q, in fixed order
         if len(uniq) == 0:
             logger.warning("No common support between the two distributions.")
             return 0.0
-- 
2.43.0


From a7e10875d1daec020279ac1000548ead9195fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 07/15] fix: use the configured logarithm base at construction

The default base was read when the modules were imported, so changing it with
Config.set or Config.set_logarithmic_unit had no effect on any calculation.
---
 infomeasure/estimators/base.py                | 22 ++++++++++---------
 infomeasure/estimators/entropy/ansb.py        |  3 +--
 infomeasure/estimators/entropy/bayes.py       |  3 +--
 infomeasure/estimators/entropy/kernel.py      |  3 +--
 .../estimators/entropy/kozachenko_leonenko.py |  3 +--
 infomeasure/estimators/entropy/nsb.py         |  3 +--
 infomeasure/estimators/entropy/ordinal.py     |  3 +--
 infomeasure/estimators/entropy/renyi.py       |  3 +--
 infomeasure/estimators/entropy/tsallis.py     |  3 +--
 .../estimators/mutual_information/ansb.py     |  3 +--
 .../estimators/mutual_information/bayes.py    |  3 +--
 .../mutual_information/bonachela.py           |  3 +--
 .../mutual_information/chao_shen.py           |  3 +--
 .../mutual_information/chao_wang_jost.py      |  3 +--
 .../estimators/mutual_information/discrete.py |  3 +--
 .../mutual_information/grassberger.py         |  3 +--
 .../estimators/mutual_information/kernel.py   |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../mutual_information/miller_madow.py        |  3 +--
 .../estimators/mutual_information/nsb.py      |  3 +--
 .../estimators/mutual_information/ordinal.py  |  3 +--
 .../estimators/mutual_information/renyi.py    |  3 +--
 .../estimators/mutual_information/shrink.py   |  3 +--
 .../estimators/mutual_information/tsallis.py  |  3 +--
 .../estimators/mutual_information/zhang.py    |  3 +--
 .../estimators/transfer_entropy/ansb.py       |  3 +--
 .../estimators/transfer_entropy/bayes.py      |  3 +--
 .../estimators/transfer_entropy/bonachela.py  |  3 +--
 .../estimators/transfer_entropy/chao_shen.py  |  3 +--
 .../transfer_entropy/chao_wang_jost.py        |  3 +--
 .../estimators/transfer_entropy/discrete.py   |  3 +--
 .../transfer_entropy/grassberger.py           |  3 +--
 .../estimators/transfer_entropy/kernel.py     |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../transfer_entropy/miller_madow.py          |  3 +--
 .../estimators/transfer_entropy/nsb.py        |  3 +--
 .../estimators/transfer_entropy/ordinal.py    |  3 +--
 .../estimators/transfer_entropy/renyi.py      |  3 +--
 .../estimators/transfer_entropy/shrink.py     |  3 +--
 .../estimators/transfer_entropy/tsallis.py    |  3 +--
 .../estimators/transfer_entropy/zhang.py      |  3 +--
 41 files changed, 52 insertions(+), 90 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..4c0a5be 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,12 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        # Without explicit base, use the one configured at this moment
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +280,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +482,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +641,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +802,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +989,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,7 +1146,8 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
+            base = kwargs.get("base")
+            self.base = Config.get("base") if base is None else base
             self.res_global = None
             self.res_local = None
             return
@@ -1160,7 +1162,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
 
     @classmethod
     def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
+        cls, uniq, counts, base: LogBaseType = None, **kwargs
     ):
         """Construct a DiscreteHEstimator from the provided counts.
 
@@ -1176,7 +1178,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..d98aa0c 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -6,7 +6,6 @@ from scipy.special import digamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index 5de5156..c75fed4 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -3,7 +3,6 @@
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -68,7 +67,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..aa3d361 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -2,7 +2,6 @@
 
 from numpy import column_stack, sum as np_sum, isnan, nan
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import EntropyEstimator
 from ..mixins import WorkersMixin
@@ -129,7 +128,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..f29090b 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -9,7 +9,6 @@ from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
 from ..utils.array import assure_2d_data
 from ..utils.unit_ball_volume import unit_ball_volume
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -131,7 +130,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 06efe54..2aca1e4 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -10,7 +10,6 @@ from scipy.special import loggamma, digamma, polygamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -80,7 +79,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 805d1f8..2119e17 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -15,7 +15,6 @@ from numpy import (
 
 from ..base import EntropyEstimator
 from ..utils.ordinal import reduce_joint_space, symbolize_series
-from ... import Config
 from ...utils.config import logger
 from ...utils.data import DiscreteData
 from ...utils.types import LogBaseType
@@ -67,7 +66,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..3e6fbec 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -49,7 +48,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..c0a27fb 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -47,7 +46,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..5991b42 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -40,7 +39,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..b81c44f 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..ab57fb0 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..629b403 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..26a1030 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..fe405d8 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -16,7 +16,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import reduce_joint_space
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..865d333 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..4afa6c1 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -12,7 +12,6 @@ from ..base import (
 from ..mixins import WorkersMixin
 from ..utils.array import assure_2d_data
 from ..utils.kde import kde_probability_density_function
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -53,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..5963ed8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalMutualInformationEstimator,
 )
 from ..utils.array import assure_2d_data
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -57,7 +56,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..c34df35 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -41,7 +40,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..cf22e7b 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -39,7 +38,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 8acc685..fe920ad 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import symbolize_series, reduce_joint_space
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -69,7 +68,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..0d07617 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..8226eea 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..380d86a 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..78d123b 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..e086624 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -55,7 +54,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..1ef7285 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -63,7 +62,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..7df0ec1 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..7313f36 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..d5918b3 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..05e7b16 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -12,7 +12,6 @@ from ..mixins import DiscreteTEMixin
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import reduce_joint_space
 from ..utils.te_slicing import cte_observations, te_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..450ada6 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..190bea7 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import isinf, isnan
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -65,7 +64,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..da9a9f2 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalTransferEntropyEstimator,
 )
 from ..utils.te_slicing import te_observations, cte_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..099433e 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import ndarray
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -52,7 +51,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..0d7f563 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..e6f1a83 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import integer, issubdtype, ndarray
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -76,7 +75,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..65413c9 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -71,7 +70,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..5637bd5 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..1c5c1eb 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -72,7 +71,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..1549e30 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From d04f2f877cfcc726e826129fa0b363b0e02cc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 08/15] fix: pass the step size on to ordinal entropy and MI
 estimators

---
 infomeasure/estimators/functional.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..58f8138 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -695,6 +695,15 @@ def estimator(
     if measure is None:
         raise ValueError("``measure`` is required.")
     measure_comp = measure.lower().replace(" ", "_").replace("-", "_")
+    if (
+        step_size != 1
+        and isinstance(approach, str)
+        and approach.lower() in ["ordinal", "symbolic", "permutation"]
+        and "transfer_entropy" not in measure_comp
+        and measure_comp not in ["te", "cte"]
+    ):
+        # Ordinal patterns have a step size for every measure, not only for TE and CTE
+        kwargs["step_size"] = step_size
     if measure_comp in ["entropy", "h", "cross_entropy", "hx"]:
         if len(data) == 0 and measure_comp in ["entropy", "h"]:
             raise ValueError("``data`` is required for entropy estimation.")
-- 
2.43.0


From 86985c38e313969adf1b95d7f60f8d26a01e6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 09/15] fix: switch surrogates off again however early a test
 is aborted

---
 infomeasure/estimators/mixins.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 0e589c9..7ff693e 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -325,18 +325,18 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
         ValueError
             If the method is invalid.
         """
-        # Set up resampling method
-        if method == "permutation_test":
-            self.permute_src = self.rng
-            self.resample_src = False
-        elif method == "bootstrap":
-            self.permute_src = False
-            self.resample_src = self.rng
-        else:
-            raise ValueError(f"Invalid statistical test method: {method}.")
-
-        # Generate test values
         try:
+            # Set up resampling method
+            if method == "permutation_test":
+                self.permute_src = self.rng
+                self.resample_src = False
+            elif method == "bootstrap":
+                self.permute_src = False
+                self.resample_src = self.rng
+            else:
+                raise ValueError(f"Invalid statistical test method: {method}.")
+
+            # Generate test values
             permuted_values = [self._calculate() for _ in range(n_tests)]
         finally:
             # Deactivate the permutation/resample flags
-- 
2.43.0


From 121d74f4ab041a7f3c29f1ce39b1a2afcda0d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 10/15] fix: use a symmetric eigendecomposition in the Gaussian
 KDE

A covariance matrix is symmetric; eig() could return complex eigenvalues for
rank-deficient samples, and the kernel density estimate then raised on
'Buffer dtype mismatch ... complex double'.
---
 infomeasure/estimators/utils/kde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 52a74d9..de491d5 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -13,7 +13,7 @@ from numpy import (
     number,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig
+from numpy.linalg import eigh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -133,8 +133,8 @@ def gaussian_kernel_densities(
     if data.shape[0] > 1:  # Multivariate case
         # Calculate covariance matrix
         covariance_matrix = cov(data)
-        # Get eigenvalues and eigenvectors
-        values, vectors = eig(covariance_matrix)
+        # Get eigenvalues and eigenvectors (of a symmetric matrix: always real)
+        values, vectors = eigh(covariance_matrix)
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-- 
2.43.0


From 52edce66c4f43ad8b497ff6285ce340b83eeebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 11/15] fix: refuse a significance test of one surrogate before
 drawing it

statistical_test(1) raised 'Not enough test values' only after it had drawn a
surrogate, so the refused call moved the estimator's random generator.
---
 infomeasure/estimators/mixins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 7ff693e..5f4e876 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -98,7 +98,7 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
         ----------
         n_tests : int, optional
             Number of permutations or bootstrap samples.
-            Needs to be a positive integer.
+            Needs to be an integer of at least 2.
             Default is the value set in the configuration.
         method : str, optional
             The method to calculate the statistical test.
@@ -119,7 +119,9 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
         io.UnsupportedOperation
             If the statistical test is not supported for the estimator type.
         """
-        method, n_tests, test_values = self._statistical_test(method, n_tests)
+        method, n_tests, test_values = self._statistical_test(
+            method, n_tests, min_tests=2
+        )
         # Make a test result
         return self._statistical_test_result(
             observed_value=self.global_val(),
@@ -128,7 +130,7 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             method=method,
         )
 
-    def _statistical_test(self, method, n_tests):
+    def _statistical_test(self, method, n_tests, min_tests=1):
         # Set defaults
         if n_tests is None:
             n_tests = Config.get("statistical_test_n_tests")
@@ -145,6 +147,8 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
                 "Number of tests must be a positive integer, "
                 f"not {n_tests} ({type(n_tests)})."
             )
+        if n_tests < min_tests:  # refuse before drawing any surrogate
+            raise ValueError("Not enough test values for statistical test.")
         class_names = [cls.__name__ for cls in self.__class__.__mro__]
         if any(
             name in class_names
-- 
2.43.0


From 7857d0c0bb65414e2a30404ad1176fc0c9d36feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 12/15] fix: keep the NSB entropy independent of the caller's
 underflow handling

With numpy told to raise on underflow, a vanishing integrand was reported as a
failed integration and the entropy as nan; likewise an integration warning that
the caller's filters turn into an error.
---
 infomeasure/estimators/entropy/nsb.py | 58 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 2aca1e4..da3d060 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -2,7 +2,7 @@
 
 from functools import lru_cache
 
-from numpy import exp, log, nan
+from numpy import errstate, exp, log, nan
 from scipy.integrate import quad
 from scipy.optimize import minimize_scalar, root_scalar
 from scipy.special import loggamma, digamma, polygamma
@@ -109,32 +109,34 @@ class NsbEntropyEstimator(DiscreteHEstimator):
 
         # Numerical integration for NSB estimate
         try:
-            # Numerator: integral of rho * bayes_entropy
-            numerator, _ = quad(
-                lambda beta: (
-                    exp(-self._neg_log_rho(beta, K, N, counts) + l0)
-                    * self._dxi(beta, K)
-                    * self._bayes(beta, K, counts)
-                ),
-                0,
-                log_K,
-                limit=100,
-                # epsabs=1e-8,
-                # epsrel=1e-6,
-            )
-
-            # Denominator: integral of rho
-            denominator, _ = quad(
-                lambda beta: (
-                    exp(-self._neg_log_rho(beta, K, N, counts) + l0)
-                    * self._dxi(beta, K)
-                ),
-                0,
-                log_K,
-                limit=100,
-                # epsabs=1e-8,
-                # epsrel=1e-6,
-            )
+            # a vanishing integrand is no failure, whatever the caller's error handling
+            with errstate(under="ignore"):
+                # Numerator: integral of rho * bayes_entropy
+                numerator, _ = quad(
+                    lambda beta: (
+                        exp(-self._neg_log_rho(beta, K, N, counts) + l0)
+                        * self._dxi(beta, K)
+                        * self._bayes(beta, K, counts)
+                    ),
+                    0,
+                    log_K,
+                    limit=100,
+                    # epsabs=1e-8,
+                    # epsrel=1e-6,
+                )
+
+                # Denominator: integral of rho
+                denominator, _ = quad(
+                    lambda beta: (
+                        exp(-self._neg_log_rho(beta, K, N, counts) + l0)
+                        * self._dxi(beta, K)
+                    ),
+                    0,
+                    log_K,
+                    limit=100,
+                    # epsabs=1e-8,
+                    # epsrel=1e-6,
+                )
 
             if denominator == 0:
                 logger.warning("NSB integration failed - denominator is zero")
@@ -148,7 +150,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
 
             return entropy_nats
 
-        except (ArithmeticError, ValueError, Warning) as e:
+        except (ArithmeticError, ValueError, RuntimeWarning) as e:
             logger.warning(f"NSB integration failed: {e}")
             return nan
 
-- 
2.43.0


From 09549a15415613b08f1d5585ad0bd213193b3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 13/15] fix: end a kernel estimate with an error when one of
 its workers dies

A worker killed by the system (out of memory, say) left Pool.map waiting
forever.  The executor notices and raises BrokenProcessPool.
---
 infomeasure/estimators/utils/kde.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index de491d5..52910a7 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -1,6 +1,7 @@
 """Kernel Density Estimation (KDE) utilities."""
 
-from multiprocessing import Pool, cpu_count
+from concurrent.futures import ProcessPoolExecutor
+from multiprocessing import cpu_count
 
 from numpy import (
     argsort,
@@ -201,18 +202,16 @@ def parallel_kde_evaluate(data, at, bandwidth, workers):
         f"Evaluating kde on {workers} workers with data size {at.shape} and "
         f"query chunks shape: {query_chunks[0].shape}."
     )
-    pool = Pool(processes=workers)
-    try:
-        results = pool.map(
-            query_chunk,
-            zip(
-                [data] * len(query_chunks),
-                query_chunks,
-                [bandwidth] * len(query_chunks),
-            ),
+    # Unlike a Pool, the executor notices when a worker dies instead of waiting forever
+    with ProcessPoolExecutor(max_workers=workers) as executor:
+        results = list(
+            executor.map(
+                query_chunk,
+                zip(
+                    [data] * len(query_chunks),
+                    query_chunks,
+                    [bandwidth] * len(query_chunks),
+                ),
+            )
         )
-    finally:
-        # All results are in, or the evaluation failed: release the workers
-        pool.terminate()
-        pool.join()
     return concatenate(results, axis=0)
-- 
2.43.0


From 61150c96789d10143ea9abe935f8412e7456da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 14/15] fix: add the KSG noise to the condition once, not once
 per sample

---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5963ed8..391b695 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -282,7 +282,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+            cond += self.rng.normal(0, self.noise_level, cond.shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From 2439e67040c0d5714f70de31fd91e1bc62e27612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:54 +0000
Subject: [PATCH 15/15] fix: add noise whatever number type the noise level has

---
 infomeasure/estimators/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 4c0a5be..42705f9 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -901,7 +901,7 @@ class TransferEntropyEstimator(
                 "Please use a different estimator."
             )
         # Add Gaussian noise to the data if the flag is set
-        if isinstance(noise_level, (int, float)) and noise_level != 0:
+        if noise_level:
             source = source.astype(float)
             dest = dest.astype(float)
             source += self.rng.normal(0, noise_level, source.shape)
@@ -1054,7 +1054,7 @@ class ConditionalTransferEntropyEstimator(
         cond = self.cond.copy()
 
         # Add Gaussian noise to the data if the flag is set
-        if isinstance(noise_level, (int, float)) and noise_level != 0:
+        if noise_level:
             source = source.astype(float)
             dest = dest.astype(float)
             cond = cond.astype(float)
-- 
2.43.0

