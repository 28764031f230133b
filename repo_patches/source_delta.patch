From 80f4e778df563119fa601161bcd88b6f980ff3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 01/34] fix: take critical values as quantiles of the whole
 limit distribution

The quantile was taken over the distinct values only, so repeated values of a discrete
statistic lost their probability mass.
---
 .../calculator/critical_value_calculator.py          | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
index bc7ee5f..cb888b4 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/calculator/critical_value_calculator.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.stats as scipy_stats
 from typing_extensions import override
 
 from pysatl_criterion.hypothesis_testing.critical_values.calculator.model import (
@@ -25,8 +24,7 @@ class LeftCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the lower-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=significance_level))
+        return float(np.quantile(limit_distribution, q=significance_level))
 
 
 class RightCriticalValueCalculator(CriticalValueCalculator[float]):
@@ -47,8 +45,7 @@ class RightCriticalValueCalculator(CriticalValueCalculator[float]):
         :param significance_level: test significance level.
         :return: critical value at the upper-tail significance quantile.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
-        return float(np.quantile(ecdf.cdf.quantiles, q=1 - significance_level))
+        return float(np.quantile(limit_distribution, q=1 - significance_level))
 
 
 class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float]]):
@@ -69,9 +66,8 @@ class TwoSidedCriticalValueCalculator(CriticalValueCalculator[tuple[float, float
         :param significance_level: test significance level split between both tails.
         :return: tuple of lower and upper critical values.
         """
-        ecdf = scipy_stats.ecdf(limit_distribution)
         sl = significance_level / 2
-        left = float(np.quantile(ecdf.cdf.quantiles, q=sl))
-        right = float(np.quantile(ecdf.cdf.quantiles, q=1 - sl))
+        left = float(np.quantile(limit_distribution, q=sl))
+        right = float(np.quantile(limit_distribution, q=1 - sl))
 
         return left, right
-- 
2.43.0


From c74a2fe451604c59eb8d1edc857828f5b069e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/34] fix: look into the local storage before loading from
 the remote one

CriticalValueLoader.load asked the remote storage twice and therefore never cached anything.
---
 .../hypothesis_testing/critical_values/loader/remote_loader.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index ad8e0d1..5f8f774 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -38,7 +38,7 @@ class CriticalValueLoader:
             logging.error("Cannot load data: remote storage is not initialized.")
             return False
 
-        if self.__remote_storage.get_data_for_cv(query):
+        if self.__local_storage.get_data_for_cv(query):
             return True
 
         remote_data = self.__remote_storage.get_data_for_cv(query)
-- 
2.43.0


From 61120bd13628473ada11af94bd1e06e006f9600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 03/34] fix: honour sample_size_error when looking up data for
 critical values

---
 src/pysatl_criterion/persistence/sqlalchemy/datastorage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 3fdd310..4d9c0fd 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -168,7 +168,10 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 select(LimitDistributionORM)
                 .where(
                     LimitDistributionORM.criterion_code == query.criterion_code,
-                    LimitDistributionORM.sample_size == query.sample_size,
+                    LimitDistributionORM.sample_size.between(
+                        query.sample_size - query.sample_size_error,
+                        query.sample_size + query.sample_size_error,
+                    ),
                 )
                 .order_by(desc(LimitDistributionORM.monte_carlo_count))
                 .limit(1)
-- 
2.43.0


From adf5c8b92d8c6ac6a61fc00f236d693126ef1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 04/34] fix: do not report distributions as cached when saving
 them locally failed

---
 .../critical_values/loader/remote_loader.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
index 5f8f774..09cdc75 100644
--- a/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
+++ b/src/pysatl_criterion/hypothesis_testing/critical_values/loader/remote_loader.py
@@ -93,8 +93,10 @@ class CriticalValueLoader:
         )
 
         # 3. Bulk insert into local
+        newly_cached_count = 0
         try:
             self.__local_storage.insert_bulk_data(remote_models)
+            newly_cached_count = len(remote_models)
             logger.info(f"Successfully cached {len(remote_models)} new distributions.")
         except Exception as e:
             logger.error(f"Failed to save bulk data to local storage: {e}")
@@ -112,6 +114,6 @@ class CriticalValueLoader:
         return BulkLoadResult(
             requested_count=len(criterion_codes),
             already_cached_count=len(already_cached),
-            newly_cached_count=len(remote_models),
+            newly_cached_count=newly_cached_count,
             not_found_codes=not_found,
         )
-- 
2.43.0


From 558793912fc29fb3b1b38780200044206b9f0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 05/34] fix: look up and delete distributions stored under
 several experiments

---
 .../persistence/sqlalchemy/datastorage.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
index 4d9c0fd..ae7db72 100644
--- a/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
+++ b/src/pysatl_criterion/persistence/sqlalchemy/datastorage.py
@@ -2,7 +2,7 @@ import json
 import logging
 from typing import Optional
 
-from sqlalchemy import create_engine, desc, select
+from sqlalchemy import create_engine, delete, desc, select
 from sqlalchemy.exc import OperationalError
 from sqlalchemy.orm import sessionmaker
 
@@ -86,6 +86,8 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
+            # the same key may be stored for several experiments: take the latest one
+            stmt = stmt.order_by(desc(LimitDistributionORM.experiment_id)).limit(1)
             result = session.execute(stmt).scalar_one_or_none()
             return result.to_model() if result else None
 
@@ -142,16 +144,14 @@ class AlchemyLimitDistributionStorage(ILimitDistributionStorage):
         Delete limit distribution data based on the provided query parameters.
         """
         with self.Session() as session:
-            stmt = select(LimitDistributionORM).where(
+            stmt = delete(LimitDistributionORM).where(
                 LimitDistributionORM.criterion_code == query.criterion_code,
                 LimitDistributionORM.criterion_parameters == json.dumps(query.criterion_parameters),
                 LimitDistributionORM.sample_size == query.sample_size,
                 LimitDistributionORM.monte_carlo_count == query.monte_carlo_count,
             )
-            obj = session.execute(stmt).scalar_one_or_none()
-            if obj:
-                session.delete(obj)
-                session.commit()
+            session.execute(stmt)
+            session.commit()
 
     def get_data_for_cv(self, query: CriticalValueQuery) -> LimitDistributionModel | None:
         """
-- 
2.43.0


From 89a00c9a26573f5874bd1158b181e1b7d848e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 06/34] fix: simulate beta criteria with the hypothesised
 parameters

The hypothesis named them alpha and beta; the beta generator takes a and b and
ignores unknown keywords, so null distributions were always those of Beta(1, 1).
---
 src/pysatl_criterion/statistics/goodness_of_fit/beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
index 1c74a4d..6b13b79 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/beta.py
@@ -35,7 +35,7 @@ class AbstractBetaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"a": self.alpha, "b": self.beta})
 
     @staticmethod
     def _validate_rvs(rvs):
-- 
2.43.0


From 01eeabcf204a7ae432cabe73433ac3b2cf6a3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 07/34] fix: simulate gamma criteria with the hypothesised
 parameters

The hypothesis named the shape alpha (the gamma generator takes alfa and ignores
unknown keywords) and passed the scale where the generator takes the rate.
---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index a10aea4..2267257 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alpha": self.alpha, "beta": self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": 1 / self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From efce476a7d51e76b2f1a923c8b35c39ec7e3e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 08/34] fix: simulate log-normal criteria with the hypothesised
 parameters

The generator takes the logarithm mu of the scale and ignores unknown keywords.
---
 src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
index 7afe59b..c82b1c9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/log_normal.py
@@ -33,7 +33,7 @@ class AbstractLogNormalGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"s": self.s, "scale": self.scale})
+        return GoodnessOfFitHypothesis({"s": self.s, "mu": float(np.log(self.scale))})
 
     @staticmethod
     @override
-- 
2.43.0


From 074d109e270dcda03e3893adeacc8efd546e955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 09/34] fix: draw Rice samples with the given distance from the
 origin

scipy takes the ratio nu / sigma as shape.
---
 src/pysatl_criterion/core/distributions/rice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/rice.py b/src/pysatl_criterion/core/distributions/rice.py
index ecd783a..f6b7a0a 100644
--- a/src/pysatl_criterion/core/distributions/rice.py
+++ b/src/pysatl_criterion/core/distributions/rice.py
@@ -43,4 +43,4 @@ def generate_rice(size, nu=0, sigma=1):
     >>> generate_rice(5, nu=2.0, sigma=1.0)
     array([...])
     """
-    return rice.rvs(nu, size=size, scale=sigma)
+    return rice.rvs(nu / sigma, size=size, scale=sigma)
-- 
2.43.0


From 00daaf3399a1f5815e06ba248939a4046c076246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 10/34] fix: truncate the normal distribution at the given
 bounds

scipy takes the bounds of the standardised variable.
---
 src/pysatl_criterion/core/distributions/truncnormal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/core/distributions/truncnormal.py b/src/pysatl_criterion/core/distributions/truncnormal.py
index fc67c7c..f815f8d 100644
--- a/src/pysatl_criterion/core/distributions/truncnormal.py
+++ b/src/pysatl_criterion/core/distributions/truncnormal.py
@@ -47,4 +47,7 @@ def generate_truncnorm(size, mean=0, var=1, a=-10, b=10):
     >>> generate_truncnorm(5, mean=0, var=1, a=-2, b=2)
     array([...])
     """
-    return truncnorm.rvs(a=a, b=b, size=size, loc=mean, scale=np.sqrt(var))
+    scale = np.sqrt(var)
+    return truncnorm.rvs(
+        a=(a - mean) / scale, b=(b - mean) / scale, size=size, loc=mean, scale=scale
+    )
-- 
2.43.0


From 0da001bda9f499d65c492d0caee88e60fc147a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 11/34] fix: give the inverse Gaussian and Gompertz generators
 usable defaults

A zero mean or shape is outside the domain; the sampler refused the defaults.
---
 src/pysatl_criterion/generator/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pysatl_criterion/generator/generators.py b/src/pysatl_criterion/generator/generators.py
index a8d6e07..29c3397 100644
--- a/src/pysatl_criterion/generator/generators.py
+++ b/src/pysatl_criterion/generator/generators.py
@@ -712,13 +712,13 @@ class InvGaussGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    mu : float, default=0
+    mu : float, default=1
         Mean parameter.
     lam : float, default=1
         Shape parameter.
     """
 
-    def __init__(self, mu=0, lam=1, **kwargs):
+    def __init__(self, mu=1, lam=1, **kwargs):
         super().__init__(**kwargs)
         self.mu = mu
         self.lam = lam
@@ -788,13 +788,13 @@ class GompertzGenerator(AbstractRVSGenerator):
 
     Parameters
     ----------
-    eta : float, default=0
+    eta : float, default=1
         Shape parameter.
     b : float, default=1
         Scale parameter.
     """
 
-    def __init__(self, eta=0, b=1, **kwargs):
+    def __init__(self, eta=1, b=1, **kwargs):
         super().__init__(**kwargs)
         self.eta = eta
         self.b = b
-- 
2.43.0


From 94d5b843a03239537df5aa2ff89558ffa7e1eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 12/34] fix: let the inverse Gaussian descriptor's default mean
 pass its validator

---
 src/pysatl_criterion/distribution/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 3191b7f..bb4608f 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -412,7 +412,7 @@ class InvGaussDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for mean and shape parameters.
         """
         return [
-            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 0, PositiveNumberValidator()),
+            DistributionParameterDescriptor("μ", "mu", "Mean. μ > 0", 1, PositiveNumberValidator()),
             DistributionParameterDescriptor(
                 "λ", "lam", "Shape. λ > 0", 1, PositiveNumberValidator()
             ),
-- 
2.43.0


From b93569f3eeab077e58cfb30913745da28bc318d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 13/34] fix: validate the distance parameter of the Rice
 distribution as documented

---
 src/pysatl_criterion/distribution/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index bb4608f..67627c3 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -650,6 +650,7 @@ class RiceDistributionDescriptor(DistributionDescriptor):
                 "Distance between the reference point and the center of the bivariate "
                 "distribution. v >= 0,",
                 0,
+                NonNegativeNumberValidator(),
             ),
             DistributionParameterDescriptor(
                 "σ", "sigma", "Scale. σ >= 0", 1, NonNegativeNumberValidator()
-- 
2.43.0


From abc440e05636a22c56e692b9336b03d37558fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 14/34] fix: describe the log-normal distribution by its
 generator's parameters

The generator takes mu and s and ignores unknown keywords, so mean and var were lost.
---
 src/pysatl_criterion/distribution/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/distribution/distributions.py b/src/pysatl_criterion/distribution/distributions.py
index 67627c3..2f47f67 100644
--- a/src/pysatl_criterion/distribution/distributions.py
+++ b/src/pysatl_criterion/distribution/distributions.py
@@ -268,9 +268,9 @@ class LogNormalDistributionDescriptor(DistributionDescriptor):
         :return: descriptors for logarithmic mean and variance.
         """
         return [
-            DistributionParameterDescriptor("μ", "mean", "Logarithm of mean", 0),
+            DistributionParameterDescriptor("μ", "mu", "Mean of the logarithm", 0),
             DistributionParameterDescriptor(
-                "σ²", "var", "Logarithm of variance. σ² > 0", 1, PositiveNumberValidator()
+                "σ", "s", "Standard deviation of the logarithm. σ > 0", 1, PositiveNumberValidator()
             ),
         ]
 
-- 
2.43.0


From 560e1a78ca0ec8598ce17661c8cc17c3d244cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 15/34] fix: treat the second parameter of gamma criteria as
 rate in their hypothesis

All gamma criteria evaluate the gamma distribution with scale 1 / beta, so the
hypothesis has to hand on beta itself to the generator, which takes the rate.
---
 src/pysatl_criterion/statistics/goodness_of_fit/gamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
index 2267257..97a4a45 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/gamma.py
@@ -45,7 +45,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
         Initialize Gamma distribution goodness-of-fit statistic.
 
         :param alpha: shape parameter (alpha) > 0.
-        :param beta: scale parameter (beta) > 0.
+        :param beta: rate parameter (beta) > 0, the inverse of the scale.
         :raises ValueError: if shape or scale is not positive.
         """
         if alpha <= 0:
@@ -57,7 +57,7 @@ class AbstractGammaGofStatistic(AbstractGoodnessOfFitStatistic, ABC):
 
     @override
     def hypothesis(self) -> GoodnessOfFitHypothesis:
-        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": 1 / self.beta})
+        return GoodnessOfFitHypothesis({"alfa": self.alpha, "beta": self.beta})
 
     @staticmethod
     @override
-- 
2.43.0


From b16656976dcad1d5bd118f42bf7b9adb9f0ecda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 16/34] fix: leave the caller's sample as it is when evaluating
 a criterion

Ten criteria sorted the given sample in place.
---
 .../statistics/goodness_of_fit/exponent.py         | 14 +++++++-------
 .../goodness_of_fit/graph_goodness_of_fit.py       |  4 ++--
 .../statistics/goodness_of_fit/normal.py           |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 7eb11a6..f726608 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -459,7 +459,7 @@ class EpsteinExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         x = np.concatenate(([0], rvs))
         d = (np.arange(n, 0, -1)) * (x[1 : n + 1] - x[0:n])
         eps = 2 * n * (np.log(np.sum(d) / n) - (np.sum(np.log(d))) / n) / (1 + (n + 1) / (6 * n))
@@ -509,7 +509,7 @@ class FroziniExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         rvs = np.array(rvs)
         y = np.mean(rvs)
         froz = (1 / np.sqrt(n)) * np.sum(
@@ -820,7 +820,7 @@ class KimberMichaelExponentialityGofStatistic(AbstractExponentialityGofStatistic
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         s = (2 / np.pi) * np.arcsin(np.sqrt(1 - np.exp(-(rvs / y))))
         r = (2 / np.pi) * np.arcsin(np.sqrt((np.arange(1, n + 1) - 0.5) / n))
@@ -871,7 +871,7 @@ class KocharExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         u = np.array([(i + 1) / (n + 1) for i in range(n)])
         j = 2 * (1 - u) * (1 - np.log(1 - u)) - 1
         kc = np.sqrt(108 * n / 17) * (np.sum(j * rvs)) / np.sum(rvs)
@@ -922,7 +922,7 @@ class LorenzExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         lz = sum(rvs[: int(n * p)]) / sum(rvs)
 
         return lz
@@ -1066,7 +1066,7 @@ class ShapiroWilkExponentialityGofStatistic(AbstractExponentialityGofStatistic):
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         y = np.mean(rvs)
         sw = n * (y - rvs[0]) ** 2 / ((n - 1) * np.sum((rvs - y) ** 2))
 
@@ -1285,7 +1285,7 @@ class HegazyGreen2ExponentialityGofStatistic(AbstractExponentialityGofStatistic)
         """
 
         n = len(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
         b = -np.log(1 - np.arange(1, n + 1) / (n + 1))
         hg = (n ** (-1)) * np.sum((rvs - b) ** 2)
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index e3ceff6..f9dfc74 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -188,7 +188,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         :return: size of the maximum clique.
         """
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         right_border = 0
         clique_number = 0
@@ -229,7 +229,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
             return 0
 
         dist = self._compute_dist(rvs)
-        rvs.sort()
+        rvs = np.sort(rvs)
 
         stat = 1
         last_chosen_position = rvs[0]
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 4779330..3babf5e 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -839,7 +839,7 @@ class Hosking3NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
+            x_tmp = x[:n].copy()
             x_tmp.sort()
             l22 = 0.0
             l32 = 0.0
@@ -907,7 +907,7 @@ class Hosking4NormalityGofStatistic(AbstractNormalityGofStatistic):
         n = len(x)
 
         if n > 3:
-            x_tmp = x[:n]
+            x_tmp = x[:n].copy()
             x_tmp.sort()
             l23 = 0.0
             l33 = 0.0
-- 
2.43.0


From a8694fe36126571e22f70b58cbc364af4196db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 17/34] fix: do not count one vertex too many in the graph
 clique number

When the window reached the largest observation its size was taken plus one.
---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index f9dfc74..07daa21 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -196,7 +196,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
             if right_border == len(rvs):
-                clique_number = max(clique_number, right_border - left_border + 1)
+                clique_number = max(clique_number, right_border - left_border)
                 break
             clique_number = max(clique_number, right_border - left_border)
         return clique_number
-- 
2.43.0


From 34c4bc570c9c09aba39ddeea64a3456775c94e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 18/34] fix: compute the graph independence number of array
 samples

The emptiness test raised an error for every numpy array, the form in which samples
are generated.
---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 07daa21..1bb7d5d 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -225,7 +225,7 @@ class GraphIndependenceNumberTestStatistic(AbstractGraphTestStatistic):
         :param rvs: array of observed data samples.
         :return: size of the maximum independent set.
         """
-        if not rvs:
+        if len(rvs) == 0:
             return 0
 
         dist = self._compute_dist(rvs)
-- 
2.43.0


From 02f19cec346708521c19f816e428ddca48b27e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 19/34] fix: compare samples with the hypothesised normal and
 exponential distribution

The Kolmogorov-Smirnov and Cramer-von Mises criteria ignored mean, variance and rate
and always compared with the standard distribution.
---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index f726608..797ec8b 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -155,7 +155,7 @@ class KolmogorovSmirnovExponentialityGofStatistic(AbstractExponentialityGofStati
         """
 
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.expon.cdf(rvs)
+        cdf_vals = scipy_stats.expon.cdf(rvs, scale=1 / self.lam)
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 3babf5e..7eae61c 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -88,7 +88,7 @@ class KolmogorovSmirnovNormalityGofStatistic(AbstractNormalityGofStatistic, KSSt
     @override
     def execute_statistic(self, rvs, **kwargs):
         rvs = np.sort(rvs)
-        cdf_vals = scipy_stats.norm.cdf(rvs)
+        cdf_vals = scipy_stats.norm.cdf(rvs, loc=self.mean, scale=np.sqrt(self.var))
         return KSStatistic.do_execute_statistic(self, rvs, cdf_vals)
 
 
@@ -220,7 +220,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def execute_statistic(self, rvs):
         sorted_rvs = np.sort(np.asarray(rvs))
-        cdf_vals = scipy_stats.norm.cdf(sorted_rvs)
+        cdf_vals = scipy_stats.norm.cdf(sorted_rvs, loc=self.mean, scale=np.sqrt(self.var))
 
         return CrammerVonMisesStatistic.do_execute_statistic(self, sorted_rvs, cdf_vals)
 
-- 
2.43.0


From 3d9b8558b461db99b233f97020d17aada0f86bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 20/34] fix: give the Ryan-Joiner criterion its hypothesis

The constructor skipped the base class, so asking for the hypothesis (as every
simulation does) raised an AttributeError.
---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 7eae61c..b9f1b20 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -554,7 +554,7 @@ class LooneyGulledgeNormalityGofStatistic(AbstractNormalityGofStatistic):
 class RyanJoinerNormalityGofStatistic(AbstractNormalityGofStatistic):
     @override
     def __init__(self, weighted=False, cte_alpha="3/8"):
-        super(AbstractNormalityGofStatistic).__init__()
+        AbstractNormalityGofStatistic.__init__(self)
         self.weighted = weighted
         self.cte_alpha = cte_alpha
 
-- 
2.43.0


From 60c7884d5d403d011364c23bc02a802d5401b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 21/34] fix: include the family in the code of the normality
 Cramer-von Mises criterion

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index b9f1b20..9b0cb71 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -214,8 +214,7 @@ class CramerVonMiseNormalityGofStatistic(AbstractNormalityGofStatistic, CrammerV
     @override
     def code():
         short_code = CramerVonMiseNormalityGofStatistic.short_code()
-        base_code = super(AbstractNormalityGofStatistic, AbstractNormalityGofStatistic).code()
-        return f"{short_code}_{base_code}"
+        return f"{short_code}_{AbstractNormalityGofStatistic.code()}"
 
     @override
     def execute_statistic(self, rvs):
-- 
2.43.0


From 5d7cf67a57320431f7272ee10d0d728c0bdfc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 22/34] fix: list the criteria of a distribution without
 importing them first

Nothing imported the criterion classes, so the listing was empty unless the caller
happened to have imported them.
---
 src/pysatl_criterion/utils/statistic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysatl_criterion/utils/statistic.py b/src/pysatl_criterion/utils/statistic.py
index a093d06..5f8166d 100644
--- a/src/pysatl_criterion/utils/statistic.py
+++ b/src/pysatl_criterion/utils/statistic.py
@@ -1,3 +1,4 @@
+import importlib
 import inspect
 from typing import Any
 
@@ -20,6 +21,7 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     :return: list of short codes corresponding to all non-abstract subclasses of
     distribution.base_class.
     """
+    _load_criteria()
     return [
         cls.short_code()
         for cls in __get_all_subclasses(AbstractGoodnessOfFitStatistic)
@@ -27,6 +29,11 @@ def get_available_criteria(distribution: DistributionType) -> list[str]:
     ]
 
 
+def _load_criteria() -> None:
+    """Import concrete criterion classes so subclass discovery can find them."""
+    importlib.import_module("pysatl_criterion.statistics.goodness_of_fit")
+
+
 def __get_all_subclasses(cls: type[Any]) -> set[type[AbstractGoodnessOfFitStatistic]]:
     """
     Return all direct and indirect subclasses of a class.
-- 
2.43.0


From 5a62efb5f2b8a05f55c5c1327e2bc1a7a77d3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 23/34] fix: solve the likelihood equation of the Weibull shape

The score carried an extra term log(mean(x**k)) / k, so the likelihood was
not the maximised one unless the scale happened to be 1.
---
 .../maximum_likelihood/function_for_maximum_likelihood.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index 03ce179..c1c06f1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -159,9 +159,8 @@ def likelihood_function_weibull(dataArray):
 
     def g(k):
         xk = dataArray**k
-        C = np.log(np.mean(xk))
         B = np.sum(xk * np.log(dataArray)) / np.sum(xk)
-        return (1 - C) / k + A - B
+        return 1 / k + A - B
 
     if g(0.1) * g(10) > 0:
         return 0
-- 
2.43.0


From 6993fe793aa9a6b228a000a809ecd6a9f0ba2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 24/34] fix: return the likelihood of degenerate Poisson and
 geometric samples

Samples of zeros (Poisson) and of ones (geometric) have likelihood 1 but
raised a math domain error.
---
 .../function_for_maximum_likelihood.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
index c1c06f1..c76dab1 100644
--- a/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
+++ b/src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py
@@ -500,7 +500,7 @@ def likelihood_function_poisson(dataArray):
 
     :param dataArray: array of observed count data samples (must be non-negative integers).
 
-    :return: likelihood value (0 if any value is negative or non-integer).
+    :return: likelihood value (0 if any value is negative or non-integer, 1 if all values are 0).
     """
     if np.any(dataArray < 0) or not np.all(np.floor(dataArray) == dataArray):
         return 0
@@ -508,6 +508,9 @@ def likelihood_function_poisson(dataArray):
     sum_x = np.sum(dataArray)
     lam = sum_x / len(dataArray)
 
+    if lam == 0:
+        return 1
+
     log_likelihood = sum(x * log(lam) - lam - log(factorial(x)) for x in dataArray)
     likelihood = exp(log_likelihood)
 
@@ -521,7 +524,7 @@ def likelihood_function_geometric(dataArray):
 
     :param dataArray: array of observed count data samples (must be positive integers >= 1).
 
-    :return: likelihood value (0 if any value is less than 1 or non-integer).
+    :return: likelihood value (0 if any value is less than 1 or non-integer, 1 if all are 1).
     """
     if np.any(dataArray < 1) or not np.all(np.floor(dataArray) == dataArray):
         return 0
@@ -530,6 +533,9 @@ def likelihood_function_geometric(dataArray):
     sum_x = np.sum(dataArray)
     p = n / sum_x
 
+    if p == 1:
+        return 1
+
     log_likelihood = n * log(p) + (sum_x - n) * log(1 - p)
     likelihood = exp(log_likelihood)
 
-- 
2.43.0


From 940a1d8fb91114e32bb8314778b63915df9c8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 25/34] fix: Watson statistic for the uniform distribution

The deviations were not centred at the mean one half of the fitted
values and the sum was divided by the sample size once too often, so a
sample concentrated near an end of the interval looked the better fit.
U^2 = W^2 - n (mean - 1/2)^2.
---
 src/pysatl_criterion/statistics/goodness_of_fit/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 7337d91..6d7cb61 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -350,9 +350,9 @@ class WatsonUniformGofStatistic(AbstractUniformGofStatistic):
         rvs_standardized = (rvs_sorted - self.a) / (self.b - self.a)
 
         i = np.arange(1, n + 1)
-        fn = i / n
         mean_f = np.mean(rvs_standardized)
-        u2 = np.sum((rvs_standardized - fn + 0.5 / n - mean_f) ** 2) / n + 1 / (12 * n**2)
+        w2 = 1 / (12 * n) + np.sum((rvs_standardized - (2 * i - 1) / (2 * n)) ** 2)
+        u2 = w2 - n * (mean_f - 0.5) ** 2
 
         return u2
 
-- 
2.43.0


From e3eeac5b11cb5315a4ef27894089beb90244dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 26/34] fix: Zhang Z_C and Z_K statistics for the uniform
 distribution

Z_C compares the log odds of each ordered value with those expected at
its rank, Z_K is the largest likelihood ratio; neither was what the
code computed: the value did not grow with the distance to the
hypothesis.
---
 .../statistics/goodness_of_fit/uniform.py             | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
index 6d7cb61..f6975ed 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/uniform.py
@@ -592,14 +592,13 @@ class ZhangTestsUniformGofStatistic(AbstractUniformGofStatistic):
             statistic = -term1 - term2
 
         elif self.test_type == "C":
-            term1 = np.sum((np.log(rvs_std) / (n - i + 0.5)) ** 2)
-            term2 = np.sum((np.log(1 - rvs_std) / (i - 0.5)) ** 2)
-            statistic = term1 + term2
+            ratios = (1 / rvs_std - 1) / ((n - 0.5) / (i - 0.75) - 1)
+            statistic = np.sum(np.log(ratios) ** 2)
 
         else:
-            term1 = np.sum(np.log(rvs_std / (1 - rvs_std)) / (n - i + 0.5))
-            term2 = np.sum(np.log((1 - rvs_std) / rvs_std) / (i - 0.5))
-            statistic = max(np.abs(term1), np.abs(term2))
+            below = (i - 0.5) * np.log((i - 0.5) / (n * rvs_std))
+            above = (n - i + 0.5) * np.log((n - i + 0.5) / (n * (1 - rvs_std)))
+            statistic = np.max(below + above)
 
         return statistic
 
-- 
2.43.0


From f97b94caebf78ea4a7678f4ca500234b20d94ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 27/34] fix: rank offset of the Zhang Z_C statistic for
 Student's distribution

The expected odds at rank i are (n - 1/2)/(i - 3/4) - 1; with i in place
of i - 3/4 they became negative at the largest rank, which then added
about log(1e-10)^2 to the statistic of every sample.
---
 src/pysatl_criterion/statistics/goodness_of_fit/student.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/student.py b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
index 7780f55..4de5751 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/student.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/student.py
@@ -355,9 +355,7 @@ class ZhangZcStudentGofStatistic(AbstractStudentGofStatistic):
         i = np.arange(1, n + 1)
         # Zhang's Zc statistic
         term1 = 1 / cdf_vals - 1
-        term2 = (n - 0.5) / i - 1
-        # Avoid division by zero and log of negative numbers
-        term2 = np.where(term2 <= 0, 1e-10, term2)
+        term2 = (n - 0.5) / (i - 0.75) - 1
         zc = np.sum(np.log(term1 / term2) ** 2)
 
         return zc
-- 
2.43.0


From 5663eef2a45dcdafeebffb2992ca94e0d0851b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 28/34] fix: WE exponentiality statistic uses the sample
 variance

---
 src/pysatl_criterion/statistics/goodness_of_fit/exponent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
index 797ec8b..9d0f3fe 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/exponent.py
@@ -1190,7 +1190,7 @@ class WeExponentialityGofStatistic(AbstractExponentialityGofStatistic):
 
         n = len(rvs)
         m = np.mean(rvs)
-        v = np.var(rvs)
+        v = np.var(rvs, ddof=1)
         we = (n - 1) * v / (n**2 * m**2)
 
         return we
-- 
2.43.0


From daf7f54893ca229b2e4d8e76afd1f9122a55349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 29/34] fix: medcouple behind the BHS normality statistic no
 longer hangs or picks wrong candidates

---
 .../statistics/goodness_of_fit/normal.py         | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 9b0cb71..076f5a5 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1996,11 +1996,10 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x2 = x_sorted[(n // 2) + 1 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-            iter_ = [1000, 0]
 
-            w1 = self.mc_c_d(x, eps, iter_)
-            w2 = self.mc_c_d(x1, eps, iter_)
-            w3 = self.mc_c_d(x2, eps, iter_)
+            w1 = self.mc_c_d(x, eps, [1000, 0])
+            w2 = self.mc_c_d(x1, eps, [1000, 0])
+            w3 = self.mc_c_d(x2, eps, [1000, 0])
 
             omega = [0.0, 0.198828, 0.198828]
             vec = [w1 - omega[0], -w2 - omega[1], w3 - omega[2]]
@@ -2090,7 +2089,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         if trace_lev >= 2:
             print(f"   x1[] := {{x | x_j > x_eps = {x_eps}}}    has {j - 1} (='j-1') entries")
         i = 1
-        x2 = x[j - 1 :]  # pointer -- corresponding to x2[i] = x[j]
+        x2 = x[j:]  # pointer -- corresponding to x2[i] = x[j]
         while j <= n and x[j] > -x_eps:  # test relative to x_med
             j += 1
             i += 1
@@ -2131,7 +2130,6 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
         # and therefore there might be more than one observation in the `tolerance range`
         # between < and <=.
         while not is_found and (nr - nl + neq > n) and it < iter_[0]:
-            print(it)
             it += 1
             j = 0
             for i in range(1, h2 + 1):
@@ -2250,7 +2248,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                     f" ({knew - nl},{j})"
                 )
             # using rPsort(work, n,k), since we don't need work[] anymore
-            work[: (knew - nl)] = sorted(work[: (knew - nl)])
+            work[:j] = sorted(work[:j])
             med_c = -work[knew - nl - 1]
 
         if converged and trace_lev >= 2:
@@ -2270,11 +2268,11 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
 
     @staticmethod
     def whi_med_i(a, w, n, a_cand, a_srt, w_cand):
-        w_tot = sum(w)
+        w_tot = sum(w[:n])
         w_rest = 0
 
         while True:
-            a_srt[:] = sorted(a)
+            a_srt[:n] = sorted(a[:n])
             n2 = n // 2
             trial = a_srt[n2]
 
-- 
2.43.0


From 49b29bb587c63afe68e923afbfaf7e6e06e5a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 30/34] fix: Martinez-Iglewicz biweight ignores observations
 beyond nine MADs

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 076f5a5..1033bb9 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1327,8 +1327,9 @@ class MartinezIglewiczNormalityGofStatistic(AbstractNormalityGofStatistic):
             a = 9.0 * a
 
             z = aux1 / a
-            term1 = np.sum(aux1**2 * (1 - z**2) ** 4)
-            term2 = np.sum((1 - z**2) * (1 - 5 * z**2))
+            inner = np.abs(z) < 1
+            term1 = np.sum((aux1**2 * (1 - z**2) ** 4)[inner])
+            term2 = np.sum(((1 - z**2) * (1 - 5 * z**2))[inner])
             term3 = np.sum(aux1**2)
 
             sb2 = (n * term1) / term2**2
-- 
2.43.0


From b1911f066bd4c02b3f92ce64b3905e96a939b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 31/34] fix: BHS tail medcouples leave the median of an odd
 sample out of both halves

---
 src/pysatl_criterion/statistics/goodness_of_fit/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
index 1033bb9..2ff1938 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/normal.py
@@ -1993,7 +1993,7 @@ class BHSNormalityGofStatistic(AbstractNormalityGofStatistic):
                 x1 = x_sorted[: n // 2]
                 x2 = x_sorted[n // 2 :]
             else:
-                x1 = x_sorted[: (n // 2) + 1]
+                x1 = x_sorted[: n // 2]
                 x2 = x_sorted[(n // 2) + 1 :]
 
             eps = [2.220446e-16, 2.225074e-308]
-- 
2.43.0


From ac74ec9b35f552b52c07ea3ac084846f9e8f0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 32/34] fix: Anderson-Darling Weibull statistic passes an
 argument its base class does not take

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index dca4572..933149a 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -262,7 +262,7 @@ class AndersonDarlingWeibullGofStatistic(AbstractWeibullGofStatistic, ADStatisti
         logcdf = distributions.gumbel_l.logcdf(w)
         logsf = distributions.gumbel_l.logsf(w)
 
-        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf, w=w)
+        return super().do_execute_statistic(rvs, log_cdf=logcdf, log_sf=logsf)
 
 
 class KolmogorovSmirnovWeibullGofStatistic(AbstractWeibullGofStatistic, KSStatistic):
-- 
2.43.0


From bb49950c21400447e953ab652d3338a2f4322bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 33/34] fix: Laplace transform Weibull statistics pass the
 transform type their base class knows

---
 src/pysatl_criterion/statistics/goodness_of_fit/weibull.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
index 933149a..a8f4e08 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/weibull.py
@@ -1348,7 +1348,7 @@ class LaplaceTransform2WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT2 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT2_WEIBULL")
 
 
 class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
@@ -1390,7 +1390,7 @@ class LaplaceTransform3WeibullGofStatistic(LaplaceTransformWeibullGofStatistic):
         :param a: shift parameter.
         :return: LT3 test statistic value.
         """
-        return super().execute_statistic(rvs, m, a, self.code())
+        return super().execute_statistic(rvs, m, a, "LT3_WEIBULL")
 
 
 # TODO: Check it. Throws exception on weibull test
-- 
2.43.0


From dd392d3db53b7d063a61a661ff6fd8c228941554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 34/34] fix: a single observation is a clique (clique number of
 a constant sample is 1)

---
 .../statistics/goodness_of_fit/graph_goodness_of_fit.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
index 1bb7d5d..3b80742 100644
--- a/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
+++ b/src/pysatl_criterion/statistics/goodness_of_fit/graph_goodness_of_fit.py
@@ -191,7 +191,7 @@ class GraphCliqueNumberTestStatistic(AbstractGraphTestStatistic):
         rvs = np.sort(rvs)
 
         right_border = 0
-        clique_number = 0
+        clique_number = 1
         for left_border in range(len(rvs)):
             while right_border < len(rvs) and rvs[left_border] + dist > rvs[right_border]:
                 right_border += 1
-- 
2.43.0

