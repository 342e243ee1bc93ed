From 74bf79da32f38b5d3db338441c52399db503b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 01/26] fix: accept the documented per-parameter dicts in
 OnlineDistributionalRegression

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..1cbac72 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 83bc405948d9709d0f95f70d2332d9f7ad9d90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 02/26] fix: do not modify the dicts passed by the user in
 OnlineDistributionalRegression

---
 src/ondil/estimators/online_gamlss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 1cbac72..729789a 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,8 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            # Don't write the defaults to the dict that the user has passed
+            attribute = copy.copy(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +309,8 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            # Don't write the defaults to the dict that the user has passed
+            equation = copy.copy(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
-- 
2.43.0


From a914fe0ab56d3abd0c6a5f0e2466071a879d7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 03/26] fix: assign step sizes by distribution parameter, not
 by dict order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 729789a..ca5d991 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -637,7 +637,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From 11b4dc74b320917eb19f7c90f435e439a4313d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 04/26] fix: bound the working weights away from zero in online
 updates

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index ca5d991..31c88d7 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1231,7 +1231,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From 34c2b39d38f5e23d6aa55078587fce0973ea670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 05/26] fix: respect sample weights in the global_ll model
 selection of the initial fit

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 31c88d7..1573928 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -502,7 +502,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From 4bf3e724fedcd5a8a9772340054f9e49a66c5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 06/26] fix: discount the accumulated RSS in local model
 selection exactly once

---
 src/ondil/estimators/online_gamlss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 1573928..0b6dbf9 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1186,7 +1186,7 @@ class OnlineDistributionalRegression(
 
             # Sum and mean of the weights
             self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1375,9 +1375,9 @@ class OnlineDistributionalRegression(
         self._sum_of_weights_new[param] = (
             np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
         )
-        self._mean_of_weights_new[param] = (
-            self._sum_of_weights_new[param] / self.n_training_[param]
-        )
+        # The accumulated RSS is normalized by denom, so this is what needs to be
+        # used to recover the sum of squares in the next update.
+        self._mean_of_weights_new[param] = denom
         self._it_inner[param] = it_inner
         return dv_it
 
-- 
2.43.0


From af143918b99ce95edef2dcaefe395e188d9ef18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 07/26] fix: do not keep stale Gramians if the deviance changes
 only by rounding

---
 src/ondil/estimators/online_gamlss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 0b6dbf9..503c00b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1123,7 +1123,10 @@ class OnlineDistributionalRegression(
 
             # This should really not happen unless your start values are
             # way to good and the model cannot reach these
-            bad_state = dv_it > dv_iterations[0]
+            # Changes within the convergence tolerance are not a bad state
+            bad_state = dv_it - dv_iterations[0] > max(
+                self.abs_tol_inner, self.rel_tol_inner * abs(dv_iterations[0])
+            )
 
             # print(dv_it, dv_old, dv_increasing)
             message = f"Outer iteration {it_outer}: Fitting Parameter {param}: Inner iteration {it_inner}: Current Deviance {dv_it}"
-- 
2.43.0


From 97f7952438170d1b3db3b284d459414a89f89db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 08/26] fix: resolve column names in the equation for dataframe
 inputs

---
 src/ondil/estimators/online_gamlss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 503c00b..d43a907 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -414,6 +414,10 @@ class OnlineDistributionalRegression(
                     out = X.to_numpy()
             elif isinstance(eq, np.ndarray) | isinstance(eq, list):
                 if isinstance(X, np.ndarray):
+                    if isinstance(eq, list) and hasattr(self, "feature_names_in_"):
+                        # Map the column names to the validated array
+                        names = list(self.feature_names_in_)
+                        eq = [names.index(c) if c in names else c for c in eq]
                     out = X[:, eq]
                 if HAS_PANDAS and isinstance(X, pd.DataFrame):
                     out = X.loc[:, eq]
-- 
2.43.0


From b75937907a7a4e5b285eea42006f13e911bca17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 09/26] fix: weight and discount the residuals consistently in
 OnlineLinearModel selection

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..056a918 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -154,10 +155,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(residuals**2 * np.expand_dims(weights, -1), axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -218,7 +218,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                residuals**2 * np.expand_dims(weights, -1), axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From 57f47651511fc33e5c6bfc088b460cf55cd9a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 10/26] fix: store the parameters of OnlineLasso so that it can
 be fitted

---
 src/ondil/estimators/online_lasso.py | 37 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..dceee5f 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,23 +46,34 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
             ic=ic,
         )
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
+
+    def _prepare_fit(self):
+        self.method = LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+        super()._prepare_fit()
-- 
2.43.0


From 4fc1467c6c6ab8c51f193df48400c9127e57d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 11/26] fix: use the absolute value for the largest penalty if
 all coefficients are regularized

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From b660b8cf5b32d93c3af5d2d594a635209acf0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 12/26] fix: use the average start value in the coordinate
 descent path

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From 07dfb7c00e624eacaa66c8519dd57150a1a8c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 13/26] fix: allow scalar weights in batch updates of the
 inverted Gramian

---
 src/ondil/gram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ondil/gram.py b/src/ondil/gram.py
index f7d4c0e..820f5f6 100644
--- a/src/ondil/gram.py
+++ b/src/ondil/gram.py
@@ -225,6 +225,7 @@ def update_inverted_gram(
     if X.shape[0] == 1:
         new_gram = _update_inverted_gram(gram, X, forget=forget, w=w)
     else:
+        w = np.broadcast_to(w, X.shape[0])
         new_gram = _update_inverted_gram(
             gram, X=np.expand_dims(X[0, :], 0), forget=forget, w=w[0]
         )
-- 
2.43.0


From 719c44771dd597e3ee67474a6a991f77ddb12962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 14/26] fix: allow arrays in the AICC

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From e8ea77bcef3f16ca3b851f914eb211a8d750d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 15/26] fix: derivative of the inverse softplus link

---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..3a65051 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, 1 - robust_exp(-x))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From 26dc1e582e1631cbc3435c123a0f64657371067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 16/26] fix: overflow in the derivatives of the logistic
 distribution

---
 src/ondil/distributions/logistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/logistic.py b/src/ondil/distributions/logistic.py
index ddb15a4..ddc363e 100644
--- a/src/ondil/distributions/logistic.py
+++ b/src/ondil/distributions/logistic.py
@@ -1,6 +1,7 @@
 from typing import Tuple
 
 import numpy as np
+import scipy.special as spc
 import scipy.stats as st
 
 from ..base import Distribution, LinkFunction, ScipyMixin
@@ -42,16 +43,15 @@ class Logistic(ScipyMixin, Distribution):
         self._validate_dln_dpn_inputs(y, theta, param)
         mu, sigma = self.theta_to_params(theta)
         z = (y - mu) / sigma
-        expz = np.exp(z)
 
         if param == 0:
-            return (1 / sigma) * (expz - 1) / (1 + expz)
+            return (1 / sigma) * np.tanh(z / 2)
 
         if param == 1:
             return (
                 -1 / sigma
                 - (y - mu) / sigma**2
-                + 2 * ((y - mu) / sigma**2) * expz / (1 + expz)
+                + 2 * ((y - mu) / sigma**2) * spc.expit(z)
             )
 
     def dl2_dp2(self, y: np.ndarray, theta: np.ndarray, param: int = 0) -> np.ndarray:
-- 
2.43.0


From 3b72f6b883f428034ad9d3b88c74148ec1da6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 17/26] fix: exclude zero from the support of the log-normal
 and inverse gamma distributions

---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..74d1a4e 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From fe1d4ad1e77f0bd0cd8b2299b47821ba94093c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 18/26] fix: overflow in the density of the zero-adjusted gamma
 distribution

---
 src/ondil/distributions/zeroadjustedgamma.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..31e10f8 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -121,12 +121,7 @@ class ZeroAdjustedGamma(Distribution):
         scale = mu * sigma**2
         pdf_gamma = st.gamma(a=shape, loc=0, scale=scale).pdf(y)
 
-        result = (
-            (1 - nu)
-            * (y / (mu * sigma**2)) ** (1 / sigma**2)
-            * (np.exp(-y / (mu * sigma**2)))
-            / (y * spc.gamma(1 / sigma**2))
-        )
+        result = (1 - nu) * pdf_gamma
 
         return np.where(y == 0, nu, result)
 
-- 
2.43.0


From e4f9f74e6b395ce2064498742b6024134fef2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 19/26] fix: shape of the random variates of the mixed
 distributions

---
 src/ondil/distributions/betainflated.py      | 4 ++--
 src/ondil/distributions/betainflatedzero.py  | 4 ++--
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..37a37af 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -221,8 +221,8 @@ class BetaInflated(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..a742a2a 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -181,8 +181,8 @@ class BetaInflatedZero(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 31e10f8..1c0549f 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -138,8 +138,8 @@ class ZeroAdjustedGamma(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From 1d66731215f60883ee1e489e108d94709c88c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 20/26] fix: add the missing mean of the mixed distributions

---
 src/ondil/distributions/betainflated.py      | 4 ++++
 src/ondil/distributions/betainflatedzero.py  | 4 ++++
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 37a37af..b48aad0 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -224,6 +224,10 @@ class BetaInflated(Distribution):
         sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
         return self.ppf(q=sim_unif, theta=theta).T
 
+    def mean(self, theta):
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (tau + mu) / (1 + nu + tau)
+
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
         alpha = mu * (1 - sigma**2) / sigma**2
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index a742a2a..9c728f7 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -184,6 +184,10 @@ class BetaInflatedZero(Distribution):
         sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
         return self.ppf(q=sim_unif, theta=theta).T
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
         alpha = mu * (1 - sigma**2) / sigma**2
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 1c0549f..63311b8 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -141,6 +141,10 @@ class ZeroAdjustedGamma(Distribution):
         sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
         return self.ppf(q=sim_unif, theta=theta).T
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
 
-- 
2.43.0


From 3c064148dee6d5d77629814b6be3584c107dfc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:52 +0000
Subject: [PATCH 21/26] fix: add the missing median used in predict_median

---
 src/ondil/base/distribution.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..6d8a7e4 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,17 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.quantile(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From 1ce5ff033aa5828c933b1b753bf7addcef42d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:40 +0000
Subject: [PATCH 22/26] fix: do not regularize the intercept of intercept-only
 parameters by default

---
 src/ondil/estimators/online_gamlss.py | 4 +---
 src/ondil/methods/elasticnet.py       | 5 ++++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index d43a907..7bb6cbb 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -736,9 +736,7 @@ class OnlineDistributionalRegression(
         self._is_regularized = {}
         for p in range(self.distribution.n_params):
             is_regularized = np.repeat(True, self.n_features_[p])
-            if self._fit_intercept[p] and not (
-                self._regularize_intercept[p] | self._is_intercept_only(p)
-            ):
+            if self._fit_intercept[p] and not self._regularize_intercept[p]:
                 is_regularized[0] = False
             self._is_regularized[p] = is_regularized
 
diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index 92be4c9..3d254c1 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -88,7 +88,10 @@ class ElasticNetPath(EstimationMethod):
 
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
-        if np.all(is_regularized):
+        if not np.any(is_regularized):
+            # Nothing to regularize, the solution does not depend on lambda
+            lambda_max = 1.0
+        elif np.all(is_regularized):
             lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
-- 
2.43.0


From b4666b3a4efc7f82e47e3e567cb63ef620dc4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:56 +0000
Subject: [PATCH 23/26] fix: keep the mean of the working weights positive for
 small sample weights

---
 src/ondil/estimators/online_gamlss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 7bb6cbb..5a479ad 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -570,7 +570,8 @@ class OnlineDistributionalRegression(
                 self._mean_of_weights[param],
                 wt,
                 self._forget[param],
-                self.n_observations_,
+                # The sum of sample weights can be smaller than the batch
+                max(self.n_observations_, y.shape[0]),
             )
             residuals = wv[:, None] - prediction_path
             rss = (
@@ -1308,7 +1309,8 @@ class OnlineDistributionalRegression(
                 self._mean_of_weights[param],
                 wt,
                 self._forget[param],
-                self.n_observations_,
+                # The sum of sample weights can be smaller than the batch
+                max(self.n_observations_, y.shape[0]),
             )
             sum_of_rss_it = (
                 rss_it
-- 
2.43.0


From bcd5de21dbdca4db0309f525433de5900845ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 24/26] fix: respect min_it_outer together with prefits and
 reset it in updates

---
 src/ondil/estimators/online_gamlss.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 5a479ad..5484e51 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -640,6 +640,9 @@ class OnlineDistributionalRegression(
     def _make_iter_schedule(self):
         return np.repeat(self.max_it_inner, repeats=self.max_it_outer)
 
+    def _make_min_it_outer(self, prefit: int) -> int:
+        return int(min(max(prefit, self.min_it_outer), self.max_it_outer))
+
     def _make_step_size_schedule(self):
         return np.tile(
             A=[self._step_size[p] for p in range(self.distribution.n_params)],
@@ -761,9 +764,7 @@ class OnlineDistributionalRegression(
             )
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_initial] = 1
-            self._current_min_it_outer = int(self.prefit_initial)
-        else:
-            self._current_min_it_outer = int(self.min_it_outer)
+        self._current_min_it_outer = self._make_min_it_outer(self.prefit_initial)
 
         message = "Starting fit call"
         self._print_message(message=message, level=1)
@@ -854,7 +855,7 @@ class OnlineDistributionalRegression(
             )
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_update] = 1
-            self._current_min_it_outer = int(self.prefit_update)
+        self._current_min_it_outer = self._make_min_it_outer(self.prefit_update)
 
         if self.cautious_updates:
             lower = self.distribution.quantile(0.005, self._fv).item()
@@ -869,8 +870,6 @@ class OnlineDistributionalRegression(
                 self._schedule_iteration[:4] = 1
                 self._schedule_step_size[:4, :, :] = 0.25
                 self._current_min_it_outer = 4
-            else:
-                self._current_min_it_outer = int(self.min_it_outer)
 
         message = "Starting update call"
         self._print_message(message=message, level=1)
-- 
2.43.0


From c746a9ddc61203e50175a08d906476a5b32361dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:21 +0000
Subject: [PATCH 25/26] fix: update inverted Gramians with single precision
 design matrices

---
 src/ondil/gram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ondil/gram.py b/src/ondil/gram.py
index 820f5f6..25e825c 100644
--- a/src/ondil/gram.py
+++ b/src/ondil/gram.py
@@ -222,6 +222,7 @@ def update_inverted_gram(
     Returns:
         np.ndarray: Updated inverted Gramian matrix.
     """
+    X = np.asarray(X, dtype=gram.dtype)
     if X.shape[0] == 1:
         new_gram = _update_inverted_gram(gram, X, forget=forget, w=w)
     else:
-- 
2.43.0


From 9fe590585c955972b487d84b24608a0e5ca20972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:11 +0000
Subject: [PATCH 26/26] fix: count the non-zero coefficients of a path exactly

np.isclose(coef, 0) has an absolute tolerance of 1e-8, so the number of
parameters in the information criterion, and with it the selected model,
depended on the unit in which the response is measured.
---
 src/ondil/estimators/online_linear_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 056a918..14a2259 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -158,7 +158,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
             weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
             self._rss = np.sum(residuals**2 * np.expand_dims(weights, -1), axis=0)
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = np.count_nonzero(self.coef_path_, axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
@@ -222,7 +222,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
                 residuals**2 * np.expand_dims(weights, -1), axis=0
             )
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = np.count_nonzero(self.coef_path_, axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
-- 
2.43.0

