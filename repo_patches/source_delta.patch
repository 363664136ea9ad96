From a7cd81a08eca0119a8c3fd6c2c18002a250aee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:30 +0000
Subject: [PATCH 01/52] fix: solve the universal kriging system on the
 nullspace route

The contrast coefficients ignored the part of the right-hand side carried by
the unbiasedness constraints, and the variance used the constraint coefficients
in place of the Lagrange multipliers.
---
 gpmp/core/kriging.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gpmp/core/kriging.py b/gpmp/core/kriging.py
index f34b37d..064dd06 100644
--- a/gpmp/core/kriging.py
+++ b/gpmp/core/kriging.py
@@ -232,24 +232,29 @@ def _kriging_predictor_nullspace(model, xi, xt, return_type=0):
     KW = gnp.matmul(K, W)
     G = gnp.matmul(W.T, KW)  # SPD in contrast space
 
-    # Solve alpha = G^{-1} Wᵀ K(Xi,Xt)
-    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit))
     # Solve beta  = Rq^{-T} P(Xt)ᵀ  (enforces unbiasedness constraints)
-    beta = gnp.solve(Rq.T, Pt.T, assume_a="sym")
-
-    lambda_t = gnp.matmul(W, alpha) + gnp.matmul(Q1, beta)
+    beta = gnp.solve_triangular(Rq.T, Pt.T, lower=True)
+    Q1beta = gnp.matmul(Q1, beta)
+    # Solve alpha = G^{-1} Wᵀ (K(Xi,Xt) - K Q1 beta)
+    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit - gnp.matmul(K, Q1beta)))
+
+    lambda_t = gnp.matmul(W, alpha) + Q1beta
+    # Lagrange multipliers: Rq mu = Q1ᵀ (K(Xi,Xt) - K lambda)
+    mu_t = gnp.solve_triangular(
+        Rq, gnp.matmul(Q1.T, Kit - gnp.matmul(K, lambda_t)), lower=False
+    )
 
     if return_type == -1:
         zt_posterior_variance = None
     elif return_type == 0:
         v0 = model.covariance(xt, xt, model.covparam, pairwise=True)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = v0 - gnp.einsum("i..., i...", LM, RHS)
     elif return_type == 1:
         V0 = model.covariance(xt, xt, model.covparam, pairwise=False)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = V0 - gnp.matmul(LM.T, RHS)
     else:
         raise ValueError("return_type must be in {-1,0,1}")
-- 
2.43.0


From 701785871036fac0deec7c194bd6f0e78e9dbd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 02/52] fix: return an infinite likelihood when factorisation
 fails on every backend

The NumPy backend raises LinAlgError, which is not a RuntimeError, so a failed
factorisation escaped.  Unrelated RuntimeErrors were reported as infinite values.
---
 gpmp/core/likelihood.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpmp/core/likelihood.py b/gpmp/core/likelihood.py
index 4eb6179..5fe3175 100644
--- a/gpmp/core/likelihood.py
+++ b/gpmp/core/likelihood.py
@@ -44,8 +44,10 @@ def negative_log_likelihood_zero_mean(model, covparam, xi, zi):
     n = K.shape[0]
     try:
         Kinv_zi, C = gnp.cholesky_solve(K, zi)
-    except RuntimeError:
-        return gnp.safe_inf()
+    except Exception as exc:
+        if gnp._is_linalg_exception(exc):
+            return gnp.safe_inf()
+        raise
     norm2 = gnp.einsum("i..., i...", zi, Kinv_zi)
     ldetK = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
     L = 0.5 * (n * gnp.log(2.0 * gnp.pi) + ldetK + norm2)
@@ -120,8 +122,10 @@ def negative_log_restricted_likelihood(model, covparam, xi, zi):
     G = compute_contrast_covariance(W, K)  # (n-q, n-q)
     try:
         WKWinv_Wzi, C = gnp.cholesky_solve(G, Wzi)
-    except RuntimeError:
-        return gnp.safe_inf()
+    except Exception as exc:
+        if gnp._is_linalg_exception(exc):
+            return gnp.safe_inf()
+        raise
     norm2 = gnp.einsum("i..., i...", Wzi, WKWinv_Wzi)
     ldetWKW = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
     n, q = P.shape
-- 
2.43.0


From 91cbe358b4df7c12cb4a62fe4178af8692c81210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 03/52] fix: map failed factorisations to inf in
 evaluate_no_grad on NumPy

This is what the PyTorch criterion already does.
---
 gpmp/num/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 44a90ce..b16a425 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -339,7 +339,7 @@ class DifferentiableSelectionCriterion:
         return self.crit(p, self.x, self.z)
 
     def evaluate_no_grad(self, p: ArrayLike) -> _np_dtype:
-        return self.evaluate(p)
+        return self.evaluate_pre_grad(p)
 
     def evaluate_pre_grad(self, p: ArrayLike) -> _np_dtype:
         try:
-- 
2.43.0


From c63883726dd8510fe4ffb258933df14bdc20d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 04/52] fix: return a zero gradient where the criterion is
 infinite

A failed factorisation gives an infinite value that does not depend on the
parameters.  Optimisers that ask for the gradient there stopped with an error.
---
 gpmp/num/torch_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..c7be19f 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -600,6 +600,8 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value):
+                return torch.zeros_like(self._p_value).detach()
             raise RuntimeError("Gradient is None.")
         return gradients
 
-- 
2.43.0


From 58954f262f32fb87d03d9ce352822c680d1cb5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 05/52] fix: report infinite batch criteria instead of raising
 on PyTorch

A failed factorisation in one batch made the batch criterion raise.  The NumPy
batch criterion returns an infinite value in that case.
---
 gpmp/num/torch_backend.py | 61 +++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index c7be19f..f937dd7 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -668,11 +668,16 @@ class BatchDifferentiableSelectionCriterion:
 
     def evaluate(self, param: TensorLike) -> torch.Tensor:
         total, n = 0.0, 0
-        for xb, zb in self._batches():
-            bs = xb.shape[0]
-            loss = self.crit(param, xb, zb) * bs
-            total += loss.item()
-            n += bs
+        try:
+            for xb, zb in self._batches():
+                bs = xb.shape[0]
+                loss = self.crit(param, xb, zb) * bs
+                total += loss.item()
+                n += bs
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                return inf
+            raise
         if n == 0:
             raise ValueError("Loader is empty.")
         if self.reduction == "mean":
@@ -681,12 +686,17 @@ class BatchDifferentiableSelectionCriterion:
 
     def evaluate_no_grad(self, param: TensorLike) -> _torch_dtype:
         total, n = 0.0, 0
-        with torch.no_grad():
-            p = self._prepare_param(param, req_grad=False)
-            for xb, zb in self._batches():
-                bs = xb.shape[0]
-                total += self.crit(p, xb, zb).item() * bs
-                n += bs
+        try:
+            with torch.no_grad():
+                p = self._prepare_param(param, req_grad=False)
+                for xb, zb in self._batches():
+                    bs = xb.shape[0]
+                    total += self.crit(p, xb, zb).item() * bs
+                    n += bs
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                return inf
+            raise
         if n == 0:
             raise ValueError("Loader is empty.")
         return total / n if self.reduction == "mean" else total
@@ -695,16 +705,25 @@ class BatchDifferentiableSelectionCriterion:
         p = self._prepare_param(param, req_grad=True)
         grad = None  # accumulated gradient
         total, n = 0.0, 0
-        for xb, zb in self._batches():
-            bs = xb.shape[0]
-            loss = self.crit(p, xb, zb) * bs
-            g = torch.autograd.grad(loss, p, retain_graph=False)[0]
-            if grad is None:
-                grad = g
-            else:
-                grad += g
-            total += loss.item()
-            n += bs
+        try:
+            for xb, zb in self._batches():
+                bs = xb.shape[0]
+                loss = self.crit(p, xb, zb) * bs
+                if not torch.isfinite(loss):
+                    g = torch.zeros_like(p)
+                else:
+                    g = torch.autograd.grad(loss, p, retain_graph=False)[0]
+                if grad is None:
+                    grad = g
+                else:
+                    grad += g
+                total += loss.item()
+                n += bs
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                self._gradient = torch.zeros_like(p).detach()
+                return inf
+            raise
         if n == 0:
             raise ValueError("Loader is empty.")
         if self.reduction == "mean":
-- 
2.43.0


From e441fa131f465b17b5e4b373d9e198fa7b9cb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:29 +0000
Subject: [PATCH 06/52] fix: keep the caller's tensor untouched in the batch
 criterion

Preparing the parameters switched gradient tracking on the tensor passed in.
---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index f937dd7..974706a 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -650,7 +650,7 @@ class BatchDifferentiableSelectionCriterion:
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
         """Convert to tensor and set `requires_grad` (no dtype/device casting)."""
-        param = asarray(param)
+        param = asarray(param).detach().clone()
         param.requires_grad_(req_grad)
         return param
 
-- 
2.43.0


From f8a4d591786c546d3fd536315a2af8ca55f4fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:43 +0000
Subject: [PATCH 07/52] fix: return the best evaluated point when the optimiser
 ends on NaN

A comparison with NaN is false, so the NaN point was reported as the best one.
---
 gpmp/kernel/parameter_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..c919fd1 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,7 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if r.fun > best_criterion:
+    if best_params is not None and not r.fun <= best_criterion:
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 4122d7719a9ebba4ac153bd9c298851665960a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:11 +0000
Subject: [PATCH 08/52] fix: compute the Fisher information in
 fisher_information_torch

Half the Hessian of log|K| is not the Fisher information; it can be negative.
The trace term makes the second derivatives of K cancel.
---
 gpmp/core/fisher.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpmp/core/fisher.py b/gpmp/core/fisher.py
index 3a0859c..2567035 100644
--- a/gpmp/core/fisher.py
+++ b/gpmp/core/fisher.py
@@ -166,7 +166,8 @@ def fisher_information_torch(model, xi, covparam):
     Returns
     -------
     fisher_info : ndarray (p, p)
-        Fisher Information matrix estimated as 0.5 * Hessian of log|K(θ)|.
+        Fisher Information matrix computed as the Hessian, at θ = covparam, of
+        0.5 * (log|K(θ)| + tr(K(θ)^{-1} K(covparam))).
 
     Notes
     -----
@@ -179,12 +180,14 @@ def fisher_information_torch(model, xi, covparam):
     """
     xi_tensor = gnp.asarray(xi)
 
-    def log_det_cov(params):
+    K0 = model.covariance(xi_tensor, xi_tensor, gnp.copy(covparam))
+
+    def expected_deviance(params):
         K = model.covariance(xi_tensor, xi_tensor, params)
-        L = gnp.cholesky(K)
-        return 2.0 * gnp.sum(gnp.log(gnp.diag(L)))
+        Kinv_K0, L = gnp.cholesky_solve(K, K0)
+        return 2.0 * gnp.sum(gnp.log(gnp.diag(L))) + gnp.trace(Kinv_K0)
 
-    sodf = gnp.SecondOrderDifferentiableFunction(log_det_cov)
+    sodf = gnp.SecondOrderDifferentiableFunction(expected_deviance)
     sodf.evaluate(covparam)
     sodf.gradient()
     H = sodf.hessian()
-- 
2.43.0


From 9af39da4e15a5a8bb35688473a867f69e734e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:01 +0000
Subject: [PATCH 09/52] fix: penalise variances above the cutoff in the
 power-law prior

The upper soft cutoff on log(sigma^2) was added to the log-prior, so large
variances were rewarded instead of penalised.
---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From 177af7781157e24e2f0817a7b8acaabd08ab3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:05 +0000
Subject: [PATCH 10/52] fix: export the restricted posterior criteria under
 their real names

The export list named three functions that do not exist, so
'from gpmp.kernel import *' failed.
---
 gpmp/kernel/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/kernel/__init__.py b/gpmp/kernel/__init__.py
index c638b1a..f2dbda5 100644
--- a/gpmp/kernel/__init__.py
+++ b/gpmp/kernel/__init__.py
@@ -126,10 +126,10 @@ __all__ = [
     "neglog_f_logrho",
     "log_prior_logrho_barrier_linear",
     "log_prior_reference",
-    "neg_log_restricted_posterior_with_power_law_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_prior",
+    "neg_log_restricted_posterior_power_laws_prior",
+    "neg_log_restricted_posterior_logsigma2_prior",
     "neg_log_restricted_posterior_with_logrho_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_and_logrho_prior",
+    "neg_log_restricted_posterior_logsigma2_and_logrho_prior",
     # Bounds
     "empirical_bounds_factory",
 ]
-- 
2.43.0


From d0b30f23fa5264839a7d253427fff223a552e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:00 +0000
Subject: [PATCH 11/52] fix: build k-fold folds by slicing

gnp.split on the torch backend guesses whether it is given sizes or
boundaries.  With three folds and a sample count divisible by three the
boundaries add up to the sample count, are taken as sizes, and
k_fold_indices raises IndexError.
---
 gpmp/dataloader.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..2568a8c 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -186,14 +186,9 @@ class Dataset:
 
         idx = gnp.permutation(n_samples)
         base, r = divmod(n_samples, n_splits)
-        sizes = gnp.concatenate(
-            [
-                gnp.full((r,), base + 1, dtype=int),
-                gnp.full((n_splits - r,), base, dtype=int),
-            ]
-        )
-        bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        # the first r folds hold base + 1 samples, the others base samples
+        bounds = [k * base + min(k, r) for k in range(n_splits + 1)]
+        folds = [idx[bounds[k] : bounds[k + 1]] for k in range(n_splits)]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From ce0f2a818392c7eeded46c26689f2fb349007e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:00 +0000
Subject: [PATCH 12/52] fix: count negative Dataset indices from the end of the
 dataset

A negative index was applied inside the first shard, so dataset[-1]
returned the last row of the first shard when there were several.
---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 2568a8c..23d29d9 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -104,6 +104,10 @@ class Dataset:
 
     def __getitem__(self, idx: int) -> Tuple[Array, Array]:
         """Return ``(x[idx], z[idx])`` without full-array concatenation."""
+        if idx < 0:
+            idx += self.size
+        if not 0 <= idx < self.size:
+            raise IndexError("Dataset index out of range")
         shard_idx = bisect.bisect_right(self._shard_bounds, idx)
         start = 0 if shard_idx == 0 else self._shard_bounds[shard_idx - 1]
         local_idx = idx - start
-- 
2.43.0


From 1b8a2f734c08046a4b75bcdc3e5ab609c90773f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:00 +0000
Subject: [PATCH 13/52] fix: fit scalers with the same standard deviation on
 both backends

Tensor.std divides by n - 1 and ndarray.std by n, so fitted scalers
depended on the backend and a single sample gave NaN with torch.
---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 23d29d9..627e129 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -554,7 +554,7 @@ class Normalizer:
 
     @staticmethod
     def fit(x: Array) -> "Normalizer":
-        return Normalizer(x.mean(axis=0, keepdims=True), x.std(axis=0, keepdims=True))
+        return Normalizer(x.mean(axis=0, keepdims=True), gnp.std(x, axis=0, keepdims=True))
 
 
 class RobustScaler:
@@ -626,7 +626,7 @@ class ObservationScaler:
 
     @staticmethod
     def fit(z: Array) -> "ObservationScaler":
-        return ObservationScaler(z.mean(), z.std())
+        return ObservationScaler(z.mean(), gnp.std(z))
 
 
 # ======================================================================
-- 
2.43.0


From 5cb4b0703000ed303df8cdfa820ea3729f8d6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:32 +0000
Subject: [PATCH 14/52] fix: make Dataset variance and standard deviation agree
 with gnp.var and gnp.std

The sharded reduction divided by n - 1 while gnp.var divides by n, so
x_var, x_std, z_var and z_std did not match the statistics of the full
arrays and the dataset statistics test failed.
---
 gpmp/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 627e129..6a523cb 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -268,7 +268,7 @@ class Dataset:
             else:
                 total_var += shard_var
             n += data.shape[0]
-        return total_var / (n - 1)
+        return total_var / n
 
     def _reduce_std(self, x_or_z: str) -> Array:
         return gnp.sqrt(self._reduce_var(x_or_z))
-- 
2.43.0


From a834b26623be80061148260620bbfe3921ae49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:35 +0000
Subject: [PATCH 15/52] fix: refuse Param values of another length

---
 gpmp/parameter/param.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6cb37c2..79ae9bb 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,10 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values)
+        new_values = gnp.asarray(new_values)
+        if hasattr(self, "names") and len(new_values) != len(self.names):
+            raise ValueError("Mismatch in size for values.")
+        self._values = new_values
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From cf1873cdae1c6c84b88b936fd6c6096cf60709e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:20 +0000
Subject: [PATCH 16/52] fix: accept column observations in
 conditional_sample_paths_parameterized_mean

---
 gpmp/core/sample_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/core/sample_paths.py b/gpmp/core/sample_paths.py
index 343b84c..ea55dfb 100644
--- a/gpmp/core/sample_paths.py
+++ b/gpmp/core/sample_paths.py
@@ -155,7 +155,7 @@ def conditional_sample_paths_parameterized_mean(
         Conditional sample paths at prediction points xt, adjusted for a parameterized mean.
     """
     xi_ = gnp.asarray(xi)
-    zi_ = gnp.asarray(zi)
+    zi_ = gnp.asarray(zi).reshape(-1)
     xt_ = gnp.asarray(xt)
     ztsim_ = gnp.asarray(ztsim)
 
-- 
2.43.0


From b51ddfc3a8fc98b4143247c12d6b4840bcb288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:10:22 +0000
Subject: [PATCH 17/52] fix: keep the diminishing adaptation factor of
 Metropolis-Hastings positive

The cosine schedule is documented to go from base to base * final_frac.
It went down to base * (2 * final_frac - 1), which is negative, so the
proposal scale was adapted away from the target acceptance rate in the
second half of burn-in.
---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..c9a3a85 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -259,7 +259,7 @@ class MetropolisHastings:
         returns base * final_frac.
 
         """
-        cosine_component = math.cos(math.pi * n / n_total)
+        cosine_component = 0.5 * (1.0 + math.cos(math.pi * n / n_total))
         return base * (final_frac + (1 - final_frac) * cosine_component)
 
     def _validate_scheduler_args(self, n_steps_total: int, burnin: int):
-- 
2.43.0


From 3ebe6a4501b503a446498d885b0e914788587a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:10:48 +0000
Subject: [PATCH 18/52] fix: skip the Gelman-Rubin early stop when a single
 chain is run

The diagnostic needs two chains, so the default single-chain sampler
raised ValueError as soon as the burn-in was long enough to check it.
---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index c9a3a85..b25a1b1 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -567,7 +567,7 @@ class MetropolisHastings:
             else:
                 raise ValueError("adaptation_method must be 'RM' or 'Haario'.")
             # Early stopping diagnostics: check if we have enough samples and convergence is achieved
-            if diag and self.global_iter >= n_diag_samples:
+            if diag and self.n_chains >= 2 and self.global_iter >= n_diag_samples:
                 rates = self.compute_sliding_rates(self.options.sliding_rate_width)
                 i0 = max(0, self.global_iter - n_diag_samples)
                 i1 = self.global_iter
-- 
2.43.0


From deeac119e9b25fcc3bf93a2fb49c1ca20b98e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:10:48 +0000
Subject: [PATCH 19/52] fix: count the entries of the KS significance arrays on
 both backends

The size attribute of a PyTorch tensor is a method, so
check_convergence_ks raised TypeError with that backend.
---
 gpmp/mcmc/mh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index b25a1b1..3a779f0 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -1027,7 +1027,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / sigA.size)
+        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / math.prod(sigA.shape))
 
         # Single-block check.
         if single_block_size is None:
@@ -1043,7 +1043,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / sigB.size)
+        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / math.prod(sigB.shape))
 
         # Convergence is declared if the fraction of significant comparisons is low.
         ok = (frac_sig_multi < fraction_threshold) and (
-- 
2.43.0


From 8c65862c715ffae401b23aa5f12d4f0d981ef954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:50 +0000
Subject: [PATCH 20/52] fix: raise ValueError for an unknown resampling scheme

The error message read an attribute that does not exist, so the caller
saw an AttributeError.
---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..1956015 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -245,7 +245,7 @@ class ParticlesSet:
         elif self.config.resample_scheme == "residual":
             self.residual_resample(debug=debug)
         else:
-            raise ValueError("Unknown resample scheme: {}".format(self.resample_scheme))
+            raise ValueError("Unknown resample scheme: {}".format(self.config.resample_scheme))
 
     def multinomial_resample(self, debug=False):
         """
-- 
2.43.0


From 772dae6fe92887c594b29cf3518bf22816b85db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:50 +0000
Subject: [PATCH 21/52] fix: raise ValueError for an unknown particle
 covariance method

An unknown name left the covariance undefined and raised
UnboundLocalError.
---
 gpmp/mcmc/smc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 1956015..c61b35e 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -382,6 +382,10 @@ class ParticlesSet:
             )  # shape (dim, dim)
         elif self.config.covariance_method == "normal":
             base_cov = knn_cov.estimate_cov_matrix(self.x)
+        else:
+            raise ValueError(
+                "Unknown covariance method: {}".format(self.config.covariance_method)
+            )
         C = self.param_s * base_cov
 
         # Call ParticlesSet.multivariate_normal_rvs(C, self.n, self.rng)
-- 
2.43.0


From 5967afafb83b68904986569a41ab4d8be68f113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:14 +0000
Subject: [PATCH 22/52] fix: use the backend identity when jittering the
 particle covariance

The module does not import numpy as np, so the retry with jitter raised
NameError instead of repairing a covariance that is not positive
semidefinite.  The size is that of the particles because the covariance
of one-dimensional particles is a scalar.
---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index c61b35e..9d1a5b0 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -401,7 +401,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(self.dim)  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From 1ce8217115563b3f685b897b2464f4095cdada20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:14 +0000
Subject: [PATCH 23/52] fix: raise an error instead of starting the debugger in
 SMC resampling

Invalid weights started pdb inside the library.  Multinomial resampling
then went on without resampling counts.
---
 gpmp/mcmc/smc.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 9d1a5b0..25b44fc 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -261,12 +261,7 @@ class ParticlesSet:
             p = gnp.full((self.n,), 1 / self.n)
         else:
             p = self.w_tmp / gnp.sum(self.w_tmp)
-        try:
-            counts = ParticlesSet.multinomial_rvs(self.n, p, self.rng)
-        except Exception:
-            extype, value, tb = __import__("sys").exc_info()
-            __import__("traceback").print_exc()
-            __import__("pdb").post_mortem(tb)
+        counts = ParticlesSet.multinomial_rvs(self.n, p, self.rng)
 
         if debug:
             print(
@@ -324,8 +319,7 @@ class ParticlesSet:
 
             # Defensive check before multinomial draw
             if gnp.any(p_vals < 0) or gnp.any(p_vals > 1) or gnp.any(gnp.isnan(p_vals)):
-                print("Residual resampling error: invalid p_vals.")
-                __import__("pdb").set_trace()
+                raise ValueError("Residual resampling error: invalid p_vals.")
 
             counts_res = ParticlesSet.multinomial_rvs(N_residual, p_vals, self.rng)
         else:
-- 
2.43.0


From 91ddf2779699f2e8bd499f42e3b46ce2617e56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:09 +0000
Subject: [PATCH 24/52] fix: project SVGD particles to sampling_box when
 options are given

sample_from_selection_criterion_svgd truncated the target to sampling_box
but took the projection box from options only. With an options object that
has no box, particles left the box and were returned outside it.
---
 gpmp/mcmc/param_posterior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..fba8182 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -41,6 +41,7 @@ Input conventions
 
 from __future__ import annotations
 
+from dataclasses import replace
 from typing import Callable, Optional, Tuple
 
 import gpmp.config as config
@@ -979,6 +980,8 @@ def sample_from_selection_criterion_svgd(
             log_every=log_every,
             jitter=jitter,
         )
+    elif sampling_box is not None:
+        options = replace(options, sampling_box=sampling_box)
 
     particles, info_svgd = svgd_sample(
         log_prob=log_prob,
-- 
2.43.0


From 148dfa3a747a50d7551175de3990fcdd04cb177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:26 +0000
Subject: [PATCH 25/52] fix: reject None in set_backend before changing the
 configuration

set_backend(None) cleared the configured backend and then failed with a
TypeError when writing the environment variable.
---
 gpmp/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/config.py b/gpmp/config.py
index 6561985..2d59a9d 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -199,6 +199,8 @@ def init_backend():
 def set_backend(backend: str):
     """Force a backend ('numpy'|'torch') before importing gpmp.num."""
     backend = _normalize_backend_spec(backend)
+    if backend is None:
+        raise ValueError("backend must be 'numpy' or 'torch'")
     _config.backend = backend
     os.environ["GPMP_BACKEND"] = backend
 
-- 
2.43.0


From 74c16d432ce894723f717ed1c2319c6b0227e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:26 +0000
Subject: [PATCH 26/52] fix: validate all fields in config.update before
 changing any

A valid backend given together with an unsupported dtype changed
GPMP_BACKEND although the call was rejected.
---
 gpmp/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpmp/config.py b/gpmp/config.py
index 2d59a9d..31bacb8 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -144,11 +144,13 @@ class _GPMPConfig:
         # Validate known sensitive fields to avoid inconsistent state.
         if "backend" in kwargs:
             kwargs["backend"] = _normalize_backend_spec(kwargs["backend"])
-            if kwargs["backend"] is not None:
-                os.environ["GPMP_BACKEND"] = kwargs["backend"]
-
         if "dtype" in kwargs:
             kwargs["dtype"] = _normalize_dtype_spec(kwargs["dtype"])
+
+        if kwargs.get("backend") is not None:
+            os.environ["GPMP_BACKEND"] = kwargs["backend"]
+
+        if "dtype" in kwargs:
             os.environ["GPMP_DTYPE"] = kwargs["dtype"]
             # dtype_resolved must be recomputed by gpmp.num after import.
             kwargs.setdefault("dtype_resolved", None)
-- 
2.43.0


From 9ea674a9facaa8dee346ed7b29cae0f6191380fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:08 +0000
Subject: [PATCH 27/52] fix: draw multivariate_normal.rvs from the seeded
 generator

The draws came from the global NumPy and PyTorch generators, so that
Metropolis-Hastings proposals did not depend on gnp.set_seed.
---
 gpmp/num/numpy_backend.py | 11 +++++++----
 gpmp/num/torch_backend.py |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index b16a425..1b40ee9 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -513,9 +513,9 @@ class multivariate_normal:
     def rvs(mean=0.0, cov=1.0, n=1):
         # Check if cov is a scalar or 1x1 array, and use norm if so
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.rvs(mean, numpy.sqrt(cov), size=n).astype(
-                _np_dtype, copy=False
-            )
+            return normal.rvs(
+                mean, numpy.sqrt(cov), size=n, random_state=_np_rng
+            ).astype(_np_dtype, copy=False)
 
         # For dxd covariance matrix, use multivariate_normal
         cov = numpy.asarray(cov)
@@ -524,7 +524,10 @@ class multivariate_normal:
         d = cov.shape[0]
         mean_array = multivariate_normal._mean_array(mean, d)
         return numpy.asarray(
-            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n), dtype=_np_dtype
+            scipy_mvnormal.rvs(
+                mean=mean_array, cov=cov, size=n, random_state=_np_rng
+            ),
+            dtype=_np_dtype,
         )
 
     @staticmethod
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 974706a..57c55b4 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1035,7 +1035,7 @@ class multivariate_normal:
                 mean, device=var.device
             ).reshape(())
             dist = Normal(mean_s, var.sqrt())
-            return dist.sample((n,))
+            return dist.loc + dist.scale * randn(n)
 
         # matrix covariance
         if cov_t.ndim != 2 or cov_t.shape[0] != cov_t.shape[1]:
@@ -1043,7 +1043,7 @@ class multivariate_normal:
         d = cov_t.shape[0]
         mean_vec = multivariate_normal._mean_vector(mean, d, cov_t.device)
         dist = MultivariateNormal(mean_vec, covariance_matrix=cov_t)
-        return dist.sample((n,))
+        return dist.loc + randn(n, d) @ dist.scale_tril.mT
 
     @staticmethod
     def logpdf(x, mean=0.0, cov=1.0):
-- 
2.43.0


From 942e285e6ded1872f0a07f44275c8b6d10676fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:08 +0000
Subject: [PATCH 28/52] fix: seed the SMC generator from the GPmp generator

The default generator was created at import time without a seed and
shared by all runs, so that run_smc_sampling, run_subset_simulation and
posterior sampling with SMC were not reproducible.
---
 gpmp/mcmc/smc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 25b44fc..38c96b3 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -29,6 +29,11 @@ except ImportError:
     from gpmp.mcmc import knn_cov
 
 
+def _seeded_rng():
+    """Return a NumPy generator seeded from the GPmp generator (see gnp.set_seed)."""
+    return default_rng(int(gnp.to_scalar(gnp.rand()) * 2**53))
+
+
 @dataclass
 class ParticlesSetConfig:
     initial_distribution_type: str = "randunif"  # Initial particle sampler in init box.
@@ -80,7 +85,7 @@ class ParticlesSet:
     config : ParticlesSetConfig, optional
         Configuration for initialization, resampling, and perturbation.
     rng : numpy.random.Generator, optional
-        Random number generator (defaults to default_rng()).
+        Random number generator (default: seeded from the GPmp generator).
 
     Attributes
     ----------
@@ -126,14 +131,14 @@ class ParticlesSet:
     """
 
     def __init__(
-        self, box, n=1000, config: ParticlesSetConfig = None, rng=default_rng()
+        self, box, n=1000, config: ParticlesSetConfig = None, rng=None
     ):
         """
         Initialize the ParticlesSet instance.
         """
         self.n = n  # Number of particles
         self.dim = len(box[0])
-        self.rng = rng
+        self.rng = rng if rng is not None else _seeded_rng()
         self.config = config if config is not None else ParticlesSetConfig()
 
         # Initialize particle parameters using config
@@ -485,7 +490,7 @@ class SMC:
     smc_config : SMCConfig, optional
         Configuration for SMC options (e.g., MH steps, thresholds); default settings are used if None.
     rng : numpy.random.Generator, optional
-        Random number generator (default: default_rng()).
+        Random number generator (default: seeded from the GPmp generator).
 
     Attributes
     ----------
@@ -530,7 +535,7 @@ class SMC:
         n=2000,
         particles_config: ParticlesSetConfig = None,
         smc_config: SMCConfig = None,
-        rng=default_rng(),
+        rng=None,
     ):
         self.box = box
         self.n = n
-- 
2.43.0


From 52cc2b15f2f71ad34266d70632478c3aac3635c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:08 +0000
Subject: [PATCH 29/52] fix: draw random designs from the seeded generator

Random designs came from the global NumPy generator or from fresh
entropy and did not depend on gnp.set_seed.
---
 gpmp/misc/designs.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..0705cd9 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -11,6 +11,12 @@ Design of experiments utilities.
 import numpy as np
 from scipy.stats import qmc
 from scipy.spatial.distance import cdist, pdist
+import gpmp.num as gnp
+
+
+def _seeded_rng():
+    """Return a NumPy generator seeded from the GPmp generator (see gnp.set_seed)."""
+    return np.random.default_rng(int(gnp.to_scalar(gnp.rand()) * 2**53))
 
 
 def maxdist(sample):
@@ -193,7 +199,7 @@ def randunif(dim, n, box):
     numpy.ndarray
         Random uniform sample in the specified box.
     """
-    sample = np.random.rand(n, dim)
+    sample = _seeded_rng().random((n, dim))
     sample = scale(sample, box)
 
     return sample
@@ -224,8 +230,9 @@ def ldrandunif(dim, n, box, max_iter=50):
     FIXME: optimization method
     """
     mindiscrepany = 1e6  # large number
+    rng = _seeded_rng()
     for i in range(max_iter):
-        sample = np.random.rand(n, dim)
+        sample = rng.random((n, dim))
         d = discrepancy(sample)
         if d < mindiscrepany:
             mindiscrepany = d
@@ -256,7 +263,7 @@ def maximinlhs(dim, n, box, max_iter=1000):
     numpy.ndarray
         Maximin Latin Hypercube Sample within the specified box.
     """
-    sampler = qmc.LatinHypercube(d=dim, optimization=None)
+    sampler = qmc.LatinHypercube(d=dim, optimization=None, seed=_seeded_rng())
 
     maximindist = 0
     for i in range(max_iter):
@@ -289,7 +296,9 @@ def maximinldlhs(dim, n, box):
     numpy.ndarray
         Maximin low-discrepancy Latin Hypercube Sample within the specified box.
     """
-    sampler = qmc.LatinHypercube(d=dim, optimization="random-cd")
+    sampler = qmc.LatinHypercube(
+        d=dim, optimization="random-cd", seed=_seeded_rng()
+    )
 
     max_iter = 10
     maximindist = 0
-- 
2.43.0


From 64c2d2933f001211771b2f72e5bf21439b44e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:08 +0000
Subject: [PATCH 30/52] fix: thin plotted samples with the seeded generator

---
 gpmp/mcmc/nuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index e56f23b..dba35cb 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -1302,7 +1302,7 @@ def plot_rosenbrock_samples(
 
     n = x.shape[0]
     if n > max_points:
-        idx = np.random.choice(n, size=max_points, replace=False)
+        idx = gnp.to_np(gnp.choice(n, size=max_points, replace=False))
         x = x[idx]
 
     if automatically_set_size:
-- 
2.43.0


From 77fecb3c37af653f03b01ace499d1ad43dfda99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:48 +0000
Subject: [PATCH 31/52] fix: do not mistake programming errors for
 linear-algebra failures

The filter for linear-algebra failures searched the message of any exception
for words such as "inverse" or "linalg". A NameError or AttributeError whose
message contains one of them was turned into an infinite criterion value.
Only runtime and value errors are now recognised by their message.
---
 gpmp/num/numpy_backend.py | 2 ++
 gpmp/num/torch_backend.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 1b40ee9..adb1957 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -158,6 +158,8 @@ def safe_neginf():
 def _is_linalg_exception(exc: Exception) -> bool:
     if isinstance(exc, numpy.linalg.LinAlgError):
         return True
+    if not isinstance(exc, (RuntimeError, ValueError)):
+        return False
     msg = str(exc).lower()
     return builtins.any(keyword in msg for keyword in _LINALG_ERROR_KEYWORDS)
 
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 57c55b4..cc7f5a1 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -157,6 +157,8 @@ _torch_linalg_error = (
 def _is_linalg_exception(exc: Exception) -> bool:
     if _torch_linalg_error and isinstance(exc, _torch_linalg_error):
         return True
+    if not isinstance(exc, (RuntimeError, ValueError)):
+        return False
     msg = str(exc).lower()
     return builtins.any(keyword in msg for keyword in _LINALG_ERROR_KEYWORDS)
 
-- 
2.43.0


From 2e3462f59a458cec1c45e9047858b972286eac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:48 +0000
Subject: [PATCH 32/52] fix: leave prior defaults unchanged when an argument is
 rejected

set_default_prior_hyperparameters stored the first values before checking the
later ones, so a call that raised ValueError could still change the defaults.
All arguments are now checked before any is stored.
---
 gpmp/kernel/prior_defaults.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpmp/kernel/prior_defaults.py b/gpmp/kernel/prior_defaults.py
index dd0621c..55e01b9 100644
--- a/gpmp/kernel/prior_defaults.py
+++ b/gpmp/kernel/prior_defaults.py
@@ -91,24 +91,29 @@ def set_default_prior_hyperparameters(
         gamma = float(gamma)
         if gamma <= 1.0:
             raise ValueError("gamma must be > 1.")
-        _PRIOR_DEFAULTS.gamma = gamma
 
     if sigma2_coverage is not None:
         sigma2_coverage = float(sigma2_coverage)
         if not (0.0 < sigma2_coverage < 1.0):
             raise ValueError("sigma2_coverage must be in (0, 1).")
-        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
 
     if alpha is not None:
         alpha = float(alpha)
         if alpha <= 0.0:
             raise ValueError("alpha must be > 0.")
-        _PRIOR_DEFAULTS.alpha = alpha
 
     if rho_min_range_factor is not None:
         rho_min_range_factor = float(rho_min_range_factor)
         if rho_min_range_factor <= 0.0:
             raise ValueError("rho_min_range_factor must be > 0.")
+
+    if gamma is not None:
+        _PRIOR_DEFAULTS.gamma = gamma
+    if sigma2_coverage is not None:
+        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
+    if alpha is not None:
+        _PRIOR_DEFAULTS.alpha = alpha
+    if rho_min_range_factor is not None:
         _PRIOR_DEFAULTS.rho_min_range_factor = rho_min_range_factor
 
 
-- 
2.43.0


From f82b131b2ca59b104e7606a84a5002739cfec1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:48 +0000
Subject: [PATCH 33/52] fix: reject values that contradict d in
 make_anisotropic_param

The length of values must be d + 1, as documented. A contradictory d was
silently ignored.
---
 gpmp/parameter/param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 79ae9bb..2b07bac 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -322,6 +322,8 @@ def make_anisotropic_param(
     """
     if values is not None:
         values = gnp.asarray(values)
+        if d is not None and len(values) != d + 1:
+            raise ValueError("`values` must have length d + 1.")
         d = len(values) - 1
     elif d is not None:
         values = gnp.array([0.0] + [-1.0] * d)
-- 
2.43.0


From 85b300ddcad2a44e142e7c61319537aead68031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:38 +0000
Subject: [PATCH 34/52] fix: do not use numpy.trapz, which NumPy 2.4 removed

fast_univariate_stats raised AttributeError with recent NumPy releases.
scipy.integrate.trapezoid computes the same integral in all supported
versions of SciPy.
---
 gpmp/modeldiagnosis/param_stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index b040a78..0ce5bb2 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -39,7 +39,7 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple
 
 import numpy as np
-from scipy.integrate import cumulative_trapezoid
+from scipy.integrate import cumulative_trapezoid, trapezoid
 from scipy.optimize import minimize_scalar
 
 import gpmp.num as gnp
@@ -94,12 +94,12 @@ def fast_univariate_stats(
     logw -= np.max(logw)  # stabilize exp
     w = np.exp(logw)
 
-    Z = np.trapz(w, xs)
+    Z = trapezoid(w, xs)
     if not np.isfinite(Z) or Z <= 0.0:
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
-    mean_val = float(np.trapz(xs * w, xs) / Z)
-    second = float(np.trapz((xs**2) * w, xs) / Z)
+    mean_val = float(trapezoid(xs * w, xs) / Z)
+    second = float(trapezoid((xs**2) * w, xs) / Z)
     variance = float(second - mean_val**2)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
-- 
2.43.0


From bf2111a19130aad22be7fc2526ac87a2e3dcfde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:38 +0000
Subject: [PATCH 35/52] fix: compute the NUTS diagnostic moving average with
 NumPy

plot_nuts_diagnostics called gnp.convolve, which neither backend provides,
and raised AttributeError as soon as there were more iterations than the
averaging window. The data are NumPy arrays at that point. The demonstration
block at the end of the module also needs the import of NumPy.
---
 gpmp/mcmc/nuts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index dba35cb..6fe0d47 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -163,6 +163,8 @@ import math
 import os
 import time
 
+import numpy as np
+
 import gpmp.num as gnp
 
 ArrayLike = any  # Placeholder for unified array type
@@ -1140,8 +1142,8 @@ def moving_average(y, window: int):
     if window <= 1:
         return y
 
-    w = gnp.ones(window, dtype=gnp_dtype) / window
-    return gnp.convolve(y, w, mode="valid")
+    w = np.ones(window) / window
+    return np.convolve(y, w, mode="valid")
 
 
 def plot_nuts_diagnostics(
-- 
2.43.0


From e8e4eaf4689b71099688b9163c1b167814376c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:24 +0000
Subject: [PATCH 36/52] fix: finite gradient of elementwise distances at
 coincident points

The square root of a zero squared distance has an infinite derivative, so the
gradient of a pairwise covariance was NaN as soon as one pair of points
coincided. Use the same guarded square root as cdist.
---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index cc7f5a1..c5dc302 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -848,7 +848,7 @@ def scaled_distance_elementwise(loginvrho, x, y):
         d = zeros((x.shape[0],))
     else:
         invrho = exp(loginvrho)
-        d = sqrt(sum((invrho * (x - y)) ** 2, axis=1))
+        d = custom_sqrt(sum((invrho * (x - y)) ** 2, axis=1))
     return d
 
 # ..................................................
-- 
2.43.0


From 80e9031d1046d1ff13c1bc3c52e2272b9354bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:12 +0000
Subject: [PATCH 37/52] fix: reduce over all elements by default in torch min
 and max

---
 gpmp/num/torch_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index c5dc302..6265250 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -462,12 +462,18 @@ def norm(x, axis=None, ord=2):
     return torch.norm(x, dim=axis, p=ord)
 
 
-def min(x, axis=0, keepdims=False):
+def min(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.min(x)
+        return m.reshape((1,) * x.dim()) if keepdims else m
     m = torch.min(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
 
-def max(x, axis=0, keepdims=False):
+def max(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.max(x)
+        return m.reshape((1,) * x.dim()) if keepdims else m
     m = torch.max(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
-- 
2.43.0


From 5be594509bd9849ce5a7fb61a53264df8790be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:12 +0000
Subject: [PATCH 38/52] fix: include the scale factor in the torch normal
 density

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 6265250..1a1adf7 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1001,7 +1001,7 @@ class normal:
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / (scale * sqrt(2 * pi)) * exp(-0.5 * t**2)
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 266c41fbeb4968c5e590e7f3af38f364095c0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:12 +0000
Subject: [PATCH 39/52] fix: use the transposed triangle in torch
 solve_triangular with trans

---
 gpmp/num/torch_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 1a1adf7..6c95459 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -876,18 +876,21 @@ def solve_triangular(
     overwrite_b=False,
     check_finite=False,
 ):
+    upper = not lower
     if trans in (0, "N", "n"):
         Aop = A
     elif trans in (1, "T", "t"):
         Aop = A.mT
+        upper = lower
     elif trans in (2, "C", "c"):
         Aop = A.mH
+        upper = lower
     else:
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
         B,
-        upper=not lower,
+        upper=upper,
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From 9db7e891c625e806a85c8cf0e8ffb8f600d80f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:40 +0000
Subject: [PATCH 40/52] fix: keep a copy of the values given to Param

---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 2b07bac..1e193ae 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,7 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        new_values = gnp.asarray(new_values)
+        new_values = gnp.copy(gnp.asarray(new_values))
         if hasattr(self, "names") and len(new_values) != len(self.names):
             raise ValueError("Mismatch in size for values.")
         self._values = new_values
-- 
2.43.0


From dc223a4523fa2ef2728c278684d472595a00de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 41/52] fix: use the documented linear term in the wave test
 function

---
 gpmp/misc/testfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 709e27a..faf66f2 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -56,7 +56,7 @@ def wave(x):
     """    
     z = (
         np.exp(1.8 * (x[:, 0] + x[:, 1]))
-        + 3 * x[:, 1]
+        + 3 * x[:, 0]
         + 6 * x[:, 1] ** 2
         + 3 * np.sin(4 * np.pi * x[:, 0])
     )
-- 
2.43.0


From 70d20ec1943ff902e8724dfab92c506ce862f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 42/52] fix: sum all logarithmic terms of the detpep8d test
 function

---
 gpmp/misc/testfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index faf66f2..6f881e3 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -361,8 +361,8 @@ def detpep8d(x):
             xj = x[:, jj - 1]
             inner = inner + xj
 
-    new = ii * np.log(1 + inner)
-    outer = outer + new
+        new = ii * np.log(1 + inner)
+        outer = outer + new
 
     z = term1 + term2 + term3 + outer
 
-- 
2.43.0


From 39a8e076c6b7cb0a26dae18aeb60961c09aab1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 43/52] fix: take the largest nearest-point distance as the
 fill distance

---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 0705cd9..f64cc5f 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -101,7 +101,7 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
         n = x.shape[0]
     filldist = 0
     for i in range(n):
-        D = cdist(sample, x)
+        D = cdist(sample, x[i : i + 1, :])
         d = np.min(D)
         if d > filldist:
             filldist = d
-- 
2.43.0


From 5e12aeaff2e8fd7eab8caf001072594f2e6a2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 44/52] fix: keep names and shape in DataFrame selections

---
 gpmp/misc/dataframe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..154eb1b 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -43,18 +43,18 @@ class DataFrame:
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                return DataFrame(self.data[row_key, [self.colnames.index(col_key)]], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                return DataFrame(self.data[[self.rownames.index(row_key)], col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                return DataFrame(self.data[[self.rownames.index(key)], :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                return DataFrame(self.data[:, [self.colnames.index(key)]], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From 2b3022d53bd391eeaa0fd5022ffd0db8421c4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 45/52] fix: keep a copy of the names given to DataFrame

---
 gpmp/misc/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 154eb1b..d490019 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -36,8 +36,8 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
-- 
2.43.0


From 6bd9e4cab8c5ca55fd86597558ffe507ae341a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:27 +0000
Subject: [PATCH 46/52] fix: divide the range of the data by sigma in the
 diagnosis report

---
 gpmp/modeldiagnosis/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index 6f8bce3..cfe2822 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -212,7 +212,7 @@ def model_diagnosis_disp(
         rownames_zi = ["zi"]
     else:
         rownames_zi = [f"zi_{j}" for j in range(int(zi.shape[1]))]
-    df_zi = describe_array(zi, rownames_zi, 1.0 / param_values[0])
+    df_zi = describe_array(zi, rownames_zi, 1.0 / np.sqrt(param_values[0]))
 
     n, d = int(xi.shape[0]), int(xi.shape[1])
     rownames_xi = [f"xi_{j}" for j in range(d)]
-- 
2.43.0


From f140bb187c33d6d7a650545276b081952e6a5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:34:13 +0000
Subject: [PATCH 47/52] fix: numpy multivariate_normal keeps the shape of the
 points with a 1x1 covariance

---
 gpmp/num/numpy_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index adb1957..b05379b 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -538,7 +538,7 @@ class multivariate_normal:
         if numpy.isscalar(cov) or (
             isinstance(cov, numpy.ndarray) and cov.size == 1
         ):
-            return normal.logpdf(x, mean, numpy.sqrt(cov))
+            return normal.logpdf(x, mean, numpy.sqrt(numpy.reshape(cov, ())))
 
         # For dxd covariance matrix, use multivariate_normal
         x = numpy.asarray(x)
@@ -559,7 +559,7 @@ class multivariate_normal:
     def cdf(x, mean=0.0, cov=1.0):
         # Check if cov is a scalar or 1x1 array, and use norm for the univariate case
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.cdf(x, mean, sqrt(cov))
+            return normal.cdf(x, mean, sqrt(numpy.reshape(cov, ())))
 
         # For dxd covariance matrix, use multivariate_normal
         x = numpy.asarray(x)
-- 
2.43.0


From 9aa93686a2d0c7e516589c128e492780b5f47ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:46 +0000
Subject: [PATCH 48/52] fix: treat vectors as one variable in torch cov with
 rowvar=False

---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 6c95459..e0fac87 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -421,13 +421,13 @@ def cov(
     x = asarray(m, dtype=_resolve_torch_dtype(dtype))
     if x.ndim == 1:
         x = x.reshape(1, -1)
-    if not rowvar:
+    elif not rowvar:
         x = x.transpose(0, 1)
     if y is not None:
         y = asarray(y, dtype=_resolve_torch_dtype(dtype))
         if y.ndim == 1:
             y = y.reshape(1, -1)
-        if not rowvar:
+        elif not rowvar:
             y = y.transpose(0, 1)
         x = concatenate((x, y), axis=0)
 
-- 
2.43.0


From a5ee079669e76b5bcf9ed15a2f2ef548df9cb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:10 +0000
Subject: [PATCH 49/52] fix: give the self-comparison of a KS block a p-value
 of one

The convergence check looks at the share of small p-values over all
pairs of blocks. The diagonal was left at zero, so with one or two
chains that share could never fall below the threshold.
---
 gpmp/mcmc/mh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 3a779f0..a7f03d1 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -934,7 +934,8 @@ class MetropolisHastings:
         # Fill pairwise results dimension-by-dimension
         for d in range(dim):
             for i in range(B):
-                # the diagonal remains zero
+                # a block does not differ from itself: statistic 0, p-value 1
+                pvalue_matrix[d, i, i] = 1.0
                 for j in range(i + 1, B):
                     result = ks_2samp(
                         gnp.to_np(blocks[i][:, d]),
-- 
2.43.0


From f010a2ca4032467c5f9e76c083a24915c00ae9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:10 +0000
Subject: [PATCH 50/52] fix: reject integer and complex dtypes that end in 64

The dtype setting accepted any specification ending in 64, so int64,
uint64 and complex64 were silently taken as float64.
---
 gpmp/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/config.py b/gpmp/config.py
index 31bacb8..d2d7420 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -72,7 +72,7 @@ def _normalize_dtype_spec(dtype) -> str:
     if "float32" in s or s.endswith("f4") or s.endswith("32"):
         raise ValueError("GPmp supports float64 only (float32 is not supported).")
 
-    if "float64" in s or "double" in s or s.endswith("f8") or s.endswith("64"):
+    if "float64" in s or "double" in s or s.endswith("f8") or s.endswith("f64"):
         return "float64"
 
     raise ValueError("dtype must resolve to float64")
-- 
2.43.0


From 3d135582b2671c04ef6ea4a06ba09ca24684f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:10 +0000
Subject: [PATCH 51/52] fix: use the bounds of the swept parameter in criterion
 cross sections

The bounds were looked up with the panel position instead of the
parameter index, so plotting a subset of the parameters used the bounds
of other parameters.
---
 gpmp/modeldiagnosis/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 5343a00..2524ce1 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -184,7 +184,7 @@ def plot_selection_criterion_crosssections(
 
         for ax_i, param_idx in enumerate(ind):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(ax_i, opt_value, param_box)
+            p_values = _grid_for_param(param_idx, opt_value, param_box)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
@@ -214,9 +214,9 @@ def plot_selection_criterion_crosssections(
     if ind_pooled is not None:
         ind_pooled = list(ind_pooled)
         fig, ax = plt.subplots(figsize=(8, 6))
-        for i, param_idx in enumerate(ind_pooled):
+        for param_idx in ind_pooled:
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(i, opt_value, param_box_pooled)
+            p_values = _grid_for_param(param_idx, opt_value, param_box_pooled)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
-- 
2.43.0


From 366647e6c588b047fb6ca3757c97e7d7294be57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:24 +0000
Subject: [PATCH 52/52] fix: draw the PIT curve as the empirical distribution
 function

The step heights started from zero at the smallest value and the steps
were drawn to the left, so the curve was not the empirical distribution
function. A figure passed by the caller was also ignored.
---
 gpmp/modeldiagnosis/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 2524ce1..fa5aa8d 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -56,12 +56,14 @@ def plot_pit_ecdf(pit: Any, fig: Optional[Any] = None) -> None:
     pit = gnp.asarray(pit).reshape(-1)
     n = int(pit.shape[0])
 
-    p = gnp.concatenate((gnp.array([0.0]), gnp.linspace(0.0, 1.0, n)))
+    p = gnp.linspace(0.0, 1.0, n + 1)
     pit_sorted = gnp.concatenate((gnp.array([0.0]), gnp.sort(pit)))
 
     if fig is None:
         plt.figure()
-    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p))
+    else:
+        plt.figure(fig.number)
+    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p), where="post")
     plt.plot([0.0, 1.0], [0.0, 1.0])
     plt.title("PIT ECDF")
     plt.xlabel("PIT")
-- 
2.43.0

