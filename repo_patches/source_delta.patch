From 9f4ec897f0729e71b0a76fb36a8888dfd66362dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 01/21] fix: validate solver and stepback values given under
 string option names

---
 fides/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..9dce9f8 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,10 +128,10 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
-- 
2.43.0


From 564015212c74572ac2967e851d767436e0a02aad Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 02/21] fix: reject infinite, NaN and non-numeric iteration
 limits with TypeError

---
 fides/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/constants.py b/fides/constants.py
index 9dce9f8..0c85965 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -136,7 +136,11 @@ def validate_options(options: dict):
 
         expected_type = expected_types[option]
         if not isinstance(option_value, expected_type):
-            if expected_type == Integral and int(option_value) == option_value:
+            if (
+                expected_type == Integral
+                and isinstance(option_value, Real)
+                and float(option_value).is_integer()
+            ):
                 continue
             raise TypeError(
                 f'Type mismatch for option {option_key}. '
-- 
2.43.0


From ee06796b486a30db29f172fcb5c15489287a9096 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 03/21] fix: apply the bad Broyden update and make it satisfy
 the secant equation

---
 fides/hessian_approximation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..e47ef29 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,13 +244,14 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
-        b = y.T.dot(s)
+    def _compute_update(self, s: np.ndarray, y: np.ndarray):
+        v = self._hess.T.dot(y)
+        b = v.T.dot(s)
         z = y - self._hess.dot(s)
         if b <= 0:
             self._diff = np.zeros_like(self._hess)
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.outer(z, v.T) / b
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From 26518c4c987953ca32c844975bf107a796532f52 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 04/21] fix: start every run of a hybrid scheme unswitched

---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index e47ef29..730d6b8 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -275,6 +275,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        super()._init_mat(dim, hess)
+        self._switched = False
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From 6994f17f951e71c47cbd62fe633bba9afe4a0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/21] fix: reject initial Hessian approximations that are not
 square matrices

---
 fides/hessian_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 730d6b8..a97e725 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if hess.shape != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'shape, was {hess.shape}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = hess.copy()
         self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 10f2a428a55e412863d843fdfac5fa7b2ddb0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/21] fix: return a copy of the structured update

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index a97e725..1b66b2e 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -497,7 +497,7 @@ class StructuredApproximation(HessianApproximation):
         return True  # pragma: no cover
 
     def get_structured_diff(self) -> np.ndarray:
-        return self._structured_diff
+        return self._structured_diff.copy()
 
 
 class SSM(StructuredApproximation):
-- 
2.43.0


From 358e5d62ea1338c37708c0dc8265e62802238315 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 07/21] fix: accept integer matrices as initial Hessian
 approximation

---
 fides/hessian_approximation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 1b66b2e..c8cabf1 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'shape, was {hess.shape}, '
                     f'but should be {(dim, dim)}.'
                 )
-            self._hess = hess.copy()
+            self._hess = hess.astype(float)
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
@@ -79,7 +79,7 @@ class HessianApproximation:
                 f'shape, was {mat.shape}, '
                 f'but should be {self._hess.shape}.'
             )
-        self._hess = mat.copy()
+        self._hess = mat.astype(float)
 
     @property
     def requires_resfun(self):
-- 
2.43.0


From a877c5915958e415550f16c5706ef87c86dfae05 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 08/21] fix: treat integer start points as floating point

---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..14194c3 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From cf9e12aab7eed07df1c99fd56a0e112a0a04ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 09/21] fix: reset exit flag and best point at the start of
 every run

---
 fides/minimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 14194c3..85e2db1 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -303,7 +303,10 @@ class Optimizer:
         self.converged = False
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
+        self.x_min = np.full(self.ub.shape, np.nan)
         self.fval_min = np.inf
+        self.grad_min = np.full(self.ub.shape, np.nan)
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.logger = create_logger(self.verbose)
         if not start_id:
             start_id = str(uuid.uuid1())
-- 
2.43.0


From 04a7c3f72100dd7af70a6bb12f1970a88ed091a7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 10/21] fix: test gradient convergence at the point that is
 kept

---
 fides/minimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 85e2db1..28a29e6 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -607,7 +607,9 @@ class Optimizer:
             Function output generated by a :py:class:`FunEvaluator`
         """
         converged = False
-        fval, grad = funout.fval, funout.grad
+        fval = funout.fval
+        # if the step is rejected, the gradient at the current point counts
+        grad = funout.grad if self.tr_ratio > 0.0 else self.grad
 
         fatol = self.get_option(Options.FATOL)
         frtol = self.get_option(Options.FRTOL)
-- 
2.43.0


From 580359a45d78554ca36c876cc091cf217c893561 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 11/21] fix: never hand out the same logger to two concurrent
 runs

---
 fides/logging.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fides/logging.py b/fides/logging.py
index ce2112f..62688d2 100644
--- a/fides/logging.py
+++ b/fides/logging.py
@@ -9,8 +9,10 @@ optimizer as well as debugging information
 """
 
 import logging
+import threading
 
 logger_count = 0
+logger_count_lock = threading.Lock()
 
 
 def create_logger(level: int) -> logging.Logger:
@@ -25,10 +27,12 @@ def create_logger(level: int) -> logging.Logger:
         logger instance
     """
     global logger_count
-    logger_count += 1
+    with logger_count_lock:
+        logger_count += 1
+        logger_id = logger_count
     # add logger count to differentiate between different fides
     # optimization instances and avoid deadlocks
-    logger = logging.getLogger(f'fides_{logger_count}')
+    logger = logging.getLogger(f'fides_{logger_id}')
     ch = logging.StreamHandler()
     formatter = logging.Formatter(
         fmt='%(asctime)s fides(%(levelname)s) %(message)s',
-- 
2.43.0


From cff40c51453e7a147a277707a5aa17b793ef8789 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 12/21] fix: do not divide by a vanishing Hessian in one
 dimension

---
 fides/steps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..3b7fcca 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,8 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            # any non-zero vector spans the full space
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From e12b1f0bfc20244e1a8d232f07d1f73a91b51314 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/21] fix: bound the number of successive truncations

---
 fides/stepback.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/stepback.py b/fides/stepback.py
index 438cdff..fb6b294 100644
--- a/fides/stepback.py
+++ b/fides/stepback.py
@@ -118,8 +118,9 @@ def stepback_truncate(
     )
     rtt_step.calculate()
     steps = [rtt_step]
-    while rtt_step.subspace.shape[1] > 0:
-        if rtt_step.alpha == 1.0:
+    # every truncation fixes at least one more variable
+    for _itruncation in range(len(x) - 1):
+        if rtt_step.alpha == 1.0 or rtt_step.subspace.shape[1] == 0:
             break
         rtt_step = TRStepTruncated(
             x, sg, hess, scaling, g_dscaling, delta, theta, ub, lb, rtt_step
-- 
2.43.0


From 17c1bc511e8451450c5e84c489af46542b906ede Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 14/21] fix: scale all of a conjugate gradient step when
 stepping back

---
 fides/steps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 3b7fcca..70278bc 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -334,7 +334,10 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # the step starts at x, so all of it is subject to step back
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros(self.ss.shape)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
-- 
2.43.0


From 6b5ba5a269fed628028d2abb4026755acf896351 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 15/21] fix: terminate conjugate gradient iterations for zero
 gradients and overflow

---
 fides/steps.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 70278bc..fbfe4ee 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -363,11 +363,15 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
+            self.subspace = np.expand_dims(d, 1)
+            self.sc = np.zeros((1,))
             self.ss = z
             return
 
-        while True:
+        # in exact arithmetic, len(d) iterations are sufficient
+        maxiter = 10 * len(d)
+        for niter in range(maxiter):
             bd = self.shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
@@ -387,7 +391,7 @@ class TRStepSteihaug(CGStep):
                 return
             rp = r + alpha * bd
             rp2 = np.dot(rp, rp)
-            if np.sqrt(rp2) < eps:
+            if np.sqrt(rp2) < eps or niter == maxiter - 1:
                 normalize(d)
                 self.subspace = np.expand_dims(d, 1)
                 self.sc = zp.dot(d) * np.ones((1,))
-- 
2.43.0


From 9c65ef15586dbe572dca5c9ec6711b0da12e876a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 16/21] fix: do not share arrays with the objective function

---
 fides/minimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 28a29e6..b3d91e1 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -4,6 +4,7 @@ Minimization
 This module performs the optimization given a step proposal.
 """
 
+import copy
 import logging
 import time
 import uuid
@@ -49,7 +50,9 @@ class FunEvaluator:
         self.funargs = funargs
 
     def __call__(self, x: np.ndarray):
-        ret = self.fun(x, **self.funargs)
+        # never share memory with the function, it may modify its input or
+        # reuse its output
+        ret = self.fun(x.copy(), **self.funargs)
 
         if not isinstance(ret, tuple) or len(ret) != self.nargout:
             nargout = len(ret) if isinstance(ret, tuple) else 1
@@ -63,6 +66,8 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
+        ret = tuple(copy.copy(val) for val in ret)
+
         if self.resfun:
             res, sres = ret
             return Funout(
-- 
2.43.0


From b6bae85ebc5ab46fa7c78f0036080a8047b54b06 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 17/21] fix: treat integer bounds as floating point

Coleman-Li scaling copies the lower bounds and overwrites entries with
upper bounds; with integer lower bounds fractional or infinite upper bounds
were truncated.
---
 fides/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index b3d91e1..c553a89 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -255,8 +255,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
-- 
2.43.0


From 7e5813cfe341bcc989faa3f20cf2b6f221e4f20b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 18/21] fix: check dimensions of objective output before the
 Hessian is used

A Hessian that is a plain number raised AttributeError instead of the
ValueError of checkdims().
---
 fides/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index c553a89..6b1fae4 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -369,6 +369,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -380,8 +381,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From 53b7ecae539929b85a99e11ed09d45fa84a71ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 19/21] fix: reject scalar starting points

x0 without dimensions passed the check for vectors and failed later with
a TypeError.
---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 6b1fae4..732ae9f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -363,7 +363,7 @@ class Optimizer:
         self._reset(start_id)
 
         self.x = np.array(x0, dtype=float)
-        if self.x.ndim > 1:
+        if self.x.ndim != 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
         self.check_in_bounds()
-- 
2.43.0


From a47059f73259e124f1e23b2ad5141f2c30cf5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 20/21] fix: subproblem fallback returned steps longer than the
 radius

If root finding fails due to ill-conditioning, the step assembled for the
hard case can be orders of magnitude longer than the trust region radius.
---
 fides/subproblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..9711f2c 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -218,6 +218,9 @@ def solve_nd_trust_region_subproblem(
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
     s = s + sigma * eigvecs[:, jmin]
+    if norm(s) > delta:
+        # rootfinding failed, e.g., due to ill-conditioning
+        s *= delta / norm(s)
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From 09809d878bf7bd21f39709f9ce2c8f2a97731175 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 05:27:41 +0000
Subject: [PATCH 21/21] fix: FX.set_mat() did not change the approximation

get_mat() returns the matrix of the iterative scheme, set_mat() of the base
class only changed a matrix which is never read.
---
 fides/hessian_approximation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index c8cabf1..0f70651 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -419,6 +419,9 @@ class FX(HybridApproximation):
     def get_mat(self) -> np.ndarray:
         return self.hessian_update.get_mat()
 
+    def set_mat(self, mat: np.ndarray) -> None:
+        self.hessian_update.set_mat(mat)
+
     @property
     def requires_resfun(self) -> bool:
         return True  # pragma: no cover
-- 
2.43.0

