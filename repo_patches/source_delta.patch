From 4269fc2e9776675232f67c9d36ad7b5bbc0aefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 001/131] fix: proximal_optimum returned a tuple and counted
 the own quadratic twice

---
 regreg/problems/composite.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..88b21d1 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -89,10 +89,7 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin) 
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From a3cfa8dacd55d3bb92a498bcee8f31de375c9225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 002/131] fix: weighted norm proximal maps at infinite weights,
 zero multipliers and no finite positive weight

---
 regreg/atoms/piecewise_linear.pyx |  2 +-
 regreg/atoms/weighted_atoms.py    | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index f16e181..846ee45 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -40,7 +40,7 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
     cdef int q = norms.shape[0]
     cdef int stop = 0
 
-    if (weights * norms).sum() < b:
+    if (weights * norms).sum() <= b:
         return 0
 
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms / np.maximum(weights, 1e-20)
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..4c372c6 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -174,8 +174,10 @@ class l1norm(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        return np.sign(arg) * np.maximum(np.fabs(arg)-lagrange * self.weights
-                                       / lipschitz, 0)
+        cut = np.full(self.weights.shape, np.inf)
+        finite = np.isfinite(self.weights)
+        cut[finite] = lagrange * self.weights[finite] / lipschitz
+        return np.sign(arg) * np.maximum(np.fabs(arg) - cut, 0)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
@@ -223,7 +225,7 @@ class supnorm(seminorm):
             check_zero = ~finite * (arg != 0)
             if check_zero.sum():
                 return np.inf
-        return lagrange * np.fabs(arg[finite] * self.weights[finite]).max()
+        return lagrange * np.fabs(arg[finite] * self.weights[finite]).max(initial=0)
 
     @doc_template_user
     def constraint(self, arg, bound=None):
@@ -246,7 +248,8 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = weights * (_lagrange + _isinf)
+        resid = np.sign(arg) * np.maximum(np.fabs(arg) - cut, 0)
 
         return arg - resid
 
-- 
2.43.0


From 091e25a4bd176083062b5fbf59ac3489ec081795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 003/131] fix: weighted supnorm projection with zero weights
 and zero bound

---
 regreg/atoms/weighted_atoms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 4c372c6..53cd6a2 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -256,7 +256,10 @@ class supnorm(seminorm):
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        return np.clip(arg, -bound * self.invweights, bound * self.invweights)
+        cut = np.full(self.weights.shape, np.inf)
+        nonzero = self.weights != 0
+        cut[nonzero] = bound * self.invweights[nonzero]
+        return np.clip(arg, -cut, cut)
 
     def terms(self, arg, check_feasibility=True):
         """
-- 
2.43.0


From 3f8928d8564027307935ff2dc6c60a542c245830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 004/131] fix: l2 epigraph projections at the apex, inside the
 cone and in its polar

---
 regreg/atoms/cones.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..5aea10d 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,8 +469,12 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm: # already in the cone
+            return np.array(x)
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(x)
+        if norm_coef <= -norm: # in the polar cone
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return result
@@ -513,8 +517,12 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm: # already in the cone
+            return -arg
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(arg)
+        if norm_coef <= -norm: # in the polar cone
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return -result
-- 
2.43.0


From 810f1f07bd9c0fbeb05a85c747473d29df84291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 005/131] fix: feasibility of the complement projection

---
 regreg/atoms/linear_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..1cdfcd6 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -159,7 +159,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 1d82260e78bf054c4496c622d43f834bf2068c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 006/131] fix: nuclear norm epigraph feasibility ignored the
 largest singular value

---
 regreg/atoms/svd_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..c1f0437 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -259,7 +259,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 82232f95cc4f84d4e0168f368ade4249a346aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 007/131] fix: piecewise linear root finder with zero weights
 or roots beyond the last knot

---
 regreg/atoms/piecewise_linear.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index 846ee45..2f8248c 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -43,12 +43,16 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
     if (weights * norms).sum() <= b:
         return 0
 
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms / np.maximum(weights, 1e-20)
+    # terms of weight 0 contribute nothing to f
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = np.where(weights > 0, norms, 0) / np.maximum(weights, 1e-20)
     cdef cnp.ndarray[DTYPE_intp_t, ndim=1] order = np.argsort(knots)
 
     slope = - slope # move the linear piece to the LHS
     cdef double curX = knots[order[q-1]]
     cdef double curV = slope * curX
+
+    if slope < 0 and curV >= b: # beyond the last knot, where f is 0
+        return b / slope
     
     cdef double nextX, nextV
     cdef double solution = np.inf
@@ -115,6 +119,9 @@ def find_solution_piecewise_linear_c(DTYPE_float_t b,
     slope = - slope # move the linear piece to the LHS
     cdef double curX = knots[order[q-1]]
     cdef double curV = slope * curX
+
+    if slope < 0 and curV >= b: # beyond the last knot, where f is 0
+        return b / slope
     
     cdef double nextX, nextV
     cdef double solution = np.inf
-- 
2.43.0


From e88a234fdf65112efa6d8f5c1fb555b1de3711fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 008/131] fix: feasibility of the sign and bound constraints of
 the one-sided seminorms

---
 regreg/atoms/seminorms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..50f637f 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From efdd6dae6e9bfb85adf7472f4231830c0105b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 009/131] fix: positive_part proximal map truncated integer
 arguments

---
 regreg/atoms/seminorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 50f637f..2d8d0e7 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -885,7 +885,7 @@ class positive_part(seminorm):
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         arg = np.asarray(arg)
-        v = arg.copy()
+        v = arg.copy().astype(float)
         pos = v > 0
         v = np.atleast_1d(v)
         v[pos] = np.maximum(v[pos] - lagrange/lipschitz, 0)
-- 
2.43.0


From 8d6a75b7c975d837a744c43cae00995e06e1445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 010/131] fix: get_dual of seminorms and cones called a
 property

---
 regreg/atoms/block_norms.py        | 18 +++++++++---------
 regreg/atoms/cones.py              | 20 ++++++++++----------
 regreg/atoms/group_lasso.py        | 12 ++++++------
 regreg/atoms/linear_constraints.py |  4 ++--
 regreg/atoms/seminorms.py          | 14 +++++++-------
 regreg/atoms/svd_norms.py          | 14 +++++++-------
 6 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..13dc693 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -161,7 +161,7 @@ class block_sum(seminorms.seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -228,7 +228,7 @@ class block_max(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -346,7 +346,7 @@ class linf_l2(block_max):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -428,11 +428,11 @@ class linf_linf(linf_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -523,11 +523,11 @@ class l1_l2(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -628,11 +628,11 @@ class l1_l1(l1_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 5aea10d..9d34ead 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -341,7 +341,7 @@ class nonnegative(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nonpositive(nonnegative):
@@ -378,7 +378,7 @@ class nonpositive(nonnegative):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero(cone):
@@ -409,7 +409,7 @@ class zero(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero_constraint(cone):
@@ -442,7 +442,7 @@ class zero_constraint(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph(cone):
@@ -489,7 +489,7 @@ class l2_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph_polar(cone):
@@ -537,7 +537,7 @@ class l2_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph(cone):
@@ -572,7 +572,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph_polar(cone):
@@ -609,7 +609,7 @@ class l1_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph(cone):
@@ -645,7 +645,7 @@ class linf_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph_polar(cone):
@@ -682,7 +682,7 @@ class linf_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(nonnegative,nonpositive),
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..d1dea55 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -285,7 +285,7 @@ class group_lasso(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual(group_lasso):
@@ -428,7 +428,7 @@ class group_lasso_dual(group_lasso):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_cone(cone):
@@ -563,7 +563,7 @@ class group_lasso_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_epigraph_polar(group_lasso_cone):
@@ -619,7 +619,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph(group_lasso_cone):
@@ -676,7 +676,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph_polar(group_lasso_cone):
@@ -734,7 +734,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 conjugate_seminorm_pairs[group_lasso_dual] = group_lasso
diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 1cdfcd6..b823e39 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -141,7 +141,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class projection_complement(linear_constraint):
@@ -179,7 +179,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(projection, projection_complement),
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 2d8d0e7..3cf6e93 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -685,7 +685,7 @@ class l1norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class supnorm(seminorm):
@@ -758,7 +758,7 @@ class supnorm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class l2norm(seminorm):
@@ -833,7 +833,7 @@ class l2norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 def positive_part_lagrange(shape, lagrange,
                            offset=None, quadratic=None, initial=None):
@@ -928,7 +928,7 @@ class positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_max(seminorm):
@@ -1005,7 +1005,7 @@ class constrained_max(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_positive_part(seminorm):
@@ -1087,7 +1087,7 @@ class constrained_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class max_positive_part(seminorm):
@@ -1158,7 +1158,7 @@ class max_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 for n1, n2 in [(l1norm,supnorm),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index c1f0437..f4efdb5 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -106,7 +106,7 @@ class nuclear_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class operator_norm(svd_atom):
@@ -180,7 +180,7 @@ class operator_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class svd_cone(cone):
@@ -243,7 +243,7 @@ class svd_cone(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nuclear_norm_epigraph(svd_cone):
@@ -285,7 +285,7 @@ class nuclear_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -332,7 +332,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -379,7 +379,7 @@ class operator_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -425,7 +425,7 @@ class operator_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
-- 
2.43.0


From 7b1b55d2995585baf7f6573cc919f3fd8ab455fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 011/131] fix: block norms used xrange

---
 regreg/atoms/block_norms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 13dc693..010e682 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
-- 
2.43.0


From cb91a84b488057f32f9cbad2f9042d4370cca335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 012/131] fix: block norm constraints ignored their bound
 argument and row feasibility

---
 regreg/atoms/block_norms.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 010e682..b0b2155 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -60,7 +60,7 @@ class block_sum(seminorms.seminorm):
         value = np.empty(self.shape[0])
         for i in range(self.shape[0]):
             value[i] = self.atom.seminorm(x[i], lagrange=lagrange,
-                                          check_feasibility=False)
+                                          check_feasibility=check_feasibility)
         return value
 
     @doc_template_user
@@ -74,11 +74,11 @@ class block_sum(seminorms.seminorm):
                            lagrange=1.))
 
     @doc_template_user
-    def constraint(self, x):
-        # XXX should we check feasibility here?
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=True))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -186,8 +186,8 @@ class block_max(block_sum):
         x = x.reshape(self.shape)
         bound = seminorms.seminorm.constraint(self, x, bound=bound)
         # XXX should we check feasibility here?
-        v = np.max(self.seminorms(x, lagrange=1., check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        v = np.max(self.seminorms(x, lagrange=1., check_feasibility=True))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -261,10 +261,11 @@ class linf_l2(block_max):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.sqrt((arg**2).sum(1)).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -372,10 +373,11 @@ class linf_linf(linf_l2):
                            initial=initial)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_max = np.fabs(arg).max()
-        if norm_max <= self.bound * (1 + self.tol):
+        if norm_max <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -486,10 +488,11 @@ class l1_l2(block_sum):
         return v
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         norm_sum = np.sqrt((x**2).sum(1)).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -581,10 +584,11 @@ class l1_l1(l1_l2):
         return (np.maximum(norm - lagrange / lipschitz, 0) * np.sign(arg)).reshape(self.shape)
 
     @doc_template_user
-    def constraint(self, arg):
+    def constraint(self, arg, bound=None):
         arg = arg.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, arg, bound=bound)
         norm_sum = np.fabs(arg).sum()
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
-- 
2.43.0


From 6647ad7ea9ee95445099c347ead7a128051c025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 013/131] fix: mixed norm proximal maps with zero rows

---
 regreg/atoms/block_norms.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index b0b2155..59544f6 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -283,8 +283,8 @@ class linf_l2(block_max):
         norm = np.sqrt((arg**2).sum(1))
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
-        v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v = arg.astype(float)
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -293,14 +293,8 @@ class linf_l2(block_max):
         norm = np.sqrt((arg**2).sum(1))
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         cut = find_solution_piecewise_linear_c(lagrange / lipschitz, 0, norm)
-        if cut < np.inf:
-            proj_factor = (norm - cut) * (norm > cut)
-        else:
-            proj_factor = arg
-        factor = (norm - proj_factor) / norm
-        v = arg.copy()
-        v *= factor[:,np.newaxis]
-        return v
+        factor = np.minimum(norm, cut) / np.where(norm > 0, norm, 1)
+        return arg * factor[:,np.newaxis]
 
     @doc_template_user
     def get_conjugate(self):
@@ -468,7 +462,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / np.where(norm > 0, norm, 1)
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -478,14 +472,8 @@ class l1_l2(block_sum):
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
         cut = find_solution_piecewise_linear_c(bound, 0, norm)
-        if cut < np.inf:
-            proj_factor = (norm - cut) * (norm > cut)
-        else:
-            proj_factor = arg
-        factor = proj_factor / norm
-        v = arg.copy()
-        v *= factor[:,np.newaxis]
-        return v
+        factor = np.maximum(norm - cut, 0) / np.where(norm > 0, norm, 1)
+        return arg * factor[:,np.newaxis]
 
     @doc_template_user
     def constraint(self, x, bound=None):
-- 
2.43.0


From 2f5fd2b2d678f8bd4c6f3f850bf3ee5dad8fb941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 014/131] fix: conjugates of block norms used a stale
 multiplier or bound

---
 regreg/atoms/block_norms.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 59544f6..3701278 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -128,8 +128,8 @@ class block_sum(seminorms.seminorm):
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -304,12 +304,10 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -527,12 +525,10 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From 51bc5047518e207d3ce40ae93fb91dcd7014b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 015/131] fix: affine_atom ignored the sign of the affine
 offset and changed it in place

---
 regreg/atoms/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..9574a7c 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -117,9 +117,9 @@ class affine_atom(object):
         # always linear
         if atransform.affine_offset is not None:
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
+                self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
-                self.atom.offset = atransform.affine_offset
+                self.atom.offset = -atransform.affine_offset
             ltransform = linear_transform(atransform.linear_operator,
                                           diag=atransform.diagD)
         else:
-- 
2.43.0


From 4cde3c1094940f46949fcfbe20bb52e9139be103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 016/131] fix: setting a zero offset kept the old one

---
 regreg/problems/composite.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 88b21d1..8c074ca 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -41,8 +41,7 @@ class composite(object):
     def set_offset(self, value):
         if value is not None:
             value = asarray(value)
-            if npany(value != 0):
-                self._offset = value
+            self._offset = value if npany(value != 0) else None
         else:
             self._offset = None
 
-- 
2.43.0


From b08f33c1d3a1112a1f46eb40ced171a76a343e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 017/131] fix: sparse group lasso dual in Lagrange form and its
 constraint

---
 regreg/atoms/sparse_group_lasso.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..b6ba2b0 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -250,7 +250,7 @@ class sparse_group_lasso_dual(sparse_group_lasso):
                                              self.groups,
                                              self.lasso_weights,
                                              weights=self.weights,
-                                             lagrange=self.bound)
+                                             lagrange=1.)
          return self._base_conjugate_atom
 
      @doc_template_user
@@ -263,7 +263,11 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         return inside_set(self.base_conjugate, x)
+         inbox = self.seminorm(x, lagrange=1) <= bound * (1 + self.tol)
+         if inbox:
+             return 0
+         else:
+             return np.inf
 
      @doc_template_user
      def lagrange_prox(self, x,  lipschitz=1, lagrange=None):
-- 
2.43.0


From f6dfc7bfd58c25cd7573c76ab737c538e778eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 018/131] fix: group lasso constraint lacked the feasibility
 tolerance

---
 regreg/atoms/group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index d1dea55..8488b0b 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound
+        inball = self.seminorm(arg, lagrange=1) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
-- 
2.43.0


From 08488a4f48df2984248582f39e3f5c12604cf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 019/131] fix: signs and zeros of the l1 coordinates in the
 mixed lasso kernels

---
 regreg/atoms/mixed_lasso_cython.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..3f93d1f 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,7 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +85,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -344,7 +342,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         norms[j] = np.sqrt(norms[j])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = prox_center[l1_penalty]
-    l1term = l1term[l1term != 0]
+    l1term = np.fabs(l1term[l1term != 0])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = prox_center[positive_part]
     ppterm = ppterm[ppterm > 0]
@@ -370,7 +368,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
             if groups[i] >= 0:
                 projection[i] = prox_center[i] * factors[groups[i]]
 
-        projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1., cut / np.fabs(prox_center[l1_penalty]))
+        projection[l1_penalty] = np.clip(prox_center[l1_penalty], -cut, cut)
         projection[unpenalized] = 0
         projection[positive_part] = np.minimum(cut, prox_center[positive_part])
         projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -408,7 +406,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
         norms[j] = np.sqrt(norms[j])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = x[l1_penalty]
-    l1term = l1term[l1term != 0]
+    l1term = np.fabs(l1term[l1term != 0])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = x[positive_part]
     ppterm = ppterm[ppterm > 0]
@@ -437,7 +435,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                 if groups[i] >= 0:
                     projection[i] = x[i] * factors[groups[i]]
 
-            projection[l1_penalty] = x[l1_penalty] * np.minimum(1., cut / np.fabs(x[l1_penalty]))
+            projection[l1_penalty] = np.clip(x[l1_penalty], -cut, cut)
             projection[unpenalized] = 0
             projection[positive_part] = np.minimum(cut, x[positive_part])
             projection[nonnegative] = np.minimum(x[nonnegative], 0)
-- 
2.43.0


From f247da02c72f8bb9359f922c10438e806ad05c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 020/131] fix: feasibility checks of the mixed and group lasso
 seminorms and their duals

---
 regreg/atoms/group_lasso.py         | 31 ++++++++++++++++-------------
 regreg/atoms/mixed_lasso_cython.pyx | 12 +++++++----
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 8488b0b..483246f 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound * (1 + self.tol)
+        inball = self.seminorm(arg, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
@@ -346,15 +346,18 @@ class group_lasso_dual(group_lasso):
 
         self._norms_cython[:] = 0
 
-        return lagrange * seminorm_mixed_lasso_dual(arg, 
-                                                    self._l1_cython,
-                                                    self._unpenalized_cython,
-                                                    self._positive_part_cython,
-                                                    self._nonnegative_cython,
-                                                    self._group_array,
-                                                    self._weight_array,
-                                                    self._norms_cython,
-                                                    False)
+        value = seminorm_mixed_lasso_dual(arg, 
+                                          self._l1_cython,
+                                          self._unpenalized_cython,
+                                          self._positive_part_cython,
+                                          self._nonnegative_cython,
+                                          self._group_array,
+                                          self._weight_array,
+                                          self._norms_cython,
+                                          check_feasibility=check_feasibility)
+        if value == np.inf:
+            return value
+        return lagrange * value
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
@@ -510,7 +513,7 @@ class group_lasso_cone(cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * arg[-1]
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * arg[-1]
         if incone:
             return 0
         return np.inf
@@ -604,7 +607,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
@@ -661,7 +664,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (arg[-1])
         if incone:
             return 0
         return np.inf
@@ -719,7 +722,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 3f93d1f..84aa85f 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -124,10 +124,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
@@ -293,7 +293,7 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if xl1.shape not in [(), (0,)]:
         value = np.fabs(xl1).max()
     else:
-        value = -np.inf
+        value = 0
 
     xpos = x[positive_part]
     if xpos.shape not in [(), (0,)]:
@@ -310,7 +310,11 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if check_feasibility:
         xnn = x[nonnegative]
         if xnn.shape not in [(), (0,)]:
-            if xnn.min() < -nntol:
+            if xnn.max() > nntol:
+                value = np.inf
+        xun = x[unpenalized]
+        if xun.shape not in [(), (0,)]:
+            if np.fabs(xun).max() > nntol:
                 value = np.inf
 
     return value
-- 
2.43.0


From ea3e45a2ae2d67c67111840d66e0eed8bf9df470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 021/131] fix: strong set of the mixed lasso applied the group
 weight to one term only

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 84aa85f..fc3bbf8 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -160,7 +160,7 @@ def strong_set_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
 
     for j in range(weights.shape[0]):
         norms[j] = np.sqrt(norms[j])
-        mixed_value[j] = norms[j] < weights[j] * (slope_estimate+1) * lagrange_new - slope_estimate*lagrange_cur
+        mixed_value[j] = norms[j] < weights[j] * ((slope_estimate+1) * lagrange_new - slope_estimate*lagrange_cur)
 
     for i in range(p):
         if groups[i] >= 0:
-- 
2.43.0


From f19af53dd487af1cb56a7fea33efb0da1e1dd5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 022/131] fix: dual mixed lasso projection returned its
 internal buffer

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index fc3bbf8..7a17957 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -90,7 +90,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
 
-    return projection
+    return projection.copy()
 
 def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x, 
                          cnp.ndarray[DTYPE_intp_t, ndim=1] l1_penalty, 
-- 
2.43.0


From aaaa754ad423d5cd9d29e239e6047da2c83b1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 023/131] fix: comparing identity quadratics with absent terms

---
 regreg/identity_quadratic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..90ed64f 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -32,10 +32,13 @@ class identity_quadratic(object):
 
     def __eq__(self, other):
         if isinstance(other, identity_quadratic):
-            return (allclose(self.coef, other.coef) and
-                    allclose(self.center, other.center) and
-                    allclose(self.linear_term, other.linear_term) and
-                    allclose(self.constant_term, other.constant_term))
+            pairs = [(self.coef, other.coef),
+                     (self.center, other.center),
+                     (self.linear_term, other.linear_term),
+                     (self.constant_term, other.constant_term)]
+            return all([allclose(0 if a is None else a, 0 if b is None else b)
+                        for a, b in pairs])
+        return False
 
     def __init__(self, coef, center, linear_term, constant_term=0):
 
-- 
2.43.0


From 948fa56f956e5a70efc243e135559aee6d7806f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 024/131] fix: conjugate of a linear identity quadratic

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 90ed64f..6e15ff0 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -254,6 +254,6 @@ class identity_quadratic(object):
                                       -a.constant_term)
         else:
             # possible import problem here
-            from ..atoms.cones import zero_constraint
+            from .atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
-            return zero_constraint(a.linear_term.shape, offset=-a.linear_term, quadratic=q)
+            return zero_constraint(a.linear_term.shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From 97625d9f541a23227fcf999d5a22db32c60d3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 025/131] fix: recentring and simplifying identity quadratics
 with absent or linear terms

---
 regreg/identity_quadratic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 6e15ff0..0516231 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -86,8 +86,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
@@ -101,7 +101,11 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            center = 0 if cpq.center is None else cpq.center
+            cpq.center = center - offset
+            if cpq.linear_term is not None:
+                cpq.constant_term = (cpq.constant_term + 
+                                     (cpq.linear_term * offset).sum())
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From 8800e3460adb984576a05323827beaed5984ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 026/131] fix: conjugates of subspace, simplex and sorted-L1
 atoms and their linear compositions

---
 regreg/atoms/linear_constraints.py | 19 +++++++++++--------
 regreg/atoms/simplex.py            | 18 ++++++++++++------
 regreg/atoms/slope.py              |  1 +
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index b823e39..ca8859a 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,9 +3,10 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
+from ..affine import linear_transform
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
@@ -60,14 +61,14 @@ class linear_constraint(cone):
         if self.quadratic.iszero:
             return "%s(%s, %s, offset=%s)" % \
                 (self.__class__.__name__,
-                 repr(self.basis),
                  repr(self.shape), 
+                 repr(self.basis),
                  repr(self.offset))
         else:
             return "%s(%s, %s, offset=%s, quadratic=%s)" % \
                 (self.__class__.__name__,
-                 repr(self.basis),
                  repr(self.shape), 
+                 repr(self.basis),
                  repr(self.offset),
                  self.quadratic)
 
@@ -92,10 +93,12 @@ class linear_constraint(cone):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, basis, diag=False,
-               linear_term=None, offset=None):
+               offset=None, quadratic=None):
         l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        cone = cls(l.output_shape, basis,
+                   offset=-offset, quadratic=quadratic)
         return affine_cone(cone, l)
 
 @objective_doc_templater()
@@ -137,7 +140,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
@@ -175,7 +178,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..c21ba17 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -4,7 +4,9 @@ Projection onto simplex (and its conjugate)
 import numpy as np
 from copy import copy
 
+from ..affine import linear_transform
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
@@ -62,10 +64,12 @@ class simplex_constraint(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
+               offset=None, quadratic=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   offset=-offset, quadratic=quadratic)
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -194,10 +198,12 @@ class maximum(atom):
     @classmethod
     @doc_template_user
     def linear(cls, linear_operator, diag=False,
-               linear_term=None, offset=None):
+               offset=None, quadratic=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        atom = cls(l.output_shape, 
+                   offset=-offset, quadratic=quadratic)
         return affine_atom(atom, l)
 
     @doc_template_user
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..4c05d27 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -18,6 +18,7 @@ except ImportError:
 from ._isotonic_py import pav as isotonic_regression_py
 
 from .seminorms import seminorm
+from ..problems.composite import smooth_conjugate
 
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
-- 
2.43.0


From c66661813cfe60219886e778c1d19e6645724fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 027/131] fix: conjugate of spectral norms with a curved
 quadratic

---
 regreg/atoms/svd_norms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index f4efdb5..89d2cff 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -9,6 +9,7 @@ from copy import copy
 import numpy as np
 
 from ..atoms import atom, _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
 from .projl1_cython import projl1, projl1_epigraph
-- 
2.43.0


From e7087b0f038ec6e7a70d98f845b63d3f7a236bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 028/131] fix: conjugate of quadratic losses with a general
 quadratic form

---
 regreg/smooth/quadratic.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..4c5bb04 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -170,19 +170,28 @@ class quadratic_loss(smooth_atom):
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
             #XXX this needs to be tested
+            # complete the square: the total function is
+            # 1/2 x^T (coef * Q + sq.coef * I) x + linear_term^T x + constant_term
+
             sq = self.quadratic.collapsed()
+            linear_term, constant_term = sq.linear_term, sq.constant_term
             if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+                Qoffset = self.scale(self.Q_transform.linear_map(self.offset))
+                linear_term = linear_term - Qoffset
+                constant_term = constant_term + np.sum(self.offset * Qoffset) / 2.
+            offset = np.zeros(self.shape) + linear_term
+            outq = identity_quadratic(0, 0, 0, -constant_term)
+
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
+                                      Q=1./(self.coef*self.Q + sq.coef),
                                       offset=offset,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape[0])),
                                       Qdiag=False,
                                       offset=offset,
                                       quadratic=outq,
@@ -207,8 +216,8 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        self.input_shape = (Q.shape[0],)
+        self.output_shape = (Q.shape[0],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
-- 
2.43.0


From 57bc8cb40cc5721d7d23d0395e02a188d7d5013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:50 +0000
Subject: [PATCH 029/131] fix: conjugate of a smooth conjugate with an own
 quadratic

---
 regreg/problems/composite.py | 91 +++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 8c074ca..93f7e99 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -297,53 +297,25 @@ class smooth_conjugate(smooth):
                 return atom
         else:
             q = self.quadratic.collapsed()
+            linear_term = zeros(self.atom.shape) + q.linear_term
             if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
+
+                # the conjugate of f^* + <l,.> + k is f(. - l) - k
+
+                atom = copy(self.atom)
+                atom.quadratic = (atom.quadratic + self.smoothing_quadratic).recenter(-linear_term)[1]
+                atom.quadratic.constant_term = atom.quadratic.constant_term - q.constant_term
                 if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
-                atom.offset = offset
-                atom.quadratic = newq
+                    atom.offset = atom.offset + linear_term
+                else:
+                    atom.offset = linear_term
                 return atom
-            if q.coef != 0:
-                r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
-                    if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
-                    elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
-                        return v2-v1, g2-g1/r
-                    elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
-                        return g2-g1/r
-                    else:
-                        raise ValueError("mode incorrectly specified")
-                        
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
-                return output
+            else:
+                newq = self.smoothing_quadratic + sq(1. / q.coef, 0, 0, 0)
+                return _smooth_envelope(smooth_conjugate(self.atom, newq),
+                                        q.coef,
+                                        linear_term,
+                                        q.constant_term)
     conjugate = property(get_conjugate)
 
     def latexify(self, var=None, idx=''):
@@ -397,3 +369,34 @@ class smooth_conjugate(smooth):
 
     def proximal(self, proxq, prox_control=None):
         raise ValueError('no proximal defined')
+
+class _smooth_envelope(smooth):
+
+    r"""
+    The conjugate of $f^* + q$ where $f^*$ is a `smooth_conjugate`
+    and $q(x) = \frac{r}{2} \|x\|^2_2 + \langle l, x \rangle + k$. That is,
+
+    .. math::
+
+        u \mapsto \inf_v \left[f(v) + \frac{1}{2r} \|u - l - v\|^2_2 \right] - k
+
+    where `conjugate_atom` is the conjugate of $f + \|\cdot\|^2_2/(2r)$.
+    """
+
+    def __init__(self, conjugate_atom, r, linear_term, constant_term):
+        smooth.__init__(self, conjugate_atom.shape)
+        self.conjugate_atom = conjugate_atom
+        self.r, self.linear_term, self.constant_term = r, linear_term, constant_term
+        self.lipschitz = 1. / r
+
+    def smooth_objective(self, x, mode='both', check_feasibility=False):
+        u = (x - self.linear_term) / self.r
+        if mode == 'func':
+            v = self.conjugate_atom.smooth_objective(u, mode='func')
+            return self.r * (u**2).sum() / 2. - self.constant_term - v
+        elif mode == 'grad':
+            return u - self.conjugate_atom.smooth_objective(u, mode='grad') / self.r
+        elif mode == 'both':
+            v, g = self.conjugate_atom.smooth_objective(u, mode='both')
+            return self.r * (u**2).sum() / 2. - self.constant_term - v, u - g / self.r
+        raise ValueError("mode incorrectly specified")
-- 
2.43.0


From c27e56ff3b736dc2a9ea3c4613975fa57a875786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 030/131] fix: group lasso optimality check raised on every
 call and missed oversized gradients

---
 regreg/atoms/group_lasso.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 483246f..ca71cc1 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -784,20 +784,21 @@ def check_KKT(glasso,
     """
 
     failing = False
-    norm_soln = np.linalg.norm(solutionn)
+    norm_soln = np.linalg.norm(solution)
     active = glasso.terms(solution) > tol * norm_soln
     inactive_groups = np.nonzero(~active)[0]
-    active_groups = np.nozero(active)[0]
+    active_groups = np.nonzero(active)[0]
     for g in active_groups:
-        group = glasso.groups == g
+        group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
         soln_g = solution[group]
-        if np.linalg.norm(subgrad_g) < glasso.lagrange * glasso._weight_array[g] * (1 - tol):
+        bound_g = glasso.lagrange * glasso._weight_array[g]
+        if np.fabs(np.linalg.norm(subgrad_g) - bound_g) > bound_g * tol:
             failing = True
         if np.linalg.norm(subgrad_g / np.linalg.norm(subgrad_g) - soln_g / np.linalg.norm(soln_g)) > tol:
             failing = True
     for g in inactive_groups:
-        group = glasso.groups == g
+        group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
         if np.linalg.norm(subgrad_g) > glasso.lagrange * glasso._weight_array[g] * (1 + tol):
             failing = True
-- 
2.43.0


From a8236a325d116a1ce305f4d65dc441b72506674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 031/131] fix: mixed lasso values applied the offset twice and
 its constraints were not indicators

---
 regreg/atoms/mixed_lasso.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..fb62095 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,8 +152,11 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        inball = self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol)
+        if inball:
+            return 0
+        else:
+            return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -162,12 +165,12 @@ class mixed_lasso(atom):
         return v
 
     def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
+        x = np.asarray(x, float)
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -177,6 +180,8 @@ class mixed_lasso(atom):
                                  self._norms_cython,
                                  np.int(check_feasibility))
 
+        if v == np.inf:
+            return v
         return v * self.lagrange
 
     def proximal(self, proxq, prox_control=None):
@@ -326,8 +331,11 @@ class mixed_lasso_dual(mixed_lasso):
     def constraint(self, x, bound=None):
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        inball = self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol)
+        if inball:
+            return 0
+        else:
+            return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -339,21 +347,24 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
+        x = np.asarray(x, float)
 
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
-        return v 
+                                      self._norms_cython,
+                                      check_feasibility=check_feasibility)
+        if v == np.inf:
+            return v
+        return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
         r"""
-- 
2.43.0


From a3245c6020ed152af535b5ff0adf3a9dc003efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 032/131] fix: sparse group block terms, constraint and
 conjugate

---
 regreg/atoms/sparse_group_block.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..545caeb 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -67,12 +67,13 @@ class sparse_group_block(l1_l2):
         raise NotImplementedError('sparse_group_block bound form not implemented')
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         l1_norms = np.fabs(x).sum()
-        l2_norms = np.sqrt(np.sum(x**2), 1).sum()
+        l2_norms = np.sqrt(np.sum(x**2, 1)).sum()
         norm_sum = self.l1_weight * l1_norms + self.l2_weight * l2_norms
-        if norm_sum <= self.bound * (1 + self.tol):
+        if norm_sum <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -93,14 +94,12 @@ class sparse_group_block(l1_l2):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -140,7 +139,7 @@ class sparse_group_block(l1_l2):
         
         """
         terms = (np.fabs(arg).sum(1) * self.l1_weight + 
-                 np.sqrt((arg**2).sum(1)) * self.l1_weight)
+                 np.sqrt((arg**2).sum(1)) * self.l2_weight)
         return terms
 
 class sparse_group_block_dual(sparse_group_block):
@@ -188,12 +187,13 @@ class sparse_group_block_dual(sparse_group_block):
         return arg - _prox
 
     @doc_template_user
-    def constraint(self, x):
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
         dual_norm = _gauge_function_dual(x,
                                          self.l1_weight,
                                          self.l2_weight)
-        if dual_norm <= self.bound * (1 + self.tol):
+        if dual_norm <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -213,14 +213,12 @@ class sparse_group_block_dual(sparse_group_block):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
-- 
2.43.0


From f3e48e86e1c21a915e4ab356f2791c783f271656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 033/131] fix: block norms of infeasible rows with a zero
 multiplier were nan

---
 regreg/atoms/block_norms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 3701278..b6cc597 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -69,9 +69,12 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.seminorm(self, x, lagrange=lagrange,
                                  check_feasibility=check_feasibility)
-        return lagrange * np.sum( \
+        value = np.sum( \
             self.seminorms(x, check_feasibility=check_feasibility,
                            lagrange=1.))
+        if value == np.inf:
+            return value
+        return lagrange * value
 
     @doc_template_user
     def constraint(self, x, bound=None):
@@ -177,9 +180,12 @@ class block_max(block_sum):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.seminorm(self, x, lagrange=lagrange,
                                  check_feasibility=check_feasibility)
-        return lagrange * np.max(self.seminorms(x,  
-                                                lagrange=1.,
-                                                check_feasibility=check_feasibility))
+        value = np.max(self.seminorms(x,  
+                                      lagrange=1.,
+                                      check_feasibility=check_feasibility))
+        if value == np.inf:
+            return value
+        return lagrange * value
 
     @doc_template_user
     def constraint(self, x, bound=None):
-- 
2.43.0


From 52588ce28722e9b38c08001343b58ec03622a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 034/131] fix: offset of compositions and sums of transforms

A composition dropped its offset exactly when it had one, and a sum
dropped small offsets; only an offset of zeros is no offset.
---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..4604809 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -850,7 +850,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if np.all(np.equal(affine_offset, 0)):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
@@ -892,7 +892,7 @@ class affine_sum(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if np.allclose(affine_offset, 0): 
+        if np.all(np.equal(affine_offset, 0)):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
-- 
2.43.0


From 7b1c4d586b42d8cd11323e29a2d2f1fb5c9b724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 035/131] fix: input and output shapes of aslinear were swapped

---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4604809..7e1033a 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -753,8 +753,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
-- 
2.43.0


From 7a45ec5ac31c54c944369eea45170e2277f889b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:34 +0000
Subject: [PATCH 036/131] fix: offset attribute of transforms built from affine
 transforms

Wrapped, scaled, residual, intercept and block transforms applied an
offset they did not report, so code reading affine_offset lost it; some
linear transforms lacked the attribute.
---
 regreg/affine/__init__.py   | 28 +++++++++++++++++++++-------
 regreg/affine/block_maps.py |  4 ++++
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 7e1033a..3146693 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -38,7 +38,10 @@ class AffineError(Exception):
 
 
 class affine_transform(object):
-    
+
+    # transforms without an offset need not set one
+    affine_offset = None
+
     def __init__(self, linear_operator, affine_offset, diag=False, input_shape=None):
         """ Create affine transform
 
@@ -100,6 +103,13 @@ class affine_transform(object):
                 self.output_shape = self.linear_operator.output_shape
                 self.affineD = True
                 self.diagD = False
+                # the offset of the wrapped transform is part of this one's
+                inner_offset = self.linear_operator.affine_offset
+                if inner_offset is not None:
+                    if self.affine_offset is None:
+                        self.affine_offset = inner_offset
+                    else:
+                        self.affine_offset = self.affine_offset + inner_offset
             elif linear_operator.ndim == 1 and not diag:
                 self.linear_operator = self.linear_operator.reshape((1,-1))
                 self.diagD = False
@@ -214,10 +224,7 @@ class affine_transform(object):
         This routine is subclassed in affine_atom as a matrix multiplications,
         but could also call FFTs if D is a DFT matrix, in a subclass.
         """
-        if self.affineD:
-            v = self.linear_operator.affine_map(x)
-        else:
-            v = self.linear_map(x)
+        v = self.linear_map(x)
         if self.affine_offset is not None:
             # Deal with 1D and 2D input, affine_offset cases
             return broadcast_first(self.affine_offset, v, add)
@@ -464,6 +471,7 @@ class add_intercept(affine_transform):
         self._transform = astransform(transform)
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
+        self.affine_offset = self._transform.affine_offset
         self.linear_operator = None
         
     def affine_map(self, x): # first coordinate is intercept
@@ -824,7 +832,10 @@ class residual(affine_transform):
         self.transform = astransform(transform)
         self.input_shape = self.transform.input_shape
         self.output_shape = self.transform.output_shape
-        self.affine_offset = None
+        if self.transform.affine_offset is None:
+            self.affine_offset = None
+        else:
+            self.affine_offset = -self.transform.affine_offset
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
 
@@ -921,7 +932,10 @@ class scalar_multiply(affine_transform):
     def __init__(self, atransform, scalar):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
-        self.affine_offset = None
+        if atransform.affine_offset is None:
+            self.affine_offset = None
+        else:
+            self.affine_offset = atransform.affine_offset * scalar
         self._atransform = atransform
 
     def affine_map(self, x):
diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..6bf4649 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -59,6 +59,8 @@ class block_columns(affine_transform):
         for offset in self._offsets:
             self._slices.append(slice(idx, idx+offset.shape[0], 1))
             idx += offset.shape[0]
+        if np.any(_buffer):
+            self.affine_offset = _buffer
 
     def affine_map(self, arg):
         
@@ -146,6 +148,8 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        if np.any(self._offset):
+            self.affine_offset = self._offset
 
     def affine_map(self, arg):
         
-- 
2.43.0


From dbd7577cf6c0a678ed8714cdf67fa006f3d55370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 037/131] fix: selector adjoint shared its output buffer and
 maps reshaped their argument in place

---
 regreg/affine/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 3146693..8dc2559 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -326,22 +326,21 @@ class selector(linear_transform):
     def linear_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.linear_map(x_indexed)
 
     def affine_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            u = u.reshape(self.affine_transform.output_shape)
+        output[self.index_obj] = self.affine_transform.adjoint_map(u)
+        return output
 
 class scaler(linear_transform):
 
-- 
2.43.0


From a03d9e9d074cbeb4c12412addb1d9591827559aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 038/131] fix: vertical stacks and products of transforms with
 matrix outputs

---
 regreg/affine/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 8dc2559..c80e6db 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -552,20 +552,20 @@ class vstack(affine_transform):
         self.affine_offset = np.empty(self.output_shape)
         x = np.zeros(self.input_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            self.affine_offset[g] = t.affine_map(x)
+            self.affine_offset[g] = t.affine_map(x).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
             
     def linear_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         return result
 
     def affine_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -678,14 +678,14 @@ class product(affine_transform):
         self.input_groups = self.input_group_dtype.names 
 
         self.output_group_dtype = np.dtype([('group_%d' % i, float, shape) 
-                                           for i, shape in enumerate(self.input_shapes)])
+                                           for i, shape in enumerate(self.output_shapes)])
         self.output_groups = self.output_group_dtype.names 
 
         # figure out the affine offset
         self.affine_offset = np.zeros(self.output_shape)
         for g, s, t in zip(self.output_slices, self.input_shapes,
                            self.transforms):
-            self.affine_offset[g] = t.affine_map(np.zeros(s))
+            self.affine_offset[g] = t.affine_map(np.zeros(s)).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
 
@@ -695,7 +695,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         return result
 
     def affine_map(self, x):
@@ -704,7 +704,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -715,8 +715,8 @@ class product(affine_transform):
         for og, ig, t, s in zip(self.output_slices,
                                 self.input_slices, 
                                 self.transforms,
-                                self.input_shapes):
-            result[ig] = t.adjoint_map(u[og]).reshape(-1)
+                                self.output_shapes):
+            result[ig] = t.adjoint_map(u[og].reshape(s)).reshape(-1)
         return result
 
 
-- 
2.43.0


From c63c59361cdb6d8867dd697f4a60956eb36131d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 039/131] fix: posneg adjoint returned its internal buffer

---
 regreg/affine/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index c80e6db..3cdefa7 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -960,10 +960,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -974,7 +972,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
-- 
2.43.0


From a0eef62591829f490c907ff3b39bc10cad1ca1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 040/131] fix: operator norm estimate of the zero transform was
 nan

---
 regreg/affine/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 3cdefa7..8d21788 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -737,6 +737,8 @@ def power_L(transform, max_its=500,tol=1e-8, debug=False):
         v = transform.adjoint_map(transform.linear_map(v))
         old_norm = norm
         norm = np.linalg.norm(v)
+        if norm == 0:
+            break # the linear part is 0
         v /= norm
         if debug:
             print("L", norm)
-- 
2.43.0


From dddd3fa6d5b988e08bb4a595b04b167ad26c28ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 041/131] fix: dense array of transforms that take one vector
 at a time

---
 regreg/affine/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 8d21788..2d103ed 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -986,7 +986,8 @@ def todense(transform):
     """
     if len(transform.input_shape) == 1:
         I = np.identity(np.product(transform.input_shape))
-        return transform.linear_map(I)
+        # not every transform accepts a matrix of several arguments
+        return np.stack([transform.linear_map(e) for e in I], axis=-1)
     else:
         raise NotImplementedError('expecting a 1D shape as input')
 
-- 
2.43.0


From 06261e3593dc84d36db5ff1235d233f191679c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 042/131] fix: scaling a sparse matrix without centring it

---
 regreg/affine/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 2d103ed..9ea2a52 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -432,9 +432,7 @@ def normalize(transform,
         if not sparseM:
             col_means = M.mean(0)
         else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+            col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
@@ -443,7 +441,8 @@ def normalize(transform,
         if not sparseM:
             col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
         else:
-            col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
+            col_sumsq = np.asarray(M.multiply(M).sum(0)).reshape(-1)
+            col_scales = np.asarray(np.sqrt((col_sumsq -
                                              n * col_means**2) / (n - ddof))).reshape(-1)
         nonzero_scales = col_scales > 0
         inv_col_scales = np.zeros_like(col_scales)
-- 
2.43.0


From 3b48a943e1df4d526370dd1d921dc8940c42b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 043/131] fix: trend filtering with unsorted knots and adjoint
 of its inverse for matrices

---
 regreg/affine/fused_lasso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..ec47c8a 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], 0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
-- 
2.43.0


From 525832d979d0f70d7cda8f3212c762d2e95a48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 044/131] fix: multiscale statistic ignored sigma and changed
 the transform's scaling

---
 regreg/affine/multiscale.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..ef5ee6e 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -214,8 +214,9 @@ def SMUCE_stat(M, Z, sigma=None):
     M.scaling, old = np.sqrt(M.sizes), M.scaling
     Z0 = Z - Z.mean()
     if sigma is None:
-        sigma_hat = np.std(Z)
-    T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
+        sigma = np.std(Z)
+    T = np.fabs(M.linear_map(Z0) / sigma) - np.sqrt(2 * np.log(p / M.sizes))
+    M.scaling = old
     idx = np.argmax(T)
     return T[idx], M.slices[idx]
 
@@ -250,6 +251,6 @@ def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
     p = M.input_shape[0]
     for i in range(ndraw):
         Z = np.random.standard_normal(p)
-        V.append(SMUCE_stat(M, Z)[0])
+        V.append(SMUCE_stat(M, Z, sigma=sigma)[0])
     return np.percentile(V, 100*quantile)
 
-- 
2.43.0


From e40ff01528a4a055708f846af662993409b0e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 045/131] fix: copy of a factored matrix lost its offset

---
 regreg/affine/factored_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..0f59df6 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -52,7 +52,8 @@ class factored_matrix(object):
             self.X = astransform(linear_operator)
 
     def copy(self):
-        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()])
+        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()],
+                               affine_offset=self.affine_offset)
 
     def _setX(self,transform):
         transform = astransform(transform)
-- 
2.43.0


From 124f95f1206e8c39c3090c732d316bc9b2e6b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 046/131] fix: number as the offset of a wrapped transform

---
 regreg/affine/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 9ea2a52..c3e80c1 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -106,6 +106,7 @@ class affine_transform(object):
                 # the offset of the wrapped transform is part of this one's
                 inner_offset = self.linear_operator.affine_offset
                 if inner_offset is not None:
+                    inner_offset = np.asarray(inner_offset)
                     if self.affine_offset is None:
                         self.affine_offset = inner_offset
                     else:
-- 
2.43.0


From 966c3d204a1be7aa63a5bca75884edbf915868f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 047/131] fix: offset of a tensorized transform had the shape
 of one column

---
 regreg/affine/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index c3e80c1..f86c6d6 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -807,7 +807,10 @@ class tensorize(affine_transform):
     """
     def __init__(self, transform, q):
         self.transform = astransform(transform)
-        self.affine_offset = self.transform.affine_offset
+        self.affine_offset = None
+        if self.transform.affine_offset is not None:
+            self.affine_offset = np.repeat(self.transform.affine_offset[..., np.newaxis],
+                                           q, axis=-1)
         self.input_shape = self.transform.input_shape + (q,)
         self.output_shape = self.transform.output_shape + (q,)
 
@@ -817,7 +820,7 @@ class tensorize(affine_transform):
     def affine_map(self, x):
         v = self.linear_map(x) 
         if self.affine_offset is not None:
-            return v + self.affine_offset[:, np.newaxis]
+            return v + self.affine_offset
         return v
 
     def adjoint_map(self, x):
-- 
2.43.0


From efebf0d896f77334b43cf8c567e649f678dd2c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 048/131] fix: factored zero matrix with a singular value
 threshold

---
 regreg/affine/factored_matrix.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 0f59df6..4c9a981 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -232,17 +232,14 @@ def compute_iterative_svd(transform,
         if np.max(D) < 1.e-14:
             break
 
+    if U.ndim == 1: # the zero matrix
+        U, D, VT = U.reshape((-1,1)), D.reshape(-1), VT.reshape((1,-1))
+
     ind = np.where(D >= min_singular)[0]
     if not need_to_transpose:
-        if U.ndim == 2:
-            return U[:,ind], D[ind],  VT[ind,:]
-        else:
-            return U.reshape((-1,1)), D[ind], VT.reshape((1,-1))
+        return U[:,ind], D[ind],  VT[ind,:]
     else:
-        if U.ndim == 2:
-            return VT[ind,:].T, D[ind],  U[:,ind].T
-        else:
-            return VT.reshape((-1,1)), D[ind], U.reshape((1,-1))
+        return VT[ind,:].T, D[ind],  U[:,ind].T
 
 
 def partial_svd(transform,
-- 
2.43.0


From 582a1eb54f43fbf601f1bf51e09df3dfedd95c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 049/131] fix: case weights of a loss were multiplied into the
 caller's array in place

---
 regreg/smooth/binary.py | 22 +++++++++++-----------
 regreg/smooth/cox.py    |  6 +++---
 regreg/smooth/glm.py    | 22 +++++++++++-----------
 regreg/smooth/mglm.py   | 10 +++++-----
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..94df9cf 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -256,7 +256,7 @@ class logistic_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     # End loss API
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -497,7 +497,7 @@ class probit_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     # End loss API
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -742,7 +742,7 @@ class cloglog_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     # End loss API
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
@@ -907,7 +907,7 @@ class huber_svm(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     def __copy__(self):
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..2d461e0 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
@@ -244,7 +244,7 @@ class cox_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     def latexify(self, var=None, idx=''):
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..65dcd05 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -289,7 +289,7 @@ class glm(smooth_atom):
         idx_bool = np.zeros(n, np.bool)
         idx_bool[idx] = 1
 
-        subsample_loss.case_weights *= idx_bool
+        subsample_loss.case_weights = subsample_loss.case_weights * idx_bool
 
         return subsample_loss
         
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1007,7 +1007,7 @@ class gaussian_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     # End loss API
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1203,7 +1203,7 @@ class poisson_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     # End loss API
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1369,7 +1369,7 @@ class huber_loss(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     def __copy__(self):
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
@@ -1551,7 +1551,7 @@ class stacked_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     @classmethod
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..e781101 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -110,7 +110,7 @@ class mglm(glm):
         idx_bool = np.zeros(n, np.bool)
         idx_bool[idx] = 1
 
-        subsample_loss.case_weights *= idx_bool
+        subsample_loss.case_weights = subsample_loss.case_weights * idx_bool
 
         return subsample_loss
         
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -421,7 +421,7 @@ class stacked_common_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
     @classmethod
@@ -876,7 +876,7 @@ class multinomial_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
 class multinomial_baseline_loglike(smooth_atom):
@@ -1023,6 +1023,6 @@ class multinomial_baseline_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
-- 
2.43.0


From 2248682511bb9d3988ced829d2f81daa56eaf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 050/131] fix: copying a binary or Poisson loss added its
 constant again

---
 regreg/smooth/binary.py | 54 +++++++++++++++++++++++------------------
 regreg/smooth/glm.py    | 16 ++++++------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 94df9cf..2579a9e 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -217,14 +217,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        loss_cp = logistic_loglike(self.shape,
+                                   copy(successes),
+                                   trials=copy(trials),
+                                   coef=self.coef,
+                                   offset=copy(self.offset),
+                                   initial=copy(self.coefs),
+                                   case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
@@ -458,14 +460,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        loss_cp = probit_loglike(self.shape,
+                                 copy(successes),
+                                 trials=copy(trials),
+                                 coef=self.coef,
+                                 offset=copy(self.offset),
+                                 initial=copy(self.coefs),
+                                 case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
@@ -703,14 +707,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        loss_cp = cloglog_loglike(self.shape,
+                                  copy(successes),
+                                  trials=copy(trials),
+                                  coef=self.coef,
+                                  offset=copy(self.offset),
+                                  initial=copy(self.coefs),
+                                  case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 65dcd05..2ff8861 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1165,13 +1165,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        loss_cp = poisson_loglike(self.shape,
+                                  copy(counts),
+                                  coef=self.coef,
+                                  offset=copy(self.offset),
+                                  initial=copy(self.coefs),
+                                  case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From 903b0b4f5ab0f265622088304995d596919c20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 051/131] fix: constant of the Poisson loss was not the
 saturated log-likelihood

---
 regreg/smooth/glm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 2ff8861..9fe56dd 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1050,10 +1050,9 @@ class poisson_loglike(smooth_atom):
         if np.min(self.counts) < 0:
             raise ValueError("Counts vector is not non-negative")
 
-        saturated = counts
-        loss_terms = - coef * ((counts - 1) * np.log(counts))
-        loss_terms[counts == 0] = 0
-
+        _mask = self.counts != 0
+        loss_terms = (self.counts[_mask] * np.log(self.counts[_mask]) -
+                      self.counts[_mask])
         loss_constant = - coef * loss_terms.sum()
 
         devq = identity_quadratic(0,0,0,-loss_constant)
-- 
2.43.0


From 41e5bd5d580d2fcac9e59455f58004c350f4c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 052/131] fix: probit and complementary log-log losses ignored
 their offset

---
 regreg/smooth/binary.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 2579a9e..7dd160f 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -163,7 +163,7 @@ class logistic_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -357,6 +357,7 @@ class probit_loglike(smooth_atom):
         x = natural_param # shorthand
 
 
+        x = self.apply_offset(x)
         prob = normal_dbn.cdf(x)
         prob[x < -20] = normal_dbn.cdf(-20)   # to prevent overflow
         prob_c = normal_dbn.sf(x) # to prevent overflow
@@ -413,7 +414,7 @@ class probit_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -598,6 +599,8 @@ class cloglog_loglike(smooth_atom):
 
         x = natural_param # shorthand
 
+        x = self.apply_offset(x)
+
         cutoff = 5
         x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
         prob_ = 1 - np.exp(-np.exp(x_))
@@ -658,7 +661,7 @@ class cloglog_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
 
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
-- 
2.43.0


From 0fa277db17abf1cf7c00de86708f281b39188157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 053/131] fix: Hessian of the Poisson loss ignored its offset

---
 regreg/smooth/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 9fe56dd..1d0c3f8 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1144,7 +1144,7 @@ class poisson_loglike(smooth_atom):
             A 1D-array representing the diagonal of the Hessian
             evaluated at `natural_param`.
         """
-        x = natural_param # shorthand
+        x = self.apply_offset(natural_param) # shorthand
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
-- 
2.43.0


From d5daecac6c0a675bf069fe1025098fa107359ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 054/131] fix: Hessian of the logistic loss at large linear
 predictors

---
 regreg/smooth/binary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 7dd160f..6a6a018 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -174,9 +174,8 @@ class logistic_loglike(smooth_atom):
         if np.max(x) > 1e2:
             overflow = True
             not_overflow_ind = np.where(x <= 1e2)[0]
-            exp_x = np.zeros_like(x)
+            exp_x = np.ones_like(x) * np.exp(100)
             exp_x[not_overflow_ind] = np.exp(x[not_overflow_ind])
-            exp_x[~not_overflow_ind] = np.exp(100)
         else:
             overflow = False
             exp_x = np.exp(x)
-- 
2.43.0


From 53588856a5b528f14202362253552065ebc7f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:52 +0000
Subject: [PATCH 055/131] fix: initial value of a smooth atom was discarded

---
 regreg/smooth/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..279721b 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -49,7 +49,6 @@ class smooth_atom(smooth_composite):
         self.coef = coef
         if coef < 0:
             raise ValueError('coefs must be nonnegative to ensure convexity (assuming all atoms are indeed convex)')
-        self.coefs = np.zeros(self.shape)
 
     def smooth_objective(self, arg, mode='both', check_feasibility=False):
         """
-- 
2.43.0


From 561e446427bc744231b6aee4c9106d2bdf77b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 056/131] fix: Hessian of a GLM ignored its offset and
 coefficient and failed for sparse features

---
 regreg/smooth/glm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 1d0c3f8..45f8790 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -234,18 +234,20 @@ class glm(smooth_atom):
             if not hasattr(self.saturated_loss, 'hessian_mult'):
                 raise ValueError('loss has no hessian or hessian_mult method')
             right_mult = np.zeros(X.shape)
+            X_dense = X.toarray() if sparse.issparse(X) else X
             for j in range(X.shape[1]):
                 right_mult[:,j] = self.saturated_loss.hessian_mult(linpred, 
-                                                                   X[:,j], 
+                                                                   X_dense[:,j], 
                                                                    case_weights=self.case_weights)
         else:
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
-            right_mult = W[:,None] * X
-        if not sparse.issparse(X): # assuming it is an ndarray
-            return X.T.dot(right_mult)
-        else:
-            return X.T * right_mult
+            if not sparse.issparse(X): # assuming it is an ndarray
+                right_mult = W[:,None] * X
+            else:
+                right_mult = sparse.diags(W).dot(X).toarray()
+
+        return self.scale(X.T.dot(right_mult))
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From 5fe0d6749b71ad8115e09922249678218709f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 057/131] fix: copies of Huber losses dropped their case
 weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 6a6a018..69d7563 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -926,7 +926,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 45f8790..d220fcb 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1383,7 +1383,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From c950530b33b64ed08e57f852cde0b284a44e1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 058/131] fix: value of the smoothed hinge loss was not a
 primitive of its gradient

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 69d7563..52f75f7 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -935,5 +935,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From 910c3e7b5689541752b312d57978decc7b5be0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 059/131] fix: stacked loss ignored case weights

---
 regreg/smooth/glm.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index d220fcb..fb6f4ee 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1492,17 +1492,23 @@ class stacked_loglike(smooth_atom):
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 
+                                                                         'grad',
+                                                                         case_weights=cw[slice])
             return self.scale(self._gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 
+                                                          'func',
+                                                          case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 
+                                                        'both',
+                                                        case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(self._gradient)
-- 
2.43.0


From baa0d9f4706d566a86fff68981f0f4a840e965ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 060/131] fix: gradient of stacked losses was a buffer
 overwritten by the next call

---
 regreg/smooth/glm.py  | 4 ++--
 regreg/smooth/mglm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index fb6f4ee..fbbccc5 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1495,7 +1495,7 @@ class stacked_loglike(smooth_atom):
                 self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 
                                                                          'grad',
                                                                          case_weights=cw[slice])
-            return self.scale(self._gradient)
+            return self.scale(self._gradient, copy=True)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
@@ -1511,7 +1511,7 @@ class stacked_loglike(smooth_atom):
                                                         case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(self._gradient, copy=True)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index e781101..5406528 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -355,7 +355,7 @@ class stacked_common_loglike(smooth_atom):
                 self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
                                                                        'grad', 
                                                                        case_weights=cw) 
-            return self.scale(self._gradient)
+            return self.scale(self._gradient, copy=True)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -371,7 +371,7 @@ class stacked_common_loglike(smooth_atom):
                                                         case_weights=cw)
                 self._gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(self._gradient, copy=True)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From 3dfa841048d857f16dd17863c337b20971080dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 061/131] fix: copies of stacked losses shared the stacked
 losses

---
 regreg/smooth/glm.py  | 2 +-
 regreg/smooth/mglm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index fbbccc5..07e671f 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1524,7 +1524,7 @@ class stacked_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(l) for l in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 5406528..089568a 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -384,7 +384,7 @@ class stacked_common_loglike(smooth_atom):
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(l) for l in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From 801794f6354141b87944eb913e8af189c79123c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 062/131] fix: constructors of stacked losses

---
 regreg/paths/sparse_group_block.py |  6 +++---
 regreg/smooth/glm.py               | 29 +++++++++++++++++------------
 regreg/smooth/mglm.py              | 22 ++++++++++++----------
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..15e0df9 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -422,7 +422,7 @@ def stacked_gaussian(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_cox(Xs, Ts, Cs, *args, **keyword_args):
-    loss = glm.stacked_loglike.cox(Ts, Cs) # Ts a sequence of event times,
+    loss = glm.stacked_loglike.cox(Xs, Ts, Cs) # Ts a sequence of event times,
                                            # Cs a sequence of censor indicators
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
@@ -443,11 +443,11 @@ def stacked_poisson(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber_svm(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber_svm(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber_svm(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 # private functions
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 07e671f..ed5b0f1 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1656,8 +1656,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=None if trials is None else trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -1710,8 +1711,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        losses = [probit_loglike(successes[i].shape,
+                                 successes[i],
+                                 trials=None if trials is None else trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1764,8 +1766,9 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        losses = [cloglog_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=None if trials is None else trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1813,10 +1816,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1870,7 +1873,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -1925,7 +1929,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 089568a..91f9b37 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -257,7 +257,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
@@ -516,8 +515,9 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
+        losses = [logistic_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=None if trials is None else trials[i],
                                    coef=coef)
                   for i in range(len(successes))]
 
@@ -565,10 +565,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -622,8 +622,9 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
-                  for response in responses]
+                             smoothing_parameter,
+                             coef=coef) 
+                  for response in response]
 
         return klass(losses,
                      offset=offset,
@@ -677,7 +678,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
-- 
2.43.0


From eed3ebcf1ac8d86f216c9735f54d04968fab380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 063/131] fix: multinomial losses ignored case weights given at
 construction

---
 regreg/smooth/mglm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 91f9b37..a48b4a9 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -832,6 +832,8 @@ class multinomial_loglike(smooth_atom):
             cw = np.ones(natural_param.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
             ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
@@ -976,6 +978,8 @@ class multinomial_baseline_loglike(smooth_atom):
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
-- 
2.43.0


From fac599007f3839a808b0640ce990209a9d920188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 064/131] fix: copies of multinomial losses shared their data

---
 regreg/smooth/mglm.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a48b4a9..a714f1c 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -850,6 +850,17 @@ class multinomial_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        loss_cp = multinomial_loglike(self.shape,
+                                      copy(self.counts),
+                                      coef=self.coef,
+                                      offset=copy(self.offset),
+                                      initial=copy(self.coefs),
+                                      case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -999,6 +1010,17 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        loss_cp = multinomial_baseline_loglike(self.shape,
+                                               copy(self.counts),
+                                               coef=self.coef,
+                                               offset=copy(self.offset),
+                                               initial=copy(self.coefs),
+                                               case_weights=copy(self.case_weights))
+        # the constructor adds its constant to quadratic, ours already has it
+        loss_cp.quadratic = copy(self.quadratic)
+        return loss_cp
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From e138d9bd9a281b3ac1320178b39aae8f78b84b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 065/131] fix: features of a GLM set after construction were
 not used in its value and gradient

---
 regreg/smooth/glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index ed5b0f1..53f082c 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -142,6 +142,7 @@ class glm(smooth_atom):
         self._transform = astransform(X)
         self._X = X
         self._is_transform = id(self._X) == id(self._transform) # i.e. astransform was a nullop
+        self.affine_atom = affine_smooth(self.saturated_loss, X)
         self.saturated_loss.data = Y
 
     data = property(get_data, set_data, doc="Data for the general linear model.")
-- 
2.43.0


From 0ab11377c457c3c2b03deff1f32fc23987328edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 066/131] fix: gradient of the Cox loss was a buffer
 overwritten by the next call

---
 regreg/smooth/cox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 2d461e0..afc5313 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -127,9 +127,9 @@ class cox_loglike(smooth_atom):
                               eta.shape[0])
 
         if mode == 'both':
-            return self.scale(F), self.scale(G)
+            return self.scale(F), self.scale(G, copy=True)
         elif mode == 'grad':
-            return self.scale(G)
+            return self.scale(G, copy=True)
         elif mode == 'func':
             return self.scale(F)
         else:
-- 
2.43.0


From 58dc0accaa1d5ab64d7bcdc86f004d983d900763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 067/131] fix: Hessian of the Cox loss ignored its coefficient

---
 regreg/smooth/cox.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index afc5313..b6d9dee 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,21 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        H = cox_hessian(H,
+                        eta,
+                        right_vector,
+                        self._exp_buffer,
+                        self._exp_accum,
+                        self._expZ_accum,
+                        self._outer_1st,
+                        self._outer_2nd,
+                        cw,
+                        censoring,
+                        self._ordering,
+                        self._rankmin,
+                        self._rankmax,
+                        eta.shape[0])
+        return self.scale(H)
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
-- 
2.43.0


From 1323b583067d29267c3c9dfe3ca9ed1550fb39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 068/131] fix: Cox loss did not accept integer linear
 predictors

---
 regreg/smooth/cox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index b6d9dee..47da301 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -91,7 +91,7 @@ class cox_loglike(smooth_atom):
         
         eta = natural_param # shorthand
 
-        eta = self.apply_offset(eta)
+        eta = np.asarray(self.apply_offset(eta), float)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -173,7 +173,8 @@ class cox_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         eta = natural_param # shorthand
-        eta = self.apply_offset(eta)
+        eta = np.asarray(self.apply_offset(eta), float)
+        right_vector = np.asarray(right_vector, float)
         censoring = self.censoring
 
         H = np.zeros(eta.shape, float)
-- 
2.43.0


From a421a7ef43dc1bf82e2c320e95c4a668eeffccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 069/131] fix: Cox loss kept the order of the old event times
 when its data was set

---
 regreg/smooth/cox.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 47da301..847066e 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -202,6 +198,9 @@ class cox_loglike(smooth_atom):
         event_times, censoring = np.asarray(data).T
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 19ff7ce013f06d6e03096f2672fc69159a313411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 070/131] fix: Cox loss was nan when the last observations have
 zero case weights

---
 regreg/smooth/cox_fns.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..54b1d3d 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,10 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    // cases without weight are not in any sum, the accumulated value may be 0
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +137,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +174,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring * case_weight > 0) {
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From 27b1a2d34d8aa97f7376aba1ff2e826cd8e5024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 071/131] fix: Cox loss overflowed when a large constant was
 added to all linear predictors

---
 regreg/smooth/cox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 847066e..7665cfe 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -88,6 +88,7 @@ class cox_loglike(smooth_atom):
         eta = natural_param # shorthand
 
         eta = np.asarray(self.apply_offset(eta), float)
+        eta = eta - (eta.max() + eta.min()) / 2. # constants do not matter, prevents overflow
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -170,6 +171,7 @@ class cox_loglike(smooth_atom):
 
         eta = natural_param # shorthand
         eta = np.asarray(self.apply_offset(eta), float)
+        eta = eta - (eta.max() + eta.min()) / 2. # constants do not matter, prevents overflow
         right_vector = np.asarray(right_vector, float)
         censoring = self.censoring
 
-- 
2.43.0


From ecba2f3f38d9ba69f7e0d2b06cc82854b98bebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 072/131] fix: huberized SVM loss ignored its coefficient and
 offset

---
 regreg/smooth/losses.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..eb4a4a5 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,11 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        beta = self.apply_offset(beta)
+        value = self.smoothed_atom.smooth_objective(beta,
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From 74df4cbd6d69cd2ab3b3afdbec17b6ce29541e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:23 +0000
Subject: [PATCH 073/131] fix: optimal value of a smooth problem left out the
 quadratic passed to solve

---
 regreg/problems/composite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 93f7e99..04875f7 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -212,12 +212,12 @@ class smooth(composite):
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
-        self.quadratic = oldq
-
         if return_optimum:
-            return self.objective(self.coefs), self.coefs
+            value = (self.objective(self.coefs), self.coefs)
         else:
-            return self.coefs
+            value = self.coefs
+        self.quadratic = oldq
+        return value
 
 class smooth_conjugate(smooth):
 
-- 
2.43.0


From ccc494a9128a5bb43e067cc8f0bbd3b8921e18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 074/131] fix: Hessians of probit and complementary log-log
 losses were infinite at moderate linear predictors

---
 regreg/smooth/binary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 52f75f7..c037c11 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -421,8 +421,7 @@ class probit_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
+        V = normal_dbn.cdf(x) * normal_dbn.sf(x)
         deriv_term = normal_dbn.pdf(x)**2
         return self.scale(deriv_term * self.trials * cw / V)
 
@@ -668,8 +667,8 @@ class cloglog_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
+        x_ = np.clip(x, -5, 5) # as in the objective
+        V = (1 - np.exp(-np.exp(x_))) * np.exp(-np.exp(x_))
         lpdf = x - np.exp(x)
         pdf = np.exp(lpdf)
         deriv_term = pdf**2
-- 
2.43.0


From 7d2734380243589620cc537bfe8e4f5f0a56da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 075/131] fix: optimal value of a GLM left out its quadratic

---
 regreg/problems/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 04875f7..033c07c 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -213,7 +213,8 @@ class smooth(composite):
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
         if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
+            value = (self.smooth_objective(self.coefs, 'func') +
+                     self.nonsmooth_objective(self.coefs), self.coefs)
         else:
             value = self.coefs
         self.quadratic = oldq
-- 
2.43.0


From 02fbcf2997bd4bc82f7fdb12102607418cedaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 076/131] fix: offset set on a composition of a smooth function
 with a transform was ignored

---
 regreg/smooth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 279721b..ad2729f 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -231,7 +231,7 @@ class affine_smooth(smooth_atom):
         else returns both.
         """
 
-        eta = self.affine_transform.affine_map(arg)
+        eta = self.affine_transform.affine_map(self.apply_offset(arg))
         if mode == 'both':
             v, g = self.atom.smooth_objective(eta, mode='both')
             if self.store_grad:
-- 
2.43.0


From 8354881cc087491cd9b5b190d6438f7155172c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 077/131] fix: gengrad solved the whole problem again instead
 of taking a proximal step, minimising the wrong objective when there is a
 smooth part

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..1d03b9f 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -104,7 +104,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From 18dfefcc153f3e42acbd0f95c5b7a213b5ebc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 078/131] fix: backtracking looped for ever when no step gives
 a finite value: the step gets stuck at the smallest denormal number instead
 of reaching zero

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..8bd673e 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -263,7 +263,7 @@ class FISTA(algorithm):
 
             self.attempt_decrease = False
             self.step /= self.alpha
-            if not self.step > 0:
+            if not self.step > np.finfo(float).tiny: # smaller numbers get stuck above 0
                 raise ValueError("stepsize zero reached")
             if self.debug:
                 print("%i    Decreasing step to" % itercount, self.step)
-- 
2.43.0


From 7c769805d0d743f795e65daf0bd6c98ba71fbe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 079/131] fix: proximal map of a container left out quadratics
 when recovering the primal solution from the dual

---
 regreg/problems/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..ed1e8ea 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -106,7 +106,8 @@ class container(composite):
             prox_control = prox_defaults
 
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            proxq = (proxq + self.quadratic + self.smoothq).collapsed()
+            primal_objective.quadratic = proxq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -138,11 +139,12 @@ class container(composite):
                 dualopt.composite.coefs[:] = self.dual_minimizer
             history = dualopt.fit(**prox_control)
             dual_minimizer = dualopt.composite.coefs
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
+            # gradient of the conjugate of the quadratic at -D^Tu
+            primal = -(proxq.linear_term + transform.adjoint_map(dual_minimizer)) / proxq.coef
             if prox_control['return_objective_hist']:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz), history
+                return primal, history
             else:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz)
+                return primal
 
         else:
             proxq = proxq + self.quadratic + self.smoothq
-- 
2.43.0


From 9fe04e54f713ed3ae1d74738ab9b25c709c3db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 080/131] fix: proximal map of a container with one penalty
 composed with a selector

---
 regreg/problems/container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index ed1e8ea..99f523b 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -93,7 +93,8 @@ class container(composite):
         transform, atom = self.transform, self.atom
 
         if not (isinstance(transform, afidentity) or
-                isinstance(transform, afselector)):
+                (isinstance(transform, afselector) and transform.reshape is None and 
+                 isinstance(transform.affine_transform, afidentity))):
             #Default fitting parameters
             prox_defaults = {'max_its': 5000,
                              'min_its': 5,
@@ -147,11 +148,10 @@ class container(composite):
                 return primal
 
         else:
-            proxq = proxq + self.quadratic + self.smoothq
+            proxq = (proxq + self.quadratic + self.smoothq).collapsed()
             primal = atom.conjugate
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
             if isinstance(transform, afselector):
-                z = x - grad / lipschitz
+                z = np.zeros(transform.input_shape) - proxq.linear_term / proxq.coef
                 z[transform.index_obj] = primal.proximal(proxq[transform.index_obj])
                 return z
             else:
-- 
2.43.0


From ee0fb65f34b8e40776ae7c9ecb81b88247ec0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 081/131] fix: quadratic passed to solve of a container was
 ignored

---
 regreg/problems/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 99f523b..7930d21 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -159,9 +159,9 @@ class container(composite):
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
+            oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         else:
-            oldq = newq = self.quadratic
+            oldq = self.quadratic
 
         solver = FISTA(self)
         solver.fit(**fit_args)
-- 
2.43.0


From 5eb7f5b3304878e6d4f91b4a42eb318aa1e7274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 082/131] fix: proximal map of a container whose transforms are
 zero

---
 regreg/problems/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 7930d21..0bbcc34 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -117,7 +117,8 @@ class container(composite):
             #Approximate Lipschitz constant
             if not 'dual_reference_lipschitz' in prox_control.keys():
                 # shouldn't do this over and over
-                self.dual_reference_lipschitz = 1.05*power_L(transform, debug=prox_control['debug'])
+                # any positive number will do if the transform is zero
+                self.dual_reference_lipschitz = 1.05*power_L(transform, debug=prox_control['debug']) or 1.
             else:
                 self.dual_reference_lipschitz = prox_control['dual_reference_lipschitz']
                 prox_control.pop('dual_reference_lipschitz')
-- 
2.43.0


From f069775dd9643e8c9beb72dfaebb498d249b8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 083/131] fix: optimal value of a dual problem was its
 objective evaluated at the primal solution

---
 regreg/problems/dual_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..d658823 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -82,7 +82,7 @@ class dual_problem(composite):
         solver = FISTA(self)
         solver.fit(**fit_args)
         if return_optimum:
-            return self.objective(self.primal), self.primal
+            return self.objective(self.coefs), self.primal
         return self.primal
 
     def latexify(self, var=None):
-- 
2.43.0


From ec100004406466c0bf32c5bab9b98288625e7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 084/131] fix: ADMM applied the transform instead of its
 adjoint and left out quadratics

---
 regreg/problems/admm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..b56be30 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,8 +68,10 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
+        # the sum of losses does not have the quadratic of the loss
+        quadratic = identity_quadratic(0, 0, linear_term, 0) + self.loss.quadratic + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From 5f0fdca4b4d8772bae8bf33be37b069586b7bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 085/131] fix: quasi Newton method failed when no step is taken
 or the gradient does not change

---
 regreg/problems/newton.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..1456faf 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -130,6 +130,11 @@ class quasi_newton(object):
         if (y.dot(s) < -1e-5):
             raise ValueError('failure in BFGS update -- dot product is negative')
 
+        # no update without curvature along the step
+
+        if y.dot(s) <= 1e-10 * s.dot(s):
+            return
+
         # update is done in place
         # note that this means self.quadratic_problem.Q is also updated!
         
@@ -341,7 +346,7 @@ class quasi_newton(object):
             Next gradient.
         """
         return (np.fabs(old_soln - new_soln).max()
-                < 1.e-6 * np.linalg.norm(new_soln))
+                <= 1.e-6 * np.linalg.norm(new_soln))
 
     def backtrack(self, 
                   direction,
-- 
2.43.0


From 9c96f6588bed605cd6d44ba7a5919a79ada37794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 086/131] fix: quasi Newton method left out the quadratic of
 its smooth atom

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 1456faf..f8cfeeb 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -249,7 +249,7 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.quadratic + self.smooth_atom.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From 1498fe3aa31eeb9cec58bfc57529c8d460bc2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 087/131] fix: nesta without a proximal atom restarted every
 smoothed problem from zero

---
 regreg/problems/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 1d03b9f..684b087 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -203,6 +203,8 @@ def nesta(smooth_atom, proximal_atom, conjugate_atom, epsilon=None,
 
         if idx == 0 and initial_primal is not None:
             problem.coefs[:] = initial_primal
+        elif idx > 0:
+            problem.coefs[:] = primal_coef
 
         primal_coef = problem.solve(quadratic,tol=max(eps,tol))
         updated = problem.objective(primal_coef) + quadratic.objective(primal_coef, 'func')
-- 
2.43.0


From 282bb3be77eb0d2850709668d27ee0c9904dd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 088/131] fix: nesta left out the quadratic of its smooth atom

---
 regreg/problems/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 684b087..4e32235 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -187,6 +187,8 @@ def nesta(smooth_atom, proximal_atom, conjugate_atom, epsilon=None,
 
     if quadratic is None:
         quadratic = identity_quadratic(0,0,0,0)
+    if smooth_atom is not None: # the sum of smooth atoms does not have their quadratics
+        quadratic = quadratic + smooth_atom.quadratic
 
     primal_old = np.zeros(transform.output_shape)
     value = np.inf
-- 
2.43.0


From 0a6ab63369819bea2e19bcf2045de570354c7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 089/131] fix: separable penalties ignored their quadratic and
 changed shapes in place

---
 regreg/problems/separable.py | 42 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..4e3937b 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -6,9 +6,12 @@ The penalty is specified by a primal shape, a sequence of atoms and
 a sequence of slicing objects.
 """
 
+from copy import copy
+
 import numpy as np
 
 from ..affine import selector
+from ..identity_quadratic import identity_quadratic
 from ..atoms import atom, affine_atom
 from ..problems.simple import simple_problem
 from ..atoms.cones import zero
@@ -102,7 +105,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.seminorm(x_group,
                                    lagrange=lagrange,
                                    check_feasibility=check_feasibility)
@@ -115,18 +118,18 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.constraint(x_group, bound=bound)
         return value
 
     def nonsmooth_objective(self, x, check_feasibility=False):
-        value = 0
+        value = self.quadratic.objective(x, 'func')
         for atom, group, shape in zip(self.atoms,
                                       self.groups,
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
         return value
@@ -135,6 +138,8 @@ class separable(atom):
         # This allows separable to not have every
         # coefficient penalized in a natural way
         # because this instantiates it at the prox map of the zero penalty
+        proxq = (proxq + self.quadratic).collapsed()
+        proxq.linear_term = np.zeros(self.shape) + proxq.linear_term
         v = self.zero_atom.proximal(proxq)
         for atom, group, shape, assign_shape in zip(self.atoms,
                                                     self.groups,
@@ -142,18 +147,29 @@ class separable(atom):
                                                     self.assign_shapes):
             proxq_group = proxq[group]
             if shape is not None:
-                proxq_group.linear_term.shape = shape
+                proxq_group.linear_term = proxq_group.linear_term.reshape(shape)
             v[group] = atom.proximal(proxq_group, prox_control).reshape(assign_shape)
         return v
 
     @property
     def conjugate(self):
-        if self.quadratic.coef == 0:
+        q = self.quadratic.collapsed()
+        if q.coef == 0:
+            atoms = self.atoms
+            if not q.iszero: # the parts have the linear term
+                q.linear_term = np.zeros(self.shape) + q.linear_term
+                atoms = [copy(atom) for atom in self.atoms]
+                for atom, group, shape in zip(atoms, self.groups, self.shapes):
+                    q_group = q[group]
+                    if shape is not None:
+                        q_group.linear_term = q_group.linear_term.reshape(shape)
+                    atom.quadratic = atom.quadratic + q_group
             conjugate_atom = separable(self.shape,
                                        [atom.conjugate 
-                                        for atom in self.atoms],
+                                        for atom in atoms],
                                        self.groups,
                                        shapes=self.shapes)
+            conjugate_atom.quadratic = identity_quadratic(0, 0, 0, -q.constant_term)
         else:
             conjugate_atom = smooth_conjugate(self)
         self._conjugate = conjugate_atom
@@ -198,11 +214,13 @@ class separable_problem(simple_problem):
 
     @staticmethod
     def fromatom(separable_atom, smooth_f):
-        return separable_problem(smooth_f, separable_atom.shape, 
-                                 separable_atom.atoms,
-                                 separable_atom.groups,
-                                 False,
-                                 shapes=separable_atom.shapes)
+        problem = separable_problem(smooth_f, separable_atom.shape, 
+                                    separable_atom.atoms,
+                                    separable_atom.groups,
+                                    False,
+                                    shapes=separable_atom.shapes)
+        problem.proximal_atom.quadratic = separable_atom.quadratic
+        return problem
     @property
     def selectors(self):
         return self.proximal_atom.selectors
-- 
2.43.0


From 98e75df7d29a2d218ec6199e24a7bfe4a1d61716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 090/131] fix: initial value of a separable penalty was
 discarded

---
 regreg/problems/separable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 4e3937b..32e4d80 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -80,6 +80,8 @@ class separable(atom):
 
         if initial is None:
             self.coefs = np.zeros(shape)
+        else:
+            self.coefs = copy(initial)
 
     def latexify(self, var=None, idx=''):
         # BUG idx is unused
-- 
2.43.0


From 49bc92b2fbac1bb3a6fa32198383443ef8f44a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 091/131] fix: identical groups were not reported to overlap

---
 regreg/problems/separable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 32e4d80..6017134 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -53,8 +53,8 @@ def has_overlap(shape, groups):
         for j in range(i):
             subset1 = subsets[i]
             subset2 = subsets[j]
-            if subset1 != subset2 and subset1.intersection(subset2):
-                    return True
+            if subset1.intersection(subset2):
+                return True
     return False
 
 class separable(atom):
-- 
2.43.0


From d2473a68b1db163f730a695e17185ac0b767c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 092/131] fix: selectors of a separable penalty with shapes

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 6017134..0e31444 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -186,7 +186,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, reshape)
+        return [selector(group, self.shape, reshape=shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From a7269db351fb62de4e2c78d61d8c90143381e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 093/131] fix: equality of atoms ignored their offset,
 quadratic, shape and weights

---
 regreg/atoms/__init__.py           | 36 ++++++++++++++++++++++++++++++
 regreg/atoms/block_norms.py        |  3 +++
 regreg/atoms/cones.py              |  5 -----
 regreg/atoms/group_lasso.py        | 10 +++------
 regreg/atoms/linear_constraints.py |  7 +++---
 regreg/atoms/mixed_lasso.py        | 16 ++-----------
 regreg/atoms/seminorms.py          |  7 +-----
 regreg/atoms/simplex.py            | 10 ---------
 regreg/atoms/slope.py              |  2 ++
 regreg/atoms/sparse_group_block.py |  2 ++
 regreg/atoms/sparse_group_lasso.py |  2 ++
 regreg/atoms/svd_norms.py          |  2 ++
 regreg/atoms/weighted_atoms.py     |  8 +------
 13 files changed, 57 insertions(+), 53 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 9574a7c..4a4459c 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -58,6 +58,24 @@ class atom(nonsmooth):
             self._linear_transform = identity_transform(self.shape)
         return self._linear_transform
 
+    # attributes that determine the function, 
+    # besides the offset and the quadratic
+
+    _parameters = ('shape',)
+
+    def __eq__(self, other):
+        if self.__class__ == other.__class__:
+            return (all(_identical(getattr(self, attr), getattr(other, attr))
+                        for attr in self._parameters)
+                    and _same_offset(self.offset, other.offset)
+                    and self.quadratic == other.quadratic)
+        return False
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
     @doc_template_provider
     def nonsmooth_objective(self, arg, check_feasibility=False):
         """
@@ -200,6 +218,24 @@ class affine_atom(object):
                                  smoothed_atom.atom.quadratic)
         return value
 
+def _identical(value, other):
+    """
+    Are two parameters of an atom (numbers, shapes, arrays, 
+    dictionaries of weights or classes) the same?
+    """
+    if isinstance(value, dict):
+        return (value.keys() == other.keys() and
+                all(_identical(value[key], other[key]) for key in value))
+    return bool(np.array_equal(np.asarray(value), np.asarray(other)))
+
+def _same_offset(offset, other):
+    """
+    Are two offsets, for which None means 0, the same?
+    """
+    offset = 0 if offset is None else offset
+    other = 0 if other is None else other
+    return bool(np.all(np.equal(offset, other)))
+
 def _work_out_conjugate(offset, quadratic):
     """
     Compute the linear term in the conjugate as well as the offset
diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index b6cc597..dd918f0 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -31,6 +31,8 @@ class block_sum(seminorms.seminorm):
     objective_vars['initargs'] = 'rr.l1norm, (5, 4)'
     objective_vars['shape'] = r'n \times p'
 
+    _parameters = seminorms.seminorm._parameters + ('atom_cls',)
+
     def __init__(self, atom_cls, shape,
                  lagrange=None,
                  bound=None,
@@ -46,6 +48,7 @@ class block_sum(seminorms.seminorm):
                             lagrange=lagrange,
                             bound=bound)
 
+        self.atom_cls = atom_cls
         self.atom = atom_cls(shape[1:], lagrange=lagrange,
                              bound=bound,
                              offset=None,
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 9d34ead..b203b59 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -32,11 +32,6 @@ class cone(atom):
                       }
     tol = 1.0e-05
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return self.shape == other.shape
-        return False
-
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index ca71cc1..5eacef8 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -88,13 +88,7 @@ class group_lasso(seminorm):
         self._weight_array[idx] = weight
         self.weights[group] = weight
         
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return (self.shape == other.shape and 
-                    np.all(self.groups == other.groups)
-                    and (self.weights == other.weights)
-                    and self.lagrange == other.lagrange)
-        return False
+    _parameters = seminorm._parameters + ('groups', 'weights')
 
     def __copy__(self):
         return self.__class__(copy(self.groups),
@@ -463,6 +457,8 @@ class group_lasso_cone(cone):
                                         quadratic=None,
                                         initial=None)
 
+    _parameters = cone._parameters + ('groups', 'weights')
+
     def __copy__(self):
         return self.__class__(copy(self.groups),
                               weights=copy(self.weights),
diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index ca8859a..7ae1fc5 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -46,10 +46,9 @@ class linear_constraint(cone):
         
 
     def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return (self.shape == other.shape
-                    and np.allclose(other.basis, self.basis))
-        return False
+        return (cone.__eq__(self, other) and 
+                self.basis.shape == other.basis.shape and
+                np.allclose(other.basis, self.basis))
 
     def __copy__(self):
         return self.__class__(copy(self.shape),
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index fb62095..843d55a 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -79,13 +79,7 @@ class mixed_lasso(atom):
         self._factors_cython = np.zeros_like(self._weight_array)
         self._projection_cython = np.zeros(self.shape)
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return (self.shape == other.shape and 
-                    np.all(self.penalty_structure == other.penalty_structure)
-                    and np.all(self.weights == other.weights)
-                    and self.lagrange == other.lagrange)
-        return False
+    _parameters = ('penalty_structure', '_weight_array', 'lagrange')
 
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
@@ -267,13 +261,7 @@ class mixed_lasso_dual(mixed_lasso):
         del(self.lagrange)
         self.bound = bound
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return (self.shape == other.shape and 
-                    np.all(self.penalty_structure == other.penalty_structure)
-                    and np.all(self.weights == other.weights)
-                    and self.bound == other.bound)
-        return False
+    _parameters = ('penalty_structure', '_weight_array', 'bound')
 
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 3cf6e93..036582f 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -126,12 +126,7 @@ class seminorm(atom):
         """
         return get_bound(self, bound)
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            if self.bound is not None:
-                return self.bound == other.bound
-            return self.lagrange == other.lagrange
-        return False
+    _parameters = ('shape', 'lagrange', 'bound')
 
     def __copy__(self):
         return self.__class__(copy(self.shape),
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index c21ba17..700610f 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -21,11 +21,6 @@ class simplex_constraint(atom):
     objective_vars['dualklass'] = 'maximum'
     objective_vars['initargs'] = '(4,)'
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return self.shape == other.shape
-        return False
-
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
@@ -155,11 +150,6 @@ class maximum(atom):
     objective_vars['dualklass'] = 'maximum'
     objective_vars['initargs'] = '(4,)'
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            return self.shape == other.shape
-        return False
-
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 4c05d27..bed034d 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -38,6 +38,8 @@ class slope(seminorm):
     objective_vars['normklass'] = 'slope'
     objective_vars['dualnormklass'] = 'slope_conjugate'
 
+    _parameters = seminorm._parameters + ('weights',)
+
     def __init__(self, weights, 
                  lagrange=None, 
                  bound=None, 
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 545caeb..8b26948 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -109,6 +109,8 @@ class sparse_group_block(l1_l2):
         return self._conjugate
     conjugate = property(get_conjugate)
 
+    _parameters = seminorms.seminorm._parameters + ('l1_weight', 'l2_weight')
+
     def __copy__(self):
          return self.__class__(self.shape,
                                self.l1_weight,
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index b6ba2b0..8a17c3c 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -116,6 +116,8 @@ class sparse_group_lasso(group_lasso, seminorm):
     def bound_prox(self, x, bound=None):
         raise NotImplementedError
 
+    _parameters = group_lasso._parameters + ('lasso_weights',)
+
     def __copy__(self):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 89d2cff..0d0631b 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -191,6 +191,8 @@ class svd_cone(cone):
     objective_vars['dualconeklass'] = 'nuclear_norm_epigraph_polar'
     objective_vars['shape'] = r'{n \times p + 1}'
 
+    _parameters = cone._parameters + ('matrix_shape',)
+
     def __copy__(self):
         return self.__class__(copy(self.matrix_shape),
                               offset=copy(self.offset),
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 53cd6a2..682f1a9 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -42,13 +42,7 @@ class seminorm(unweighted_seminorm):
         if not np.all(self.weights >= 0):
             raise ValueError('weights should be nonnegative')
 
-    def __eq__(self, other):
-        if self.__class__ == other.__class__:
-            weights_equal = np.all(np.equal(self.weights, other.weights))
-            if self.bound is not None:
-                return self.bound == other.bound and weights_equal
-            return self.lagrange == other.lagrange and weights_equal
-        return False
+    _parameters = unweighted_seminorm._parameters + ('weights',)
 
     def __copy__(self):
         return self.__class__(self.weights.copy(),
-- 
2.43.0


From 508f61bfb12001a1d6a6e99e1714e14134aba745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 094/131] fix: copies of atoms shared their quadratic

---
 regreg/atoms/linear_constraints.py |  2 +-
 regreg/atoms/mixed_lasso.py        | 12 ++++++------
 regreg/atoms/simplex.py            |  4 ++--
 regreg/atoms/slope.py              |  4 ++--
 regreg/atoms/sparse_group_block.py |  4 ++--
 regreg/atoms/sparse_group_lasso.py |  4 ++--
 regreg/atoms/svd_norms.py          |  4 ++--
 regreg/atoms/weighted_atoms.py     |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 7ae1fc5..cf8d7ac 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -54,7 +54,7 @@ class linear_constraint(cone):
         return self.__class__(copy(self.shape),
                               self.basis.copy(),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 843d55a..d9ceb2c 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -84,10 +84,10 @@ class mixed_lasso(atom):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.lagrange,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
-                              initial=self.coefs,
-                              quadratic=self.quadratic)
+                              initial=copy(self.coefs),
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -266,10 +266,10 @@ class mixed_lasso_dual(mixed_lasso):
     def __copy__(self):
         return self.__class__(copy(self.penalty_structure),
                               self.bound,
-                              weights=self.weights,
+                              weights=copy(self.weights),
                               offset=copy(self.offset),
-                              initial=self.coefs,
-                              quadratic=self.quadratic)
+                              initial=copy(self.coefs),
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 700610f..316137f 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -24,7 +24,7 @@ class simplex_constraint(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -153,7 +153,7 @@ class maximum(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index bed034d..7be760e 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -92,8 +92,8 @@ class slope(seminorm):
 
     def __copy__(self):
          return self.__class__(self.weights.copy(),
-                               quadratic=self.quadratic,
-                               initial=self.coefs,
+                               quadratic=copy(self.quadratic),
+                               initial=copy(self.coefs),
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
                                offset=copy(self.offset))
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 8b26948..637e05d 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -115,8 +115,8 @@ class sparse_group_block(l1_l2):
          return self.__class__(self.shape,
                                self.l1_weight,
                                self.l2_weight,
-                               quadratic=self.quadratic,
-                               initial=self.coefs,
+                               quadratic=copy(self.quadratic),
+                               initial=copy(self.coefs),
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
                                offset=copy(self.offset))
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 8a17c3c..1027fbc 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -122,8 +122,8 @@ class sparse_group_lasso(group_lasso, seminorm):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
                                weights=copy(self.weights),
-                               quadratic=self.quadratic,
-                               initial=self.coefs,
+                               quadratic=copy(self.quadratic),
+                               initial=copy(self.coefs),
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
                                offset=copy(self.offset))
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 0d0631b..b460614 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -196,8 +196,8 @@ class svd_cone(cone):
     def __copy__(self):
         return self.__class__(copy(self.matrix_shape),
                               offset=copy(self.offset),
-                              initial=self.coefs,
-                              quadratic=self.quadratic)
+                              initial=copy(self.coefs),
+                              quadratic=copy(self.quadratic))
     
 
     def __repr__(self):
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 682f1a9..3074ed2 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -46,8 +46,8 @@ class seminorm(unweighted_seminorm):
 
     def __copy__(self):
         return self.__class__(self.weights.copy(),
-                              quadratic=self.quadratic,
-                              initial=self.coefs,
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs),
                               bound=copy(self.bound),
                               lagrange=copy(self.lagrange),
                               offset=copy(self.offset))
-- 
2.43.0


From 4c694987358d9704e2c8f88c40f05705af503e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 095/131] fix: copying or printing a block norm raised an error

---
 regreg/atoms/block_norms.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index dd918f0..693ac11 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -6,6 +6,7 @@ l1/l*, linf/l* norms. These are used in multiresponse LASSOs.
 from __future__ import print_function, division, absolute_import
 
 import warnings
+from copy import copy
 
 import numpy as np
 
@@ -54,6 +55,21 @@ class block_sum(seminorms.seminorm):
                              offset=None,
                              quadratic=quadratic)
 
+    def __copy__(self):
+        return self.__class__(self.atom_cls,
+                              self.shape,
+                              lagrange=self.lagrange,
+                              bound=self.bound,
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic),
+                              initial=copy(self.coefs))
+
+    def __repr__(self):
+        value = seminorms.seminorm.__repr__(self)
+        name = self.__class__.__name__
+        return value.replace(name + '(', 
+                             '%s(%s, ' % (name, self.atom_cls.__name__), 1)
+
     @doc_template_user
     @doc_template_provider
     def seminorms(self, x, lagrange=None, check_feasibility=False):
@@ -253,6 +269,9 @@ class linf_l2(block_max):
     objective_vars['dualnormklass'] = 'l1_l2'
     objective_vars['initargs'] = '(5,4)'
 
+    __copy__ = seminorms.seminorm.__copy__
+    __repr__ = seminorms.seminorm.__repr__
+
     def __init__(self, 
                  shape,
                  lagrange=None,
@@ -450,6 +469,9 @@ class l1_l2(block_sum):
     objective_vars['normklass'] = 'l1_l2'
     objective_vars['dualnormklass'] = 'linf_l2'
 
+    __copy__ = seminorms.seminorm.__copy__
+    __repr__ = seminorms.seminorm.__repr__
+
     def __init__(self, shape,
                  lagrange=None,
                  bound=None,
-- 
2.43.0


From 07393c011d3437256271b4341f9c74e846819b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 096/131] fix: printed forms of atoms could not be evaluated or
 lost parameters

---
 regreg/atoms/mixed_lasso.py        | 24 ++++++-------
 regreg/atoms/seminorms.py          | 18 +++++-----
 regreg/atoms/slope.py              | 41 ++++++++++-----------
 regreg/atoms/sparse_group_block.py |  5 +++
 regreg/atoms/sparse_group_lasso.py | 57 +++++++++++++++---------------
 regreg/atoms/svd_norms.py          |  6 ++--
 regreg/atoms/weighted_atoms.py     | 42 +++++++++++-----------
 regreg/identity_quadratic.py       |  9 ++++-
 8 files changed, 108 insertions(+), 94 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index d9ceb2c..a560d8c 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -91,20 +91,20 @@ class mixed_lasso(atom):
     
     def __repr__(self):
         if self.quadratic.iszero:
-            return "%s(%r, %s, weights=%r, offset=%s)" % \
+            return "%s(%r, %r, weights=%r, offset=%r)" % \
                 (self.__class__.__name__,
                  self.penalty_structure,
                  self.lagrange,
                  self.weights,
-                 str(self.offset))
+                 self.offset)
         else:
-            return "%s(%s, %r, weights=%r, offset=%s, quadratic=%s)" % \
+            return "%s(%r, %r, weights=%r, offset=%r, quadratic=%r)" % \
                 (self.__class__.__name__,
                  self.penalty_structure,
                  self.lagrange,
                  self.weights,
-                 str(self.offset),
-                 str(self.quadratic))
+                 self.offset,
+                 self.quadratic)
 
     @property
     def conjugate(self):
@@ -273,20 +273,20 @@ class mixed_lasso_dual(mixed_lasso):
     
     def __repr__(self):
         if self.quadratic.iszero:
-            return "%s(%s, %r, weights=%r, offset=%s)" % \
+            return "%s(%r, %r, weights=%r, offset=%r)" % \
                 (self.__class__.__name__,
-                 self.bound,
                  self.penalty_structure,
+                 self.bound,
                  self.weights,
-                 str(self.offset))
+                 self.offset)
         else:
-            return "%s(%s, %r, weights=%r, offset=%s, quadratic=%s)" % \
+            return "%s(%r, %r, weights=%r, offset=%r, quadratic=%r)" % \
                 (self.__class__.__name__,
-                 self.bound, 
                  self.penalty_structure,
+                 self.bound,
                  self.weights,
-                 str(self.offset),
-                 str(self.quadratic))
+                 self.offset,
+                 self.quadratic)
 
     @property
     def conjugate(self):
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 036582f..4f63147 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -4,7 +4,7 @@ from copy import copy
 
 import numpy as np
 
-from ..identity_quadratic import identity_quadratic
+from ..identity_quadratic import identity_quadratic, number_repr
 from ..affine import (linear_transform, 
                       identity as identity_transform)
 from ..objdoctemplates import objective_doc_templater
@@ -138,32 +138,32 @@ class seminorm(atom):
     def __repr__(self):
         if self.lagrange is not None:
             if self.quadratic.iszero:
-                return "%s(%s, lagrange=%f, offset=%s)" % \
+                return "%s(%s, lagrange=%s, offset=%s)" % \
                     (self.__class__.__name__,
                      repr(self.shape), 
-                     self.lagrange,
+                     number_repr(self.lagrange),
                      repr(self.offset))
             else:
-                return "%s(%s, lagrange=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, lagrange=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__,
                      repr(self.shape), 
-                     self.lagrange,
+                     number_repr(self.lagrange),
                      repr(self.offset),
                      repr(self.quadratic))
 
         else:
             if self.quadratic.iszero:
-                return "%s(%s, bound=%f, offset=%s)" % \
+                return "%s(%s, bound=%s, offset=%s)" % \
                     (self.__class__.__name__,
                      repr(self.shape), 
-                     self.bound,
+                     number_repr(self.bound),
                      repr(self.offset))
 
             else:
-                return "%s(%s, bound=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, bound=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__,
                      repr(self.shape), 
-                     self.bound,
+                     number_repr(self.bound),
                      repr(self.offset),
                      repr(self.quadratic))
 
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 7be760e..4d45604 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -20,6 +20,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 from .seminorms import seminorm
 from ..problems.composite import smooth_conjugate
 
+from ..identity_quadratic import number_repr
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -100,33 +101,33 @@ class slope(seminorm):
     
     def __repr__(self):
          if self.lagrange is not None:
-              if not self.quadratic.iszero:
-                   return "%s(%s, lagrange=%f, offset=%s)" % \
+              if self.quadratic.iszero:
+                   return "%s(%s, lagrange=%s, offset=%s)" % \
                        (self.__class__.__name__,
-                        str(self.weights),
-                        self.lagrange,
-                        str(self.offset))
+                        repr(self.weights),
+                        number_repr(self.lagrange),
+                        repr(self.offset))
               else:
-                   return "%s(%s, lagrange=%f, offset=%s, quadratic=%s)" % \
+                   return "%s(%s, lagrange=%s, offset=%s, quadratic=%s)" % \
                        (self.__class__.__name__, 
-                        str(self.weights),
-                        self.lagrange,
-                        str(self.offset),
-                        self.quadratic)
+                        repr(self.weights),
+                        number_repr(self.lagrange),
+                        repr(self.offset),
+                        repr(self.quadratic))
          else:
-              if not self.quadratic.iszero:
-                   return "%s(%s, bound=%f, offset=%s)" % \
+              if self.quadratic.iszero:
+                   return "%s(%s, bound=%s, offset=%s)" % \
                        (self.__class__.__name__,
-                        str(self.weights),
-                        self.bound,
-                        str(self.offset))
+                        repr(self.weights),
+                        number_repr(self.bound),
+                        repr(self.offset))
               else:
-                   return "%s(%s, bound=%f, offset=%s, quadratic=%s)" % \
+                   return "%s(%s, bound=%s, offset=%s, quadratic=%s)" % \
                        (self.__class__.__name__,
-                        str(self.weights),
-                        self.bound,
-                        str(self.offset),
-                        self.quadratic)
+                        repr(self.weights),
+                        number_repr(self.bound),
+                        repr(self.offset),
+                        repr(self.quadratic))
               
 
     @doc_template_user
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 637e05d..9e356e2 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -121,6 +121,11 @@ class sparse_group_block(l1_l2):
                                lagrange=copy(self.lagrange),
                                offset=copy(self.offset))
 
+    def __repr__(self):
+        value = seminorms.seminorm.__repr__(self)
+        shape = repr(self.shape)
+        return value.replace(shape, '%s, %r, %r' % (shape, self.l1_weight, self.l2_weight), 1)
+
     def terms(self, arg):
         """
         Return the args that are summed
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 1027fbc..95e8090 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -16,6 +16,7 @@ from scipy import sparse
 from .seminorms import seminorm
 from .group_lasso import group_lasso
 from .weighted_atoms import l1norm as weighted_l1norm
+from ..identity_quadratic import number_repr
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -160,41 +161,41 @@ class sparse_group_lasso(group_lasso, seminorm):
 
     def __repr__(self):
         if self.lagrange is not None:
-            if not self.quadratic.iszero:
-                return "%s(%s, %s, weights=%s, lagrange=%f, offset=%s)" % \
+            if self.quadratic.iszero:
+                return "%s(%s, %s, weights=%s, lagrange=%s, offset=%s)" % \
                     (self.__class__.__name__,
-                     str(self.groups),
-                     str(self.lasso_weights),
-                     str(self.weights),
-                     self.lagrange,
-                     str(self.offset))
+                     repr(self.groups),
+                     repr(self.lasso_weights),
+                     repr(self.weights),
+                     number_repr(self.lagrange),
+                     repr(self.offset))
             else:
-                return "%s(%s, %s, weights=%s, lagrange=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, %s, weights=%s, lagrange=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__, 
-                     str(self.groups),
-                     str(self.lasso_weights),
-                     str(self.weights),
-                     self.lagrange,
-                     str(self.offset),
-                     self.quadratic)
+                     repr(self.groups),
+                     repr(self.lasso_weights),
+                     repr(self.weights),
+                     number_repr(self.lagrange),
+                     repr(self.offset),
+                     repr(self.quadratic))
         else:
-            if not self.quadratic.iszero:
-                return "%s(%s, %s, weights=%s, bound=%f, offset=%s)" % \
+            if self.quadratic.iszero:
+                return "%s(%s, %s, weights=%s, bound=%s, offset=%s)" % \
                     (self.__class__.__name__,
-                     str(self.groups),
-                     str(self.lasso_weights),
-                     str(self.weights),
-                     self.bound,
-                     str(self.offset))
+                     repr(self.groups),
+                     repr(self.lasso_weights),
+                     repr(self.weights),
+                     number_repr(self.bound),
+                     repr(self.offset))
             else:
-                return "%s(%s, %s, weights=%s, bound=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, %s, weights=%s, bound=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__,
-                     str(self.groups),
-                     str(self.lasso_weights),
-                     str(self.weights),
-                     self.bound,
-                     str(self.offset),
-                     self.quadratic)
+                     repr(self.groups),
+                     repr(self.lasso_weights),
+                     repr(self.weights),
+                     number_repr(self.bound),
+                     repr(self.offset),
+                     repr(self.quadratic))
 
     @doc_template_user
     def get_conjugate(self):
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index b460614..4fd9d05 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -205,13 +205,13 @@ class svd_cone(cone):
             return "%s(%s, offset=%s)" % \
                 (self.__class__.__name__,
                  repr(self.matrix_shape),
-                 str(self.offset))
+                 repr(self.offset))
         else:
             return "%s(%s, offset=%s, quadratic=%s)" % \
                 (self.__class__.__name__,
                  repr(self.matrix_shape),
-                 str(self.offset),
-                 str(self.quadratic))
+                 repr(self.offset),
+                 repr(self.quadratic))
 
     def __init__(self, input_shape,
                  offset=None,
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 3074ed2..8f4fe37 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -8,7 +8,7 @@ from .seminorms import seminorm as unweighted_seminorm
 from ..problems.composite import composite, nonsmooth, smooth_conjugate
 from ..affine import (linear_transform, identity as identity_transform, 
                      affine_transform, selector)
-from ..identity_quadratic import identity_quadratic
+from ..identity_quadratic import identity_quadratic, number_repr
 from ..atoms import _work_out_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -54,33 +54,33 @@ class seminorm(unweighted_seminorm):
     
     def __repr__(self):
         if self.lagrange is not None:
-            if not self.quadratic.iszero:
-                return "%s(%s, lagrange=%f, offset=%s)" % \
+            if self.quadratic.iszero:
+                return "%s(%s, lagrange=%s, offset=%s)" % \
                     (self.__class__.__name__,
-                     str(self.weights),
-                     self.lagrange,
-                     str(self.offset))
+                     repr(self.weights),
+                     number_repr(self.lagrange),
+                     repr(self.offset))
             else:
-                return "%s(%s, lagrange=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, lagrange=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__, 
-                     str(self.weights),
-                     self.lagrange,
-                     str(self.offset),
-                     self.quadratic)
+                     repr(self.weights),
+                     number_repr(self.lagrange),
+                     repr(self.offset),
+                     repr(self.quadratic))
         else:
-            if not self.quadratic.iszero:
-                return "%s(%s, bound=%f, offset=%s)" % \
+            if self.quadratic.iszero:
+                return "%s(%s, bound=%s, offset=%s)" % \
                     (self.__class__.__name__,
-                     str(self.weights),
-                     self.bound,
-                     str(self.offset))
+                     repr(self.weights),
+                     number_repr(self.bound),
+                     repr(self.offset))
             else:
-                return "%s(%s, bound=%f, offset=%s, quadratic=%s)" % \
+                return "%s(%s, bound=%s, offset=%s, quadratic=%s)" % \
                     (self.__class__.__name__,
-                     str(self.weights),
-                     self.bound,
-                     str(self.offset),
-                     self.quadratic)
+                     repr(self.weights),
+                     number_repr(self.bound),
+                     repr(self.offset),
+                     repr(self.quadratic))
 
     @doc_template_user
     def get_conjugate(self):
diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 0516231..dbdef61 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -15,6 +15,13 @@ from copy import copy
 from numpy.linalg import norm
 from numpy import all, asarray, allclose
 
+def number_repr(value):
+    """
+    Six decimals, or more when six do not give back the same number.
+    """
+    short = '%f' % value
+    return short if float(short) == value else repr(float(value))
+
 class identity_quadratic(object):
 
     r"""
@@ -142,7 +149,7 @@ class identity_quadratic(object):
             raise ValueError("Mode incorrectly specified")
 
     def __repr__(self):
-        return 'identity_quadratic(%f, %s, %s, %f)' % (self.coef, repr(self.center), repr(self.linear_term), self.constant_term)
+        return 'identity_quadratic(%s, %s, %s, %s)' % (number_repr(self.coef), repr(self.center), repr(self.linear_term), number_repr(self.constant_term))
 
     def __add__(self, other):
         """ Return an identity quadratic given by the sum in the obvious way.
-- 
2.43.0


From c4d914c300111fb348f44aaf9aba57a79f584a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 097/131] fix: conjugate of a block norm after its quadratic
 was replaced

---
 regreg/atoms/block_norms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 693ac11..b421083 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -51,9 +51,7 @@ class block_sum(seminorms.seminorm):
 
         self.atom_cls = atom_cls
         self.atom = atom_cls(shape[1:], lagrange=lagrange,
-                             bound=bound,
-                             offset=None,
-                             quadratic=quadratic)
+                             bound=bound)
 
     def __copy__(self):
         return self.__class__(self.atom_cls,
-- 
2.43.0


From fab303be5396e98652d43a85a815de125166f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 098/131] fix: isotonic regression of integers was truncated

---
 regreg/atoms/_isotonic_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/_isotonic_py.py b/regreg/atoms/_isotonic_py.py
index ab98e1a..66f8a94 100644
--- a/regreg/atoms/_isotonic_py.py
+++ b/regreg/atoms/_isotonic_py.py
@@ -13,7 +13,7 @@ def pav(y):
 
     translated from matlab by Sean Collins (2006) as part of the EMAP toolbox
     """
-    y = np.asarray(y)
+    y = np.asarray(y, float)
     assert y.ndim == 1
     n_samples = len(y)
     v = y.copy()
-- 
2.43.0


From f63204aae79618f0611dc6a95719cf3d379c25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 099/131] fix: root finders without any term, or without a
 solution

---
 regreg/atoms/piecewise_linear.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index 2f8248c..2c8b218 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -43,6 +43,12 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
     if (weights * norms).sum() <= b:
         return 0
 
+    if slope == 0 and b < 0:
+        return np.inf
+
+    if q == 0:
+        return -b / slope
+
     # terms of weight 0 contribute nothing to f
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = np.where(weights > 0, norms, 0) / np.maximum(weights, 1e-20)
     cdef cnp.ndarray[DTYPE_intp_t, ndim=1] order = np.argsort(knots)
@@ -113,6 +119,12 @@ def find_solution_piecewise_linear_c(DTYPE_float_t b,
     if (norms).sum() < b:
         return 0
 
+    if slope == 0 and b < 0:
+        return np.inf
+
+    if q == 0:
+        return -b / slope if b < 0 else 0
+
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] knots = norms
     cdef cnp.ndarray[DTYPE_intp_t, ndim=1] order = np.argsort(knots)
 
-- 
2.43.0


From 8856752ea6cf42eed06829b0409c42fc047ccaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 100/131] fix: latex form of every quadratic loss changed when
 a squared error was built

---
 regreg/smooth/quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index 4c5bb04..9245d95 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -259,7 +259,7 @@ def squared_error(X, Y, coef=1):
 
     """
     atom = quadratic_loss.affine(X, -Y, coef=coef)
-    atom.atom.objective_vars['offset'] = 'Y'
+    atom.atom.objective_vars = dict(atom.atom.objective_vars, offset='Y')
     atom.atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
@@ -273,7 +273,7 @@ def signal_approximator(signal, coef=1):
 
     """
     atom = quadratic_loss.shift(signal, coef=coef)    
-    atom.objective_vars['offset'] = 'Y'
+    atom.objective_vars = dict(atom.objective_vars, offset='Y')
     atom.objective_template = r"""\frac{%(coef)s}{2}\left\|%(var)s\right\|^2_2"""
     return atom
 
-- 
2.43.0


From 29305f61cf474673c7f001d04b4e070ce49cd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 101/131] fix: latex form of an affine map of an affine map
 raised

---
 regreg/smooth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index ad2729f..b46c1e5 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -164,7 +164,7 @@ class affine_smooth(smooth_atom):
 
     force_reshape = True
 
-    objective_vars = {'linear':'X'}
+    objective_vars = {'var': r'\beta', 'linear':'X'}
 
     def __init__(self, smooth_atom, atransform, store_grad=True, diag=False):
         """
-- 
2.43.0


From 848ff6a875a8fe65688429d7d145262d32470a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 102/131] fix: displaying an identity quadratic or taking a
 part of it changed it

---
 regreg/identity_quadratic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index dbdef61..48c2821 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -175,7 +175,6 @@ class identity_quadratic(object):
         '''
         Determine shape of any pieces and make sure they agree
         '''
-        self.zeroify()
         lt = asarray(self.linear_term)
         center = asarray(self.center)
 
@@ -232,16 +231,17 @@ class identity_quadratic(object):
         var = template_dict['var']
         idx = template_dict['idx']
 
-        self.zeroify()
+        q = copy(self)
+        q.zeroify()
         terms = []
-        if self.coef != 0:
-            if not all(self.center == 0):
+        if q.coef != 0:
+            if not all(q.center == 0):
                 terms.append(r'\frac{L_{%s}}{2}' % idx + r'\|%s-\mu_{%s}\|^2_2' % (var, idx))
             else:
                 terms.append(r'\frac{L_{%s}}{2}' % idx + r'\|%s\|^2_2' % var)
-        if self.linear_term is not None and not all(self.linear_term == 0):
+        if q.linear_term is not None and not all(q.linear_term == 0):
             terms.append(r'\left \langle \eta_{%s}, %s \right \rangle' % (idx, var))
-        if self.constant_term is not None and self.constant_term != 0:
+        if q.constant_term is not None and q.constant_term != 0:
             terms.append(r'\gamma_{%s} ' % idx)
         return ' + '.join(terms)
 
-- 
2.43.0


From d4a7d19a2a859517a46ddc5e856b7fb0eeaea4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 103/131] fix: strong rules never fitted unpenalised features
 again, nor those active at the start

---
 regreg/paths/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..6c9b927 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -238,14 +238,20 @@ def strong_rules(path_obj,
     grad_solution = grad_solution.copy()
 
     linear_predictor = path_obj.X.dot(solution)
-    ever_active = path_obj.updated_ever_active([])
+
+    # features fitted throughout: those without a penalty
+    # and those active at the initial solution
+
+    initial_active = np.zeros(path_obj.group_shape, np.bool)
+    initial_active[path_obj.unpenalized[1]] = True
+    initial_active += np.asarray(path_obj.active_set(solution))
 
     dev_solution = path_obj.saturated_loss.smooth_objective(linear_predictor, 'func')
     solutions = [solution.T.copy()]
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
+    subproblem_set = path_obj.updated_ever_active(initial_active)
 
     for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
                                           lagrange_seq[:-1]):
-- 
2.43.0


From cfe95d36e657ac9879133cade9283beb08a16feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 104/131] fix: explained deviance of a path was only that of
 its last point

---
 regreg/paths/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 6c9b927..3046986 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -371,7 +371,7 @@ def strong_rules(path_obj,
                    'dual penalty':path_obj.penalty.conjugate.seminorm(grad_solution, lagrange=1)})
 
     dev_explained = np.array(dev_explained)
-    output = {'dev explained': 1 - dev_explained[-1] / dev_explained[0],
+    output = {'dev explained': 1 - dev_explained / dev_explained[0],
               'lagrange': lagrange_seq,
               'beta':np.array(solutions)}
 
-- 
2.43.0


From 7b79eaa34de0c04257e101212d72bc38de39e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 105/131] fix: options given to warm_start were changed

---
 regreg/paths/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 3046986..eb6a3d4 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -386,6 +386,7 @@ def warm_start(path_obj,
                solve_args={}):
     
     solution, _ = initial_data
+    solve_args = dict(solve_args)
 
     # basic setup
 
-- 
2.43.0


From 9f57a4218b6a658a3b2337508191dddfb3f796f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 106/131] fix: the mixture of penalties was ignored in block
 sparse group paths

---
 regreg/paths/sparse_group_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 15e0df9..397edd3 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -52,11 +52,11 @@ class sparse_group_common_path(group_lasso_path):
             self.X.input_shape = (self.X.input_shape +           # but its output should be same shape
                                   self.saturated_loss.shape[1:]) # as self.saturated_loss.shape
 
+        if l1_alpha is not None:
+            l1_penalty = l1_penalty * l1_alpha
+            l2_penalty = l2_penalty * (1 - l1_alpha)
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
-        if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
 
         # the penalty parameters
 
-- 
2.43.0


From 4bc9d20ed038e0c1e1206742c9fbd98e4abe1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 107/131] fix: ranks of the failing groups in block sparse
 group paths

---
 regreg/paths/sparse_group_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 397edd3..5a78ea8 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -571,7 +571,7 @@ def _check_KKT(grad,
                                                           l1_weight,
                                                           l2_weight)[0] / lagrange
 
-    inactive_ranks = inactive_results.shape[0] - np.argsort(inactive_results)
+    inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
 
     return active_results, inactive_ranks
-- 
2.43.0


From 8d3a029235479ae1b4421d21877ef449473ad3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 108/131] fix: sparse group paths: unpenalized groups, elastic
 net and subsamples

---
 regreg/paths/sparse_group_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..c76677a 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -111,7 +111,7 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
+                unpen_group = (self.penalty.weights[g] == 0 and
                                np.any(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 39e955e68083db292c893e1f4a475ed5797355ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 109/131] fix: sparse group paths: features without a penalty
 were taken to be penalized and subsamples mixed the penalties twice

---
 regreg/paths/sparse_group_lasso.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index c76677a..126bcdf 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -44,6 +44,8 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        self._unmixed_weights = (self.penalty.lasso_weights,
+                                 dict(self.penalty.weights)) # for subsample
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
@@ -64,22 +66,22 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.ever_active_groups = self.updated_ever_active(unpenalized_idx)
 
-        self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
-                                                 unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
-        self._penalized_vars[self._unpenalized_vars] = 0
+        self._unpenalized_vars = (_candidate_bool(self.penalty.groups, 
+                                                  unpenalized_groups) *
+                                  (self.penalty.lasso_weights == 0))
+        self._penalized_vars = ~self._unpenalized_vars
 
         if np.any(unpenalized_idx):
             (self.final_step, 
              null_grad, 
              null_soln,
              null_linpred,
-             _) = self.solve_subproblem(self.solution,
-                                        unpenalized_groups,
-                                        self.BIG,
-                                        tol=1.e-8)
+             null_vars) = self.solve_subproblem(self.solution,
+                                                unpenalized_groups,
+                                                self.BIG,
+                                                tol=1.e-8)
             self.linear_predictor = null_linpred
-            self.solution[self._unpenalized_vars] = null_soln
+            self.solution[null_vars] = null_soln
         else:
             self.linear_predictor = np.zeros(self.saturated_loss.shape)
 
@@ -148,11 +150,12 @@ class sparse_group_lasso_path(group_lasso_path):
 
         '''
         subsample_loss = self.saturated_loss.subsample(case_idx)
+        lasso_weights, weights = self._unmixed_weights
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              lasso_weights,
+                              weights=weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From c1b52bf2b5e5692a7be935a6f30d6852849bf220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 110/131] fix: penalty of a sparse group path had its lasso
 part unmixed

---
 regreg/paths/sparse_group_lasso.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 126bcdf..abe923a 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -43,13 +43,15 @@ class sparse_group_lasso_path(group_lasso_path):
         # the penalty parameters
 
         self.alpha = alpha
-        self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
-        self._unmixed_weights = (self.penalty.lasso_weights,
-                                 dict(self.penalty.weights)) # for subsample
+        unmixed = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        self._unmixed_weights = (unmixed.lasso_weights,
+                                 dict(unmixed.weights)) # for subsample
         l2_weight = 1 - l1_alpha
-        for g in self.penalty.weights.keys():
-            self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
-        self.penalty.lasso_weights = self.penalty.lasso_weights * l1_alpha
+        self.penalty = sparse_group_lasso(groups,
+                                          unmixed.lasso_weights * l1_alpha,
+                                          weights=dict([(g, l2_weight * unmixed.weights[g])
+                                                        for g in unmixed.weights]),
+                                          lagrange=1)
         self.group_shape = (len(np.unique(self.penalty.groups)),)
         self.shape = self.penalty.shape
 
-- 
2.43.0


From ccb69a7d86394a5eb08ab194a1b4389109c10e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 111/131] fix: BASIL left features active at the start out of
 its subproblems and changed the initial data

---
 regreg/paths/basil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..e545c74 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -27,6 +27,7 @@ def basil_inner_loop(path_obj,
     solution, grad_solution = initial_data
 
     solution = solution.copy()
+    grad_solution = grad_solution.copy()
     last_grad = grad_solution.copy()
     inactive_ranks = path_obj.check_KKT(grad_solution,
                                         solution,
@@ -35,6 +36,7 @@ def basil_inner_loop(path_obj,
     linear_predictor = path_obj.X.dot(solution)
     unpen = np.zeros(path_obj.group_shape, np.bool)
     unpen[path_obj.unpenalized[1]] = True
+    unpen += np.asarray(path_obj.active_set(solution)) # and those active at the start
     ever_active = list(path_obj.updated_ever_active(unpen)) # unpenalized groups
 
     solutions = []
-- 
2.43.0


From fc05c6debea23a84e77849e5fb3f025018bf99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 112/131] fix: BASIL restarted every batch from the initial
 solution and ignored the initial step

---
 regreg/paths/basil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index e545c74..746f49a 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -133,11 +133,13 @@ def basil(path_obj,
                                                lagrange_cand,
                                                cur_data,
                                                inner_tol=inner_tol,
+                                               verbose=verbose,
+                                               initial_step=initial_step,
                                                step_nvar=step_nvar,
                                                candidate_set=candidate_set,
                                                solve_args=solve_args)
             if len(solution_incr) > 0:
-                cur_soln = (solution_incr[-1], last_grad)
+                cur_data = (solution_incr[-1].T, last_grad)
 
                 solutions.extend(solution_incr)
                 lagrange_solved.extend(lagrange_incr)
-- 
2.43.0


From eeb0769fef4039568e3a445b7a65b9997a451f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 113/131] fix: the step collapsed when a proposal differed from
 the current point by round-off, and paths then kept the collapsed step

---
 regreg/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 8bd673e..2576a7e 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -258,6 +258,9 @@ class FISTA(algorithm):
                 stop = (np.fabs(np.dot((proposed_coefs - self.working_coefs).reshape(-1),
                                        (working_grad - proposed_grad).reshape(-1))) <= 
                         (0.5/self.step)*np.linalg.norm(proposed_coefs-self.working_coefs)**2)
+                # a change of round-off size says nothing about the step
+                stop = stop or (np.linalg.norm(proposed_coefs - self.working_coefs) <=
+                                1e-15 * max(1., np.linalg.norm(self.working_coefs)))
             if stop:
                 break
 
-- 
2.43.0


From b2cb2e522346e570a973db3ee66e861bc1d82b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 114/131] fix: folds of cross-validation started at the null
 model of all the cases, which was then scored as the model of the fold at the
 first multiplier

---
 regreg/paths/cross_validate.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/regreg/paths/cross_validate.py b/regreg/paths/cross_validate.py
index c8cfb13..4ccbf96 100644
--- a/regreg/paths/cross_validate.py
+++ b/regreg/paths/cross_validate.py
@@ -9,7 +9,7 @@ except ImportError:
     have_sklearn = False
     pass
 
-from . import strong_rules
+from . import strong_rules, default_lagrange_sequence
 
 def cross_validate(path_obj,
                    lagrange_seq,
@@ -56,10 +56,6 @@ def cross_validate(path_obj,
     # Loop over folds, computing path
     # for each (train, test)
 
-    if initial_data is None:
-        initial_data = (path_obj.solution,
-                        path_obj.grad_solution)
-
     def fit_fold(path_obj,
                  lagrange_seq,
                  initial_data,
@@ -68,10 +64,25 @@ def cross_validate(path_obj,
                  inner_tol):
         train_path = path_obj.subsample(train)
         train_path.saturated_loss.coef *= train.shape[0] / train.sum()
+        leading = 0
+        if initial_data is None:
+            # null model of this fold, a solution of the
+            # fold's problem from its own lagrange_max on
+            train_path = train_path.subsample(train)
+            initial_data = (train_path.solution,
+                            train_path.grad_solution)
+            lagrange_max = default_lagrange_sequence(train_path.penalty,
+                                                     train_path.grad_solution,
+                                                     nstep=2,
+                                                     alpha=train_path.alpha)[0]
+            if lagrange_max > lagrange_seq[0]:
+                lagrange_seq = np.hstack([lagrange_max, lagrange_seq])
+                leading = 1
         train_results = path_fitter(train_path, 
                                     lagrange_seq, 
                                     initial_data,
                                     inner_tol=inner_tol)
+        train_results['beta'] = train_results['beta'][leading:]
         return train_results
 
     jobs = (delayed(fit_fold)(path_obj,
-- 
2.43.0


From cfb52f71e54b04409884d08b58643792f10cf5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 115/131] fix: dual seminorm of the sparse group lasso was a
 rounding error times 1e7 at features without a penalty, so paths started far
 above the largest multiplier

---
 regreg/atoms/sparse_group_lasso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 95e8090..efc5743 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -261,12 +261,15 @@ class sparse_group_lasso_dual(sparse_group_lasso):
          lagrange = seminorm.seminorm(self, x, 
                                       check_feasibility=check_feasibility, 
                                       lagrange=lagrange)
+         if not check_feasibility: # as for the other seminorms, only finite terms count
+              weightless = np.array([self.weights[g] == 0 for g in self.groups])
+              x = np.where(weightless * (np.asarray(self.lasso_weights) == 0), 0, x)
          return gauge_function_dual(self.base_conjugate, x) * lagrange
 
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         inbox = self.seminorm(x, lagrange=1) <= bound * (1 + self.tol)
+         inbox = self.seminorm(x, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
          if inbox:
              return 0
          else:
-- 
2.43.0


From 3da65ba25fd18170359c5348c0abfa6a06ab398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 116/131] fix: unpenalized features failing their optimality
 condition were not reported when no feature has a positive finite weight

---
 regreg/paths/lasso.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/lasso.py b/regreg/paths/lasso.py
index 131cfda..9f1dcf6 100644
--- a/regreg/paths/lasso.py
+++ b/regreg/paths/lasso.py
@@ -367,7 +367,9 @@ def _check_KKT(lasso_weights,
     inactive_ranks[inactive_terms <= 1+tol] = -1
 
     unpenalized = lasso_weights == 0
-    active_failing[unpenalized] = (np.fabs(grad[unpenalized] / np.mean(lasso_weights[lasso_weights>0])) > tol) * UNPENALIZED
+    scale_weights = lasso_weights[(lasso_weights > 0) * np.isfinite(lasso_weights)]
+    scale = np.mean(scale_weights) if scale_weights.shape[0] else 1.
+    active_failing[unpenalized] = (np.fabs(grad[unpenalized] / scale) > tol) * UNPENALIZED
 
     np.testing.assert_allclose(inactive_ranks >= 0, inactive_terms > 1 + tol)
 
-- 
2.43.0


From a8aa90cbc94bf9304a3a4deeef5b9346d7d64b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 117/131] fix: gradients too large at active groups passed the
 optimality checks of sparse group paths without an l1 weight

---
 regreg/paths/group_lasso.py        |  2 +-
 regreg/paths/sparse_group_block.py |  2 +-
 regreg/paths/sparse_group_lasso.py | 10 +++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/regreg/paths/group_lasso.py b/regreg/paths/group_lasso.py
index 140c069..51045db 100644
--- a/regreg/paths/group_lasso.py
+++ b/regreg/paths/group_lasso.py
@@ -393,7 +393,7 @@ def _check_KKT(penalty,
         if active:
             active_results[i] = (np.linalg.norm(solution[group] * lagrange * w / np.linalg.norm(solution[group]) + grad[group]) > tol) * ACTIVE
         elif unpenalized:
-            active_results[i] = (np.linalg.norm(grad[group]) > tol * np.mean(penalty._weight_array)) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(grad[group]) > tol * (np.mean(penalty._weight_array) or 1.)) * UNPENALIZED
         else:
             inactive_results[i] = np.linalg.norm(grad[group]) / (lagrange * w) 
     # rank inactive groups
diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 5a78ea8..fb2e55f 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -551,7 +551,7 @@ def _check_KKT(grad,
         val_g, l1subgrad_g, l2subgrad_g = _gauge_function_dual_strong(subgrad_g,
                                                                       l1_weight,
                                                                       l2_weight)
-        if val_g < lagrange * (1 - tol):
+        if np.fabs(val_g - lagrange) > tol * lagrange:
             active_results[g] = ACTIVE_NORM
         nonz = soln_g != 0
 
diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index abe923a..ae99914 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -391,6 +391,7 @@ def _check_KKT(sglasso,
 
     active_results = np.zeros(len(sglasso._sorted_groupids), int)
     inactive_results = np.zeros(len(sglasso._sorted_groupids), float)
+    unpenalized_tol = tol * (sglasso.lasso_weights.mean() or 1.)
 
     for i, g in enumerate(sglasso._sorted_groupids):
         group = sglasso.groups == g
@@ -399,11 +400,16 @@ def _check_KKT(sglasso,
         l2weight_g = sglasso.weights[g]
         soln_g = solution[group]
 
+        unpenalized_g = (l1weight_g == 0) * (l2weight_g == 0)
+        if np.linalg.norm(subgrad_g[unpenalized_g]) > unpenalized_tol:
+            active_results[i] = UNPENALIZED
+        subgrad_g[unpenalized_g] = 0
+
         if terms[i] > 1.e-6 * norm_soln: # active group
             val_g, l1subgrad_g, l2subgrad_g = _gauge_function_dual_strong(subgrad_g, 
                                                                           l1weight_g,
                                                                           l2weight_g)
-            if val_g < lagrange * (1 - tol):
+            if np.fabs(val_g - lagrange) > tol * lagrange:
                 active_results[i] = ACTIVE_NORM
             nonz = soln_g != 0
 
@@ -419,8 +425,6 @@ def _check_KKT(sglasso,
         elif l1weight_g.sum() + sglasso.weights[g] > 0: # inactive penalized
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
-        else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sglasso.lasso_weights.mean()) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 997f9ef57f4bb56f2cb202645ed13d7421134a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 118/131] fix: sample weights of score were ignored without a
 case weight column and changed the data otherwise

---
 regreg/sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..15335d6 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -172,14 +172,16 @@ class base_mixin(object):
                                     # in regreg
         if sample_weight is not None:
             if case_weights is not None:
-                case_weights *= sample_weight
+                case_weights = case_weights * sample_weight
+            else:
+                case_weights = np.asarray(sample_weight)
         return self._saturated_score(predictions, response, case_weights=case_weights)
 
     def _construct_atom(self):
         return self.atom_constructor(**self.atom_params)
 
     def _loglike_factory(self, X, y):
-        raise NotImplementedErorr
+        raise NotImplementedError
 
     def _check_y_arg(self, y):
         """
-- 
2.43.0


From 87aad3e7e75d29a7af52e97618e28a77ed8ec390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 119/131] fix: response of a single case lost its shape

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 15335d6..196beea 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -215,7 +215,9 @@ class base_mixin(object):
                 offset = None
 
             if neg_index < 0:
-                response = np.squeeze(y[:,:neg_index])
+                response = y[:,:neg_index]
+                if response.shape[1] == 1:
+                    response = response[:,0]
 
         return response, case_weights, offset
 
-- 
2.43.0


From f90a96db1b03a2d27752bea501dee8e89f631cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 120/131] fix: quadratic given to an estimator was not used

---
 regreg/sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 196beea..e3d6425 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -124,7 +124,7 @@ class base_mixin(object):
         problem = simple_problem(loglike, atom_)
         if self.initial is not None:
             problem.coefs[:] = self.initial
-        self._coefs = problem.solve(**self.solve_args)
+        self._coefs = problem.solve(quadratic=self.quadratic, **self.solve_args)
         return self
 
     def predict(self, X):
-- 
2.43.0


From d61b2315acc352aefeaee1e8f6c0f05a0bbb5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 121/131] fix: accuracy of the logistic estimators compared
 linear predictors with labels

---
 regreg/sklearn/logistic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 617f155..a72fe3a 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -71,7 +71,7 @@ if have_sklearn:
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == response)
+                return np.average(labels == successes, weights=case_weights)
             else:
                 return np.nan
 
@@ -117,7 +117,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From 4f94f040321b6fd6768257998341a257e75e9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 122/131] fix: accuracy of the probit estimators compared
 linear predictors with labels

---
 regreg/sklearn/probit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index c5b1ba8..ef5ada3 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -72,7 +72,7 @@ if have_sklearn:
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == response)
+                return np.average(labels == successes, weights=case_weights)
             else:
                 return np.nan
 
@@ -118,7 +118,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From 986a9e91bf48f45b65f85bc9ff952e17553bcf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 123/131] fix: accuracy of the cloglog estimators compared
 linear predictors with labels, and labels disagreed with probabilities

---
 regreg/sklearn/cloglog.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 3ff4c35..d7b3eff 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -13,6 +13,9 @@ except ImportError:
 from ..smooth.glm import (glm, 
                           cloglog_loglike)
 
+# linear predictor at which the probability is 1/2
+MEDIAN = np.log(np.log(2))
+
 if have_sklearn:
     class sklearn_cloglog(sklearn_regression):
 
@@ -72,8 +75,8 @@ if have_sklearn:
                 SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
-                return np.mean(labels == response)
+                labels = predictions > MEDIAN
+                return np.average(labels == successes, weights=case_weights)
             else:
                 return np.nan
 
@@ -119,9 +122,29 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > MEDIAN
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
+        def predict(self, X):
+            """
+            Predict new labels in setting.
+
+            Parameters
+            ----------
+
+            X : np.ndarray((n, p))
+                Feature matrix.
+
+            Returns
+            -------
+
+            labels : np.ndarray(n)
+                Predictions from classification model.
+
+            """
+            return X.dot(self._coefs) > MEDIAN
+
         def predict_proba(self, X):
             """
             Predict new probabilities in classification setting.
-- 
2.43.0


From 584a100f8f1a206ac35e7702673dc4cf1837e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 124/131] fix: accuracy of the multinomial estimators compared
 linear predictors with counts, and probabilities did not sum to one

---
 regreg/sklearn/multinomial.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index fd19257..d4883b9 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -56,11 +56,11 @@ if have_sklearn:
                 SSE = 2 * loss(predictions)
                 pi_0 = np.mean(response, 0)
                 multinom_0 = np.log(pi_0)
-                SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
+                SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
-                return np.mean(labels == response)
+                labels = np.argmax(predictions, 1)
+                return np.average(labels == np.argmax(response, 1), weights=case_weights)
             else:
                 return np.nan
 
@@ -96,7 +96,8 @@ if have_sklearn:
             successes = response
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = np.argmax(predictions, 1)
+                return np.average(labels == np.argmax(successes, 1), weights=case_weights)
             return np.nan
 
         def predict(self, X):
@@ -137,8 +138,8 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / exp_lin.sum(1)
+            exp_lin = np.exp(linpred - linpred.max(1)[:,None])
+            return exp_lin / exp_lin.sum(1)[:,None]
 
     class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
         pass
-- 
2.43.0


From 28a5d3e6653f6dcf087e5107a311ca8f784db7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 125/131] fix: probabilities of the logistic classifier were
 nan at large linear predictors

---
 regreg/sklearn/logistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index a72fe3a..8c47160 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import expit
 
 have_sklearn = True
 try:
@@ -139,8 +140,7 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / (1 + exp_lin)
+            return expit(linpred)
 
     class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
         pass
-- 
2.43.0


From e3c6067d3fcdde9a5ae7566dce2b2edea9d04e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 126/131] fix: R2 scores of the Cox and cloglog estimators were
 not relative to their null models, and no estimator with trials had one

---
 regreg/sklearn/cloglog.py  | 10 +++++-----
 regreg/sklearn/cox.py      |  2 +-
 regreg/sklearn/logistic.py |  4 ++--
 regreg/sklearn/probit.py   |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index d7b3eff..edccf4b 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.stats import gumbel_r
+from scipy.stats import gumbel_l
 
 have_sklearn = True
 try:
@@ -67,12 +67,12 @@ if have_sklearn:
             if self.score_method == 'deviance':
                 return -2 * loss(predictions)
             elif self.score_method == 'mean_deviance':
-                return -2 * loss(predictions)
+                return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
-                cloglog_0 = gumbel_r.ppf(pi_0)
-                SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
+                cloglog_0 = gumbel_l.ppf(pi_0)
+                SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > MEDIAN
diff --git a/regreg/sklearn/cox.py b/regreg/sklearn/cox.py
index ccc1427..1306534 100644
--- a/regreg/sklearn/cox.py
+++ b/regreg/sklearn/cox.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
+                SST = 2 * loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
                 return 1 - SSE / SST
             elif self.score_method == 'C-index':
                 return np.nan
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 8c47160..15f99c1 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 logit_0 = np.log(pi_0 / (1 - pi_0))
-                SST = 2 * loss(logit_0 * np.ones_like(response)) # X: correct for logistic?
+                SST = 2 * loss(logit_0 * np.ones(successes.shape)) # X: correct for logistic?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index ef5ada3..9fde4a7 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean() if trials is None else successes.sum() / trials.sum()
                 probit_0 = normal_dbn.ppf(pi_0)
-                SST = 2 * loss(probit_0 * np.ones_like(response)) # X: correct for probit?
+                SST = 2 * loss(probit_0 * np.ones(successes.shape)) # X: correct for probit?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From fcb2ec2a81fc355995a07e4f38eb2163103e5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 127/131] fix: classifiers in Lagrange form did not give the
 gradient to the atom constructor

---
 regreg/sklearn/base.py        | 34 ++++++++++++++++++++++++----------
 regreg/sklearn/cloglog.py     |  2 +-
 regreg/sklearn/logistic.py    |  2 +-
 regreg/sklearn/multinomial.py |  2 +-
 regreg/sklearn/probit.py      |  2 +-
 5 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index e3d6425..f1a66b9 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -474,6 +474,8 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
                  enet_alpha=0.,
                  coef=1., 
                  score_method='accuracy',
+                 unpenalized=False,
+                 solve_args={},
                  initial=None):
 
         """
@@ -502,6 +504,15 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
             Which score to use as default `score`?
             One of ['accuracy']
 
+        unpenalized : bool
+            If any features are unpenalized,
+            the null solution with
+            `lagrange=np.inf` requires solving a 
+            problem. 
+
+        solve_args : dict
+            Keyword arguments passed to `simple_problem.solve`
+
         Notes
         -----
 
@@ -512,16 +523,19 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
 
         """
 
-        lagrange_mixin(self, 
-                       atom_constructor, 
-                       atom_params, 
-                       case_weights=case_weights,
-                       offset=offset,
-                       enet_alpha=enet_alpha,
-                       coef=coef, 
-                       score_method=score_method,
-                       initial=initial)
-                       
+        lagrange_mixin.__init__(self, 
+                                atom_constructor, 
+                                atom_params, 
+                                case_weights=case_weights,
+                                enet_alpha=enet_alpha,
+                                coef=coef, 
+                                score_method=score_method,
+                                unpenalized=unpenalized,
+                                solve_args=solve_args,
+                                initial=initial)
+
+    fit = lagrange_mixin.fit
+    _construct_atom = lagrange_mixin._construct_atom
 
 class survival_mixin(base_mixin):
     pass
diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index edccf4b..3e5efef 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -165,6 +165,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return 1 - np.exp(-np.exp(linpred))
 
-    class sklearn_cloglog_classifier_lagrange(sklearn_cloglog_classifier):
+    class sklearn_cloglog_classifier_lagrange(sklearn_classifier_lagrange, sklearn_cloglog_classifier):
         pass
 
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 15f99c1..4fc0e2e 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -142,6 +142,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return expit(linpred)
 
-    class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
+    class sklearn_logistic_classifier_lagrange(sklearn_classifier_lagrange, sklearn_logistic_classifier):
         pass
 
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index d4883b9..bb0b53f 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -141,6 +141,6 @@ if have_sklearn:
             exp_lin = np.exp(linpred - linpred.max(1)[:,None])
             return exp_lin / exp_lin.sum(1)[:,None]
 
-    class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
+    class sklearn_multinomial_classifier_lagrange(sklearn_classifier_lagrange, sklearn_multinomial_classifier):
         pass
 
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 9fde4a7..0a2e716 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -142,6 +142,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return normal_dbn.cdf(linpred)
 
-    class sklearn_probit_classifier_lagrange(sklearn_probit_classifier):
+    class sklearn_probit_classifier_lagrange(sklearn_classifier_lagrange, sklearn_probit_classifier):
         pass
 
-- 
2.43.0


From 9e6ccd577e4517ddeaead443beb85168e8726558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 128/131] fix: estimators with unpenalized features could not
 find their null solution

---
 regreg/sklearn/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index f1a66b9..00351a7 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -358,10 +358,11 @@ class lagrange_mixin(base_mixin):
         return self
 
     def _fit_null_soln(self, loglike, atom):
-        old_lagrange = atom.lagrange
-        atom.lagrange = np.inf
+        # np.inf would give nan at weights of 0
+        old_lagrange, atom.lagrange = atom.lagrange, 1.e20
         problem = simple_problem(loglike, atom)
-        null_soln = problem.solve()
+        null_soln = problem.solve(**self.solve_args)
+        atom.lagrange = old_lagrange
         null_grad = loglike.smooth_objective(null_soln, 'grad')
         return null_grad
 
-- 
2.43.0


From a782335b9146b4ef2f2b7616db36957fb2082a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 129/131] fix: batches of BASIL after the first left out
 features within the slack of the optimality check

---
 regreg/paths/basil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 746f49a..7c12200 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -139,7 +139,8 @@ def basil(path_obj,
                                                candidate_set=candidate_set,
                                                solve_args=solve_args)
             if len(solution_incr) > 0:
-                cur_data = (solution_incr[-1].T, last_grad)
+                # features are ranked by the initial gradient
+                cur_data = (solution_incr[-1].T, initial_data[1])
 
                 solutions.extend(solution_incr)
                 lagrange_solved.extend(lagrange_incr)
-- 
2.43.0


From a9f354e9d497a53200f2e8e0cf720a16fdec781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 130/131] fix: BASIL fitted none of the features its optimality
 check gives some slack

---
 regreg/paths/basil.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 7c12200..58adc83 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -52,8 +52,19 @@ def basil_inner_loop(path_obj,
     if candidate_set is not None:
         subproblem_set = sorted(set(subproblem_set + candidate_set))
 
+    lagrange_cur = lagrange_subseq[0]
+
     for lagrange in lagrange_subseq:
 
+        # those within the slack of the check at `lagrange` are in the strong set
+
+        strong_idx = path_obj.strong_set(lagrange_cur * path_obj.alpha,
+                                         lagrange * path_obj.alpha,
+                                         grad_solution)[1]
+        subproblem_set = sorted(set(list(subproblem_set) +
+                                    list(path_obj.updated_ever_active(strong_idx))))
+        lagrange_cur = lagrange
+
         (final_step, 
          subproblem_grad, 
          subproblem_soln,
@@ -139,8 +150,7 @@ def basil(path_obj,
                                                candidate_set=candidate_set,
                                                solve_args=solve_args)
             if len(solution_incr) > 0:
-                # features are ranked by the initial gradient
-                cur_data = (solution_incr[-1].T, initial_data[1])
+                cur_data = (solution_incr[-1].T, last_grad)
 
                 solutions.extend(solution_incr)
                 lagrange_solved.extend(lagrange_incr)
-- 
2.43.0


From d1bba8c30de7da442c68a5706db8a7d118afe5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 131/131] fix: l1 and supremum norms of matrices could not be
 projected on or thresholded

---
 regreg/atoms/seminorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 4f63147..e380869 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -649,7 +649,7 @@ class l1norm(seminorm):
         bound = seminorm.bound_prox(self, arg, bound)
         arg = np.asarray(arg, float)
         absarg = np.fabs(arg)
-        cut = find_solution_piecewise_linear_c(bound, 0, absarg)
+        cut = find_solution_piecewise_linear_c(bound, 0, absarg.ravel())
         if cut < np.inf:
             return np.sign(arg) * (absarg - cut) * (absarg > cut)
         return arg
@@ -715,7 +715,7 @@ class supnorm(seminorm):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         arg = np.asarray(arg, float)
         absarg = np.fabs(arg)
-        cut = find_solution_piecewise_linear_c(lagrange / lipschitz, 0, absarg)
+        cut = find_solution_piecewise_linear_c(lagrange / lipschitz, 0, absarg.ravel())
         if cut < np.inf:
             proj = np.sign(arg) * (absarg - cut) * (absarg > cut)
         else:
-- 
2.43.0

