From 06818b708438dc0a01e1e8e491bd561a437f5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:08 +0000
Subject: [PATCH 01/32] fix: time breakpoints start at the problem's initial
 time

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..d243d0b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 866d3b35b624c083bc7f68b09572d49afc6f0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:57 +0000
Subject: [PATCH 02/32] fix: put an explicitly given last control in the NLP
 parameter vector

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d243d0b..53f8ea3 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -385,6 +385,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From 9ce82bc0b29e9f9da9297f99e404f16d107e6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:07 +0000
Subject: [PATCH 03/32] fix: no last control means no rate constraint on the
 first element

---
 yaocptool/methods/base/solutionmethodsbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 53f8ea3..834c697 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -269,9 +269,11 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if self.last_control_as_parameter:
             p_last_u = MX.sym("mx_last_u", self.model.n_u)
         else:
-            p_last_u = MX()
+            p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0, p_last_u)
+        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        if p_last_u is not None:
+            all_mx = vertcat(all_mx, p_last_u)
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-- 
2.43.0


From f6f8bff86c7b69305ce4b8cb8dd4a57167a98de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:17 +0000
Subject: [PATCH 04/32] fix: do not write solver defaults into the caller's
 nlpsol_opts

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 834c697..9d4f5a8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From 30576d1c0acb5ab78d4ba988a9b43ecf4ed83c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:03 +0000
Subject: [PATCH 05/32] fix: declare exactly the NLP parameters the solver call
 provides

---
 yaocptool/methods/base/solutionmethodsbase.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 9d4f5a8..fa0a5a3 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -252,7 +252,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
@@ -263,7 +263,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = None
 
         # last control MX
         if self.last_control_as_parameter:
@@ -271,7 +274,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
         else:
             p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0)
+        all_mx = vertcat(p_mx, vec(theta_mx))
+        if p_mx_x_0 is not None:
+            all_mx = vertcat(all_mx, p_mx_x_0)
         if p_last_u is not None:
             all_mx = vertcat(all_mx, p_last_u)
 
-- 
2.43.0


From 1d6151252a23de068403c5956e2795d6c76ad9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:41 +0000
Subject: [PATCH 06/32] fix: degree-1 collocation keeps the element's initial
 point

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index fa0a5a3..12ab6af 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From 81f0d81525d6835489703939e4a3af7b9751988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:20 +0000
Subject: [PATCH 07/32] fix: solving does not overwrite the caller's p and
 theta

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 12ab6af..8182004 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -492,8 +492,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From 4b2a33aab9324a16f7e615c8dfa238ad52c91baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:53 +0000
Subject: [PATCH 08/32] fix: recognise strict inequalities as inequalities

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From 49b66d46e27dc9a7d8294c5e828d6119a8380f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:01 +0000
Subject: [PATCH 09/32] fix: removing vector entries by index honours the
 bounds check and negative indices

---
 yaocptool/util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..74c017d 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -120,6 +120,7 @@ def remove_variables_from_vector_by_indices(
                     min(indices), indices
                 )
             )
+        indices = [ind if ind >= 0 else ind + numel for ind in indices]
 
     remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
     vector = vector[remaining_ind]
-- 
2.43.0


From bf0a698266baaeba1537a51fdf0d7d425c540b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:09 +0000
Subject: [PATCH 10/32] fix: list bounds of an included state are values, not
 matrix dimensions

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..ed2d06d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From 82ada5fa79ec69e26d2240a043b2970c76ac59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:19 +0000
Subject: [PATCH 11/32] fix: create_quadratic_cost leaves the caller's dict
 untouched

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ed2d06d..eb9f04d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -781,6 +781,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 8e7e04124bba85b5e1c99a37aac680d6d9911bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:28 +0000
Subject: [PATCH 12/32] fix: OCP simulation covers the whole horizon from the
 given t_0

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index eb9f04d..0dc4c9d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1048,14 +1048,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * t for t in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 94c4ed34075de4a504dcc30763ca5b31d8c36963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:50 +0000
Subject: [PATCH 13/32] fix: connecting a control keeps the algebraic guess
 aligned when there is no control guess

---
 yaocptool/modelling/ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 0dc4c9d..0a5866a 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1006,8 +1006,11 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                y_guess = DM.zeros(u.numel())
+                if self.u_guess is not None:
+                    y_guess = self.u_guess[ind_u]
+                self.y_guess = vertcat(self.y_guess, y_guess)
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 58421feb37095440758ece5f0824c0b943233564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:00 +0000
Subject: [PATCH 14/32] fix: keep the guess given with the first algebraic
 variable

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 0a5866a..f94ff77 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -380,6 +380,8 @@ class OptimalControlProblem(object):
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and self.model.n_y == 0:
+            self.y_guess = vertcat(y_guess)
 
         self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
-- 
2.43.0


From bc3a975950b357904520b06cffeda5ba3ee7f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:58 +0000
Subject: [PATCH 15/32] fix: ODE entries that are structural zeros keep their
 state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..a8429dc 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -146,7 +146,7 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From fc1a5142fb789abd74d2300c07dc1c98d7f07d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:06 +0000
Subject: [PATCH 16/32] fix: removing a state removes its initial condition
 symbol

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index a8429dc..58f9a1e 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -72,6 +76,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        self.x_0 = remove_variables_from_vector_by_indices(
+            find_variables_indices_in_vector(var, self.x), self.x_0
+        )
         self.x = remove_variables_from_vector(var, self.x)
 
         for x_i in var.nz:
-- 
2.43.0


From 1bbddffd09ba2b06559519eeb35c5f4202af749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:15 +0000
Subject: [PATCH 17/32] fix: a rejected duplicate state leaves the model
 unchanged

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 58f9a1e..9a4a800 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -60,6 +60,10 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -68,8 +72,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
-- 
2.43.0


From 5222fa265a69a0866cb5b1b2f724d5d3016483fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:24 +0000
Subject: [PATCH 18/32] fix: include_system_equations accepts only algebraic
 equations

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 9a4a800..8b0a9de 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -119,7 +119,7 @@ class ContinuousStateMixin(BaseMixin):
         if len(args) > 0:
             self._include_equation_from_diff_equations(*args)
 
-        if "ode" not in kwargs:
+        if kwargs.get("ode") is None:
             return
         ode = kwargs["ode"]
         x = kwargs.pop("x", None)
-- 
2.43.0


From 206f5bc134a890bae82e41b01bddc98df8f66123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 19/32] fix: including a model keeps its control
 parametrization

---
 yaocptool/modelling/system_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..f9f8168 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,7 +378,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From 80d24383030b94f26eccc8aff06b06f05b4e4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:11 +0000
Subject: [PATCH 20/32] fix: find_equilibrium solves for the controls

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index f9f8168..7f88b24 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -751,7 +751,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 5c6f6e268c6896a8e7d4dbea04380930ff6874d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:19 +0000
Subject: [PATCH 21/32] fix: linearize builds a model with the original
 dimensions

---
 yaocptool/modelling/system_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 7f88b24..6a47f5c 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -708,7 +708,9 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel()
+        linear_model.create_state("x", self.n_x)
+        linear_model.create_control("u", self.n_u)
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-- 
2.43.0


From 724a579cbe6aaca17c180c3c6fb3a7830f310f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:36 +0000
Subject: [PATCH 22/32] fix: a deep copy refers only to its own variables

---
 yaocptool/modelling/system_model.py | 43 ++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 6a47f5c..6ee6f09 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -490,9 +490,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
@@ -532,21 +530,40 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             )
 
         if self.n_u_par > 0:
+            # controls that are not parametrized are their own parameters
             u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
+                *[
+                    u_copy[find_variables_indices_in_vector(u_par_i, self.u)]
+                    if find_variables_indices_in_vector(u_par_i, self.u)
+                    else SX.sym(u_par_i.name())
+                    for u_par_i in self.u_par.nz
+                ]
             )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
-        model_copy.u_expr = self.u_expr
+        has_ode = [i for i, eq in enumerate(self._ode.values()) if eq is not None]
+        model_copy.include_equations(ode=self.ode, x=x_copy[has_ode], alg=self.alg)
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
+        model_copy.u_par = u_par_copy
+        model_copy.u_expr = self.u_expr
+        model_copy._parametrized_controls = [
+            u_copy[find_variables_indices_in_vector(u_i, self.u)]
+            for u_i in self._parametrized_controls
+        ]
 
+        for original, replacement in [
+            (self.x, x_copy),
+            (self.y, y_copy),
+            (self.u, u_copy),
+            (self.p, p_copy),
+            (self.theta, theta_copy),
+            (self.u_par, u_par_copy),
+            (self.t, model_copy.t),
+            (self.tau, model_copy.tau),
+        ]:
+            if original.numel() > 0:
+                model_copy.replace_variable(original, replacement)
+
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From 6ddbb89f7f2733fa8653f39c9b82773fdfcc535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 23/32] fix: merging problems unifies the time variables in
 costs and constraints

---
 yaocptool/modelling/ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index f94ff77..8034738 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -902,6 +902,10 @@ class OptimalControlProblem(object):
             # Merge models
             self.model.merge([problem.model])
 
+            # replace the merged problem time variables with this problem's
+            self.replace_variable(problem.model.t, self.model.t)
+            self.replace_variable(problem.model.tau, self.model.tau)
+
     def set_parameter_as_optimization_parameter(
         self,
         new_p_opt: SX,
-- 
2.43.0


From 52c411c9b61b83dbbe4333f15014826f4c6968f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:35 +0000
Subject: [PATCH 24/32] fix: a problem's solver options do not alias the global
 configuration

---
 yaocptool/optimization/nonlinear_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From 48a36fe199fdbe2e5fa3f2130ffe992ac2cd9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:42 +0000
Subject: [PATCH 25/32] fix: changing a problem after a solve rebuilds its
 solver

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..9df99fc 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -170,6 +170,7 @@ class AbstractOptimizationProblem(object):
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
+        self._solver = None
 
     def create_parameter(self, name: str, size: int = 1) -> MX:
         """
@@ -191,6 +192,7 @@ class AbstractOptimizationProblem(object):
         :param MX|SX par: parameter to be included
         """
         self.p = vertcat(self.p, par)
+        self._solver = None
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
         """
@@ -209,6 +211,7 @@ class AbstractOptimizationProblem(object):
                 "Given objective has shape = {}".format(expr.shape)
             )
         self.f = expr
+        self._solver = None
 
     def include_inequality(
         self,
@@ -286,6 +289,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
+        self._solver = None
 
     def include_equality(self, expr: MX, rhs: Optional[Union[DM, float]] = None):
         """Include a equality with the following form
@@ -328,6 +332,7 @@ class AbstractOptimizationProblem(object):
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
+        self._solver = None
 
     def include_constraint(self, expr: MX):
         """Includes an inequality or inequality to the optimization problem,
-- 
2.43.0


From 90996e9cc23f555dd1e0d920bf7e4b12854f72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:40 +0000
Subject: [PATCH 26/32] fix: relax the time equalities selected from the
 problem, not from the algebraic equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..5d1efcf 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From a7a1934bdaeba672cba3b3001ab63be119aab05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:47 +0000
Subject: [PATCH 27/32] fix: a relaxed algebraic variable keeps its own guess

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5d1efcf..9baeee0 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,7 +312,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 5cec99d7336c8d662a9946ff8660d5f980054a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:53 +0000
Subject: [PATCH 28/32] fix: multipliers follow the order in which the relaxed
 residuals are evaluated

---
 yaocptool/methods/augmented_lagrangian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 9baeee0..adca41b 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,12 +214,12 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
-            self._relax_time_equalities()
-
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if self.problem.g_eq[self.relax_time_equality_index].numel() > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From 3987d37175c9d742a85ab1ee555430a9b4995bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:25 +0000
Subject: [PATCH 29/32] fix: the multiplier parametrization uses the solver's
 degree and number of elements

---
 yaocptool/methods/augmented_lagrangian.py | 44 +++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index adca41b..b7a38b6 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -165,6 +165,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             if isinstance(options, dict)
             else options
         )
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         #  LOGGER.setLevel(
         #      {0: logging.WARNING, 1: logging.INFO, 2: logging.DEBUG}[
         #          self.options.verbose
@@ -236,28 +258,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From d28c4adbc2cac9e3f26e5a2bc7f8155d8404c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:31 +0000
Subject: [PATCH 30/32] fix: the augmented Lagrangian leaves the caller's
 solver_options untouched

---
 yaocptool/methods/augmented_lagrangian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index b7a38b6..39ab507 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options) if solver_options is not None else {}
         if options is None:
             options = {}
 
-- 
2.43.0


From c2496e9b9902a856003bf42a18c744ebed0275ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:38 +0000
Subject: [PATCH 31/32] fix: an improved residual updates its multiplier at
 every collocation point

---
 yaocptool/methods/augmented_lagrangian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 39ab507..e3581a8 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -782,7 +782,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
+                                    ind :: self.n_relax
+                                ]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From a47585fd60b4bd1fc4c719396ee80d87731d02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:46 +0000
Subject: [PATCH 32/32] fix: degree and finite_elements given to the augmented
 Lagrangian are used

---
 yaocptool/methods/augmented_lagrangian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index e3581a8..ed3f0b8 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -183,6 +183,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 )
             elif attr in solver_options:
                 setattr(self.options, attr, solver_options[attr])
+            elif attr in kwargs:
+                setattr(self.options, attr, kwargs[attr])
+                solver_options[attr] = kwargs[attr]
             else:
                 solver_options[attr] = getattr(self.options, attr)
 
-- 
2.43.0

