From 66ecf593d845aea8233574e77e39b03806eed68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:25 +0000
Subject: [PATCH 01/96] fix: leave the model unchanged when include_state
 refuses a duplicated state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..5352232 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -56,6 +56,10 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -64,8 +68,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
-- 
2.43.0


From 5acb9b2ba66b5c2116295185740eef804495fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:25 +0000
Subject: [PATCH 02/96] fix: remove_state also removes the initial condition
 symbol of the state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 5352232..dbf4a9f 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -74,6 +78,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        self.x_0 = remove_variables_from_vector_by_indices(
+            find_variables_indices_in_vector(var, self.x), self.x_0
+        )
         self.x = remove_variables_from_vector(var, self.x)
 
         for x_i in var.nz:
-- 
2.43.0


From 39943bae4a48a2cbb1ec1f7d0b8d058514297c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 03/96] fix: parametrize_control registers nothing when one of
 the controls is refused

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..a97bb65 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -95,8 +95,8 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
-- 
2.43.0


From 98ecb206d630e307d673e8d6134e3cce1bb078bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 04/96] fix: get_deepcopy works for any model and maps every
 variable to the copy's own symbols

---
 yaocptool/modelling/system_model.py | 107 ++++++++++++++--------------
 1 file changed, 55 insertions(+), 52 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..2b1a140 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -485,62 +485,65 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
+        # the names of the variables already include the prefix (if any)
+        model_copy = SystemModel(name=self.name)
+        for name in self.x_names:
+            model_copy.create_state(name)
+        for name in self.y_names:
+            model_copy.create_algebraic_variable(name)
+        for name in self.u_names:
+            model_copy.create_control(name)
+        for name in self.p_names:
+            model_copy.create_parameter(name)
+        for name in self.theta_names:
+            model_copy.create_theta(name)
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
+
+        # control parameters that are not controls need a new symbol
+        u_par_only = vertcat(
+            SX(0, 1),
+            *[
+                par
+                for par in self.u_par.nz
+                if not find_variables_indices_in_vector(par, self.u)
+            ],
+        )
+        u_par_only_copy = vertcat(
+            SX(0, 1), *[SX.sym(par.name()) for par in u_par_only.nz]
         )
-        x_copy = SX(0, 1)
-        y_copy = SX(0, 1)
-        u_copy = SX(0, 1)
-        p_copy = SX(0, 1)
-        theta_copy = SX(0, 1)
-        u_par_copy = SX(0, 1)
-
-        if self.n_x > 0:
-            x_copy = vertcat(
-                *[model_copy.create_state(self.x[i].name()) for i in range(self.n_x)]
-            )
-        if self.n_y > 0:
-            y_copy = vertcat(
-                *[
-                    model_copy.create_algebraic_variable(self.y[i].name())
-                    for i in range(self.n_y)
-                ]
-            )
-        if self.n_u > 0:
-            u_copy = vertcat(
-                *[model_copy.create_control(self.u[i].name()) for i in range(self.n_u)]
-            )
-
-        if self.n_p > 0:
-            p_copy = vertcat(
-                *[
-                    model_copy.create_parameter(self.p[i].name())
-                    for i in range(self.n_p)
-                ]
-            )
-        if self.n_theta > 0:
-            theta_copy = vertcat(
-                *[
-                    model_copy.create_theta(self.theta[i].name())
-                    for i in range(self.n_theta)
-                ]
-            )
 
-        if self.n_u_par > 0:
-            u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
-            )
+        original = vertcat(
+            self.t,
+            self.tau,
+            self.x,
+            self.x_0,
+            self.y,
+            self.u,
+            self.p,
+            self.theta,
+            u_par_only,
+        )
+        replacement = vertcat(
+            model_copy.t,
+            model_copy.tau,
+            model_copy.x,
+            model_copy.x_0,
+            model_copy.y,
+            model_copy.u,
+            model_copy.p,
+            model_copy.theta,
+            u_par_only_copy,
+        )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        model_copy._ode = dict(zip(model_copy.x.nz, self._ode.values()))
+        model_copy.alg = self.alg
         model_copy.u_expr = self.u_expr
-
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
-        model_copy.replace_variable(self.u_par, u_par_copy)
+        model_copy.u_par = substitute(self.u_par, original, replacement)
+        model_copy._parametrized_controls = [
+            substitute(u_i, original, replacement)
+            for u_i in self._parametrized_controls
+        ]
+        model_copy.replace_variable(original, replacement)
 
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
-- 
2.43.0


From e7f30cee4c1e057495c2547a62cf76df10750d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 05/96] fix: include_models keeps the control parametrization
 of the included models

---
 yaocptool/modelling/system_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 2b1a140..232954f 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,7 +378,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From ddd6f8864641c8e8d6cd34dd733b06eaca3e3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 06/96] fix: linearize creates the states and controls of the
 linear model

---
 yaocptool/modelling/system_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 232954f..be9b575 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -711,11 +711,14 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel(name="linearized_" + self.name)
+        for name in self.x_names:
+            linear_model.create_state(name)
+        for name in self.u_names:
+            linear_model.create_control(name)
         linear_model.include_equations(
             ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
         )
-        linear_model.name = "linearized_" + self.name
 
         return linear_model
 
-- 
2.43.0


From 43db32820560d76089071b57cfd6dc648ddae351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 07/96] fix: find_equilibrium solves for the controls

---
 yaocptool/modelling/system_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index be9b575..1a57c02 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -757,7 +757,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function("f_equilibrium", [vertcat(self.x, self.y, self.u)], [eqs])
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 5c46779e50857054f0852b9f717a74a0f73801f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 08/96] fix: is_inequality recognises strict inequalities

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From b6e80da17bf9cbb5b6aba30105ca6f8407ea2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 09/96] fix: remove_variables_from_vector_by_indices rejects
 index n and honours negative indices

---
 yaocptool/util/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..28314b3 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -121,6 +121,9 @@ def remove_variables_from_vector_by_indices(
                 )
             )
 
+        # negative indices count from the end of the vector
+        indices = [ind + numel if ind < 0 else ind for ind in indices]
+
     remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
     vector = vector[remaining_ind]
 
-- 
2.43.0


From 99edd4ae0e8d2f794e39c1cc000c8421d4f6ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 10/96] fix: join_thetas rejects thetas with different keys

---
 yaocptool/util/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 28314b3..9841961 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -182,6 +182,12 @@ def join_thetas(*args: Optional[Dict[int, DM]]) -> Dict[int, DM]:
             all_keys.extend(theta.keys())
 
     all_keys = list(set(all_keys))
+    if len(all_keys) != n_keys:
+        raise ValueError(
+            "Only thetas with the same keys are accepted, given: {}".format(
+                [list(th.keys()) if th is not None else None for th in args]
+            )
+        )
 
     for i in all_keys:
         new_theta[i] = vertcat(
-- 
2.43.0


From 3975c25bd8b80eb1083b329aee29d0543c44ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 11/96] fix: insert_data sets the size of the entry it was
 given

---
 yaocptool/modelling/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..a182274 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -151,7 +151,7 @@ class DataSet:
         self.data[entry].time = horzcat(self.data[entry].time, time)
 
         if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+            self.data[entry].size = value.size1()
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From f9d329c170b71f37ca0c1974571c2c0288de9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 12/96] fix: DataSet.extend accepts entries that only the other
 dataset has

---
 yaocptool/modelling/dataset.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index a182274..6622d91 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -174,6 +174,13 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
+            if entry not in self.data:
+                self.create_entry(
+                    entry,
+                    size=other_dataset.get_entry_size(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
+                    plot_style=other_dataset.data[entry].plot_style,
+                )
             if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
@@ -181,12 +188,6 @@ class DataSet:
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
-            if entry not in self.data:
-                self.create_entry(
-                    entry,
-                    size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
-                )
             self.insert_data(
                 entry,
                 time=other_dataset.data[entry].time,
-- 
2.43.0


From 6350c7fbb765cba6a3632f78239c103b6cb9d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 13/96] fix: DataSet.sort skips entries without data

---
 yaocptool/modelling/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 6622d91..7ebbc02 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -208,6 +208,8 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From ed74854d9e72f248211aebd734f19b43377c5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 14/96] fix: DataSet.plot draws on the given figures and does
 not modify its arguments

---
 yaocptool/modelling/dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 7ebbc02..cfa3bc5 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -303,8 +303,8 @@ class DataSet:
         # for each plot asked
         for k, entry_dict in enumerate(plot_list):
             fig = (
-                figures[k]
-                if figures is not None and len(figures) < k
+                plt.figure(figures[k].number)
+                if figures is not None and k < len(figures)
                 else plt.figure(k)
             )
             used_figures.append(fig)
@@ -320,7 +320,9 @@ class DataSet:
                 indexes_or_names = entry_dict[entry]
                 # if it is 'all'
                 if isinstance(indexes_or_names, str):
-                    indexes_or_names = list(range(self.data[entry].size))
+                    indexes_or_names = range(self.data[entry].size)
+                # do not change the list that was passed
+                indexes_or_names = list(indexes_or_names)
 
                 var_names = self.get_entry_names(entry)
                 only_indices = [ind for ind in indexes_or_names if isinstance(ind, int)]
-- 
2.43.0


From 0c1643d4ccd3d2c13efe097bb0c6a94d16a9cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 15/96] fix: SimulationResult keeps the given finite_elements
 and delta_t

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 917e8c24c9d220a3979f0d1d3aeee5fc02c3c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 16/96] fix: OptimalControlProblem.simulate honours t_0 and
 simulates all finite elements

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..152a044 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1047,14 +1047,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * t for t in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 89099893b3475daac7bb56209a335dfd943c8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 17/96] fix: OptimalControlProblem.include_state accepts bounds
 given as lists

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 152a044..80a961c 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From 07e2de4e7b1e647e2d0a3cad004c1cbfdaf00a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 18/96] fix: include_algebraic keeps the guess of the first
 algebraic variable

---
 yaocptool/modelling/ocp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 80a961c..cbd33c1 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -375,11 +375,24 @@ class OptimalControlProblem(object):
                 )
             )
 
+        if isinstance(y_guess, list):
+            y_guess = vertcat(*y_guess)
+        if y_guess is not None:
+            y_guess = vertcat(y_guess)
+            if var.numel() != y_guess.numel():
+                raise ValueError(
+                    "Given 'var' and 'y_guess' does not have the same size, {}!={}".format(
+                        var.numel(), y_guess.numel()
+                    )
+                )
+
         if self.y_guess is not None:
             if y_guess is None:
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and self.model.n_y == 0:
+            self.y_guess = y_guess
 
         self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
-- 
2.43.0


From 5b105a08e3d26d8474f546e3bc0b63b8a12e101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 19/96] fix: connect keeps y_guess aligned with the algebraic
 variables

---
 yaocptool/modelling/ocp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index cbd33c1..064a0c4 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1018,8 +1018,13 @@ class OptimalControlProblem(object):
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                self.y_guess = vertcat(
+                    self.y_guess,
+                    self.u_guess[ind_u]
+                    if self.u_guess is not None
+                    else DM.zeros(len(ind_u)),
+                )
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From a2067992d32ad52f8494c853ba98516c21d9d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 20/96] fix: connect(replace=True) also replaces the control in
 the costs and constraints

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 064a0c4..37d96a2 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1015,6 +1015,8 @@ class OptimalControlProblem(object):
 
         ind_u = find_variables_indices_in_vector(u, self.model.u)
 
+        if replace:
+            self.replace_variable(u, y)
         self.model.connect(u, y, replace=replace)
 
         if not replace:
-- 
2.43.0


From b148dd21767cb9074077dd6f8e22381ad4094ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 21/96] fix: OptimalControlProblem.merge rewrites costs and
 constraints in its own time variables

---
 yaocptool/modelling/ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 37d96a2..059913d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -912,6 +912,12 @@ class OptimalControlProblem(object):
             # Merge models
             self.model.merge([problem.model])
 
+            # use the time variables of this problem
+            self.replace_variable(
+                vertcat(problem.model.t, problem.model.tau),
+                vertcat(self.model.t, self.model.tau),
+            )
+
     def set_parameter_as_optimization_parameter(
         self,
         new_p_opt: SX,
-- 
2.43.0


From 6b6db350e8b00b6d15746ab2eafe26055a9336bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 22/96] fix: include_system_equations accepts only ode or only
 alg

---
 yaocptool/modelling/ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 059913d..ae76f52 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -286,7 +286,10 @@ class OptimalControlProblem(object):
         )
 
     def include_system_equations(self, ode=None, alg=None):
-        self.model.include_equations(ode=ode, alg=alg)
+        equations = {"ode": ode, "alg": alg}
+        self.model.include_equations(
+            **{key: eq for key, eq in equations.items() if eq is not None}
+        )
 
     def include_state(
         self,
-- 
2.43.0


From 5122d0cafb386c445fecdabbd844e2ba4f01e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:33 +0000
Subject: [PATCH 23/96] fix: removing or connecting a control keeps last_u
 aligned with the controls

---
 yaocptool/modelling/ocp.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ae76f52..e90e313 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -630,6 +630,11 @@ class OptimalControlProblem(object):
                 to_remove, self.u_guess
             )
 
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                to_remove, vertcat(self.last_u)
+            )
+
         self.model.remove_control(var)
 
     def replace_variable(
@@ -1046,6 +1051,11 @@ class OptimalControlProblem(object):
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
 
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                ind_u, vertcat(self.last_u)
+            )
+
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
         )
-- 
2.43.0


From 642562217e3b7e560dd5c75dbf006dce8cad5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 24/96] fix: include_variable accepts integer scalars as bounds

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..1655af4 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -132,9 +132,9 @@ class AbstractOptimizationProblem(object):
             upper bound, a vector of ub  with size of the given variable will be used as a upper bound.
             (default = [inf]*size)
         """
-        if isinstance(lb, float):
+        if isinstance(lb, (float, int)):
             lb = vertcat(lb)
-        if isinstance(ub, float):
+        if isinstance(ub, (float, int)):
             ub = vertcat(ub)
 
         if lb.numel() == 1 and variable.numel() > 1:
-- 
2.43.0


From ad31bc29c9527996eabe76badc7b9aa640aa5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:56 +0000
Subject: [PATCH 25/96] fix: include_constraint reads 'x <= c' as an upper
 bound for every constant c

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 1655af4..f24992e 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -372,7 +372,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if not depends_on(expr.dep(1), vertcat(self.x, self.p)):
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 0a09d906083d2b51ba0c50a651ceb5e6d3e98945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:32 +0000
Subject: [PATCH 26/96] fix: solve the current problem when it was modified
 after a previous solve

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index f24992e..d75f9d8 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -167,6 +167,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None  # the problem changes
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
@@ -190,6 +191,7 @@ class AbstractOptimizationProblem(object):
 
         :param MX|SX par: parameter to be included
         """
+        self._solver = None  # the problem changes
         self.p = vertcat(self.p, par)
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
@@ -208,6 +210,7 @@ class AbstractOptimizationProblem(object):
                 "Objective function should be an scalar. "
                 "Given objective has shape = {}".format(expr.shape)
             )
+        self._solver = None  # the problem changes
         self.f = expr
 
     def include_inequality(
@@ -283,6 +286,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None  # the problem changes
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
@@ -325,6 +329,7 @@ class AbstractOptimizationProblem(object):
                 "RHS = {}".format(rhs)
             )
 
+        self._solver = None  # the problem changes
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
-- 
2.43.0


From 0e0a5dceeff9c34980b36947b506d8b875e067bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:32 +0000
Subject: [PATCH 27/96] fix: collocation with degree 1 interpolates the states
 instead of crashing

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..ca1357a 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -164,7 +164,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From 32c973be0ab88514d2071089b525f17513875fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:32 +0000
Subject: [PATCH 28/96] fix: time breakpoints start at the problem initial time
 t_0

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index ca1357a..d470ea8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From cffee1f5cfaa32196fe4e266f99a5dae47a2e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:32 +0000
Subject: [PATCH 29/96] fix: a last_u given to solve() reaches the NLP
 parameters

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d470ea8..0039c7b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -385,6 +385,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From aee993b9398d310e37f3b66fdb3d7fbbf34a5d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:32 +0000
Subject: [PATCH 30/96] fix: rate bounds without a last control start at the
 second element

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 0039c7b..def0306 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -275,7 +275,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-            p=p_mx, x_0=p_mx_x_0, theta=theta, last_u=p_last_u
+            p=p_mx,
+            x_0=p_mx_x_0,
+            theta=theta,
+            last_u=p_last_u if self.last_control_as_parameter else None,
         )
 
         if has_parameters:
-- 
2.43.0


From 018de540a0a2578b89d619cc7c119191d270b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:49 +0000
Subject: [PATCH 31/96] fix: initial_condition_as_parameter=False builds a
 consistent NLP

---
 yaocptool/methods/base/solutionmethodsbase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index def0306..8149ca8 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -252,7 +252,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         has_parameters = (
             self.model.n_p + self.model.n_theta > 0
             or self.initial_condition_as_parameter
-            or self.problem.last_u is not None
+            or self.last_control_as_parameter
         )
 
         # parameters MX
@@ -263,7 +263,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = MX()
 
         # last control MX
         if self.last_control_as_parameter:
@@ -276,7 +279,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
             p=p_mx,
-            x_0=p_mx_x_0,
+            x_0=p_mx_x_0 if self.initial_condition_as_parameter else None,
             theta=theta,
             last_u=p_last_u if self.last_control_as_parameter else None,
         )
-- 
2.43.0


From 0dac180a718122614ef10177907d2b4fefafb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:49 +0000
Subject: [PATCH 32/96] fix: solver options are not shared between solution
 methods

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 8149ca8..3dab8d7 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From c0f83772b813e54a0480c1d3c9b2a532dbbb3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:49 +0000
Subject: [PATCH 33/96] fix: solve() does not write the optimised parameters
 into its arguments

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 3dab8d7..fc4fe88 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -491,8 +491,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From c00d706ef491dd1504f6fe9fe5e129f9c0b4dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:49 +0000
Subject: [PATCH 34/96] fix: cost_as_a_sum keeps the final cost V

---
 yaocptool/methods/classic/multipleshooting.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index e6eddda..2716a00 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -273,11 +273,10 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
         nlp.include_equality(f_h(p))
 
         if self.solution_method.solution_class == "direct":
-            if not self.solution_method.cost_as_a_sum:
-                f_final_cost = Function(
-                    "FinalCost", [self.model.x, self.model.p], [self.problem.V]
-                )
-                cost = f_final_cost(x_var[-1][0], p)
+            f_final_cost = Function(
+                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
+            )
+            cost += f_final_cost(x_var[-1][0], p)
             cost += s_cost
         nlp.set_objective(cost)
 
-- 
2.43.0


From ee272e3bced7ea618268f089b04616371e06e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 35/96] fix: relaxing time equalities does not depend on the
 number of algebraic equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..5b54262 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if len(self.relax_time_equality_index) > 0:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From 5f1e83678b58214f43946b6349505493d211f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 36/96] fix: relaxed algebraic variables keep their own guess

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 5b54262..6f17e93 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -312,7 +312,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 0da91906ad8b068fe894c6238b0bc6944d0806b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 37/96] fix: degree and finite_elements given as solver options
 apply to the multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6f17e93..2d7371d 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options or {})
         if options is None:
             options = {}
 
@@ -165,6 +164,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             if isinstance(options, dict)
             else options
         )
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         #  LOGGER.setLevel(
         #      {0: logging.WARNING, 1: logging.INFO, 2: logging.DEBUG}[
         #          self.options.verbose
@@ -236,28 +257,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 6ae6a0fbbda520f268acbc4760ec1058c7935678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 38/96] fix: multipliers of relaxed state bounds and time
 equalities are updated with their own violation

---
 yaocptool/methods/augmented_lagrangian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 2d7371d..7bc5986 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -235,12 +235,12 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if len(self.relax_time_equality_index) > 0:
-            self._relax_time_equalities()
-
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if len(self.relax_time_equality_index) > 0:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From af9c9be3eca13cb8f9c5ac87409a8c1f250fff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 39/96] fix: only_update_if_improve updates the multiplier at
 every collocation point

---
 yaocptool/methods/augmented_lagrangian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 7bc5986..7023408 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -782,7 +782,9 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                         if (error - last_error) < 0:
                             self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                                self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
+                                    ind :: self.n_relax
+                                ]
                         else:
                             LOGGER.info("Error is greater than zero")
                 else:
-- 
2.43.0


From 99e93322ee240396f7006d520bd65998a08eeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:57 +0000
Subject: [PATCH 40/96] fix: only_update_if_improve neither rewrites the used
 multipliers nor the previous error

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 7023408..8d785ef 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -776,11 +776,11 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     and any((errors > 0).nz)
                     and self.last_violation_error is not None
                 ):
+                    self.nu_tilde = {el: DM(nu) for el, nu in self.nu_tilde.items()}
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
                         if (error - last_error) < 0:
-                            self.last_violation_error[ind] = error
                             for el in self.nu_tilde:
                                 self.nu_tilde[el][ind :: self.n_relax] = nu_tilde[el][
                                     ind :: self.n_relax
-- 
2.43.0


From e550f0af5bf3e96b809c6a8c41918a5dc22e2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:52 +0000
Subject: [PATCH 41/96] fix: automatic node ids do not repeat ids given by the
 user

---
 yaocptool/modelling/network/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..9ba066b 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -127,8 +127,11 @@ class Network:
             nodes = [nodes]
 
         # if node does not have an id
+        used_ids = {node.node_id for node in [*self.nodes, *nodes]}
         for node in nodes:
             if node.node_id is None:
+                while self._nodes_id_counter in used_ids:
+                    self._nodes_id_counter += 1
                 self._set_node_an_id(node)
 
         self.graph.add_nodes_from(nodes)
-- 
2.43.0


From 0e9ee0e70a52e7e22ef090aaec794b11d5d5f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:52 +0000
Subject: [PATCH 42/96] fix: inserting intermediary nodes keeps the nodes
 without connections

---
 yaocptool/modelling/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 9ba066b..103e358 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -277,7 +277,7 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
-        self.graph = networkx.DiGraph()
+        self.graph.remove_edges_from(list(old_connections))
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From b219b2314614e667f0f79d75cfe57c2210e6e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:52 +0000
Subject: [PATCH 43/96] fix: intermediary problems start at the network's t_0

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 103e358..6ad5b67 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -301,6 +301,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From 9a793ce3e22eca9d45d0a3ea069bcddf044515f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:52 +0000
Subject: [PATCH 44/96] fix: networks of models accept intermediary nodes

---
 yaocptool/modelling/network/network.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 6ad5b67..7d7e981 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -298,12 +298,14 @@ class Network:
 
         new_model.include_equations(alg=[dummy_u - dummy_y])
 
-        new_problem = OptimalControlProblem(
-            name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
-            model=new_model,
-            t_0=node1.problem.t_0,
-            t_f=node1.problem.t_f,
-        )
+        new_problem = None
+        if node1.problem is not None:
+            new_problem = OptimalControlProblem(
+                name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
+                model=new_model,
+                t_0=node1.problem.t_0,
+                t_f=node1.problem.t_f,
+            )
 
         new_node = self.create_node(
             name="Dummy_node_{}_to_{}".format(node1.name, node2.name),
-- 
2.43.0


From 0aba7ea9de0c27d2eda8e4e451bd43b6223e61fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:52 +0000
Subject: [PATCH 45/96] fix: options of the distributed methods can be created
 (no shared mutable default)

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From 2086621fb05485558ebcc9e40788038d6917fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:04 +0000
Subject: [PATCH 46/96] fix: default blocks hold every node and no two
 connected nodes

---
 .../methods/network/distributedaugmetedlagrangian.py  | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..0a2ab30 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -13,7 +13,6 @@ from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
-import networkx.algorithms.coloring
 from casadi import DM, SX, inf, inv, vertcat
 from erised import Proxy
 
@@ -85,15 +84,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         if blocks is not None:
             self.blocks = blocks
         else:
-            coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
-                self.network.graph
-            )
-            self.blocks = {
-                group_number: [node for node, _ in group]
-                for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
-                )
-            }
+            self.blocks = dict(enumerate(self.network.get_map_coloring_groups()))
 
         self.nodes_proxies: Dict[Node, Proxy] = {}
 
-- 
2.43.0


From c92bbcc43bac2699e637c0e8daf10813d13a6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:04 +0000
Subject: [PATCH 47/96] fix: distributed methods bind every node, whatever its
 id

---
 yaocptool/methods/network/bipartite_jacobi_admm.py         | 4 ++--
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..508e06e 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -19,10 +19,10 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
                 "alg_relax_ind": [],
                 "eq_relax_ind": [],
             }
-            for node in self.network
+            for node in self.network.nodes
         }
 
-        for node in self.network:
+        for node in self.network.nodes:
             for p in self.network.graph.pred[node]:
                 # bind `node` inputs (u)
                 connection = self.network.graph.edges[p, node]
diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 0a2ab30..5baa8e4 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -99,10 +99,10 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                 "alg_relax_ind": [],
                 "eq_relax_ind": [],
             }
-            for node in self.network
+            for node in self.network.nodes
         }
 
-        for node in self.network:
+        for node in self.network.nodes:
             for p in self.network.graph.pred[node]:
                 # bind `node` inputs (u)
                 connection = self.network.graph.edges[p, node]
-- 
2.43.0


From d8b5cddc184d4fd3dededaea21cb3abb2c928754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:04 +0000
Subject: [PATCH 48/96] fix: distributed solution of a block uses the results
 of the previous blocks

---
 .../methods/network/distributedaugmetedlagrangian.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 5baa8e4..f6a6c9c 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -334,13 +334,11 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             }
             block_results = {node: future.result() for node, future in futures.items()}
 
-            result_dict.update(
-                {
-                    node: result
-                    for node, result in block_results.items()
-                    if result.success
-                }
-            )
+            successful_results = {
+                node: result for node, result in block_results.items() if result.success
+            }
+            result_dict.update(successful_results)
+            self._last_result.update(successful_results)
 
         return result_dict
 
-- 
2.43.0


From 337175ba0f08d86ef03340518aaea7d9a4598084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:04 +0000
Subject: [PATCH 49/96] fix: BipartiteJacobiADMM pairs the signals of a vector
 connection

---
 .../methods/network/bipartite_jacobi_admm.py  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 508e06e..9dded1a 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
-from typing import Dict
+from typing import Dict, Tuple
 
-from casadi import DM, vertcat
+from casadi import DM, SX, vertcat
 
 from yaocptool.methods.network.distributedaugmetedlagrangian import (
     DistributedAugmentedLagrangian,
@@ -31,10 +31,10 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
                 u = connection["u"]
 
                 # create an approximation
-                y_appr, y_appr_par = self._create_variable_approx(
+                y_appr, y_appr_par = self._create_signal_approx(
                     y, node.problem.model.tau
                 )
-                u_appr, u_appr_par = self._create_variable_approx(
+                u_appr, u_appr_par = self._create_signal_approx(
                     u, node.problem.model.tau
                 )
 
@@ -60,10 +60,10 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
                 y = connection["y"]
                 u = connection["u"]
 
-                u_appr, u_appr_par = self._create_variable_approx(
+                u_appr, u_appr_par = self._create_signal_approx(
                     u, node.problem.model.tau
                 )
-                y_appr, y_appr_par = self._create_variable_approx(
+                y_appr, y_appr_par = self._create_signal_approx(
                     y, node.problem.model.tau
                 )
 
@@ -80,6 +80,16 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
                 node.problem.include_theta(u_appr_par)
                 node.problem.include_theta(y_appr_par)
 
+    def _create_signal_approx(self, var: SX, tau: SX) -> Tuple[SX, SX]:
+        """
+        Approximate each element of `var` with its own parameters, ordered as in
+        `_get_node_theta`
+        """
+        approx, parameters = zip(
+            *[self._create_variable_approx(element, tau) for element in var.nz]
+        )
+        return vertcat(*approx), vertcat(*parameters)
+
     def _get_node_theta(self, node: Node) -> Dict[int, DM]:
         data: Dict[int, DM] = defaultdict(DM)
         for p in self.network.graph.pred[node]:
-- 
2.43.0


From 93aafc69c8d2e1927facbdabe0b2afdde6ac85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:48 +0000
Subject: [PATCH 50/96] fix: intermediary nodes use their updated multipliers

---
 .../network/intermediary_node_solution_method.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..7b2b86f 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -8,6 +8,7 @@ from casadi.casadi import (
     horzcat,
     horzsplit,
     mmax,
+    vec,
     vertcat,
     vertsplit,
 )
@@ -129,7 +130,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vec(vertcat(nu_p1_c_next_el, nu_c_p2_next_el).T)
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -144,13 +145,16 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
                 and any((errors > 0).nz)
                 and self.last_violation_error is not None
             ):
+                self.nu_tilde = {el: DM(nu) for el, nu in self.nu_tilde.items()}
                 for ind, (error, last_error) in enumerate(
                     zip(errors.nz, self.last_violation_error.nz)
                 ):
                     if (error - last_error) < 0:
-                        self.last_violation_error[ind] = error
+                        rows = slice(
+                            ind * self.options.degree, (ind + 1) * self.options.degree
+                        )
                         for el in self.nu_tilde:
-                            self.nu_tilde[el][ind] = nu_tilde[el][ind]
+                            self.nu_tilde[el][rows] = nu_tilde[el][rows]
                     else:
                         print("Error is greater than zero")
             else:
@@ -158,6 +162,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-- 
2.43.0


From f9b249cdb991d6a06e1e068a2bfef87bc7e1f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:48 +0000
Subject: [PATCH 51/96] fix: intermediary nodes carry every signal of their
 connection

---
 .../intermediary_node_solution_method.py      | 80 ++++++-------------
 1 file changed, 25 insertions(+), 55 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 7b2b86f..28aeef3 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -38,22 +38,8 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
     def _create_nu_update_func(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
 
-        vectorize = lambda var: horzcat(
-            *[horzcat(*var[el]) for el in range(self.options.finite_elements)]
-        )
-
-        u_c = vectorize(
-            [
-                [MX.sym(f"u_c_{el}_{deg}") for deg in range(self.options.degree)]
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_c = vectorize(
-            [
-                [MX.sym(f"y_c_{el}_{deg}") for deg in range(self.options.degree)]
-                for el in range(self.options.finite_elements)
-            ]
-        )
+        u_c = MX.sym("u_c", *y_p1.shape)
+        y_c = MX.sym("y_c", *y_p1.shape)
 
         nu_p1_c_next = nu_p1_c + mu_k * (u_c - y_p1)
         nu_c_p2_next = nu_c_p2 + mu_k * (u_p2 - y_c)
@@ -70,34 +56,30 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
     def _get_symb_variables(self):
         mu_k = MX.sym("mu_k")
 
-        y_p1 = [
-            [MX.sym("y_p1_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
-        u_p2 = [
-            [MX.sym("u_p2_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
+        # one row for each signal of the connection, one column for each point in time
+        shape = (
+            self._n_signals,
+            self.options.finite_elements * self.options.degree,
+        )
+        y_p1 = MX.sym("y_p1", *shape)
+        u_p2 = MX.sym("u_p2", *shape)
+        nu_p1_c = MX.sym("nu_p1", *shape)
+        nu_c_p2 = MX.sym("nu_p2", *shape)
+        return mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2
 
-        nu_p1_c = [
-            [MX.sym("nu_p1_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
-        nu_c_p2 = [
-            [MX.sym("nu_p2_{el}_{deg}") for deg in range(self.options.degree)]
-            for el in range(self.options.finite_elements)
-        ]
+    @property
+    def _n_signals(self) -> int:
+        # each signal is relaxed on both sides of the node
+        return self.n_relax // 2
 
-        vectorize = lambda var: horzcat(
-            *[horzcat(*var[el]) for el in range(self.options.finite_elements)]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (
-            vectorize(y_p1),
-            vectorize(u_p2),
-            vectorize(nu_p1_c),
-            vectorize(nu_c_p2),
+    def _split_theta(self, theta: Dict[int, DM], ind: int) -> DM:
+        signals = slice(ind * self._n_signals, (ind + 1) * self._n_signals)
+        return horzcat(
+            *[
+                horzcat(*vertsplit(theta[el], self.options.degree)[signals]).T
+                for el in range(self.options.finite_elements)
+            ]
         )
-        return mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2
 
     def _compute_new_nu_and_error(
         self,
@@ -113,13 +95,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         if self.options.debug_skip_compute_nu_and_error:
             return errors
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = (self._split_theta(theta, i) for i in range(4))
         u_c = raw_solution_dict["x"]
         y_c = u_c
 
@@ -168,13 +144,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta_k[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = (self._split_theta(theta_k, i) for i in range(4))
 
         u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
-- 
2.43.0


From d6fab1c15f9a634916d70023456ba8ebe03cf326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:11 +0000
Subject: [PATCH 52/96] fix: intermediary nodes weigh each side with its own
 penalty

---
 .../intermediary_node_solution_method.py      | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 28aeef3..8c7694b 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -1,4 +1,4 @@
-from typing import Dict
+from typing import Dict, Tuple
 
 from casadi.casadi import (
     DM,
@@ -8,6 +8,7 @@ from casadi.casadi import (
     horzcat,
     horzsplit,
     mmax,
+    repmat,
     vec,
     vertcat,
     vertsplit,
@@ -31,7 +32,10 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
     def _create_solve_function(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
-        u_c = (nu_c_p2 - nu_p1_c) / (2 * mu_k) + (y_p1 + u_p2) / 2
+        mu_p1_c, mu_c_p2 = self._split_mu(mu_k)
+        u_c = (nu_c_p2 - nu_p1_c + mu_p1_c * y_p1 + mu_c_p2 * u_p2) / (
+            mu_p1_c + mu_c_p2
+        )
 
         return Function("f_u_c", [mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2], [u_c])
 
@@ -41,8 +45,9 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         u_c = MX.sym("u_c", *y_p1.shape)
         y_c = MX.sym("y_c", *y_p1.shape)
 
-        nu_p1_c_next = nu_p1_c + mu_k * (u_c - y_p1)
-        nu_c_p2_next = nu_c_p2 + mu_k * (u_p2 - y_c)
+        mu_p1_c, mu_c_p2 = self._split_mu(mu_k)
+        nu_p1_c_next = nu_p1_c + mu_p1_c * (u_c - y_p1)
+        nu_c_p2_next = nu_c_p2 + mu_c_p2 * (u_p2 - y_c)
 
         algebraic_error = u_c - y_p1
         equality_error = u_p2 - y_c
@@ -54,7 +59,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         )
 
     def _get_symb_variables(self):
-        mu_k = MX.sym("mu_k")
+        mu_k = MX.sym("mu_k", self.n_relax)
 
         # one row for each signal of the connection, one column for each point in time
         shape = (
@@ -72,6 +77,11 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         # each signal is relaxed on both sides of the node
         return self.n_relax // 2
 
+    def _split_mu(self, mu: MX) -> Tuple[MX, MX]:
+        n_points = self.options.finite_elements * self.options.degree
+        mu_p1_c, mu_c_p2 = vertsplit(repmat(mu, 1, n_points), self._n_signals)
+        return mu_p1_c, mu_c_p2
+
     def _split_theta(self, theta: Dict[int, DM], ind: int) -> DM:
         signals = slice(ind * self._n_signals, (ind + 1) * self._n_signals)
         return horzcat(
@@ -100,7 +110,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         y_c = u_c
 
         (nu_p1_c_next, nu_c_p2_next, rel_alg, rel_eq) = self.new_nu_func(
-            p[0], y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
+            p[-self.n_relax :], y_p1, u_p2, nu_p1_c, nu_c_p2, u_c, y_c
         )
 
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
@@ -146,7 +156,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
         y_p1, u_p2, nu_p1_c, nu_c_p2 = (self._split_theta(theta_k, i) for i in range(4))
 
-        u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
+        u_c = self.u_c_function(p_k[-self.n_relax :], y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
 
         return self.create_optimization_result(raw_solution_dict, p_k, theta_k)
-- 
2.43.0


From e7a392a41f67c77388b50606e8968904a07b0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:14 +0000
Subject: [PATCH 53/96] fix: distributed methods work when a single node or
 error is left

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index f6a6c9c..dcc89b1 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -440,7 +440,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                     # error
                     node_error_last = node_error.copy()
                     max_error = max(
-                        *itertools.chain(*(val.nz for val in node_error.values()))
+                        itertools.chain(*(val.nz for val in node_error.values()))
                     )
                     if max_error < self.options.abs_tol:
                         LOGGER.info(
@@ -484,8 +484,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         return self._update_parameters_serial(result_dict)
 
     def _compute_primal_dual_mu(self, mu: DM, r_k_list: List[DM], s_k_list: List[DM]):
-        r_k_1 = max(*r_k_list)
-        s_k_1 = max(*s_k_list)
+        r_k_1 = max(r_k_list)
+        s_k_1 = max(s_k_list)
         LOGGER.info(f"Primal: {r_k_1}, Dual: {s_k_1}")
 
         if r_k_1 > self.options.al_options.gamma * s_k_1:
-- 
2.43.0


From 6aa369362a3636c51c99afe1458a8372646055a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 54/96] fix: the first measurement of a plant uses c_matrix

The measurement available before the first control was the whole initial
state, instead of c_matrix * [x; y] as all the following ones.
---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..515e832 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -101,6 +101,7 @@ class PlantSimulation(PlantInterface):
         self._initialize_dataset()
 
         meas_data = self._measure(self.x, self.y_guess)
+        self.measurement = meas_data["measurement"]
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
-- 
2.43.0


From 758475d9c2bad28111279e8e34280e20bb73e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 55/96] fix: a control set after a control function is applied

set_control was ignored once a control function had been given to the plant.
---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 515e832..7f765b4 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -147,6 +147,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From 06de33035d414e74c56a51e13973531ad1112c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 56/96] fix: plants accept a scalar guess or none for the
 algebraics

The annotated type (float) was refused, and there was no guess that
models without algebraic variables could give other than a 0x1 matrix.
---
 yaocptool/mpc/plant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 7f765b4..42a561a 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -66,7 +66,9 @@ class PlantSimulation(PlantInterface):
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
-        self.y_guess = y_guess
+        self.y_guess = (
+            vertcat(y_guess) if y_guess is not None else DM.zeros(self.model.n_y, 1)
+        )
         self.u_function = u_function
 
         self.c_matrix = (
-- 
2.43.0


From 713b1394c95d04278f538fcec779ed10b3bd5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 57/96] fix: size the measurement entries of the plant by its
 measurements

---
 yaocptool/mpc/plant.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 42a561a..47f3473 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -241,11 +241,11 @@ class PlantSimulation(PlantInterface):
 
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_wo_noise_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            self.c_matrix.shape[0],
+            ["meas_" + str(i) for i in range(self.c_matrix.shape[0])],
         )
-- 
2.43.0


From 85dfd2663b608e83184ad4110e281506f42bfcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 58/96] fix: remove the debugger breakpoint left in the MPC
 loop

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From 098c192cffbaf0fd29ef2f0c34cb3386bacb71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 59/96] fix: the MPC control function has the degree of the
 control

The parameters of the control have degree_control points, not degree.
---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..36890a7 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -148,7 +148,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
-- 
2.43.0


From 9e398cd9834cde53c98b84e9ff0594c5ac23d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 60/96] fix: MPC.run(0) runs indefinitely, as documented

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 36890a7..f5e3eaf 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -241,7 +241,7 @@ class MPC:
             # FIXME: Trying with function
             self.send_control(new_u)  # this advances the simulation
 
-            if k >= iterations - 1:
+            if 0 < iterations <= k + 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From 1ba6e8865c69669e63f6db3a0a8e0272200d78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 61/96] fix: running the plant with a fixed control applies
 that control

It applied the last solution's control (and failed when there was none).
---
 yaocptool/mpc/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index f5e3eaf..3e6a0b6 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -267,7 +267,7 @@ class MPC:
             if self.verbosity:
                 print("Measurement: {}".format(y_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.plant.set_control(u)  # this advances the simulation
 
     def run_fixed_control_with_estimator(self, u, iterations):
         """
@@ -295,7 +295,7 @@ class MPC:
                 print("Measurement: {}".format(y_k))
                 print("Estimated state: {}".format(x_k))
 
-            self.send_control(u)  # this advances the simulation
+            self.plant.set_control(u)  # this advances the simulation
 
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
-- 
2.43.0


From f2aca9e649b0ea13187ae7364bb762efaec28f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:43 +0000
Subject: [PATCH 62/96] fix: the MPC passes its theta to the solution method

---
 yaocptool/mpc/mpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 3e6a0b6..e452c6a 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -132,7 +132,11 @@ class MPC:
         #          initial_guess_dict = initial_guess_dict[0]
 
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k,
+            initial_guess=self.initial_guess,
+            p=p,
+            theta=self.theta,
+            last_u=u_k,
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From 2918d48596f164aec4c738fc80e194180e6af90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:22 +0000
Subject: [PATCH 63/96] fix: the MPC works with the multiple-shooting scheme

The guess of the next iteration is shifted with methods that only the
collocation scheme has; start from the last solution otherwise.
---
 yaocptool/mpc/mpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index e452c6a..92d5e78 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -303,6 +303,8 @@ class MPC:
 
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
+        if not isinstance(collocation_scheme, CollocationScheme):
+            return decision_variables
 
         perturbation_percentage = 0.0
         decision_variables *= 1 + perturbation_percentage * (
-- 
2.43.0


From db27c41f7b439b29bab6b281215279fc93e0f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:55 +0000
Subject: [PATCH 64/96] fix: the ideal estimator returns a covariance matrix

It returned a vector with the shape of the mean, so that an MPC mapping
covariance entries to parameters failed.
---
 yaocptool/estimation/ideal_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/ideal_estimator.py b/yaocptool/estimation/ideal_estimator.py
index 2020907..be2e8ad 100644
--- a/yaocptool/estimation/ideal_estimator.py
+++ b/yaocptool/estimation/ideal_estimator.py
@@ -19,6 +19,6 @@ class IdealEstimator(EstimatorAbstract):
         """
 
         x_k = y_k[: self.n_x]
-        cov_x_k = DM.zeros(x_k.shape)
+        cov_x_k = DM.zeros(self.n_x, self.n_x)
 
         return x_k, cov_x_k
-- 
2.43.0


From ae72964e7c70d671e37fe813a9b35575f056e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:25 +0000
Subject: [PATCH 65/96] fix: the MPC works with a horizon of a single element

---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 92d5e78..5a5f98f 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -303,7 +303,10 @@ class MPC:
 
     def step(self, decision_variables):
         collocation_scheme: CollocationScheme = self.solution_method.discretizer  # type: ignore
-        if not isinstance(collocation_scheme, CollocationScheme):
+        if (
+            not isinstance(collocation_scheme, CollocationScheme)
+            or collocation_scheme.finite_elements < 2
+        ):
             return decision_variables
 
         perturbation_percentage = 0.0
-- 
2.43.0


From 152333d78e61d3206f83d5be0ac991bde5384e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:15 +0000
Subject: [PATCH 66/96] fix: every pickled message has its own CasADi stream

The serializer and deserializer were shared by the whole process, so that
messages not loaded exactly once and right after being dumped crashed.
---
 yaocptool/util/serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yaocptool/util/serializer.py b/yaocptool/util/serializer.py
index e1475e5..5eb7250 100644
--- a/yaocptool/util/serializer.py
+++ b/yaocptool/util/serializer.py
@@ -21,15 +21,14 @@ class NewForkingPickler(mp.reduction.ForkingPickler):
 
 
 class CasadiPicklerDepickler:
-    serializer = StringSerializer()
-    deserializer = StringDeserializer(serializer.encode())
-
     def __init__(self):
         #  print("creating pickler/depickler", os.getpid())
-        self.__class__.serializer = StringSerializer()
-        self.__class__.deserializer = StringDeserializer(
-            self.__class__.serializer.encode()
-        )
+        self.serializer = StringSerializer()
+        self.deserializer = StringDeserializer(self.serializer.encode())
+
+    def __reduce__(self):
+        # each unpickled message gets its own stream
+        return self.__class__, ()
 
     def dumps(self, var: Union[SX, MX]) -> str:
         #  print(os.getpid(), id(self.serializer), "starting to dump", repr(var))
-- 
2.43.0


From 03a52c0e4258a8cf9a396b3ec92c1b0ad12f20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:56 +0000
Subject: [PATCH 67/96] fix: a timeout that did not expire says so

'timedout' stayed None when the block ended in time without an exception.
---
 yaocptool/util/timeout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 7bd3de6..2812e27 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -35,6 +35,8 @@ class timeout:
     ):
         signal.alarm(0)
         if exc_type is None:
+            if self._timedout is None:
+                self._timedout = False
             return True
 
         max_depth = 20
-- 
2.43.0


From 0587175130478e7f03d16c3c8d12143a4411ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:56 +0000
Subject: [PATCH 68/96] fix: timeout leaves the block's own TimeoutError alone

A TimeoutError raised by the block before the time limit was reported as
its expiration, and swallowed with raise_exc=False.
---
 yaocptool/util/timeout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 2812e27..09ee53e 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -46,7 +46,7 @@ class timeout:
                 break
             cause = cause.__cause__
 
-        if type(cause) is not TimeoutError:
+        if not self._timedout or type(cause) is not TimeoutError:
             self._timedout = False
             return
 
-- 
2.43.0


From ec9f9a7df471dfd5566e058c53233edac12c2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:56 +0000
Subject: [PATCH 69/96] fix: timeout restores the alarm and handler it replaced

After a nested timeout the outer one never expired, and a later alarm
was handled by a block that had already ended.
---
 yaocptool/util/timeout.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 09ee53e..862b0c9 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -1,4 +1,5 @@
 import signal
+import time
 from types import TracebackType
 from typing import Type
 
@@ -23,8 +24,9 @@ class timeout:
         raise TimeoutError(self.error_message)
 
     def __enter__(self):
-        signal.signal(signal.SIGALRM, self.handle_timeout)
-        signal.alarm(self.seconds)
+        self._previous_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
+        self._start = time.monotonic()
+        self._previous_alarm = signal.alarm(self.seconds)
         return self
 
     def __exit__(
@@ -34,6 +36,11 @@ class timeout:
         traceback: TracebackType,
     ):
         signal.alarm(0)
+        signal.signal(signal.SIGALRM, self._previous_handler or signal.SIG_DFL)
+        if self._previous_alarm > 0:
+            elapsed = int(time.monotonic() - self._start)
+            signal.alarm(max(self._previous_alarm - elapsed, 1))
+
         if exc_type is None:
             if self._timedout is None:
                 self._timedout = False
-- 
2.43.0


From d929f413eec512513b2f6b14d5f47bd8f1795a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:48 +0000
Subject: [PATCH 70/96] fix: a timeout used again forgets its previous
 expiration

---
 yaocptool/util/timeout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 862b0c9..d385da1 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -24,6 +24,7 @@ class timeout:
         raise TimeoutError(self.error_message)
 
     def __enter__(self):
+        self._timedout = None
         self._previous_handler = signal.signal(signal.SIGALRM, self.handle_timeout)
         self._start = time.monotonic()
         self._previous_alarm = signal.alarm(self.seconds)
-- 
2.43.0


From 4fb48acc6b412c4cd874b9bd9b0246a730f6f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:09 +0000
Subject: [PATCH 71/96] fix: the Kalman filters can be created again (model
 variables and dataset entries by their current names)

---
 .../estimation/extended_kalman_filter.py      | 85 ++++++++++---------
 yaocptool/estimation/pce_kalman_filter.py     | 25 +++---
 .../estimation/unscented_kalman_filter.py     | 59 +++++++------
 3 files changed, 89 insertions(+), 80 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..e15227d 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,37 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ekf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ekf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+        self.dataset.create_entry(
+            "meas", self.n_meas, ["ekf_meas_" + str(i) for i in range(self.n_meas)]
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +181,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +242,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +284,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..dac12dc 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,20 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["est_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..eecac58 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,37 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            self.model.n_x,
+            ["ukf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+        self.dataset.create_entry(
+            "y",
+            self.model.n_y,
+            ["ukf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+        self.dataset.create_entry(
+            "P",
+            self.model.n_x ** 2,
+            [
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+        self.dataset.create_entry(
+            "P_y",
+            self.model.n_y ** 2,
+            [
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+        self.dataset.create_entry(
+            "meas", self.n_meas, ["ukf_meas_" + str(i) for i in range(self.n_meas)]
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From fcfbcb92123db4da17db2f1438d7864bbd6f32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:58 +0000
Subject: [PATCH 72/96] fix: EKF and UKF store the covariance of any number of
 algebraic variables

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 +++-
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index e15227d..6e271ed 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -232,7 +232,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data(
+            "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
+        )
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index eecac58..e5c4fe3 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -251,7 +251,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From cf1e66595e8a678c660064a5c8f0edc8e41f547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:58 +0000
Subject: [PATCH 73/96] fix: EKF linearizes the model at the applied control

---
 yaocptool/estimation/extended_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 6e271ed..f763505 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -167,7 +167,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta, u_par=u_k
         )
         all_sym_values = all_sym_values
 
-- 
2.43.0


From 57eb2203a575e8e1878f3965ed2c13ab70e8eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:58 +0000
Subject: [PATCH 74/96] fix: the Kalman filters advance their time at each
 estimation

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index f763505..5be43d0 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -226,6 +226,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
         self.p_k = p_k[: self.model.n_x, : self.model.n_x]
+        self.t += self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index dac12dc..b2a9ac8 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -141,6 +141,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
         self.x_mean = x_hat_k
         self.p_k = p_k
+        self.t += self.t_s
 
         self.dataset.insert_data("x", t_k, self.x_mean)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index e5c4fe3..9e150d8 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -244,6 +244,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
         self.p_k = cov_x_aug[: self.model.n_x, : self.model.n_x]
+        self.t += self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-- 
2.43.0


From 69b88104dcf5215bedd20ad14794a94332b92ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:58 +0000
Subject: [PATCH 75/96] fix: UKF returns the estimate of the states, not of the
 states and algebraics

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 9e150d8..988877c 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -255,7 +255,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From 9b36bea06628e9d818048f9091d3d80303eaa7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:59 +0000
Subject: [PATCH 76/96] fix: PCE Kalman filter weights the coefficients when
 computing covariances, for any number of samples

---
 yaocptool/estimation/pce_kalman_filter.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index b2a9ac8..25edf75 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -67,7 +67,7 @@ class PCEKalmanFilter(EstimatorAbstract):
                 )
             )
 
-        self._ls_factor, _, _ = get_ls_factor(
+        self._ls_factor, self._exp_psi, _ = get_ls_factor(
             self.n_uncertain, self.n_samples, self.pc_order
         )
 
@@ -207,8 +207,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
                 p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
-                    + self.r_v[i, j]
+                    self._covariance_from_coefficients(a_x[i], a_x[j]) + self.r_v[i, j]
                 )
 
         # calculate the measurement for each sample
@@ -239,8 +238,8 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_yk_yk = DM.zeros(n_meas, n_meas)
         for i in range(n_meas):
             for j in range(n_meas):
-                p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                p_yk_yk[i, j] = self._covariance_from_coefficients(
+                    a_meas[i], a_meas[j]
                 )
         p_yk_yk = p_yk_yk + self.r_n
 
@@ -248,15 +247,17 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_xk_yk = DM.zeros(self.model.n_x, n_meas)
         for i in range(self.model.n_x):
             for j in range(n_meas):
-                p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
-                )
+                p_xk_yk[i, j] = self._covariance_from_coefficients(a_x[i], a_meas[j])
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
         k_gain = solve(p_yk_yk.T, p_xk_yk.T).T
 
         return x_hat_k_minus, p_k_minus, y_meas_hat_k_minus, p_yk_yk, k_gain
 
+    def _covariance_from_coefficients(self, a, b):
+        # The polynomials are orthogonal but not normalized: weight by E[psi**2]
+        return sum(a[k] * b[k] * self._exp_psi[k] for k in range(1, a.numel()))
+
     def _get_sampled_states(self, x_mean, x_cov):
         x_samples = sample_parameter_normal_distribution_with_sobol(
             x_mean, x_cov, self.n_samples
-- 
2.43.0


From d346c225d63ae79397db081bfde746ef380316e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:03 +0000
Subject: [PATCH 77/96] fix: EKF and UKF work for models with a single state
 and no algebraic variables

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 5be43d0..7911d71 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -206,7 +206,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -230,7 +230,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 988877c..823482d 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -224,7 +224,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -248,7 +248,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From 523e9f023355d2fc0054bb0087f7a412877c8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:04 +0000
Subject: [PATCH 78/96] fix: stochastic problems can be converted again (model
 variables and equations by their current names)

---
 yaocptool/modelling/stochastic_ocp.py |   6 +-
 yaocptool/stochastic/pce.py           | 137 +++++++++++++-------------
 2 files changed, 73 insertions(+), 70 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..41b5944 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -117,25 +117,25 @@ class PCEConverter:
         cost = self.socp.L
 
         original_vars = vertcat(
-            self.socp.model.x_sym,
-            self.socp.model.y_sym,
-            self.socp.model.u_sym,
-            self.socp.model.p_sym,
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
-            self.socp.model.x_0_sym,
+            self.socp.model.x,
+            self.socp.model.y,
+            self.socp.model.u,
+            self.socp.model.p,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
+            self.socp.model.x_0,
         )
 
         new_vars = vertcat(
-            model_s.x_sym,
-            model_s.y_sym,
-            model_s.u_sym,
-            model_s.p_sym,
-            model_s.theta_sym,
-            model_s.t_sym,
-            model_s.tau_sym,
-            model_s.x_0_sym,
+            model_s.x,
+            model_s.y,
+            model_s.u,
+            model_s.p,
+            model_s.theta,
+            model_s.t,
+            model_s.tau,
+            model_s.x_0,
         )
 
         cost = substitute(cost, original_vars, new_vars)
@@ -260,10 +260,10 @@ class PCEConverter:
         problem.name = self.socp.name + "_PCE"
 
         problem.p_opt = substitute(
-            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p_sym
+            self.socp.p_opt, self.socp.get_p_without_p_unc(), problem.model.p
         )
         problem.theta_opt = substitute(
-            self.socp.theta_opt, self.socp.model.theta_sym, problem.model.theta_sym
+            self.socp.theta_opt, self.socp.model.theta, problem.model.theta
         )
 
         problem.x_max = repmat(vertcat(self.socp.x_max, inf), self.n_samples)
@@ -282,35 +282,35 @@ class PCEConverter:
 
         problem.t_f = self.socp.t_f
 
-        if depends_on(self.socp.g_eq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_eq, self.socp.model.y_sym
+        if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
+            self.socp.g_eq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_eq" depends on "model.x_sym" or "model.y_sym" is not implemented '
+                'Case where "g_eq" depends on "model.x" or "model.y" is not implemented '
             )
 
-        if depends_on(self.socp.g_ineq, self.socp.model.x_sym) or depends_on(
-            self.socp.g_ineq, self.socp.model.y_sym
+        if depends_on(self.socp.g_ineq, self.socp.model.x) or depends_on(
+            self.socp.g_ineq, self.socp.model.y
         ):
             raise NotImplementedError(
-                'Case where "g_ineq" depends on "model.x_sym" '
-                'or "model.y_sym" is not implemented '
+                'Case where "g_ineq" depends on "model.x" '
+                'or "model.y" is not implemented '
             )
 
         original_vars = vertcat(
-            self.socp.model.u_sym,
+            self.socp.model.u,
             self.socp.get_p_without_p_unc(),
-            self.socp.model.theta_sym,
-            self.socp.model.t_sym,
-            self.socp.model.tau_sym,
+            self.socp.model.theta,
+            self.socp.model.t,
+            self.socp.model.tau,
         )
 
         new_vars = vertcat(
-            problem.model.u_sym,
-            problem.model.p_sym,
-            problem.model.theta_sym,
-            problem.model.t_sym,
-            problem.model.tau_sym,
+            problem.model.u,
+            problem.model.p,
+            problem.model.theta,
+            problem.model.t,
+            problem.model.tau,
         )
 
         if not self.socp.n_h_initial == self.socp.model.n_x:
@@ -329,7 +329,7 @@ class PCEConverter:
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-            x_ind_s = problem.model.x_0_sym[ind :: (self.socp.model.n_x + 1)]
+            x_ind_s = problem.model.x_0[ind :: (self.socp.model.n_x + 1)]
             problem.h_initial = substitute(
                 problem.h_initial,
                 x_ind_s,
@@ -373,16 +373,16 @@ class PCEConverter:
         sampled_parameters_p_unc = sampled_parameters[: self.socp.n_p_unc, :]
         model = SystemModel(name=self.socp.model.name + "_PCE")
 
-        model.include_control(self.socp.model.u_sym)
+        model.include_control(self.socp.model.u)
         model.include_parameter(self.socp.get_p_without_p_unc())
-        model.include_theta(self.socp.model.theta_sym)
+        model.include_theta(self.socp.model.theta)
 
-        u_global = model.u_sym
-        p_global = model.p_sym
-        theta_global = model.theta_sym
+        u_global = model.u
+        p_global = model.p
+        theta_global = model.theta
 
-        t_global = model.t_sym
-        tau_global = model.tau_sym
+        t_global = model.t
+        tau_global = model.tau
 
         cost_list = []
         for s in range(self.n_samples):
@@ -391,23 +391,26 @@ class PCEConverter:
             # cost of sample
             cost_ode = self._create_cost_ode_of_sample(model_s)
             cost_s = model_s.create_state("cost_" + str(s))
-            model_s.include_system_equations(ode=cost_ode)
+            model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p_sym.get(False, self.socp.get_p_unc_indices())
+            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
 
             model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
             model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
-            model_s.replace_variable(model_s.u_sym, u_global)
-            model_s.replace_variable(model_s.p_sym, p_global)
-            model_s.replace_variable(model_s.theta_sym, theta_global)
-            model_s.remove_control(model_s.u_sym)
-            model_s.remove_parameter(model_s.p_sym)
-            model_s.remove_theta(model_s.theta_sym)
-            model_s.t_sym = t_global
-            model_s.tau_sym = tau_global
+            model_s.replace_variable(model_s.u, u_global)
+            model_s.replace_variable(model_s.p, p_global)
+            model_s.replace_variable(model_s.theta, theta_global)
+            if model_s.n_u > 0:
+                model_s.remove_control(model_s.u)
+            if model_s.n_p > 0:
+                model_s.remove_parameter(model_s.p)
+            if model_s.n_theta > 0:
+                model_s.remove_theta(model_s.theta)
+            model_s.t = t_global
+            model_s.tau = tau_global
 
             # merge the sample model in the unique model
             model.merge(model_s)
@@ -428,34 +431,34 @@ class PCEConverter:
         """
         expr_list = []
         for s in range(self.n_samples):
-            x_s = model.x_sym[
+            x_s = model.x[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            x_0_s = model.x_0_sym[
+            x_0_s = model.x_0[
                 s * (self.socp.model.n_x + 1) : (s + 1) * (self.socp.model.n_x + 1)
             ][: self.socp.model.n_x]
-            y_s = model.y_sym[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
+            y_s = model.y[s * self.socp.model.n_y : (s + 1) * self.socp.model.n_y]
 
             original_vars = vertcat(
-                self.socp.model.x_sym,
-                self.socp.model.y_sym,
-                self.socp.model.u_sym,
+                self.socp.model.x,
+                self.socp.model.y,
+                self.socp.model.u,
                 self.socp.get_p_without_p_unc(),
-                self.socp.model.theta_sym,
-                self.socp.model.t_sym,
-                self.socp.model.tau_sym,
-                self.socp.model.x_0_sym,
+                self.socp.model.theta,
+                self.socp.model.t,
+                self.socp.model.tau,
+                self.socp.model.x_0,
                 self.socp.p_unc,
             )
 
             new_vars = vertcat(
                 x_s,
                 y_s,
-                model.u_sym,
-                model.p_sym,
-                model.theta_sym,
-                model.t_sym,
-                model.tau_sym,
+                model.u,
+                model.p,
+                model.theta,
+                model.t,
+                model.tau,
                 x_0_s,
                 self.sampled_parameters[:, s],
             )
-- 
2.43.0


From 23555400f5fe28b5e7322c446b0466fb0dbf72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:07 +0000
Subject: [PATCH 79/96] fix: coefficient of the tenth Hermite polynomial

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 41b5944..b13540f 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -496,7 +496,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From 3b1d1f2908016ad2e17850f962cb4b416e36e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 80/96] fix: converting a stochastic problem leaves its
 constraints alone

---
 yaocptool/stochastic/pce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index b13540f..442ece3 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -324,8 +324,8 @@ class PCEConverter:
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
-        problem.time_g_eq = self.socp.time_g_eq
-        problem.time_g_ineq = self.socp.time_g_ineq
+        problem.time_g_eq = list(self.socp.time_g_eq)
+        problem.time_g_ineq = list(self.socp.time_g_ineq)
 
         for i in range(self.socp.n_uncertain_initial_condition):
             ind = self.socp.get_uncertain_initial_cond_indices()[i]
-- 
2.43.0


From 88963470ff918477b75b63627ea9d73f418bdea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 81/96] fix: the converted problem starts at the initial time
 of the stochastic problem

---
 yaocptool/stochastic/pce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 442ece3..e30fb06 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -280,6 +280,7 @@ class PCEConverter:
         problem.p_opt_min = self.socp.p_opt_min
         problem.theta_opt_min = self.socp.theta_opt_min
 
+        problem.t_0 = self.socp.t_0
         problem.t_f = self.socp.t_f
 
         if depends_on(self.socp.g_eq, self.socp.model.x) or depends_on(
-- 
2.43.0


From 4049e8c09898fcb774779534e582ef625dc31dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 82/96] fix: the converted problem keeps positive_objective

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index e30fb06..9d0c4dc 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -362,7 +362,7 @@ class PCEConverter:
         )
 
         problem.parametrized_control = self.socp.parametrized_control
-        problem.positive_objective = self.socp.parametrized_control
+        problem.positive_objective = self.socp.positive_objective
         problem.NULL_OBJ = self.socp.NULL_OBJ
 
         if not is_equal(self.socp.S, 0) or not is_equal(self.socp.V, 0):
-- 
2.43.0


From 52a821b540e0b9d67ea17afdff0f83f55ab2d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 83/96] fix: the converted problem keeps the additional initial
 conditions

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 9d0c4dc..d33801d 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -318,7 +318,7 @@ class PCEConverter:
             problem.h_initial = vertcat(
                 problem.h_initial,
                 substitute(
-                    self.socp.h_initial[: self.socp.model.n_x], original_vars, new_vars
+                    self.socp.h_initial[self.socp.model.n_x :], original_vars, new_vars
                 ),
             )
         problem.h_final = substitute(self.socp.h_final, original_vars, new_vars)
-- 
2.43.0


From 61c86e44eea2ca390fa18688ba661969ebe89246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 84/96] fix: statistics of expressions with uncertain initial
 conditions

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index d33801d..6390ed3 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -461,7 +461,7 @@ class PCEConverter:
                 model.t,
                 model.tau,
                 x_0_s,
-                self.sampled_parameters[:, s],
+                self.sampled_parameters[: self.socp.n_p_unc, s],
             )
 
             new_exp = substitute(expr, original_vars, new_vars)
-- 
2.43.0


From a7650bb44a57f72811c85e24129fd5c0cc4f0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 85/96] fix: the converted problem keeps the time independent
 equalities

---
 yaocptool/stochastic/pce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 6390ed3..0f376fe 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -322,6 +322,7 @@ class PCEConverter:
                 ),
             )
         problem.h_final = substitute(self.socp.h_final, original_vars, new_vars)
+        problem.h = substitute(self.socp.h, original_vars, new_vars)
 
         problem.g_eq = substitute(self.socp.g_eq, original_vars, new_vars)
         problem.g_ineq = substitute(self.socp.g_ineq, original_vars, new_vars)
-- 
2.43.0


From 50a7381472eecf771edc98dcfdc58ef2df186386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 86/96] fix: chance constraints check the number of
 probabilities

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From c304273e9dc782577cdb2412c584c659729a55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:07 +0000
Subject: [PATCH 87/96] fix: no initial condition is made up when converting a
 problem without one

---
 yaocptool/stochastic/pce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 0f376fe..fa2b588 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -358,8 +358,8 @@ class PCEConverter:
         problem.u_guess = self.socp.u_guess
         problem.x_0 = (
             repmat(vertcat(self.socp.x_0, 0), self.n_samples)
-            if self.socp.x_0 is not None
-            else None
+            if self.socp.x_0 is not None and self.socp.x_0.numel() > 0
+            else self.socp.x_0
         )
 
         problem.parametrized_control = self.socp.parametrized_control
-- 
2.43.0


From 0a6f52df8db398b46a93d2e51bf91c8fe9384e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:17 +0000
Subject: [PATCH 88/96] fix: problems whose only uncertainty is in the initial
 conditions can be converted

---
 yaocptool/stochastic/pce.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index fa2b588..b4f4a4f 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -396,10 +396,11 @@ class PCEConverter:
             model_s.include_equations(ode=cost_ode, x=cost_s)
 
             # replace the parameter variable with the sampled variable
-            p_unc_s = model_s.p.get(False, self.socp.get_p_unc_indices())
+            if self.socp.n_p_unc > 0:
+                p_unc_s = model_s.p[self.socp.get_p_unc_indices()]
 
-            model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
-            model_s.remove_parameter(p_unc_s)
+                model_s.replace_variable(p_unc_s, sampled_parameters_p_unc[:, s])
+                model_s.remove_parameter(p_unc_s)
 
             # replace the model variables with the global variables
             model_s.replace_variable(model_s.u, u_global)
-- 
2.43.0


From 4ce2cc65185912711eee7b8b1811ae0d30dadacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:28 +0000
Subject: [PATCH 89/96] fix: is_valid looks at the objective the result has

---
 yaocptool/methods/base/optimizationresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/optimizationresult.py b/yaocptool/methods/base/optimizationresult.py
index 065092b..b67b51a 100644
--- a/yaocptool/methods/base/optimizationresult.py
+++ b/yaocptool/methods/base/optimizationresult.py
@@ -86,7 +86,7 @@ class OptimizationResult:
                     self.__class__.__name__, "time_breakpoints"
                 )
             )
-        for attr in ["objective"]:
+        for attr in ["objective_opt_problem"]:
             if getattr(self, attr) is None:
                 raise Exception(
                     "{} attribute {} is None".format(self.__class__.__name__, attr)
-- 
2.43.0


From 54b1edac37836d11b8e745ad493ea2be245021d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:36 +0000
Subject: [PATCH 90/96] fix: samples of time dependent models follow the time
 of the converted problem

---
 yaocptool/stochastic/pce.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index b4f4a4f..76e67bf 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -412,6 +412,8 @@ class PCEConverter:
                 model_s.remove_parameter(model_s.p)
             if model_s.n_theta > 0:
                 model_s.remove_theta(model_s.theta)
+            model_s.replace_variable(model_s.t, t_global)
+            model_s.replace_variable(model_s.tau, tau_global)
             model_s.t = t_global
             model_s.tau = tau_global
 
-- 
2.43.0


From 1013c87e8fa7f8e54c555d8433c54755781af415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:49 +0000
Subject: [PATCH 91/96] fix: equations that are structurally zero stay with
 their state

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index dbf4a9f..9a4a800 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -155,7 +155,7 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From 2dd9cd24efb5fb668a59f9da68a5a4eb3257a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:49 +0000
Subject: [PATCH 92/96] fix: positions in a vector count its structural zeros

---
 yaocptool/util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 9841961..f0bc77e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -10,6 +10,7 @@ from casadi import (
     OP_LT,
     SX,
     collocation_points,
+    densify,
     integrator,
     is_equal,
     mtimes,
@@ -39,7 +40,7 @@ def find_variables_indices_in_vector(
     """
     indices: List[int] = []
     for v in var.nz:
-        for ind_vector, vector_var in enumerate(vector.nz):
+        for ind_vector, vector_var in enumerate(densify(vector).nz):
             if is_equal(vector_var, v, depth):
                 indices.append(ind_vector)
 
-- 
2.43.0


From 9f13c86be9ec424d857e01b1b7631a5a4340e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:09 +0000
Subject: [PATCH 93/96] fix: a replacement with structural zeros is accepted as
 any other

---
 yaocptool/modelling/ocp.py          | 2 ++
 yaocptool/modelling/system_model.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index e90e313..0ebf61f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -10,6 +10,7 @@ from typing import Dict, Iterable, List, Optional, Union
 from casadi import (
     DM,
     SX,
+    densify,
     dot,
     gradient,
     inf,
@@ -657,6 +658,7 @@ class OptimalControlProblem(object):
                     original.numel(), replacement.numel()
                 )
             )
+        replacement = densify(replacement)
         # if original.numel():
         self.L = substitute(self.L, original, replacement)
         self.V = substitute(self.V, original, replacement)
diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 1a57c02..773470b 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -12,6 +12,7 @@ from casadi import (
     DM,
     SX,
     Function,
+    densify,
     horzcat,
     jacobian,
     mtimes,
@@ -280,7 +281,7 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             describes which type of variable is being remove to it from the
             counters. Types: 'x', 'y', 'u', 'p', 'ignore'
         """
-        super().replace_variable(original, replacement)
+        super().replace_variable(original, densify(replacement))
 
     def get_variable_by_name(
         self, name: str = "", var_type: Optional[str] = None
-- 
2.43.0


From 67f5cc12fcfc73c66e439e0e575f9df507419d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:09 +0000
Subject: [PATCH 94/96] fix: bounds with structural zeros are compared element
 by element

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index d75f9d8..f4d7c35 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
+from casadi import DM, MX, Function, densify, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -158,7 +158,7 @@ class AbstractOptimizationProblem(object):
                 "lb={}, ub={}".format(lb, ub)
             )
 
-        for i, (lb_i, var_i, ub_i) in enumerate(zip(lb.nz, variable.nz, ub.nz)):
+        for i, (lb_i, var_i, ub_i) in enumerate(zip(densify(lb).nz, variable.nz, densify(ub).nz)):
             if lb_i > ub_i:
                 raise ValueError(
                     "Lower bound is greater than upper bound for index {}. "
-- 
2.43.0


From ffc9498fcea74b92d6dab7cce28efe38fba3f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 95/96] fix: merging a problem without algebraics or controls
 keeps the guesses and last control already given

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 0ebf61f..ee1da22 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -890,7 +890,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -901,7 +901,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -912,7 +912,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From 6de34f1412e54eadf55e856db51b8956d830572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:59 +0000
Subject: [PATCH 96/96] fix: the dual residual keeps the signals of nodes whose
 outputs have the same name apart

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index dcc89b1..8e5df21 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -227,7 +227,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
             indices = find_variables_indices_in_vector(y, p.problem.model.y)
 
             for ind in indices:
-                data["in"][p.problem.model.y[ind].name()] = {
+                # nodes may use the same variable names
+                data["in"][f"{p.node_id}:{p.problem.model.y[ind].name()}"] = {
                     "data": self._get_variable_last_result(p, "y", ind),
                     "block_number": block_number,
                 }
@@ -240,7 +241,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
 
             indices = find_variables_indices_in_vector(u, s.problem.model.u)
             for ind in indices:
-                data["out"][s.problem.model.u[ind].name()] = {
+                data["out"][f"{s.node_id}:{s.problem.model.u[ind].name()}"] = {
                     "data": self._get_variable_last_result(s, "u", ind),
                     "block_number": block_number,
                 }
-- 
2.43.0

